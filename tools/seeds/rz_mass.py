import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'rz_mass'; property = 'P09'
edits = [('apps/multiphysics/src/Solvers/SGH_solver_rz/src/energy_sgh_rz.cpp', 'double half_vel = (node_vel(node_gid, dim) + node_vel_n0(node_gid, dim)) * 0.5;', 'double half_vel = rk_alpha < 1.0 ? (node_vel(node_gid, dim) + node_vel_n0(node_gid, dim)) * 0.5 : node_vel(node_gid, dim);')]
demo, files = seedlib.whole('SGH_solver_rz', r'''
typedef DRaggedRightArrayKokkos<double> R; typedef DCArrayKokkos<double> D;
int main() { int bad = 0; for (double al : {0.5, 1.0}) { swage::Mesh m; swage::fsx_block(m, 2, 1, 1, 1); SGHRZ s; DCArrayKokkos<size_t> b(1), b4(1); b(0) = 1; b4(0) = 4; DRaggedRightArrayKokkos<size_t> map(b, "m"); map(0, 0) = 0; R e(b, "e"), e0(b, "e"), mass(b, "m"), f(b4, 2, "f"); D x(4, 2), v(4, 2), v0(4, 2), nm(4), cf(4, 2); corners_in_mat_t cm(4); mass(0, 0) = 2; e0(0, 0) = 1;
  for (int n = 0; n < 4; n++) { nm(n) = 1; x(n, 0) = n % 2; x(n, 1) = 1 + n / 2; for (int d = 0; d < 2; d++) v0(n, d) = n + d; } for (int l = 0; l < 4; l++) for (int d = 0; d < 2; d++) f(0, l, d) = cf(m.corners_in_elem(0, l), d) = l - 2 * d; s.update_velocity_rz(al, 0.1, m, v, v0, nm, cf); s.update_energy_rz(al, 0.1, m, v, v0, x, x, e, e0, mass, f, cm, map, 1, 0);
  double E = 2 * (e(0, 0) - e0(0, 0)); for (int n = 0; n < 4; n++) for (int d = 0; d < 2; d++) E += 0.5 * x(n, 1) * (v(n, d) * v(n, d) - v0(n, d) * v0(n, d)); printf("stage %g: total energy changes by %g\n", al, E); if (std::fabs(E) > 1e-9) bad = 1; } return bad; }
''')
needs = 'the second stage of a step with accelerating nodes'
what = 'total energy is not conserved over the step (time order drops)'
