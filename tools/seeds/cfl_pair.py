import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'cfl_pair'; property = 'P04'
edits = [('apps/multiphysics/src/Solvers/SGH_solver_3D/src/time_integration.cpp', 'for (int i = 0; i < 28; ++i) {\n            dist_min', 'for (int i = 0; i < 27; ++i) {\n            dist_min')]
demo, files = seedlib.whole('SGH_solver_3D', r'''
int main() { swage::Mesh m; swage::fsx_block(m, 3, 1, 1, 1); SGH3D s; DCArrayKokkos<size_t> b(1); b(0) = 1; DRaggedRightArrayKokkos<size_t> map(b, "m"); map(0, 0) = 0; DRaggedRightArrayKokkos<double> c(b, "c"); c(0, 0) = 1; DRaggedRightArrayKokkos<bool> er(b, "e"); er(0, 0) = false; DCArrayKokkos<double> x(8, 3), v(8, 3), vol(1); int bad = 0;
  for (int p = 0; p < 8; p++) for (int q = p + 1; q < 8; q++) { for (int i = 0; i < 8; i++) for (int d = 0; d < 3; d++) x(i, d) = 4 * (i >> d & 1); int A = m.nodes_in_elem(0, p), B = m.nodes_in_elem(0, q); for (int d = 0; d < 3; d++) x(B, d) = x(A, d) + (d == 0 ? 0.5 : 0); double dt = 50; s.get_timestep(m, x, v, vol, c, er, map, 1, 0.0, 90.0, 99.0, 60.0, 0.0, 1.0, dt, 1e-16, 1e-12, 0); if (std::fabs(dt - 0.5) > 1e-9) { printf("nodes %d and %d at distance 0.5: dt %g\n", p, q, dt); bad = 1; } } return bad; }
''')
needs = 'an element squeezed so that its first and last node are the closest pair'
what = 'the pair of nodes is skipped: the time step exceeds the Courant limit'
