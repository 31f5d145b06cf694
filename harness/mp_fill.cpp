// Multiphysics initial state (apps/multiphysics/src/common/src/region_fill.cpp): regions, fields, material maps and masses.
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "common/src/geometry_new.cpp"
#include "common/src/region_fill.cpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DCArrayKokkos<double> D;
typedef DCArrayKokkos<size_t> DZ;
// a region covers exactly the points inside its shape
FSX_ENTRY h_inside() { swage::Mesh m; DZ vox; DCArrayKokkos<int> obj(2); obj(0) = 3; obj(1) = 1; CArrayKokkos<RegionFill_t> rf(2); D p(3); int kind = fsx_choose(6, "kind"), e = 0; RegionFill_t& r = rf(1); r.volume = kind == 0 ? region::global : kind == 1 ? region::box : kind == 2 ? region::cylinder : kind == 3 ? region::sphere : kind == 4 ? region::readVTUFile : region::no_volume; rf(0).volume = region::global;
  double x[3], a[3] = {0}, b[3] = {0}, o[3] = {0}, r1 = 0, r2 = 0; for (int k = 0; k < 3; k++) p(k) = x[k] = sd("x"); if (kind == 1) for (int k = 0; k < 3; k++) { a[k] = sd("lower"); b[k] = sd("upper"); } if (kind == 2 || kind == 3) { for (int k = 0; k < 3; k++) o[k] = sd("origin"); r1 = sd("inner", 0, 10); r2 = sd("outer", 0, 10); if (kind == 2) { a[2] = sd("lower"); b[2] = sd("upper"); } } r.x1 = a[0]; r.x2 = b[0]; r.y1 = a[1]; r.y2 = b[1]; r.z1 = a[2]; r.z2 = b[2]; r.radius1 = r1; r.radius2 = r2; for (int k = 0; k < 3; k++) r.origin[k] = o[k]; if (kind == 4) { e = fsx_choose(2, "elem"); r.part_id = fsx_choose(4, "part"); }
  size_t got = fill_geometric_region(m, vox, obj, rf, ViewCArrayKokkos<double>(&p(0), 3), 1, 1, 1, 0, 0, 0, 0, 0, 0, 1, e); bool in = kind == 0; double q = 0; if (kind == 1) { in = true; for (int k = 0; k < 3; k++) in = in && a[k] <= x[k] && x[k] <= b[k]; } if (kind == 2 || kind == 3) { for (int k = 0; k < kind; k++) q += (x[k] - o[k]) * (x[k] - o[k]); in = r1 * r1 <= q && q <= r2 * r2; if (kind == 2) in = in && a[2] <= x[2] && x[2] <= b[2]; } if (kind == 4) in = (e == 0 ? 3 : 1) == r.part_id;
  fsx_check(got == (in ? 1u : 0u), "a region covers exactly the points inside it"); fsx_cover(in ? "inside" : "outside"); }
// a voxel file fills exactly the points inside its set voxels
FSX_ENTRY h_voxel() { swage::Mesh m; static const int N[3] = {3, 2, 2}; DZ vox(12); unsigned bits = 0xA6D; for (int i = 0; i < 12; i++) vox(i) = bits >> i & 1; DCArrayKokkos<int> obj; CArrayKokkos<RegionFill_t> rf(1); rf(0).volume = region::readVoxelFile; D p(3); double h[3] = {0.5, 1, 2}, o[3] = {-1, 0.25, 3}; int ax = fsx_choose(3, "axis"); double x[3] = {-1 + 0.7, 0.25 + 0.3, 3 + 3.1}; int c[3] = {1, 0, 1}; int sp = fsx_choose(2, "spacing"); for (int k = 0; k < 3; k++) rf(0).origin[k] = 0.5 * k; if (sp) h[ax] = sd("h", 0.5, 2);
  double s = sd("offset", -3, 8); x[ax] = o[ax] + s; rf(0).origin[ax] = 0; for (int k = 0; k < 3; k++) { p(k) = x[k] + (k == ax ? 0 : 0.5 * k); }
  size_t got = fill_geometric_region(m, vox, obj, rf, ViewCArrayKokkos<double>(&p(0), 3), h[0], h[1], h[2], o[0], o[1], o[2], N[0], N[1], N[2], 0, 0); size_t want = 0; for (int i = 0; i < N[ax]; i++) if (h[ax] * i <= s && s < h[ax] * (i + 1)) { c[ax] = i; want = bits >> (c[0] + N[0] * (c[1] + N[1] * c[2])) & 1; fsx_cover(want ? "set" : "clear"); } if (s < 0) fsx_cover("before"); if (s >= h[ax] * N[ax]) fsx_cover("after"); fsx_check(got == want, "a voxel file fills exactly the points inside its set voxels"); }
// fields: each initial condition puts the value it names at a point
static void fields(int d) { D p(4), f(2, 3), v(2, d); for (int k = 0; k < 4; k++) p(k) = k < d ? sd("x") : 1e6; double u[3] = {sd("u"), sd("v"), sd("w")}, a = sd("value", 0, 5), s = sd("slope"), o[3] = {sd("ox"), sd("oy"), d == 3 ? sd("oz") : 0}; ViewCArrayKokkos<double> x(&p(0), 3); int kind = fsx_choose(11, "kind"); for (int i = 0; i < 2; i++) { for (int b = 0; b < 3; b++) f(i, b) = 77; for (int k = 0; k < d; k++) v(i, k) = 77; }
  if (kind < 6) { static const init_conds::init_scalar_conds K[6] = {init_conds::uniform, init_conds::radialScalar, init_conds::sphericalScalar, init_conds::xlinearScalar, init_conds::ylinearScalar, init_conds::zlinearScalar}; if (kind == 5 && d == 2) fsx_assume(0); paint_multi_scalar(f, x, a, s, o, 1, d, 1, K[kind]); double w = a; if (kind == 1 || kind == 2) { double q = 0; for (int k = 0; k < (kind == 1 ? 2 : d); k++) q += (p(k) - o[k]) * (p(k) - o[k]); w = s * sqrt(q) - a; fsx_cover("radial scalar"); } if (kind > 2) { w = s * p(kind - 3) + a; fsx_cover("linear"); } fsx_check_near(f(1, 1), w, TOL, "a scalar field has the value its description gives"); f(1, 1) = 77; for (int i = 0; i < 2; i++) for (int b = 0; b < 3; b++) fsx_check(f(i, b) == 77, "other points keep their value");
    if (kind != 1 && kind != 2) { double g = get_region_scalar(x, a, s, o, 1, d, K[kind]); fsx_check_near(g, w, TOL, "a volume fraction field has the value its description gives"); } else if (d == 3) { double q = 0; for (int k = 0; k < kind + 1; k++) q += (p(k) - o[k]) * (p(k) - o[k]); fsx_assume(q >= a); double g = get_region_scalar(x, a, s, o, 1, d, K[kind]); fsx_check_near(g, s * sqrt(q - a), TOL, "a volume fraction field has the value its description gives"); } }
  else { static const init_conds::init_vector_conds K[5] = {init_conds::cartesian, init_conds::radialVec, init_conds::sphericalVec, init_conds::stationary, init_conds::noICsVec}; paint_vector(v, x, u[0], u[1], u[2], s, 1, d, K[kind - 6]); double q = 0; int n = kind == 7 ? 2 : d; for (int k = 0; k < n; k++) q += p(k) * p(k); for (int k = 0; k < d; k++) { fsx_check(v(0, k) == 77, "other points keep their value"); if (kind == 6) fsx_check(v(1, k) == u[k], "a Cartesian velocity has its components"); else if (kind == 9) fsx_check(v(1, k) == 0, "a stationary region rests"); else if (kind == 10) fsx_check(v(1, k) == 77, "no condition leaves the velocity"); else { double r = sqrt(q); if (k >= n) fsx_check(v(1, k) == 0, "a cylindrical velocity has no axial part"); else if (r <= 1e-14) fsx_check(v(1, k) == 0, "no direction at the centre"); else fsx_check_near(v(1, k) * r, s * p(k), TOL, "a radial velocity points away from the centre at its speed"); fsx_cover("radial vector"); } } } }
FSX_ENTRY h_fields3() { fields(3); }
FSX_ENTRY h_fields2() { fields(2); }
// fills: later fills replace or add materials; points and nodes hold the state of their own fill
struct Fills { swage::Mesh mesh; SimulationParameters_t P; Material_t M; BoundaryCondition_t B; State_t S; fillGaussState_t G; fillElemState_t E; int d; size_t nf, ne;
  Fills(int dims, size_t fills, size_t nx) : d(dims), nf(fills), ne(nx) { swage::fsx_block(mesh, d, nx, 1, 1); fsx_loop_order = fsx_choose(2, "order"); S.node.initialize(mesh.num_nodes, d, {node_state::coords, node_state::velocity, node_state::temp}); S.GaussPoints.initialize(ne, 3, {gauss_pt_state::volume, gauss_pt_state::level_set}); for (size_t n = 0; n < mesh.num_nodes; n++) { S.node.coords(n, 0) = n % (nx + 1); S.node.coords(n, 1) = n / (nx + 1) % 2; if (d == 3) S.node.coords(n, 2) = n / (2 * nx + 2); for (int k = 0; k < d; k++) S.node.vel(n, k) = 77; S.node.temp(n) = 77; }
    M.num_mats = 2; M.max_num_mats_per_element = 3; P.region_setups.region_fills = CArrayKokkos<RegionFill_t>(nf); P.region_setups.region_fills_host = CArray<RegionFill_host_t>(nf); P.mesh_input.object_ids = DCArrayKokkos<int>(ne); P.region_setups.fill_gauss_states = {fill_gauss_state::density, fill_gauss_state::specific_internal_energy, fill_gauss_state::internal_energy, fill_gauss_state::thermal_conductivity, fill_gauss_state::specific_heat, fill_gauss_state::level_set}; P.region_setups.fill_node_states = {fill_node_state::velocity, fill_node_state::temperature}; }
  RegionFill_t& R(size_t f) { return P.region_setups.region_fills(f); }
  void box(size_t f, int e) { RegionFill_t& r = R(f); if (e < 0) { r.volume = region::global; return; } r.volume = region::box; r.x1 = e + 0.25; r.x2 = e + 0.75; r.y1 = r.z1 = -9; r.y2 = r.z2 = 9; } };
struct Bin { size_t f; double vf; };
// what every element must hold: a full fill replaces everything, a partial one its own material or an added one
static std::vector<Bin> bins(Fills& t, size_t e, const int* cov, const double* vf) { std::vector<Bin> out; for (size_t f = 0; f < t.nf; f++) { if (cov[f] >= 0 && cov[f] != (int)e) continue; if (!(vf[f] < 1.0 - 1.0e-8)) { out.clear(); out.push_back({f, 1.0}); continue; } double w = vf[f] < 0 ? 0.0 : vf[f]; size_t i = 0; for (; i < out.size(); i++) if (t.R(out[i].f).material_id == t.R(f).material_id) break; if (i == out.size()) out.push_back({f, w}); else out[i] = Bin{f, w}; } return out; }
static void fills(int d) { Fills t(d, 3, 2); int cov[3]; double vf[3]; int sym = fsx_choose(3, "field"); for (size_t f = 0; f < 3; f++) { cov[f] = f == 0 ? (fsx_choose(2, "c0") ? 1 : -1) : (fsx_choose(2, "c") ? 0 : -1); t.box(f, cov[f]); RegionFill_t& r = t.R(f); r.material_id = fsx_choose(2, "mat"); vf[f] = r.volfrac = fsx_choose(2, "partial") ? sd("volfrac", -0.5, 0.999) : f == 1 ? 1.5 : 1.0;
    r.den_field = r.thermal_conductivity_field = r.specific_heat_field = r.temperature_field = init_conds::uniform; r.level_set_field = init_conds::uniform; r.vel_field = init_conds::cartesian; (f == 1 ? r.ie_field : r.sie_field) = init_conds::uniform; r.den = 1 + f; r.sie = 10 + f; r.ie = 20 + f; r.specific_heat = 30 + f; r.thermal_conductivity = 40 + f; r.level_set = 50 + f; r.u = 60 + f; r.v = 63 + f; r.w = 66 + f; r.temperature = 70 + f; if (f == 2) { double z = sd("state"); (sym == 0 ? r.den : sym == 1 ? r.sie : r.u) = z; } }
  simulation_setup(t.P, t.M, t.mesh, t.B, t.S, t.G, t.E); size_t count[2] = {0, 0};
  for (size_t e = 0; e < 2; e++) { std::vector<Bin> w = bins(t, e, cov, vf); fsx_check(t.S.MeshtoMaterialMaps.num_mats_in_elem.host(e) == w.size(), "an element holds the materials of its fills"); fsx_cover(w.size() == 0 ? "none" : w.size() == 1 ? "one" : "two");
    for (size_t b = 0; b < w.size(); b++) { RegionFill_t& r = t.R(w[b].f); count[r.material_id]++; fsx_check(t.S.MeshtoMaterialMaps.mats_in_elem.host(e, b) == r.material_id, "a later fill adds its material or replaces it"); fsx_check(t.E.volfrac.host(e, b) == w[b].vf, "a material has the volume fraction of its fill"); fsx_check(t.E.geo_volfrac.host(e, b) == 1.0, "a fill covers the element"); fsx_check(t.G.den.host(e, b) == r.den && t.G.thermal_conductivity.host(e, b) == r.thermal_conductivity && t.G.specific_heat.host(e, b) == r.specific_heat && t.G.level_set.host(e, b) == r.level_set, "a material has the state of its fill"); bool s = w[b].f != 1; fsx_check(s ? t.G.sie.host(e, b) == r.sie && t.G.use_sie.host(e, b) : t.G.ie.host(e, b) == r.ie, "a material has the energy of its fill"); }
    if (w.size()) { RegionFill_t& r = t.R(w.back().f); for (size_t l = 0; l < t.mesh.num_nodes_in_elem; l++) { size_t n = t.mesh.nodes_in_elem(e, l); if (n % 3 == 1) continue; fsx_check(t.S.node.vel.host(n, 0) == r.u && t.S.node.vel.host(n, 1) == r.v && (d == 2 || t.S.node.vel.host(n, 2) == r.w) && t.S.node.temp.host(n) == r.temperature, "a node moves and is as warm as its region says"); } } }
  for (size_t m = 0; m < 2; m++) fsx_check(t.S.MaterialToMeshMaps.num_mat_elems.host(m) == count[m] && t.S.MaterialPoints.num_material_points.host(m) == count[m] && t.S.MaterialCorners.num_material_corners.host(m) == count[m] * t.mesh.num_nodes_in_elem, "a material has one entry per element holding it"); }
FSX_ENTRY h_fills3() { fills(3); }
FSX_ENTRY h_fills2() { fills(2); }
// material points: maps are inverse of each other, masses and energies follow from density, volume and fractions
FSX_ENTRY h_points() { int d = fsx_choose(2, "dims") ? 3 : 2; Fills t(d, 4, 3); int cov[4] = {-1, 1, (int)fsx_choose(3, "where"), 2}; double vf[4]; size_t mats[4] = {0, 1, 1, 0}; int sym = fsx_choose(4, "fill"); for (size_t f = 0; f < 4; f++) { t.box(f, cov[f]); RegionFill_t& r = t.R(f); r.material_id = mats[f]; vf[f] = r.volfrac = 0.25 + 0.125 * f; r.den_field = r.level_set_field = r.thermal_conductivity_field = r.specific_heat_field = init_conds::uniform; (f % 2 ? r.ie_field : r.sie_field) = init_conds::uniform; r.den = 2 + f; r.sie = 10 + f; r.ie = 20 + f; r.thermal_conductivity = 30 + f; r.specific_heat = 40 + f; r.level_set = 50 - f; if ((int)f == sym) { vf[f] = r.volfrac = sd("volfrac", 0.01, 0.99); r.den = sd("den", 0.1, 10); r.sie = sd("sie"); r.ie = sd("ie"); r.level_set = sd("level set", 0, 100); } }
  t.S.node.coords(t.mesh.nodes_in_elem(1, 1), 0) += sd("dx", -0.25, 0.25); simulation_setup(t.P, t.M, t.mesh, t.B, t.S, t.G, t.E); t.S.MaterialToMeshMaps.initialize(); t.S.MaterialPoints.initialize(3, {material_pt_state::density, material_pt_state::mass, material_pt_state::volume_fraction, material_pt_state::specific_internal_energy, material_pt_state::eroded_flag, material_pt_state::thermal_conductivity, material_pt_state::specific_heat}); material_state_setup(t.P, t.M, t.mesh, t.B, t.S, t.G, t.E);
  size_t next[2] = {0, 0}; for (size_t e = 0; e < 3; e++) { std::vector<Bin> w = bins(t, e, cov, vf); double low = 1e32; for (size_t b = 0; b < w.size(); b++) { RegionFill_t& r = t.R(w[b].f); size_t m = r.material_id, s = next[m]++; if (r.level_set < low) low = r.level_set; fsx_check(t.S.MaterialToMeshMaps.elem_in_mat_elem.host(m, s) == e && t.S.MeshtoMaterialMaps.mat_elems_in_elem.host(e, b) == s, "the material and element maps are inverse of each other"); MaterialPoint_t& q = t.S.MaterialPoints; double mass = r.den * w[b].vf * t.S.GaussPoints.vol.host(e); fsx_check_near(q.mass.host(m, s), mass, TOL, "mass is density times volume times volume fraction"); fsx_check(q.den.host(m, s) == r.den && q.volfrac.host(m, s) == w[b].vf && q.geo_volfrac.host(m, s) == 1.0 && !q.eroded.host(m, s) && q.conductivity.host(m, s) == r.thermal_conductivity && q.specific_heat.host(m, s) == r.specific_heat, "a material point has the state of its fill"); if (w[b].f % 2) fsx_check_near(q.sie.host(m, s) * mass, r.ie, TOL, "specific energy is the given energy over the mass"); else fsx_check(q.sie.host(m, s) == r.sie, "specific energy is the given one"); }
    fsx_check(t.S.GaussPoints.level_set.host(e) == low, "the level set is the least of the materials'"); } fsx_cover("points"); }
// corner and node masses: every material's mass is shared out completely
FSX_ENTRY h_masses() { int d = fsx_choose(2, "dims") ? 3 : 2; swage::Mesh m; swage::fsx_block(m, d, 2, 2, 1); fsx_loop_order = fsx_choose(2, "order"); size_t NN = m.num_nodes_in_elem; D x(m.num_nodes, d), nm(m.num_nodes), cm(m.num_corners); DZ buf(2); buf(0) = 3; buf(1) = 2; DRaggedRightArrayKokkos<double> mass(buf); DRaggedRightArrayKokkos<size_t> map(buf, "m"); static const size_t E0[3] = {2, 0, 1}, E1[2] = {1, 3}; Material_t M; double tot = 0; std::vector<double> el(m.num_elems, 0.0); for (size_t s = 0; s < 3; s++) { map(0, s) = E0[s]; mass(0, s) = sd("m", 0, 10); el[E0[s]] += mass(0, s); } for (size_t s = 0; s < 2; s++) { map(1, s) = E1[s]; mass(1, s) = sd("m", 0, 10); el[E1[s]] += mass(1, s); } for (double y : el) tot += y; for (size_t n = 0; n < m.num_nodes; n++) nm(n) = 55; for (size_t c = 0; c < m.num_corners; c++) cm(c) = 66;
  init_corner_node_masses_zero(m, nm, cm); for (size_t k = 0; k < 2; k++) calc_corner_mass(M, m, x, nm, cm, mass, map, buf(k), k); calc_node_mass(m, x, nm, cm); double s = 0; for (size_t n = 0; n < m.num_nodes; n++) { double w = 0; for (size_t e = 0; e < m.num_elems; e++) for (size_t l = 0; l < NN; l++) if (m.nodes_in_elem(e, l) == n) w += el[e] / (double)NN; fsx_check_near(nm(n), w, TOL, "a node carries its share of every element around it"); s += nm(n); } for (size_t e = 0; e < m.num_elems; e++) for (size_t l = 0; l < NN; l++) fsx_check_near(cm(m.corners_in_elem(e, l)), el[e] / (double)NN, TOL, "corners share the mass of their element equally"); fsx_check_near(s, tot, TOL, "the nodes carry the mass of the materials"); fsx_cover("masses"); }
