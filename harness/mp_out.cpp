// Multiphysics output (apps/multiphysics/src/common/include/mesh_io.hpp MeshWriter): graphics files and state dumps.
#include "matar.h"
#include "ELEMENTS.h"
#include "fsx_out.h"
using namespace mtr;
#include "common/include/mesh_io.hpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef material_pt_state MS; typedef node_state NS; typedef gauss_pt_state GS;
static std::string num(size_t x, int w) { return fsx_dec((long long)x, w, true); }
// three elements in a row; the materials of two layouts (one with a material that is nowhere)
struct Out { int d; size_t NN; swage::Mesh m; State_t S; SimulationParameters_t P; std::vector<std::vector<size_t>> L; std::vector<MS> ms; std::vector<NS> ns; std::vector<GS> gs;
  Out(int dims, int layout) : d(dims), ms{MS::density, MS::pressure, MS::stress, MS::specific_internal_energy, MS::sound_speed, MS::mass, MS::volume_fraction, MS::eroded_flag, MS::thermal_conductivity, MS::specific_heat}, ns{NS::coords, NS::velocity, NS::mass, NS::temp, NS::gradient_level_set}, gs{GS::volume, GS::divergence_velocity, GS::level_set, GS::gradient_velocity} { swage::fsx_block(m, d, 3, 1, 1); NN = m.num_nodes_in_elem; fsx_loop_order = fsx_choose(2, "order"); if (layout == 2) L = {{2, 0}, {1}}; else if (layout == 0) L = {{2, 0}, {1, 2}}; else L = {{}, {2, 0, 1}, {1}}; size_t nm = L.size(); MaterialPoint_t& q = S.MaterialPoints; q.initialize_num_mats(nm); S.MaterialToMeshMaps.initialize_num_mats(nm); for (size_t k = 0; k < nm; k++) { q.num_material_points(k) = q.num_material_points_buffer(k) = S.MaterialToMeshMaps.num_mat_elems(k) = L[k].size(); S.MaterialToMeshMaps.num_mat_elems_buffer(k) = L[k].size() + 1; q.num_material_points_buffer(k)++; } S.MaterialToMeshMaps.initialize(); q.initialize(3, ms); std::vector<NS> all = ns; S.node.initialize(m.num_nodes, d, all); S.GaussPoints.initialize(3, 3, gs);
    for (size_t k = 0; k < nm; k++) for (size_t s = 0; s < L[k].size(); s++) { S.MaterialToMeshMaps.elem_in_mat_elem(k, s) = L[k][s]; q.eroded(k, s) = false; q.den(k, s) = q.pres(k, s) = q.sie(k, s) = q.sspd(k, s) = q.conductivity(k, s) = q.specific_heat(k, s) = 0; } }
  void state() { MaterialPoint_t& q = S.MaterialPoints; for (size_t k = 0; k < L.size(); k++) for (size_t s = 0; s < L[k].size(); s++) { q.den(k, s) = sd("den"); q.pres(k, s) = sd("pres"); q.sie(k, s) = sd("sie"); q.sspd(k, s) = sd("sspd"); q.mass(k, s) = sd("mass", 0.1, 10); q.volfrac(k, s) = sd("volfrac", 0, 1); q.geo_volfrac(k, s) = sd("geo", 0, 1); q.conductivity(k, s) = sd("K"); q.specific_heat(k, s) = sd("Cp"); q.eroded(k, s) = (k + s) % 2; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q.stress(k, s, i, j) = sd("stress"); }
    for (size_t n = 0; n < m.num_nodes; n++) { S.node.mass(n) = sd("nm"); S.node.temp(n) = sd("temp"); for (int k = 0; k < d; k++) { S.node.coords(n, k) = sd("x"); S.node.vel(n, k) = sd("v"); S.node.vel_n0(n, k) = sd("v0"); S.node.gradient_level_set(n, k) = sd("grad"); } } for (size_t e = 0; e < 3; e++) { S.GaussPoints.vol(e) = sd("vol"); S.GaussPoints.div(e) = sd("div"); S.GaussPoints.level_set(e) = sd("ls"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S.GaussPoints.vel_grad(e, i, j) = sd("L"); } } };
template <class T> static std::vector<T> pick(const std::vector<T>& v, int how) { std::vector<T> r; for (size_t i = 0; i < v.size(); i++) { size_t k = how % 2 ? v.size() - 1 - i : i; if (how < 2 || (i + how) % 2) r.push_back(v[k]); } return r; }
template <class T> static bool has(const std::vector<T>& v, T x) { for (T y : v) if (y == x) return true; return false; }
// the values of a named array: want(i) for i < n, nothing else
template <class F> static void field(FsxFile& f, const char* name, bool there, size_t n, F want, const char* msg) { std::string w = std::string("Name=\"") + name + "\""; size_t at = fsx_after(f, w); fsx_check((at < f.t.size()) == there, "the file has the fields asked for"); if (!there) return; fsx_check(fsx_after(f, w, at) == f.t.size(), "a field appears once"); for (size_t i = 0; i < n; i++) { fsx_check(at + i < f.t.size() && f.t[at + i].num, "a field has its values"); fsx_check_near(f.t[at + i].d, want(i), TOL, msg); } fsx_check(f.t[at + n].s == "</DataArray>", "a field has its values"); fsx_cover(name); }
static void cells(FsxFile& f, size_t ne, size_t NN) { size_t o = fsx_after(f, "Name=\"offsets\""), t = fsx_after(f, "Name=\"types\""); for (size_t e = 0; e < ne; e++) { fsx_check(fsx_num(f.t[o + e]) == (long long)((e + 1) * NN), "offsets count the points of the cells"); fsx_check(fsx_num(f.t[t + e]) == (NN == 8 ? 11 : 9), "cells have the type of their node order"); } fsx_check(f.t[o + ne].s == "</DataArray>" && f.t[t + ne].s == "</DataArray>", "every cell is listed"); }
static void piece(FsxFile& f, size_t np, size_t nc) { bool ok = false; for (size_t i = 0; i + 1 < f.t.size(); i++) if (f.t[i].s == "NumberOfPoints=\"" + fsx_dec(np, 0, false) + "\"" && f.t[i + 1].s == "NumberOfCells=\"" + fsx_dec(nc, 0, false) + "\">") ok = true; fsx_check(ok, "a piece states its points and cells"); fsx_check(!f.open && f.t.back().s == "</VTKFile>", "a file is written to its end"); }
static void check_cycle(Out& t, size_t cycle, double dt, size_t solver, const std::vector<MS>& em, const std::vector<MS>& mm, const std::vector<NS>& nn, const std::vector<GS>& gg) { int d = t.d; size_t NN = t.NN, N = t.m.num_nodes; State_t& S = t.S; MaterialPoint_t& q = S.MaterialPoints; std::string pre = "vtk/data/Fierro.solver" + fsx_dec(solver, 0, false) + ".", post = "." + num(cycle, 5) + ".vtu";
  FsxFile* fp = fsx_find(pre + "fields" + post); fsx_check(fp != nullptr, "the fields file of a cycle is written"); FsxFile& f = *fp; piece(f, N, 3); cells(f, 3, NN);
  size_t p = fsx_after(f, "<Points>") ; p = fsx_after(f, "<DataArray", p); for (size_t n = 0; n < N; n++) for (int k = 0; k < 3; k++) fsx_check_near(f.t[p + 3 * n + k].d, k < d ? S.node.coords(n, k) : 0.0, TOL, "points are the nodes"); fsx_check(f.t[p + 3 * N].s == "</DataArray>", "points are the nodes"); size_t c = fsx_after(f, "Name=\"connectivity\""); for (size_t e = 0; e < 3; e++) for (size_t l = 0; l < NN; l++) fsx_check(fsx_num(f.t[c + NN * e + l]) == (long long)t.m.nodes_in_elem(e, l), "cells are the elements"); fsx_check(f.t[c + 3 * NN].s == "</DataArray>", "cells are the elements");
  auto sum = [&](size_t e, auto val, bool frac) { double s = 0; for (size_t k = 0; k < t.L.size(); k++) for (size_t i = 0; i < t.L[k].size(); i++) if (t.L[k][i] == e) s += val(k, i) * (frac ? q.volfrac(k, i) * q.geo_volfrac(k, i) : 1.0); return s; };
  const char* AV = "element fields weigh the materials by their volume fractions"; field(f, "den", has(em, MS::density), 3, [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.den(k, i); }, true); }, AV); field(f, "pres", has(em, MS::pressure), 3, [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.pres(k, i); }, true); }, AV); field(f, "sspd", has(em, MS::sound_speed), 3, [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.sspd(k, i); }, true); }, AV); field(f, "thermal_K", has(em, MS::thermal_conductivity), 3, [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.conductivity(k, i); }, true); }, AV); field(f, "Cp", has(em, MS::specific_heat), 3, [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.specific_heat(k, i); }, true); }, AV); field(f, "stress", has(em, MS::stress), 27, [&](size_t x) { return sum(x / 9, [&](size_t k, size_t i) { return q.stress(k, i, x / 3 % 3, x % 3); }, true); }, AV);
  auto M = [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.mass(k, i); }, false); }; field(f, "mass", has(em, MS::mass), 3, M, "element mass is the sum of the materials'"); field(f, "sie", has(em, MS::specific_internal_energy), 3, [&](size_t e) { return sum(e, [&](size_t k, size_t i) { return q.mass(k, i) * q.sie(k, i); }, false) / (M(e) + 1e-20); }, "element energy is the mass average of the materials'");
  field(f, "vol", has(gg, GS::volume), 3, [&](size_t e) { return S.GaussPoints.vol(e); }, "Gauss point fields are copied"); field(f, "div", has(gg, GS::divergence_velocity), 3, [&](size_t e) { return S.GaussPoints.div(e); }, "Gauss point fields are copied"); field(f, "level_set", has(gg, GS::level_set), 3, [&](size_t e) { return S.GaussPoints.level_set(e); }, "Gauss point fields are copied"); field(f, "vel_grad", has(gg, GS::gradient_velocity), 27, [&](size_t x) { return S.GaussPoints.vel_grad(x / 9, x / 3 % 3, x % 3); }, "Gauss point fields are copied");
  const char* NF = "node fields are copied"; auto z = [&](size_t x, auto val) { int k = (int)(x % 3); return k < d ? val(x / 3, k) : 0.0; }; field(f, "node_mass", has(nn, NS::mass), N, [&](size_t n) { return S.node.mass(n); }, NF); field(f, "node_temp", has(nn, NS::temp), N, [&](size_t n) { return S.node.temp(n); }, NF); field(f, "node_coords", has(nn, NS::coords), 3 * N, [&](size_t x) { return z(x, [&](size_t n, int k) { return S.node.coords(n, k); }); }, NF); field(f, "node_vel", has(nn, NS::velocity), 3 * N, [&](size_t x) { return z(x, [&](size_t n, int k) { return S.node.vel(n, k); }); }, NF); field(f, "node_accel", has(nn, NS::velocity), 3 * N, [&](size_t x) { return z(x, [&](size_t n, int k) { return (S.node.vel(n, k) - S.node.vel_n0(n, k)) / dt; }); }, "acceleration is the velocity change over the step"); field(f, "node_grad_lvlset", has(nn, NS::gradient_level_set), 3 * N, [&](size_t x) { return z(x, [&](size_t n, int k) { return S.node.gradient_level_set(n, k); }); }, NF);
  for (size_t k = 0; k < t.L.size(); k++) { size_t ne = t.L[k].size(); FsxFile* gp = fsx_find(pre + "mat" + fsx_dec(k, 0, false) + post); fsx_check((gp != nullptr) == (ne > 0 && mm.size() > 0), "every material on the mesh has its file"); if (!gp) continue; FsxFile& g = *gp; std::vector<size_t> used; for (size_t e : t.L[k]) for (size_t l = 0; l < NN; l++) if (!has(used, t.m.nodes_in_elem(e, l))) used.push_back(t.m.nodes_in_elem(e, l)); piece(g, used.size(), ne); cells(g, ne, NN); size_t p = fsx_after(g, "<Points>"); p = fsx_after(g, "<DataArray", p); size_t c = fsx_after(g, "Name=\"connectivity\""); fsx_check(g.t[p + 3 * used.size()].s == "</DataArray>" && g.t[c + NN * ne].s == "</DataArray>", "a part has the nodes of its elements"); std::vector<size_t> node(used.size(), 9999);
    for (size_t s = 0; s < ne; s++) for (size_t l = 0; l < NN; l++) { size_t x = fsx_num(g.t[c + NN * s + l]), n = t.m.nodes_in_elem(t.L[k][s], l); fsx_check(x < used.size() && (node[x] == 9999 || node[x] == n), "a part shares the nodes of its elements"); node[x] = n; for (int b = 0; b < 3; b++) fsx_check_near(g.t[p + 3 * x + b].d, b < d ? S.node.coords(n, b) : 0.0, TOL, "a part lies where its elements are"); }
    const char* MF = "material fields are copied"; field(g, "mat_den", has(mm, MS::density), ne, [&](size_t s) { return q.den(k, s); }, MF); field(g, "mat_pres", has(mm, MS::pressure), ne, [&](size_t s) { return q.pres(k, s); }, MF); field(g, "mat_sie", has(mm, MS::specific_internal_energy), ne, [&](size_t s) { return q.sie(k, s); }, MF); field(g, "mat_sspd", has(mm, MS::sound_speed), ne, [&](size_t s) { return q.sspd(k, s); }, MF); field(g, "mat_mass", has(mm, MS::mass), ne, [&](size_t s) { return q.mass(k, s); }, MF); field(g, "mat_volfrac", has(mm, MS::volume_fraction), ne, [&](size_t s) { return q.volfrac(k, s); }, MF); field(g, "mat_geo_volfrac", has(mm, MS::volume_fraction), ne, [&](size_t s) { return q.geo_volfrac(k, s); }, MF); field(g, "mat_eroded", has(mm, MS::eroded_flag), ne, [&](size_t s) { return q.eroded(k, s) ? 1.0 : 0.0; }, MF); field(g, "mat_thermal_K", has(mm, MS::thermal_conductivity), ne, [&](size_t s) { return q.conductivity(k, s); }, MF); field(g, "mat_Cp", has(mm, MS::specific_heat), ne, [&](size_t s) { return q.specific_heat(k, s); }, MF); field(g, "mat_stress", has(mm, MS::stress), 9 * ne, [&](size_t x) { return q.stress(k, x / 9, x / 3 % 3, x % 3); }, MF); } }
// the multiblock and collection files name every file of every cycle with its time, and no other
static void check_lists(Out& t, size_t cycles, const double* time, size_t solver, bool mesh, bool mats) { std::string so = "Fierro.solver" + fsx_dec(solver, 0, false); FsxFile* c = fsx_find("vtk/" + so + ".pvd"); fsx_check(c != nullptr && !c->open, "the collection file is written"); auto refs = [&](FsxFile& f, std::vector<std::string>& names, std::vector<double>& times) { for (size_t i = 0; i < f.t.size(); i++) { if (!f.t[i].num && f.t[i].s.compare(0, 6, "file=\"") == 0) { std::string s = f.t[i].s.substr(6); if (!s.empty() && s.back() == '"') s.pop_back(); names.push_back(s); } if (f.t[i].num) times.push_back(f.t[i].d); } };
  std::vector<std::string> names; std::vector<double> times; refs(*c, names, times); fsx_check(names.size() == cycles && times.size() == 2 * cycles, "the collection names every cycle"); for (size_t i = 0; i < cycles; i++) { fsx_check(names[i] == "data/" + so + "." + num(i, 5) + ".vtm", "the collection names every cycle"); fsx_check(times[2 * i] == time[i] && times[2 * i + 1] == time[i], "a cycle has its time"); FsxFile* v = fsx_find("vtk/" + names[i]); fsx_check(v != nullptr && !v->open && v->t.back().s == "</VTKFile>", "every cycle has its multiblock file"); std::vector<std::string> fn; std::vector<double> ft; refs(*v, fn, ft); std::vector<std::string> want; if (mesh) want.push_back(so + ".fields." + num(i, 5) + ".vtu"); if (mats) for (size_t k = 0; k < t.L.size(); k++) if (t.L[k].size()) want.push_back(so + ".mat" + fsx_dec(k, 0, false) + "." + num(i, 5) + ".vtu"); fsx_check(fn.size() == want.size(), "the multiblock file names every part"); for (size_t j = 0; j < fn.size(); j++) { fsx_check(fn[j] == want[j], "the multiblock file names every part"); fsx_check(fsx_find("vtk/data/" + fn[j]) != nullptr, "every part named was written"); fsx_check(ft[j] == time[i], "a part has its time"); } fsx_cover("listed"); } }
static void graphics(int d) { Out t(d, fsx_choose(2, "layout")); int how = fsx_choose(4, "fields"); size_t solver = fsx_choose(3, "solver"); output_options_t& o = t.P.output_options; o.format = output_options::viz; o.output_elem_state = pick(t.ms, how); bool sie = has(o.output_elem_state, MS::specific_internal_energy); if (sie && !has(o.output_elem_state, MS::mass)) o.output_elem_state.push_back(MS::mass); o.output_mat_pt_state = pick(t.ms, 3 - how); o.output_node_state = pick(t.ns, how); o.output_gauss_pt_state = pick(t.gs, how); CArray<double> times(10); MeshWriter w; double time[2] = {sd("time", 0, 1), sd("time", 1, 2)}; std::vector<MS> em = o.output_elem_state, mm = o.output_mat_pt_state;
  for (size_t c = 0; c < 2; c++) { double dt = sd("dt", 0.001, 1); t.state(); w.write_mesh(t.m, t.S, t.P, dt, time[c], times, t.ns, t.gs, t.ms, solver); check_cycle(t, c, dt, solver, em, mm, o.output_node_state, o.output_gauss_pt_state); } check_lists(t, 2, time, solver, true, true); }
FSX_ENTRY h_viz3() { graphics(3); }
FSX_ENTRY h_viz2() { graphics(2); }
// no fields of a kind: nothing is written or named
FSX_ENTRY h_none() { Out t(3, 0); int kind = fsx_choose(4, "kind"); output_options_t& o = t.P.output_options; o.format = output_options::viz; if (kind & 1) o.output_node_state = t.ns; if (kind & 2) o.output_mat_pt_state = {MS::stress}; CArray<double> times(10); MeshWriter w; double time[1] = {sd("time", 0, 1)}; t.state(); w.write_mesh(t.m, t.S, t.P, 1.0, time[0], times, t.ns, t.gs, t.ms, 0); check_cycle(t, 0, 1.0, 0, {}, o.output_mat_pt_state, o.output_node_state, {}); check_lists(t, 1, time, 0, kind & 1, kind & 2); fsx_cover("none"); }
// state dumps: a line per material point and node
FSX_ENTRY h_state() { int d = fsx_choose(2, "dims") ? 3 : 2; Out t(d, fsx_choose(2, "layout")); output_options_t& o = t.P.output_options; bool both = fsx_choose(2, "both"); o.format = both ? output_options::viz_and_state : output_options::state; CArray<double> times(10); MeshWriter w; double time = sd("time", 0, 1); for (size_t n = 0; n < t.m.num_nodes; n++) { for (int k = 0; k < d; k++) { t.S.node.coords(n, k) = 1 + n + 2 * k; t.S.node.vel(n, k) = 3 - (double)n + k; t.S.node.vel_n0(n, k) = 0; t.S.node.gradient_level_set(n, k) = 0; } t.S.node.mass(n) = n; t.S.node.temp(n) = 0; } MaterialPoint_t& q = t.S.MaterialPoints; for (size_t e = 0; e < 3; e++) t.S.GaussPoints.vol(e) = sd("vol"); for (size_t k = 0; k < t.L.size(); k++) for (size_t s = 0; s < t.L[k].size(); s++) { q.den(k, s) = sd("den"); q.pres(k, s) = sd("pres"); q.sie(k, s) = sd("sie"); q.sspd(k, s) = sd("sspd"); q.mass(k, s) = sd("mass"); q.volfrac(k, s) = q.geo_volfrac(k, s) = 1; }
  size_t who = fsx_choose(t.m.num_nodes, "node"); for (int k = 0; k < d; k++) { t.S.node.coords(who, k) = sd("x", 0.1, 10); t.S.node.vel(who, k) = sd("v"); } w.write_mesh(t.m, t.S, t.P, 1.0, time, times, t.ns, t.gs, t.ms, 0); FsxFile *a = fsx_find("state/mat_pt_state_t_@.txt"), *b = fsx_find("state/node_state_t_@.txt"); fsx_check(a && b && !a->open && !b->open, "both state files are written"); fsx_check((fsx_find("vtk/Fierro.solver0.pvd") != nullptr) == both, "graphics are written if asked for"); auto rows = [](FsxFile& f) { size_t i = 0; while (i < f.t.size() && !f.t[i].num) i++; return i; }; size_t i = rows(*a);
  for (size_t k = 0; k < t.L.size(); k++) for (size_t s = 0; s < t.L[k].size(); s++, i += 11) { size_t e = t.L[k][s]; fsx_check(i + 11 <= a->t.size(), "a line per material point"); double x[3] = {0, 0, 0}; for (size_t l = 0; l < t.NN; l++) for (int c = 0; c < d; c++) x[c] += t.S.node.coords(t.m.nodes_in_elem(e, l), c) / (double)t.NN; auto v = [&](int c) { return a->t[i + c].d; }; for (int c = 0; c < 3; c++) fsx_check_near(v(c), x[c], TOL, "a material point is at its element's centre"); fsx_check(v(3) >= 0 && v(4) >= 0, "radii are not negative"); fsx_check_near(v(3) * v(3), x[0] * x[0] + x[1] * x[1], 1e-8, "the cylindrical radius"); fsx_check_near(v(4) * v(4), x[0] * x[0] + x[1] * x[1] + x[2] * x[2], 1e-8, "the spherical radius"); fsx_check(v(5) == q.den(k, s) && v(6) == q.pres(k, s) && v(7) == q.sie(k, s) && v(8) == q.sspd(k, s) && v(9) == t.S.GaussPoints.vol(e) && v(10) == q.mass(k, s), "a material point's state is dumped"); } fsx_check(i == a->t.size(), "a line per material point");
  i = rows(*b); for (size_t n = 0; n < t.m.num_nodes; n++, i += 10) { fsx_check(i + 10 <= b->t.size(), "a line per node"); auto v = [&](int c) { return b->t[i + c].d; }; double x[3] = {0, 0, 0}, u[3] = {0, 0, 0}; for (int c = 0; c < d; c++) { x[c] = t.S.node.coords(n, c); u[c] = t.S.node.vel(n, c); } for (int c = 0; c < 3; c++) fsx_check(v(c) == x[c] && v(5 + c) == u[c], "a node's position and velocity are dumped"); fsx_check(v(3) >= 0 && v(4) >= 0 && v(8) >= 0 && v(9) >= 0, "magnitudes are not negative"); double r2 = x[0] * x[0] + x[1] * x[1], cr = u[0] * x[1] - u[1] * x[0]; fsx_check_near(v(3) * v(3), r2, 1e-8, "the cylindrical radius"); fsx_check_near(v(4) * v(4), r2 + x[2] * x[2], 1e-8, "the spherical radius"); fsx_check_near(v(8) * v(8), u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1e-8, "the speed"); fsx_check_near(v(9) * v(9) * r2, cr * cr, 1e-7, "the velocity across the radius"); } fsx_check(i == b->t.size(), "a line per node"); fsx_cover("state"); }
// EnSight output (one material per element): a geometry file and a file per field for every cycle, and the case file that lists them
static size_t word(FsxFile& f, size_t i, const std::vector<std::string>& w) { for (auto& x : w) { fsx_check(i < f.t.size() && !f.t[i].num && f.t[i].s == x, "an EnSight file follows its format"); i++; } return i; }
static bool holds(FsxFile& f, const std::string& w) { for (auto& k : f.t) if (!k.num && k.s.find(w) != std::string::npos) return true; return false; }
static void ensight(int d) { Out t(d, 2); t.P.output_options.format = output_options::ensight; CArray<double> times(10); MeshWriter w; double time[2] = {sd("time", 0, 1), sd("time", 1, 2)}; size_t N = t.m.num_nodes, NN = t.NN; std::string type = d == 3 ? "hexa8" : "quad4"; MaterialPoint_t& q = t.S.MaterialPoints; const char* P = "ensight/data/Outputs_SGH.";
  for (size_t c = 0; c < 2; c++) { double dt = sd("dt", 0.001, 1); t.state(); for (size_t n = 0; n < N; n++) for (int k = 0; k < d; k++) { if (n % 3 != 1 || k) t.S.node.vel(n, k) = (double)((n + k) % 5) - 2 + c; if (n != 3) t.S.node.vel_n0(n, k) = 1; } w.write_mesh(t.m, t.S, t.P, dt, time[c], times, t.ns, t.gs, t.ms, 0); std::string cyc = num(c, 5);
    FsxFile* g = fsx_find(P + cyc + ".geo"); fsx_check(g && !g->open, "every cycle has its geometry file"); FsxFile& f = *g; size_t i = 0; while (i < f.t.size() && (f.t[i].num || f.t[i].s != "part")) i++; i = word(f, i, {"part", "1", "Mesh", "coordinates"}); fsx_check(fsx_num(f.t[i++]) == (long long)N, "the geometry has the nodes"); for (int k = 0; k < 3; k++) for (size_t n = 0; n < N; n++, i++) { fsx_check(i < f.t.size() && f.t[i].num, "the geometry has the nodes"); fsx_check_near(f.t[i].d, k < d ? t.S.node.coords(n, k) : 0.0, TOL, "the geometry has the nodes' positions"); } i = word(f, i, {type, "3"}); static const int o3[8] = {0, 1, 3, 2, 4, 5, 7, 6}; for (size_t e = 0; e < 3; e++) for (size_t l = 0; l < NN; l++, i++) { fsx_check(i < f.t.size(), "the geometry has the elements"); fsx_check(fsx_num(f.t[i]) == (long long)t.m.nodes_in_elem(e, d == 3 ? o3[l] : l) + 1, "elements have their nodes in EnSight's order, counted from one"); } fsx_check(i == f.t.size(), "the geometry has the elements");
    auto scalar = [&](const char* name, auto want) { FsxFile* s = fsx_find(P + cyc + "." + name); fsx_check(s && !s->open, "every field has its file"); size_t i = word(*s, 0, {"Per_elem", "scalar", "values", "part", "1", type}); for (size_t e = 0; e < 3; e++, i++) { fsx_check(i < s->t.size() && s->t[i].num, "a field has a value per element"); size_t k = e == 1, m = e == 0; want(s->t[i].d, e, k, m); } fsx_check(i == s->t.size(), "a field has a value per element"); fsx_check(holds(*fsx_find("ensight/Outputs_SGH.case"), std::string("data/Outputs_SGH.*****.") + name), "the case file lists every field"); };
    auto eq = [&](auto val) { return [val](double got, size_t e, size_t k, size_t m) { fsx_check_near(got, val(e, k, m), TOL, "element fields are those of its material"); }; }; scalar("den", eq([&](size_t, size_t k, size_t m) { return q.den(k, m); })); scalar("pres", eq([&](size_t, size_t k, size_t m) { return q.pres(k, m); })); scalar("sie", eq([&](size_t, size_t k, size_t m) { return q.sie(k, m); })); scalar("vol", eq([&](size_t e, size_t, size_t) { return t.S.GaussPoints.vol(e); })); scalar("mass", eq([&](size_t, size_t k, size_t m) { return q.mass(k, m); })); scalar("sspd", eq([&](size_t, size_t k, size_t m) { return q.sspd(k, m); })); scalar("mat_id", eq([&](size_t, size_t k, size_t) { return (double)k; })); scalar("eroded", eq([&](size_t, size_t k, size_t m) { return q.eroded(k, m) ? 1.0 : 0.0; }));
    scalar("speed", [&](double got, size_t e, size_t, size_t) { double s = 0; for (int k = 0; k < d; k++) { double u = 0; for (size_t l = 0; l < NN; l++) u += t.S.node.vel(t.m.nodes_in_elem(e, l), k); u /= NN; s += u * u; } fsx_check(got >= 0, "the speed is not negative"); fsx_check_near(got * got, s, 1e-8, "the speed is that of the mean velocity"); });
    auto vec = [&](const char* name, auto val) { FsxFile* s = fsx_find(P + cyc + "." + name); fsx_check(s && !s->open, "every field has its file"); size_t i = word(*s, 0, {"Per_node", "vector", "values", "part", "1", "block"}); for (int k = 0; k < 3; k++) for (size_t n = 0; n < N; n++, i++) { fsx_check(i < s->t.size() && s->t[i].num, "a field has a value per node"); fsx_check_near(s->t[i].d, k < d ? val(n, k) : 0.0, TOL, "node fields are copied"); } fsx_check(i == s->t.size(), "a field has a value per node"); fsx_check(holds(*fsx_find("ensight/Outputs_SGH.case"), std::string("data/Outputs_SGH.*****.") + name), "the case file lists every field"); }; vec("pos", [&](size_t n, int k) { return t.S.node.coords(n, k); }); vec("vel", [&](size_t n, int k) { return t.S.node.vel(n, k); }); vec("accel", [&](size_t n, int k) { return (t.S.node.vel(n, k) - t.S.node.vel_n0(n, k)) / dt; });
    FsxFile* k = fsx_find("ensight/Outputs_SGH.case"); fsx_check(!k->open && holds(*k, "data/Outputs_SGH.*****.geo"), "the case file lists the geometry"); size_t at = k->t.size(), reals = 0; for (size_t i = 0; i < k->t.size(); i++) { if (k->t[i].num) { fsx_check(reals <= c, "the case file has the times of the cycles"); fsx_check_near(k->t[i].d, time[reals++], TOL, "the case file has the times of the cycles"); } else if (k->t[i].s == "steps:") at = i; } fsx_check(reals == c + 1 && at + 1 < k->t.size() && fsx_num(k->t[at + 1]) == (long long)c + 1, "the case file counts the cycles"); } fsx_cover("ensight"); }
FSX_ENTRY h_ensight3() { ensight(3); }
FSX_ENTRY h_ensight2() { ensight(2); }
