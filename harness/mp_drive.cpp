// Multiphysics driver (apps/multiphysics/src/driver.cpp): which solvers run, in what order, on what, and from when to when.
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include <string>
#include <vector>
#include <fstream>
#define FIERRO_IO_H
#define SGH3D_SOLVER_H
#define SGHRZ_SOLVER_RZ_H
#define SGTM3D_SOLVER_H
#define LVLSET_SOLVER_H
#define TLQS3D_SOLVER_H
#include "state.hpp"
#include "simulation_parameters.hpp"
#include "material.hpp"
#include "boundary_conditions.hpp"
#include "solver.hpp"
#include "input/Yaml.hpp"
static double sd(const char* n, double lo, double hi) { return fsx_double(n, lo, hi); }
struct Ev { int what; int who; double a, b; size_t id; bool heat; };   // what: 0 input, 1 mesh, 2 boundary sets, 3 boundary nodes, 4 initialize, 5 fills, 6 material state, 7 fill materials, 8 setup, 9 execute, 10 finalize, 11 gone
static std::vector<Ev> ev; static const void* at[5]; static int made; static std::vector<int> kinds;
static void on(const void* p, const void* m, const void* x, const void* b, const void* s) { const void* q[5] = {p, m, x, b, s}; for (int i = 0; i < 5; i++) fsx_check(q[i] == at[i], "every part of a run works on the same state"); }
static void note(int what, int who = -1, double a = 0, double b = 0, size_t id = 0, bool heat = false) { ev.push_back({what, who, a, b, id, heat}); }
struct Fake : Solver { int me; Fake(int kind) : me(made++) { kinds.push_back(kind); solver_id = 99; time_start = time_end = -7; finalize_flag = me != 1; } ~Fake() { note(11, me); }
  void initialize(SimulationParameters_t& P, Material_t& M, swage::Mesh& m, BoundaryCondition_t& B, State_t& S) const override { on(&P, &M, &m, &B, &S); note(4, me); }
  void initialize_material_state(SimulationParameters_t& P, Material_t& M, swage::Mesh& m, BoundaryCondition_t& B, State_t& S) const override { on(&P, &M, &m, &B, &S); note(6, me); }
  void setup(SimulationParameters_t& P, Material_t& M, swage::Mesh& m, BoundaryCondition_t& B, State_t& S) override { on(&P, &M, &m, &B, &S); note(8, me); }
  void execute(SimulationParameters_t& P, Material_t& M, BoundaryCondition_t& B, swage::Mesh& m, State_t& S) override { on(&P, &M, &m, &B, &S); note(9, me, time_start, time_end, solver_id, use_moving_heat_source); }
  void finalize(SimulationParameters_t& P, Material_t& M, BoundaryCondition_t& B) const override { fsx_check(&P == at[0] && &M == at[1] && &B == at[3], "every part of a run works on the same state"); note(10, me); } };
struct SGH3D : Fake { SGH3D() : Fake(0) {} }; struct SGHRZ : Fake { SGHRZ() : Fake(1) {} }; struct SGTM3D : Fake { SGTM3D() : Fake(2) {} }; struct LevelSet : Fake { LevelSet() : Fake(3) {} }; struct TLQS3D : Fake { TLQS3D() : Fake(4) {} };
static std::string read_name; static bool built;
struct MeshReader { std::string f; void set_mesh_file(char* n) { f = n; } void read_mesh(swage::Mesh& m, State_t& S, mesh_input_t& in, int dims) { fsx_check(&m == at[2] && &S == at[4] && dims == 3, "every part of a run works on the same state"); read_name = f; fsx_check(in.file_path == f, "the mesh file is the one of the input"); note(1); } };
struct MeshBuilder { void build_mesh(swage::Mesh& m, GaussPoint_t& g, node_t& n, corner_t& c, SimulationParameters_t& P) { fsx_check(&P == at[0] && &m == at[2] && &g == &((State_t*)at[4])->GaussPoints && &n == &((State_t*)at[4])->node && &c == &((State_t*)at[4])->corner, "every part of a run works on the same state"); built = true; note(1); } };
#include "driver.cpp"
#include "input/Yaml.cpp"
#include "solver.cpp"
static SimulationParameters_t* IN; static int n_bcs;
void parse_yaml(Yaml::Node& root, SimulationParameters_t& P, Material_t& M, BoundaryCondition_t& B) { fsx_check(&P == at[0] && &M == at[1] && &B == at[3], "every part of a run works on the same state"); fsx_check(root["what"].As<std::string>() == "run", "the input is read from the file given"); P.solver_inputs = IN->solver_inputs; P.dynamic_options.time_final = IN->dynamic_options.time_final; P.mesh_input.source = IN->mesh_input.source; P.mesh_input.file_path = IN->mesh_input.file_path; B.num_bcs = n_bcs; note(0); }
void tag_bdys(const BoundaryCondition_t& B, swage::Mesh& m, const DCArrayKokkos<double>& x) { fsx_check(&B == at[3] && &m == at[2] && &x == &((State_t*)at[4])->node.coords, "every part of a run works on the same state"); fsx_check((int)m.num_bdy_sets == n_bcs, "every boundary condition has its set"); note(2); }
void build_boundry_node_sets(swage::Mesh& m) { fsx_check(&m == at[2], "every part of a run works on the same state"); note(3); }
static void *fg, *fe;
void simulation_setup(SimulationParameters_t& P, Material_t& M, swage::Mesh& m, BoundaryCondition_t& B, State_t& S, fillGaussState_t& g, fillElemState_t& e) { on(&P, &M, &m, &B, &S); fg = &g; fe = &e; note(5); }
void material_state_setup(SimulationParameters_t& P, Material_t& M, swage::Mesh& m, BoundaryCondition_t& B, State_t& S, fillGaussState_t& g, fillElemState_t& e) { on(&P, &M, &m, &B, &S); fsx_check(fg == &g && fe == &e, "materials are filled from the fills"); note(7); }
static const solver_input::method MET[5] = {solver_input::SGH3D, solver_input::SGHRZ, solver_input::SGTM3D, solver_input::levelSet, solver_input::TLQS3D};
#ifdef FSX_NATIVE
#include <sys/stat.h>
#include <unistd.h>
static void folders() { mkdir("a", 0700); mkdir("a/b", 0700); mkdir("/tmp/fsx_drive", 0700); }
static void nofolders() { unlink("/tmp/fsx_drive/in.yaml"); rmdir("/tmp/fsx_drive"); unlink("/tmp/fsx_drive.yaml"); }
#else
static void nofolders() {}
static void folders() {}
#endif
static Driver* drive(const char* yaml) { { std::ofstream o(yaml); o << "what: run\n"; } char* name = new char[100]; size_t i = 0; for (; yaml[i]; i++) name[i] = yaml[i]; name[i] = 0; Driver* d = new Driver(name); const void* q[5] = {&d->SimulationParamaters, &d->Materials, &d->mesh, &d->BoundaryConditions, &d->State}; for (int k = 0; k < 5; k++) at[k] = q[k]; ev.clear(); made = 0; kinds.clear(); built = false; n_bcs = 2; IN = new SimulationParameters_t; return d; }
static long find(int what, int who, long from = 0) { for (size_t i = from; i < ev.size(); i++) if (ev[i].what == what && ev[i].who == who) return (long)i; return -1; }
static long count(int what) { long n = 0; for (auto& e : ev) n += e.what == what; return n; }
FSX_ENTRY h_order() { Driver* d = drive("in.yaml"); int n = 1 + fsx_choose(3, "solvers"), k[3]; IN->mesh_input.source = mesh_input::generate; IN->dynamic_options.time_final = sd("final", 0.5, 5); double end[3]; bool heat[3]; for (int i = 0; i < n; i++) { solver_input_t s; k[i] = i == 0 ? fsx_choose(5, "method") : i == 1 ? (k[0] + 1 + fsx_choose(2, "method")) % 5 : (k[0] + 3) % 5; s.method = MET[k[i]]; end[i] = fsx_choose(2, "ends") ? sd("end", 0.01, 6) : 0.0; s.time_end = end[i]; heat[i] = s.use_moving_heat_source = k[i] == 2 && i % 2 == 0; IN->solver_inputs.push_back(s); }
  d->initialize(); long fills = find(5, -1), mats = find(7, -1); fsx_check(count(0) == 1 && built && count(1) == 1 && count(2) == 1 && count(3) == 1 && count(5) == 1 && count(7) == 1, "the input is read, and the mesh, its boundaries and fills made, once"); fsx_check(find(0, -1) < find(1, -1) && find(1, -1) < find(2, -1) && find(2, -1) < find(3, -1) && find(3, -1) < fills && fills < mats, "a run is made in order"); fsx_check(made == n && count(4) == n && count(6) == n && d->solvers.size() == (size_t)n, "every solver of the input is made, once"); for (int i = 0; i < n; i++) { fsx_check(kinds[i] == k[i], "a solver is of its method"); fsx_check(find(1, -1) < find(4, i) && find(4, i) < fills && fills < find(6, i) && find(6, i) < mats, "solvers have their state before materials fill it"); }
  d->setup(); d->execute(); d->finalize(); fsx_check(count(8) == n && count(9) == n && count(11) == n && count(10) == n - (n > 1), "every solver is set up, run and finished, once"); double t = 0, final = IN->dynamic_options.time_final; for (int i = 0; i < n; i++) { long s = find(8, i), e = find(9, i), g = find(11, i); fsx_check(s >= 0 && e > s && g > e && (i == 1 || (find(10, i) > e && find(10, i) < g)), "solvers are set up, run and finished in order"); fsx_check(e > find(8, n - 1) && (i == 0 || e > find(9, i - 1)) && g > find(9, n - 1), "solvers run in the order of the input, once all are set up"); Ev& x = ev[e]; double want = end[i] > 0 ? end[i] : final; if (want > final) want = final; if (want < t) want = t; fsx_check(x.id == (size_t)i && x.heat == heat[i], "a solver has its number and options"); fsx_check_near(x.a, t, 1e-12, "a solver starts when the one before ends"); fsx_check_near(x.b, want, 1e-12, "a solver ends when it is told to, within the run, or at its end"); t = want; } fsx_cover(n == 1 ? "one solver" : n == 2 ? "two solvers" : "three solvers"); }
static const char* PATHS[7][3] = {{"in.yaml", "m.geo", "m.geo"}, {"a/b/in.yaml", "m.geo", "a/b/m.geo"}, {"a/in.yaml", "../m.geo", "m.geo"}, {"/tmp/fsx_drive/in.yaml", "d/m.geo", "/tmp/fsx_drive/d/m.geo"}, {"a/in.yaml", "/y/m.geo", "/y/m.geo"}, {"../in.yaml", "./m.geo", "../m.geo"}, {"/tmp/fsx_drive.yaml", "m.geo", "/tmp/m.geo"}};
FSX_ENTRY h_meshfile() { folders(); const char** p = PATHS[fsx_choose(7, "paths")]; Driver* d = drive(p[0]); IN->mesh_input.source = mesh_input::file; IN->mesh_input.file_path = p[1]; IN->dynamic_options.time_final = 1; solver_input_t s; s.method = solver_input::SGH3D; IN->solver_inputs.push_back(s); d->initialize(); nofolders(); fsx_check(count(1) == 1 && !built, "the mesh is read"); fsx_check(read_name == p[2], "a mesh file is found beside the input that names it"); fsx_cover("mesh file"); }
FSX_ENTRY h_refused() { Driver* d = drive("in.yaml"); int how = fsx_choose(3, "how"); IN->mesh_input.source = how == 0 ? mesh_input::none : mesh_input::generate; IN->dynamic_options.time_final = 1; solver_input_t s; s.method = how == 1 ? solver_input::NONE : solver_input::SGH3D; IN->solver_inputs.push_back(s); if (how == 2) { s.method = (solver_input::method)77; IN->solver_inputs.push_back(s); } bool no = false; try { d->initialize(); } catch (const std::runtime_error&) { no = true; } fsx_check(no && count(7) == 0, "inputs without a mesh or a known solver are refused"); fsx_cover("refused"); }
