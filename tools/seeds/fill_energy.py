import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'fill_energy'; property = 'P18'
edits = [('apps/multiphysics/src/common/src/region_fill.cpp', 'if(fillGaussState.use_sie.host(gauss_gid,a_mat_in_elem)){', 'if(fillGaussState.use_sie.host(gauss_gid,0)){')]
BODY = r'''
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#include "common/src/geometry_new.cpp"
#include "common/src/region_fill.cpp"
struct Sim { swage::Mesh mesh; SimulationParameters_t P; Material_t M; BoundaryCondition_t B; State_t S; fillGaussState_t G; fillElemState_t E;
  Sim(size_t nf) { swage::fsx_block(mesh, 3, 2, 1, 1); S.node.initialize(mesh.num_nodes, 3, {node_state::coords, node_state::velocity, node_state::temp}); S.GaussPoints.initialize(2, 3, {gauss_pt_state::volume}); for (size_t n = 0; n < mesh.num_nodes; n++) { S.node.coords(n, 0) = n % 3; S.node.coords(n, 1) = n / 3 % 2; S.node.coords(n, 2) = n / 6; }
    M.num_mats = 2; M.max_num_mats_per_element = 3; P.region_setups.region_fills = CArrayKokkos<RegionFill_t>(nf); P.region_setups.region_fills_host = CArray<RegionFill_host_t>(nf); P.mesh_input.object_ids = DCArrayKokkos<int>(2); P.region_setups.fill_gauss_states = {fill_gauss_state::internal_energy, fill_gauss_state::density, fill_gauss_state::specific_internal_energy}; for (size_t f = 0; f < nf; f++) R(f).volume = region::global; }
  RegionFill_t& R(size_t f) { return P.region_setups.region_fills(f); }
  void run() { simulation_setup(P, M, mesh, B, S, G, E); S.MaterialToMeshMaps.initialize(); S.MaterialPoints.initialize(3, {material_pt_state::density, material_pt_state::mass, material_pt_state::volume_fraction, material_pt_state::specific_internal_energy}); material_state_setup(P, M, mesh, B, S, G, E); } };
'''
demo, files = seedlib.mp('SGH_solver_3D', BODY + r'''
int main() { Sim t(2); for (int f = 0; f < 2; f++) { RegionFill_t& r = t.R(f); r.material_id = f; r.volfrac = 0.5; r.den_field = init_conds::uniform; r.den = 2 + f; } t.R(0).sie_field = init_conds::uniform; t.R(0).sie = 7; t.R(1).ie_field = init_conds::uniform; t.R(1).ie = 9; t.run(); double a = t.S.MaterialPoints.sie.host(0, 0), b = t.S.MaterialPoints.sie.host(1, 0) * t.S.MaterialPoints.mass.host(1, 0); printf("specific energy of the first material %g, energy of the second %g\n", a, b); return std::fabs(a - 7) > 1e-12 || std::fabs(b - 9) > 1e-12; }
''')
needs = 'an element shared by a material with a specific and one with an extensive energy'
what = 'the second material starts without the energy its region gives'
