import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import fill_energy
id = 'fill_full'; property = 'P17'
edits = [('apps/multiphysics/src/common/src/region_fill.cpp', 'if (combined_volfrac < 1.0 - 1.0e-8){', 'if (combined_volfrac < 1.0 - 1.0e-2){')]
demo, files = seedlib.mp('SGH_solver_3D', fill_energy.BODY + r'''
int main() { Sim t(2); for (int f = 0; f < 2; f++) { RegionFill_t& r = t.R(f); r.material_id = f; r.volfrac = f ? 0.995 : 0.005; r.den_field = r.sie_field = init_conds::uniform; r.den = 2 + f; } t.run(); printf("materials in the element: %zu\n", t.S.MeshtoMaterialMaps.num_mats_in_elem.host(0)); return t.S.MeshtoMaterialMaps.num_mats_in_elem.host(0) != 2; }
''')
needs = 'a partial fill of more than 99 percent over a trace of another material'
what = 'the trace material is dropped and the mass of the element changes'
