import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'out_cp'; property = 'P20'
edits = [('apps/multiphysics/src/common/include/mesh_io.hpp', 'elem_scalar_fields(specific_heat_id, elem_gid) += MaterialPoints.specific_heat(mat_id, mat_elem_sid)*\n                                                                              MaterialPoints.volfrac(mat_id, mat_elem_sid)*\n                                                                              MaterialPoints.geo_volfrac(mat_id, mat_elem_sid);', 'elem_scalar_fields(specific_heat_id, elem_gid) += MaterialPoints.specific_heat(mat_id, mat_elem_sid)*\n                                                                              MaterialPoints.volfrac(mat_id, mat_elem_sid);')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_out.cpp', ['h_viz3'], 60)
needs = 'several parts in an element and the specific heat among the outputs'
what = 'the specific heat written is not weighed by the geometric volume fraction'
