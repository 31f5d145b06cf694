import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'film_patch'; property = 'P12'
edits = [('apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp', 'node_b_gid = mesh.nodes_in_patch(patch_gid, 3);', 'node_b_gid = mesh.nodes_in_patch(patch_gid, 1);', 0)]
demo, files = seedlib.prop('SGTM_solver_3D', 'mp_sgtm.cpp', ['h_convection'], 60)
needs = 'a boundary patch that is no parallelogram'
what = 'convection uses the wrong area'
