import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'cz_commit'; property = 'P25'
edits = [('apps/multiphysics/src/Solvers/SGH_solver_3D/src/fracture.cpp', 'if (rk_stage != rk_num_stages - 1) return;', 'if (rk_stage != 0) return;')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_frac.cpp', ['h_step'], 60)
needs = 'a step of two or more stages with damage growing in the last'
what = 'damage and history of a cohesive zone are those of the first stage'
