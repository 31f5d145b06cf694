import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'lvl_signum'; property = 'P15'
edits = [('apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp', 'const double signum = GaussPoints_level_set(gauss_point)/(', 'const double signum = GaussPoints_level_set_n0(gauss_point)/(')]
demo, files = seedlib.prop('level_set_solver', 'mp_lvl.cpp', ['h_update3'], 60)
needs = 'the second stage of a step'
what = 'the sign of the distance is the one at the start of the step'
