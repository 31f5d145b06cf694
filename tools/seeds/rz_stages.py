import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'rz_stages'; property = 'P23'
edits = [('apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp', 'double rk_alpha = 1.0 / ((double)rk_num_stages - (double)rk_stage);', 'double rk_alpha = ((double)rk_stage + 1.0) / (double)rk_num_stages;')]
demo, files = seedlib.prop('SGH_solver_rz', 'mp_run_rz.cpp', ['h_rzaxis'], 80)
needs = 'three or more stages (one and two are as before)'
what = 'the second of three stages advances to the wrong time'
