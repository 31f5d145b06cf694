import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'bc_slot'; property = 'P22'
edits = [('apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp', 'BoundaryConditions.vel_bdy_sets_in_solver.host(solver_id, num_saved) = bc_id;', 'BoundaryConditions.vel_bdy_sets_in_solver.host(solver_id, num_saved) = num_saved;')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_input.cpp', ['h_bc_vel', 'h_bc_stress', 'h_bc_temp', 'h_bc_mixed'], 60)
needs = 'velocity conditions mixed with others or for several solvers'
what = 'a velocity condition is applied to another set of nodes'
