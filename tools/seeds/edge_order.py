import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'edge_order'; property = 'P19'
edits = [('apps/multiphysics/src/common/include/mesh_io.hpp', '2 * (order[0] - 1) + order[1] - 1)', '2 * (order[1] - 1) + order[0] - 1)')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_mesh.cpp', ['h_lagrange'], 6000)
needs = 'elements of different order along x and y'
what = 'two points of an element get the same number'
