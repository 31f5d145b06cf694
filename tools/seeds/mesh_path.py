import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'mesh_path'; property = 'P24'
edits = [('apps/multiphysics/src/driver.cpp', '!mesh_path.is_absolute()', '!mesh_path.has_parent_path()')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_drive.cpp', ['h_meshfile'], 60, all=True)
needs = 'a mesh file named by a relative path with a folder'
what = 'the mesh is looked for from the working directory'
