import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'vtk_scale'; property = 'P21'
edits = [('apps/multiphysics/src/common/include/mesh_io.hpp', 'node.coords.host(node_gid, 2) = mesh_inps.scale_z*std::stod(v[2]);', 'node.coords.host(node_gid, 2) = mesh_inps.scale_y*std::stod(v[2]);')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_read.cpp', ['h_vtk3'], 60)
needs = 'a VTK mesh scaled differently along y and z'
what = 'the mesh is scaled by the wrong factor'
