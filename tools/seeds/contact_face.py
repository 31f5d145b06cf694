import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'contact_face'; property = 'P26'
edits = [('apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp', 'xi_val = -iso_P[0];', 'xi_val = iso_P[0];')]
demo, files = seedlib.prop('SGH_solver_3D', 'mp_contact.cpp', ['h_find'], 60)
needs = 'a node going through the fourth face off its middle'
what = 'the contact force goes to the mirrored side of the face'
