// The 3D staggered-grid hydrodynamics solver of apps/multiphysics, whole.
#pragma once
#include "matar.h"
#include "ELEMENTS.h"
#include "Solvers/SGH_solver_3D/src/boundary.cpp"
#include "Solvers/SGH_solver_3D/src/contact.cpp"
#include "Solvers/SGH_solver_3D/src/fracture.cpp"
#include "Solvers/SGH_solver_3D/src/energy_sgh.cpp"
#include "Solvers/SGH_solver_3D/src/force_sgh.cpp"
#include "Solvers/SGH_solver_3D/src/momentum.cpp"
#include "Solvers/SGH_solver_3D/src/position.cpp"
#include "Solvers/SGH_solver_3D/src/properties.cpp"
#include "Solvers/SGH_solver_3D/src/sgh_execute.cpp"
#include "Solvers/SGH_solver_3D/src/sgh_initialize.cpp"
#include "Solvers/SGH_solver_3D/src/sgh_setup.cpp"
#include "Solvers/SGH_solver_3D/src/time_integration.cpp"
#include "common/src/geometry_new.cpp"
#include "solver.cpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
typedef DRaggedRightArrayKokkos<double> Ragged;
