#pragma once
#include "fsx_mesh.h"
