#pragma once
#include "matar.h"
