// All library headers, straight from the working tree's src directory.
#ifndef SLSM_ALL_H
#define SLSM_ALL_H
#include <algorithm>
#include <functional>
#include <vector>
#include <string>
#include <cerrno>
#include "Common.h"
#include "Debug.h"
#include "Hole.h"
#include "MersenneTwister.h"
#include "Mesh.h"
#include "Heap.h"
#include "FastMarchingMethod.h"
#include "LevelSet.h"
#include "Boundary.h"
#include "Sensitivity.h"
#include "InputOutput.h"
#endif
