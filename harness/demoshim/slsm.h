// The combined header the library's build generates, as the demos include it.
#include "slsm_all.h"
#include "Optimise.h"
