#include "isl_shim.h"
