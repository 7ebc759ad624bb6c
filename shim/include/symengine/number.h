#pragma once
#include "symengine/symengine_shim.hpp"
