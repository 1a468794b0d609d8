#pragma once
#include "../../hpx_shim.hpp"
