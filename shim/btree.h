#pragma once
#include "vx_phmap.hpp"
