#pragma once
#include "interface/common.hpp"
#include "interface/types.hpp"
