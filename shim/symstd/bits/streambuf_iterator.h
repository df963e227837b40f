#pragma once
#include <vx_stream.hpp>
