#pragma once
#include "../mc_tbb.hpp"
