#pragma once
#include "plan.h"
Plan generate(const std::string& prop, uint64_t seed);
