#pragma once
#include "model.h"
Plan generate(const std::string &prop, uint64_t seed);
extern const std::vector<std::string> sim_props;
