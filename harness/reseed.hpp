// the hash functions of id sets are drawn from a global generator: start it anew with every execution
#pragma once
#include "mc.hpp"
#include "utils/Random.h"

static struct Reseed {
    Reseed() { mc::hooks().begin = [] { startGen.seed(START_SEED); }; }
} reseed_;
