// The library seeds the C random generator from the clock; the harness takes
// its place so that a case is reproducible. detrand(seed) restarts the stream.
#pragma once
#include <cstdint>
void detrand(uint64_t seed);
