// Simulated world of arena strings: C13.
#define SIM_ARENA_STRING
#include "string_impl.hpp"
