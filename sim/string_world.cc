// Simulated world of heap strings: C10, C11, C12.
#include "string_impl.hpp"
