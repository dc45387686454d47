#include "p07.hpp"
PBT_PROP(aligned_in_runtime_charsets, 3) { p07::dynamics(s, cx); }
