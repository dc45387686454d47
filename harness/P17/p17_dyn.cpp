#include "p17.hpp"
PBT_PROP(ranges_in_runtime_charsets, 2) { p17::dynamics(s, cx); }
