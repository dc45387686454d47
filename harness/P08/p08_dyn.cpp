#include "p08.hpp"
PBT_PROP(strings_in_runtime_charsets, 3) { p08::dynamics(s, cx); }
