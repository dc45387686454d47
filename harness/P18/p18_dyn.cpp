#include "p18.hpp"
PBT_PROP(joins_in_runtime_charsets, 2) { p18::dynamics(s, cx); }
