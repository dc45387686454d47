#include "p18.hpp"
PBT_PROP(joins_in_char8_t, 3) { p18::statics<char8_t>(s, cx); }
