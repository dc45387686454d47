#include "p18.hpp"
PBT_PROP(joins_in_char16_t, 3) { p18::statics<char16_t>(s, cx); }
