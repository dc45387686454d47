#include "p18.hpp"
PBT_PROP(joins_in_char32_t, 3) { p18::statics<char32_t>(s, cx); }
