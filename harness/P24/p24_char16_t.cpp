#include "p24.hpp"
PBT_PROP(measure_char16_t, 5) { p24::plain<char16_t>(s, cx); }
