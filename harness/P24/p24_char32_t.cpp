#include "p24.hpp"
PBT_PROP(measure_char32_t, 5) { p24::plain<char32_t>(s, cx); }
