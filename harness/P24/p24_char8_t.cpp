#include "p24.hpp"
PBT_PROP(measure_char8_t, 5) { p24::plain<char8_t>(s, cx); }
