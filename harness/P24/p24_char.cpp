#include "p24.hpp"
PBT_PROP(measure_char, 5) { p24::plain<char>(s, cx); }
