#include "p04.hpp"
PBT_PROP(doubles_in_char8_t, 1) { p04::one<char8_t, double>(s, cx); }
PBT_PROP(floats_in_char32_t, 1) { p04::one<char32_t, float>(s, cx); }
