#include "p04.hpp"
PBT_PROP(doubles_in_char, 6) { p04::one<char, double>(s, cx); }
PBT_PROP(floats_in_char, 3) { p04::one<char, float>(s, cx); }
