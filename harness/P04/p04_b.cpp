#include "p04.hpp"
PBT_PROP(doubles_in_char16_t, 1) { p04::one<char16_t, double>(s, cx); }
PBT_PROP(floats_in_wchar_t, 1) { p04::one<wchar_t, float>(s, cx); }
