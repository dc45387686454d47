#include "p03.hpp"
using namespace p03;
PBT_PROP(doubles_in_char16_t, 1) { one<char16_t, double>(s, cx); }
PBT_PROP(floats_in_char16_t, 1) { one<char16_t, float>(s, cx); }
PBT_PROP(doubles_in_char32_t, 1) { one<char32_t, double>(s, cx); }
