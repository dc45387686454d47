#include "p03.hpp"
using namespace p03;
PBT_PROP(doubles_in_char8_t, 1) { one<char8_t, double>(s, cx); }
PBT_PROP(doubles_in_wchar_t, 1) { one<wchar_t, double>(s, cx); }
PBT_PROP(floats_in_wchar_t, 1) { one<wchar_t, float>(s, cx); }
