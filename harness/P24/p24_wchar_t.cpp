#include "p24.hpp"
PBT_PROP(measure_wchar_t, 5) { p24::plain<wchar_t>(s, cx); }
