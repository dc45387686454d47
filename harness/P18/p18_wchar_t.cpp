#include "p18.hpp"
PBT_PROP(joins_in_wchar_t, 3) { p18::statics<wchar_t>(s, cx); }
