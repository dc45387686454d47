#include "p08.hpp"
PBT_PROP(strings_of_wchar_t, 3) { p08::statics<wchar_t>(s, cx); }
