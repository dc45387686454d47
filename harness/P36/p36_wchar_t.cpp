#include "p36.hpp"
PBT_PROP(kinds_wchar_t, 2) { p36::kinds<wchar_t>(s, cx); }
