#include "p23.hpp"
PBT_PROP(arguments_wchar_t, 5) { p23::plain<wchar_t>(s, cx); }
