#include "p33.hpp"
PBT_PROP(printers_wchar_t, 5) { p33::plain<wchar_t>(s, cx); }
