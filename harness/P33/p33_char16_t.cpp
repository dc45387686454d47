#include "p33.hpp"
PBT_PROP(printers_char16_t, 5) { p33::plain<char16_t>(s, cx); }
