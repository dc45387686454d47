#include "p33.hpp"
PBT_PROP(printers_char32_t, 5) { p33::plain<char32_t>(s, cx); }
