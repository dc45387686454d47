#include "p33.hpp"
PBT_PROP(printers_char8_t, 5) { p33::plain<char8_t>(s, cx); }
