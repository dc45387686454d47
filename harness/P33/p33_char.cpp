#include "p33.hpp"
PBT_PROP(printers_char, 5) { p33::plain<char>(s, cx); }
