// the static-format printers
#define ZOO_VISIT zoo::visit_more
#define p24 p24m
#include "p24.hpp"
PBT_PROP(static_formats_char16_t, 5) { p24::plain<char16_t>(s, cx); }
