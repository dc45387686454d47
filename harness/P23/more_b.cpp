// the static-format printers
#define ZOO_VISIT zoo::visit_more
#define p23 p23m
#include "p23.hpp"
PBT_PROP(static_formats_char16_t, 5) { p23::plain<char16_t>(s, cx); }
