#define ZOO_VISIT zoo::visit_more
#include "p33.hpp"
PBT_PROP(static_formats_char, 5) { p33::plain<char>(s, cx); }
