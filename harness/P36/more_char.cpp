#define ZOO_VISIT zoo::visit_more
#include "p36.hpp"
PBT_PROP(static_formats_char, 2) { p36::kinds<char>(s, cx); }
