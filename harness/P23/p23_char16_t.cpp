#include "p23.hpp"
PBT_PROP(arguments_char16_t, 5) { p23::plain<char16_t>(s, cx); }
