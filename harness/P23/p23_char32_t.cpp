#include "p23.hpp"
PBT_PROP(arguments_char32_t, 5) { p23::plain<char32_t>(s, cx); }
