#include "p23.hpp"
PBT_PROP(arguments_char8_t, 5) { p23::plain<char8_t>(s, cx); }
