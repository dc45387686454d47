#include "p23.hpp"
PBT_PROP(arguments_char, 5) { p23::plain<char>(s, cx); }
