#include "p18.hpp"
PBT_PROP(joins_in_char, 3) { p18::statics<char>(s, cx); }
