#include "p08.hpp"
PBT_PROP(strings_of_char, 3) { p08::statics<char>(s, cx); }
