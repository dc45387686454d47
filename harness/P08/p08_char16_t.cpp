#include "p08.hpp"
PBT_PROP(strings_of_char16_t, 3) { p08::statics<char16_t>(s, cx); }
