#include "p08.hpp"
PBT_PROP(strings_of_char32_t, 3) { p08::statics<char32_t>(s, cx); }
