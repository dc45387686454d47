#include "p08.hpp"
PBT_PROP(strings_of_char8_t, 3) { p08::statics<char8_t>(s, cx); }
