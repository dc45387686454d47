#include "p36.hpp"
PBT_PROP(kinds_char32_t, 2) { p36::kinds<char32_t>(s, cx); }
