#include "p36.hpp"
PBT_PROP(kinds_char16_t, 2) { p36::kinds<char16_t>(s, cx); }
