#include "p36.hpp"
PBT_PROP(kinds_char8_t, 2) { p36::kinds<char8_t>(s, cx); }
