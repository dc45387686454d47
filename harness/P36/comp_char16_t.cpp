#define P36_COMP
#include "p36.hpp"
PBT_PROP(compositions_char16_t, 4) { p36::compositions<char16_t>(s, cx); }
