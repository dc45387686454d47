#define P36_COMP
#include "p36.hpp"
PBT_PROP(compositions_char32_t, 4) { p36::compositions<char32_t>(s, cx); }
