#define P36_COMP
#include "p36.hpp"
PBT_PROP(compositions_char, 4) { p36::compositions<char>(s, cx); }
