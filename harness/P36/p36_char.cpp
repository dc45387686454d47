#include "p36.hpp"
PBT_PROP(kinds_char, 2) { p36::kinds<char>(s, cx); }
