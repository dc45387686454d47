#include "p07.hpp"
PBT_PROP(aligned_in_char, 3) { p07::statics<char>(s, cx); }
