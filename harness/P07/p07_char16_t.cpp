#include "p07.hpp"
PBT_PROP(aligned_in_char16_t, 3) { p07::statics<char16_t>(s, cx); }
