#include "p07.hpp"
PBT_PROP(aligned_in_char32_t, 3) { p07::statics<char32_t>(s, cx); }
