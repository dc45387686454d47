#include "p07.hpp"
PBT_PROP(aligned_in_char8_t, 3) { p07::statics<char8_t>(s, cx); }
