#include "p17.hpp"
PBT_PROP(ranges_in_char32_t, 3) { p17::statics<char32_t>(s, cx); }
