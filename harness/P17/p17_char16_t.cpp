#include "p17.hpp"
PBT_PROP(ranges_in_char16_t, 3) { p17::statics<char16_t>(s, cx); }
