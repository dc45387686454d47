#include "p17.hpp"
PBT_PROP(ranges_in_char8_t, 3) { p17::statics<char8_t>(s, cx); }
