#include "p17.hpp"
PBT_PROP(ranges_in_wchar_t, 3) { p17::statics<wchar_t>(s, cx); }
