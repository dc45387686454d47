#include "p07.hpp"
PBT_PROP(aligned_in_wchar_t, 3) { p07::statics<wchar_t>(s, cx); }
