#include "p21.hpp"
PBT_PROP(histories_wchar_t, 2) { p21::makers<std::basic_string<wchar_t>>(s, cx); }
PBT_PROP(policies_wchar_t, 2) { p21::policies<std::basic_string<wchar_t>>(s, cx); }
