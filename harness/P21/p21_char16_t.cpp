#include "p21.hpp"
PBT_PROP(histories_char16_t, 2) { p21::makers<std::basic_string<char16_t>>(s, cx); }
PBT_PROP(policies_char16_t, 2) { p21::policies<std::basic_string<char16_t>>(s, cx); }
