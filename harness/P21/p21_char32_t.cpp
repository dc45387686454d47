#include "p21.hpp"
PBT_PROP(histories_char32_t, 2) { p21::makers<std::basic_string<char32_t>>(s, cx); }
PBT_PROP(policies_char32_t, 2) { p21::policies<std::basic_string<char32_t>>(s, cx); }
