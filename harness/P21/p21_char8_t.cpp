#include "p21.hpp"
PBT_PROP(histories_char8_t, 2) { p21::makers<std::basic_string<char8_t>>(s, cx); }
PBT_PROP(policies_char8_t, 2) { p21::policies<std::basic_string<char8_t>>(s, cx); }
