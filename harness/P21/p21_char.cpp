#include "p21.hpp"
PBT_PROP(histories_char, 2) { p21::makers<std::basic_string<char>>(s, cx); }
PBT_PROP(policies_char, 2) { p21::policies<std::basic_string<char>>(s, cx); }
