#include "p02.hpp"
PBT_PROP(grouping_in_char8_t, 1) { p02::gen_case<char8_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
