#include "p02.hpp"
PBT_PROP(grouping_in_char16_t, 1) { p02::gen_case<char16_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
