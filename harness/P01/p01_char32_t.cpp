#include "p01.hpp"
PBT_PROP(integers_in_char32_t, 2) { p01::gen_case<char32_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
