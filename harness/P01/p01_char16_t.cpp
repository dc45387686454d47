#include "p01.hpp"
PBT_PROP(integers_in_char16_t, 2) { p01::gen_case<char16_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
