#include "p01.hpp"
PBT_PROP(integers_in_char8_t, 1) { p01::gen_case<char8_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
