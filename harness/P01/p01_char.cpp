#include "p01.hpp"
PBT_PROP(integers_in_char, 3) { p01::gen_case<char>(s, cx, tc::UTF, [](auto p) { return p; }); }
