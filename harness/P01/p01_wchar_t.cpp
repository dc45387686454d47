#include "p01.hpp"
PBT_PROP(integers_in_wchar_t, 1) { p01::gen_case<wchar_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
