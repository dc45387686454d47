#include "p02.hpp"
PBT_PROP(grouping_in_wchar_t, 1) { p02::gen_case<wchar_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
