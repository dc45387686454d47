#include "p06.hpp"
PBT_PROP(decorated_in_wchar_t, 1) { p06::gen_case<wchar_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
