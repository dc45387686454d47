#include "p06.hpp"
PBT_PROP(decorated_in_char16_t, 1) { p06::gen_case<char16_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
