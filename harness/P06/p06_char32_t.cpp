#include "p06.hpp"
PBT_PROP(decorated_in_char32_t, 1) { p06::gen_case<char32_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
