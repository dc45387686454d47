#include "p06.hpp"
PBT_PROP(decorated_in_char8_t, 1) { p06::gen_case<char8_t>(s, cx, tc::UTF, [](auto p) { return p; }); }
