#include "p06.hpp"
PBT_PROP(decorated_in_char, 3) { p06::gen_case<char>(s, cx, tc::UTF, [](auto p) { return p; }); }
