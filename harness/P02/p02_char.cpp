#include "p02.hpp"
PBT_PROP(grouping_in_char, 3) { p02::gen_case<char>(s, cx, tc::UTF, [](auto p) { return p; }); }
