#include "p01.hpp"
PBT_PROP(integers_in_dynamic_charset, 2) { int k = (int)s.draw(sbc::count + 1) - 1;
    p01::gen_case<char>(s, cx, k, [k](auto p) { return strf::pack(p, k == tc::UTF ? strf::utf<char>.to_dynamic() : tc::sbc_dyn()[k]); }); }
