#include "p06.hpp"
PBT_PROP(decorated_in_dynamic_charset, 3) { int k = (int)s.draw(sbc::count + 1) - 1;
    p06::gen_case<char>(s, cx, k, [k](auto p) { return strf::pack(p, k == tc::UTF ? strf::utf<char>.to_dynamic() : tc::sbc_dyn()[k]); }); }
