#include "p26.hpp"
PBT_PROP(characters_in_dynamic_charsets, 3) { int k = (int)s.draw(sbc::count + 1) - 1; AnyWidth w = any_width(s, cx); if (cx.want_text) cx.text << " " << tc::cs_name<char>(k);
    auto c = k == tc::UTF ? strf::utf<char>.to_dynamic() : tc::sbc_dyn()[k]; p26::chars<char>(s, cx, k, c, strf::pack(c), w); }
PBT_PROP(booleans_and_pointers_in_dynamic_charsets, 1) { int k = (int)s.draw(sbc::count + 1) - 1; auto c = k == tc::UTF ? strf::utf<char>.to_dynamic() : tc::sbc_dyn()[k]; if (cx.want_text) cx.text << " " << tc::cs_name<char>(k); p26::words<char>(s, cx, k, strf::pack(c)); }
