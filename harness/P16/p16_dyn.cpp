#include "p16.hpp"
PBT_PROP(templates_in_dynamic_charsets, 3) { int k = (int)s.draw(sbc::count + 1) - 1; auto c = k == tc::UTF ? strf::utf<char>.to_dynamic() : tc::sbc_dyn()[k]; p16::run<char>(s, cx, k, tc::cs_name<char>(k), strf::pack(c)); }
