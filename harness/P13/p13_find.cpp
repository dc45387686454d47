#include "P13/p13.hpp"
using namespace p13;
namespace {
template <class A, class B> void st(Src& s, Ctx& cx, int i, A a, int j, B b) {
    using S = typename A::code_unit; using D = typename B::code_unit;
    strf::dynamic_transcoder<S, D> t{strf::find_transcoder(a, b)};
    std::string w = "find_transcoder(" + cs_name<S>(i) + ", " + cs_name<D>(j) + ")";
    found<S, D>(s, cx, i, j, t, direct_exists<S, D>(i, j), w);
}
}
PBT_PROP(find_static, 3) {
    // static x static: UTF x UTF, and each single-byte charset with itself, another one and the UTFs
    switch (s.draw(4)) {
        case 0: visit_unit(s, [&](auto* p) { visit_unit(s, [&](auto* q) { st(s, cx, UTF, strf::utf<std::remove_pointer_t<decltype(p)>>, UTF, strf::utf<std::remove_pointer_t<decltype(q)>>); }); }); break;
        case 1: { int k = (int)s.draw(sbc::count); visit_sbc(k, [&](auto c) { visit_unit(s, [&](auto* q) { st(s, cx, k, c, UTF, strf::utf<std::remove_pointer_t<decltype(q)>>); }); }); break; }
        case 2: { int k = (int)s.draw(sbc::count); visit_sbc(k, [&](auto c) { visit_unit(s, [&](auto* q) { st(s, cx, UTF, strf::utf<std::remove_pointer_t<decltype(q)>>, k, c); }); }); break; }
        default: { int k = (int)s.draw(sbc::count); visit_sbc(k, [&](auto c) { if (s.coin()) st(s, cx, k, c, k, c); else { int j = (int)s.draw(sbc::count); if (s.coin()) st(s, cx, k, c, j, sbc_dyn()[j]); else st(s, cx, j, sbc_dyn()[j], k, c); } }); }
    }
}
