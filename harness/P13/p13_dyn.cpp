#include "P13/p13.hpp"
using namespace p13;
PBT_PROP(dynamic_charsets, 4) {
    auto f = [&](int k, auto cs) { ops(s, cx, k, cs, "dynamic"); };
    if (s.coin()) visit_unit(s, [&](auto* q) { using C = std::remove_pointer_t<decltype(q)>; f(UTF, s.coin() ? strf::utf<C>.to_dynamic() : strf::dynamic_charset<C>(strf::utf<C>)); });
    else { int k = (int)s.draw(sbc::count); f(k, sbc_dyn()[k]); }
}
PBT_PROP(find_dynamic, 4) {
    visit_dyn(s, cx, [&](auto p) { using P = decltype(p); using A = decltype(p.a); using B = decltype(p.b);
        using S = typename A::code_unit; using D = typename B::code_unit;
        strf::dynamic_transcoder<S, D> t{strf::find_transcoder(p.a, p.b)}; (void)sizeof(P);
        found<S, D>(s, cx, p.scs, p.dcs, t, direct_exists<S, D>(p.scs, p.dcs), "find_transcoder(dynamic, dynamic)");
    });
}
