#include "P13/p13.hpp"
// the charsets' own lookups, single-byte charsets of char8_t, and comparison, swap and copies of type-erased charsets
using namespace p13;
namespace {
const std::vector<strf::dynamic_charset<char8_t>>& dyn8() {
    static const std::vector<strf::dynamic_charset<char8_t>> v = [] { std::vector<strf::dynamic_charset<char8_t>> r;
#define VX(n) r.push_back(strf::static_charset<char8_t, strf::csid_##n>::to_dynamic());
        SBC_LIST(VX)
#undef VX
        return r; }();
    return v;
}
template <class C> struct Any { int k; strf::dynamic_charset<C> cs; };
template <class C> Any<C> any(Src& s) {
    if constexpr (std::is_same_v<C, char> || std::is_same_v<C, char8_t>) if (s.coin()) { int k = (int)s.draw(sbc::count);
        if constexpr (std::is_same_v<C, char>) return {k, sbc_dyn()[k]}; else return {k, dyn8()[k]}; }
    return {UTF, strf::utf<C>.to_dynamic()};
}
template <class CS, class D> void lookup(Src& s, Ctx& cx, int i, CS cs, Any<D> o, const char* what) {
    using C = typename CS::code_unit; std::string w = std::string(what) + " " + cs_name<C>(i) + "/" + uname<C>::v + " with " + cs_name<D>(o.k) + "/" + uname<D>::v;
    bool utf = i == UTF && o.k == UTF, to = s.coin();
    if (to) { if constexpr (requires { cs.find_transcoder_to(strf::tag<D>{}, o.cs.id()); }) { strf::dynamic_transcoder<C, D> t{cs.find_transcoder_to(strf::tag<D>{}, o.cs.id())}; found<C, D>(s, cx, i, o.k, t, utf || (i == o.k), w + ": find_transcoder_to"); return; } }
    else if constexpr (requires { cs.find_transcoder_from(strf::tag<D>{}, o.cs.id()); }) { strf::dynamic_transcoder<D, C> t{cs.find_transcoder_from(strf::tag<D>{}, o.cs.id())}; found<D, C>(s, cx, o.k, i, t, utf || (i == o.k), w + ": find_transcoder_from"); return; }
    cx.label("no such member");
}
template <class F> void unit(Src& s, F&& f) { switch (s.draw(4)) { case 0: f((char*)0); break; case 1: f((char8_t*)0); break; case 2: f((char16_t*)0); break; default: f((wchar_t*)0); } }
}
PBT_PROP(own_lookup, 4) {
    visit_unit(s, [&](auto* p) { using C = std::remove_pointer_t<decltype(p)>; visit_unit(s, [&](auto* q) { using D = std::remove_pointer_t<decltype(q)>;
        auto o = any<D>(s); if (s.coin()) { auto a = any<C>(s); lookup(s, cx, a.k, a.cs, o, "dynamic"); } else lookup(s, cx, UTF, strf::utf<C>, o, "static"); }); });
}
PBT_PROP(own_lookup_single_byte, 2) {
    int k = (int)s.draw(sbc::count); visit_sbc(k, [&](auto cs) { visit_unit(s, [&](auto* q) { using D = std::remove_pointer_t<decltype(q)>; auto o = any<D>(s);
        if constexpr (sizeof(D) == 1) if (s.coin()) { o.k = k; if constexpr (std::is_same_v<D, char>) o.cs = sbc_dyn()[k]; else o.cs = dyn8()[k]; } lookup(s, cx, k, cs, o, "static"); }); });
}
PBT_PROP(char8_single_byte, 3) {
    if (s.coin()) { int k = (int)s.draw(sbc::count); ops(s, cx, k, dyn8()[k], "dynamic"); return; }
    auto b = any<char>(s); auto c = any<char8_t>(s); int k = (int)s.draw(sbc::count); if (s.coin()) c = {k, dyn8()[k]}; if (s.coin() && c.k != UTF) b = {c.k, sbc_dyn()[c.k]};
    if (s.coin()) { strf::dynamic_transcoder<char, char8_t> t{strf::find_transcoder(b.cs, c.cs)}; found<char, char8_t>(s, cx, b.k, c.k, t, b.k == c.k, "find_transcoder(char, char8_t)"); }
    else { strf::dynamic_transcoder<char8_t, char> t{strf::find_transcoder(c.cs, b.cs)}; found<char8_t, char>(s, cx, c.k, b.k, t, b.k == c.k, "find_transcoder(char8_t, char)"); }
}
PBT_PROP(charset_values, 1) {
    visit_unit(s, [&](auto* p) { using C = std::remove_pointer_t<decltype(p)>; auto a = any<C>(s), b = any<C>(s); if (s.coin()) b = a; cx.nt();
        std::string w = cs_name<C>(a.k) + " and " + cs_name<C>(b.k); if (cx.want_text) cx.text << w; bool eq = a.k == b.k; cx.label(eq ? "the same" : "different");
        auto need = [&](bool c, const char* m) { if (!c) fail(w + ": " + m); };
        need((a.cs == b.cs) == eq, "operator=="); need((a.cs != b.cs) == !eq, "operator!=");
        auto x = a.cs, y = b.cs; x.swap(y); need(x == b.cs && y == a.cs, "swap"); need(x.name() == cs_name<C>(b.k) && y.name() == cs_name<C>(a.k), "names after swap");
        x = y; need(x == a.cs, "assignment"); auto z = x.to_dynamic(); need(z == a.cs, "to_dynamic()");
    });
}
