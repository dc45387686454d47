// P26: characters, booleans, pointers; letter case.
#include "common/intm.hpp"
#include "common/anyw.hpp"
namespace p26 {
using namespace pbt; using namespace tc;
struct Al { bool on; strf::alignment_format f; };
inline Al al(Src& s, Ctx& cx) { Al a{s.chance(3, 4), {}}; if (a.on) { zoo::Opt o; o.maxw = s.chance(1, 10) ? 2000 : 60; a.f = zoo::af(s, o, cx); } return a; }
// one of the spellings of the alignment
template <class A, class F> void spell(Src& s, const Al& a, const A& x, F&& f) {
    if (!a.on) { f(x); return; }
    auto w = a.f.width; auto c = a.f.fill; auto y = strf::fmt(x);
    unsigned k = (unsigned)s.draw(3);
    if (k == 0) { f(y.set_alignment_format(a.f)); return; }
    switch (a.f.alignment) {
        case strf::text_alignment::left: if (k == 1) f(y.fill(c) < w); else f(strf::left(x, w, c)); break;
        case strf::text_alignment::right: if (k == 1) f(y.fill(c) > w); else f(strf::right(x, w, c)); break;
        default: if (k == 1) f(y.fill(c) ^ w); else f(strf::center(x, w, c)); break;
    }
}
template <class C> std::basic_string<C> model(int cs, const Al& a, int64_t w, const std::basic_string<C>& content) { return a.on ? strm::align<C>(cs, a.f, w, content) : content; }
inline int64_t times(strf::width_t w, long n) { return (int64_t)w.underlying_value() * n; }
// any way to ask for n copies
template <class V, class F> void copies(Src& s, const Al& a, V v, long n, F&& f) {
    auto go = [&](auto k) { if (s.coin()) spell(s, a, strf::multi(v, k), f); else if (a.on && s.coin()) f(strf::fmt(v).set_alignment_format(a.f).multi(k)); else spell(s, a, strf::fmt(v).multi(k), f); };
    switch (s.draw(6)) { case 0: go((int)n); break; case 1: go((long long)n); break; case 2: if (n == (short)n) { go((short)n); break; } [[fallthrough]];
        case 3: if (n >= 0) { go((size_t)n); break; } [[fallthrough]];
        case 4: if (n >= 0 && n < 128) { go((unsigned char)n); break; } [[fallthrough]];
        default: if (n == 1) { if (s.coin()) spell(s, a, v, f); else if (a.on) f(strf::fmt(v).set_alignment_format(a.f)); else f(strf::fmt(v)); } else go((int)n); }
}
inline long count(Src& s) { if (s.chance(1, 40)) return s.pick<long>({32766, 65534, 65536}) + (long)s.draw(4); switch (s.draw(6)) { case 0: return 0; case 1: return -(long)s.draw(s.coin() ? 4 : 30000); case 2: return 1; case 3: return (long)s.draw(12); case 4: return (long)s.draw(100); default: return (long)s.draw(2500); } }
template <class C, class Pack, class A> std::basic_string<C> print(Src& s, const Pack& pk, const A& a) {
    Chunked<C> d(chunk_sizes(s)); size_t pre = s.draw(80); std::basic_string<C> lead(pre, (C)'~'); d.write(lead.data(), lead.size());
    strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a);
    auto r = d.finish(); check_eq("text before the argument", r.substr(0, pre), lead); return r.substr(pre);
}
template <class C, class Pack, class CsObj> void chars(Src& s, Ctx& cx, int cs, CsObj csobj, const Pack& base, const AnyWidth& w) {
    auto pk = strf::pack(base, w);
    bool c32 = s.coin(); long n = count(s); Al a = al(s, cx);
    if (c32) {
        char32_t ch = cs != UTF && s.coin() ? sbc_cp(s, cs) : s.coin() ? gen::any_cp(s) : (char32_t)('!' + s.draw(90));
        if (cx.want_text) cx.text << " U+" << std::hex << (unsigned)ch << std::dec << " x" << n;
        long k = n < 0 ? 0 : n; bool own = std::is_same<C, char32_t>::value;
        std::basic_string<C> u = own ? std::basic_string<C>(1, (C)ch) : raw_encode<C>(cs, ch), content; for (long i = 0; i < k; ++i) content += u;
        auto want = model<C>(cs, a, times(w.char_width(strf::utf<char32_t>, ch), k), content);
        cx.nt(n != 1 || ch >= 0x80 || a.on); cx.label(own ? "char32_t to itself" : "char32_t converted"); if (n < 0) cx.label("negative count");
        copies(s, a, ch, n, [&](const auto& x) { check_eq("char32_t", print<C>(s, pk, x), want); });
        return;
    }
    C ch = s.chance(1, 4) ? (C)('!' + s.draw(90)) : sizeof(C) == 1 ? (C)s.draw(256) : sizeof(C) == 2 ? (C)(s.coin() ? 0xD800 + s.draw(0x800) : s.draw(0x10000)) : (C)gen::any_cp(s);
    if (cx.want_text) cx.text << " " << show(std::basic_string<C>(1, ch)) << " x" << n;
    long k = n < 0 ? 0 : n;
    auto want = model<C>(cs, a, times(w.char_width(csobj, ch), k), std::basic_string<C>(k, ch));
    cx.nt(n != 1 || (uint32_t)ch >= 0x80 || a.on); cx.label("own type"); if (n < 0) cx.label("negative count");
    copies(s, a, ch, n, [&](const auto& x) { check_eq("char", print<C>(s, pk, x), want); });
}
template <class C, class Pack> void words(Src& s, Ctx& cx, int cs, const Pack& base) {
    auto lc = intm::lcase(s); auto pk = strf::pack(base, lc); Al a = al(s, cx); bool U = lc == strf::lettercase::upper, M = lc == strf::lettercase::mixed;
    if (cx.want_text) cx.text << (U ? " upper" : M ? " mixed" : " lower");
    if (s.coin()) {
        bool v = s.coin(); std::string t = v ? (U ? "TRUE" : M ? "True" : "true") : (U ? "FALSE" : M ? "False" : "false");
        if (cx.want_text) cx.text << " " << t; cx.nt(a.on || lc != strf::lettercase::lower); cx.label("bool");
        auto want = model<C>(cs, a, (int64_t)t.size() << 16, std::basic_string<C>(t.begin(), t.end()));
        spell(s, a, v, [&](const auto& x) { check_eq("bool", print<C>(s, pk, x), want); });
        return;
    }
    uint64_t b = gen::u64(s); char t[40]; snprintf(t, sizeof t, U ? "0X%llX" : M ? "0x%llX" : "0x%llx", (unsigned long long)b); std::string w = t;
    if (cx.want_text) cx.text << " pointer " << t; cx.nt(); cx.label("pointer");
    auto want = model<C>(cs, a, (int64_t)w.size() << 16, std::basic_string<C>(w.begin(), w.end()));
    auto chk = [&](const auto& x) { check_eq("pointer", print<C>(s, pk, x), want); };
    if (s.coin()) spell(s, a, (const void*)(uintptr_t)b, chk); else spell(s, a, (void*)(uintptr_t)b, chk);
}
// letter case changes nothing but the letters of numbers and booleans
template <class C> void letters(Src& s, Ctx& cx) {
    zoo::Pool<C> p; zoo::Opt o; zoo::Facets f = zoo::facets(s); f.p10.thousands_sep(U','); f.p16.thousands_sep(U'\''); f.p8.thousands_sep(U'_'); f.p10.decimal_point(U'.'); f.p16.decimal_point(U'.');
    int kind = (int)s.draw(28); // no ranges, joins, tr-strings
    zoo::visit<C>(s, cx, p, o, [&](const auto& x) {
        auto at = [&](strf::lettercase lc) { Chunked<C> d(chunk_sizes(s)); f.lc = lc; strf::to(static_cast<strf::destination<C>&>(d)).with(zoo::pack(f))(x); return d.finish(); };
        auto lo = at(strf::lettercase::lower), mi = at(strf::lettercase::mixed), up = at(strf::lettercase::upper);
        bool num = (kind >= 9 && kind <= 21) || kind == 26 || kind == 27; cx.nt(lo != up); cx.label(num ? "numbers and booleans" : "text");
        if (!num) { check_eq("text, in mixed case", mi, lo); check_eq("text, in upper case", up, lo); return; }
        check(lo.size() == up.size() && lo.size() == mi.size(), "the letter case changes the size");
        // `up` has no lower-case letter where `lo` has an upper-case one, etc. (the fill does not change)
        for (size_t i = 0; i < lo.size(); ++i) {
            auto ok = [&](C a, C b) { return a == b || ((uint32_t)a >= 'a' && (uint32_t)a <= 'z' && (uint32_t)b == (uint32_t)a - 32); };
            if (!ok(lo[i], up[i]) || !ok(lo[i], mi[i]) || !ok(mi[i], up[i])) fail("the letter case changes another character: " + show(lo) + " " + show(mi) + " " + show(up));
            if (lo[i] != up[i] && !strchr("abcdefxpnitrusl", (int)lo[i])) fail("the letter case changes another letter: " + show(lo) + " " + show(up));
        }
    }, kind);
}
template <class C> void statics(Src& s, Ctx& cx) { AnyWidth w = any_width(s, cx); chars<C>(s, cx, UTF, strf::utf<C>, strf::pack(), w); }
}
#define P26(C) PBT_PROP(characters_of_##C, 3) { p26::statics<C>(s, cx); } PBT_PROP(booleans_and_pointers_in_##C, 2) { p26::words<C>(s, cx, tc::UTF, strf::pack()); } PBT_PROP(letter_case_in_##C, 1) { p26::letters<C>(s, cx); }
