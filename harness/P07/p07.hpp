// P07: alignment, for every kind of argument.
#include "common/strm.hpp"
#include <strf/to_string.hpp>
namespace p07 {
using namespace strm;
template <class C> size_t codepoints(int cs, const std::basic_string<C>& t) { return tc::decode<C>(cs, t.data(), t.size(), true).size(); }
inline strf::width_t any_w(Src& s) {
    if (s.chance(1, 8)) return s.pick<strf::width_t>({strf::width_t(300), strf::width_t(1000), strf::width_t(3001), (strf::width_t::max)(), (strf::width_t::min)(), strf::width_t(-1), strf::width_t::from_underlying(0x8000), strf::width_t::from_underlying(-1)});
    return zoo::width(s, 90);
}
inline strf::int_format int_fmt(Src& s, Ctx& cx) {
    strf::int_format r; r.base = s.pick<int>({10, 16, 8, 2}); r.precision = s.coin() ? 0 : (int)s.draw(30); r.pad0width = s.coin() ? 0 : (int)s.draw(40); r.sign = zoo::sign(s); r.showbase = s.coin(); r.punctuate = s.coin();
    if (cx.want_text) cx.text << " int{b" << r.base << ",p" << r.precision << ",pad0 " << r.pad0width << ",sign" << (int)r.sign << ",sb" << r.showbase << ",punct" << r.punctuate << "}";
    return r;
}
inline strf::float_format float_fmt(Src& s, Ctx& cx) {
    strf::float_format r; r.notation = s.pick<strf::float_notation>({strf::float_notation::general, strf::float_notation::fixed, strf::float_notation::scientific, strf::float_notation::hex});
    r.precision = s.coin() ? -1 : (int)s.draw(30); r.pad0width = s.coin() ? 0 : (int)s.draw(40); r.sign = zoo::sign(s); r.showpoint = s.coin(); r.punctuate = s.coin();
    if (cx.want_text) cx.text << " float{n" << (int)r.notation << ",p" << r.precision << ",pad0 " << r.pad0width << ",sign" << (int)r.sign << ",pt" << r.showpoint << ",punct" << r.punctuate << "}";
    return r;
}
// print(af or null) gives the text. unit: width of the content in Q16.16, or -1: one per code point
template <class C, class P> void relate(Src& s, Ctx& cx, int cs, const strf::alignment_format& af, int64_t w, bool fill_is_content, const char* what, P&& print) {
    using S = std::basic_string<C>;
    auto z = af; z.width = strf::width_t(s.pick<int>({0, 0, -1, -300}));
    S base = print(&z);
    if (!fill_is_content) { S plain = print((strf::alignment_format*)nullptr); check_eq((std::string(what) + ": with a width of zero or less, against no alignment").c_str(), base, plain); }
    if (w < 0) w = (int64_t)codepoints(cs, base) << 16;
    S want = align<C>(cs, af, w, base);
    S got = print(&af);
    if (cx.want_text) cx.text << " content " << show(base);
    cx.nt(got.size() > base.size()); if (got.size() == base.size()) cx.label("nothing to add"); cx.label(what);
    check_eq(what, got, want);
}
template <class C, class Pack> void one(Src& s, Ctx& cx, int cs, const AnyWidth& w, const Pack& pk) {
    using S = std::basic_string<C>;
    auto to = strf::to_basic_string<C>.with(pk);
    strf::alignment_format af{gen::fill_char(s), any_w(s), zoo::align(s)};
    if (cx.want_text) cx.text << " " << uname<C>::v << " " << cs_name<C>(cs) << " align{fill=" << std::hex << (uint32_t)af.fill << std::dec << ",w=" << af.width.underlying_value() / 65536.0 << "," << (int)af.alignment << "}";
    auto P = [&](auto val, auto&& dress) { return [&, val](const strf::alignment_format* a) -> S { auto f = dress(val); return a ? (S)to(f.set_alignment_format(*a)) : (S)to(f); }; };
    auto N = [&](auto v) { if (cx.want_text) cx.text << " " << v; return v; };
    auto ident = [](auto v) { return strf::fmt(v); };
    auto cs_obj = [&](auto&& f) { if constexpr (std::is_same<C, char>::value) if (cs != UTF) { f(sbc_dyn()[cs]); return; } f(strf::utf<C>); };
    switch (s.draw(14)) {
        case 0: relate<C>(s, cx, cs, af, -1, false, "int", P(N(gen::integer<int>(s)), ident)); break;
        case 1: { auto f = int_fmt(s, cx); relate<C>(s, cx, cs, af, -1, f.sign == strf::showsign::fill_instead_of_positive, "integer", P(N(gen::integer<int64_t>(s)), [&](auto v) { return strf::fmt(v).set_int_format(f); })); break; }
        case 2: { auto f = int_fmt(s, cx); relate<C>(s, cx, cs, af, -1, f.sign == strf::showsign::fill_instead_of_positive, "unsigned", P(N(gen::integer<uint64_t>(s)), [&](auto v) { return strf::fmt(v).set_int_format(f); })); break; }
        case 3: { int p = (int)s.draw(9), z = (int)s.draw(14); relate<C>(s, cx, cs, af, -1, false, "hex", P(N(gen::integer<int16_t>(s)), [&](auto v) { return *!strf::hex(v).p(p).pad0(z); })); break; }
        case 4: { relate<C>(s, cx, cs, af, -1, false, "dec", P(N(gen::integer<int>(s)), [&](auto v) { return +!strf::dec(v); })); break; }
        case 5: relate<C>(s, cx, cs, af, -1, false, "double", P(N(gen::f64(s)), ident)); break;
        case 6: { auto f = float_fmt(s, cx); double v = N(gen::f64(s)); if (!std::isfinite(v)) f.pad0width = 0; relate<C>(s, cx, cs, af, -1, f.sign == strf::showsign::fill_instead_of_positive, "formatted double", P(v, [&](auto v) { return strf::fmt(v).set_float_format(f); })); break; }
        case 7: { auto f = float_fmt(s, cx); float v = N(gen::f32(s)); if (!std::isfinite(v)) f.pad0width = 0; relate<C>(s, cx, cs, af, -1, f.sign == strf::showsign::fill_instead_of_positive, "formatted float", P(v, [&](auto v) { return strf::fmt(v).set_float_format(f); })); break; }
        case 8: relate<C>(s, cx, cs, af, -1, false, "bool", P(N((bool)s.coin()), ident)); break;
        case 9: relate<C>(s, cx, cs, af, -1, false, "pointer", P(N((const void*)(uintptr_t)gen::u64(s)), ident)); break;
        case 10: { C c = s.coin() ? (C)('!' + s.draw(90)) : sizeof(C) == 4 ? (C)gen::scalar(s) : (C)s.draw(0); long n = s.coin() ? 1 : (long)s.draw(70); int64_t cw = 0; if (cx.want_text) cx.text << " unit " << (uint32_t)c << " x " << n;
            cs_obj([&](auto o) { cw = w.char_width(o, c).underlying_value() * n; }); if (cw > INT32_MAX) cw = INT32_MAX;
            relate<C>(s, cx, cs, af, cw, false, "character", P(c, [&](auto v) { return strf::multi(v, (int)n); })); break; }
        case 11: { char32_t c = gen::any_cp(s); long n = s.coin() ? 1 : (long)s.draw(70); int64_t cw = 0; if (cx.want_text) cx.text << " U+" << std::hex << (uint32_t)c << std::dec << " x " << n;
            if constexpr (sizeof(C) == 4 && std::is_same<C, char32_t>::value) { cs_obj([&](auto o) { cw = w.char_width(o, (C)c).underlying_value() * n; }); } else cw = w.char_width(strf::utf<char32_t>, c).underlying_value() * n;
            if (cw > INT32_MAX) cw = INT32_MAX;
            relate<C>(s, cx, cs, af, cw, false, "code point", P(c, [&](auto v) { return strf::multi(v, (int)n); })); break; }
        case 12: { S t = source_text<C>(s, cs, 40); if (cx.want_text) cx.text << show(t); std::basic_string_view<C> v(t); int64_t cw = 0; cs_obj([&](auto o) { cw = w.str_width(o, (strf::width_t::max)(), t.data(), t.data() + t.size()).underlying_value(); });
            relate<C>(s, cx, cs, af, cw, false, "string", P(v, ident)); break; }
        default: { int a = N(gen::integer<int>(s)); double b = N(gen::f64(s)); bool c = s.coin(); // a join is one content
            relate<C>(s, cx, cs, af, -1, false, "join", [&](const strf::alignment_format* f) -> S { return f ? (S)to(strf::join(a, !strf::hex(b), c).set_alignment_format(*f)) : (S)to(strf::join(a, !strf::hex(b), c)); }); break; }
    }
}
template <class C> void statics(Src& s, Ctx& cx) {
    AnyWidth w = any_width(s, cx); auto fc = zoo::facets(s);
    one<C>(s, cx, UTF, w, strf::pack(w, fc.p10, fc.p16, fc.p8, fc.lc));
}
inline void dynamics(Src& s, Ctx& cx) {
    AnyWidth w = any_width(s, cx); auto fc = zoo::facets(s); int k = (int)s.draw(sbc::count + 1) - 1;
    one<char>(s, cx, k, w, strf::pack(w, fc.p10, fc.p16, fc.p8, fc.lc, k == UTF ? strf::utf<char>.to_dynamic() : sbc_dyn()[k]));
}
}
