// A generator of printable arguments of every built-in kind, with formats.
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include "gen.hpp"
#include <strf/to_string.hpp>
#include <string_view>
#include <list>
#include <array>

namespace zoo {
using pbt::Src; using pbt::Ctx;

template <class C> struct name_of;
template <> struct name_of<char> { static constexpr const char* v = "char"; };
template <> struct name_of<char8_t> { static constexpr const char* v = "char8_t"; };
template <> struct name_of<char16_t> { static constexpr const char* v = "char16_t"; };
template <> struct name_of<char32_t> { static constexpr const char* v = "char32_t"; };
template <> struct name_of<wchar_t> { static constexpr const char* v = "wchar_t"; };

struct Opt { size_t maxstr = 90; int maxw = 90; bool bad_text = true; };

inline strf::width_t width(Src& s, int maxw) {
    switch (s.draw(5)) {
        case 0: return strf::width_t((int)s.draw(12));
        case 1: return strf::width_t::from_underlying((int32_t)s.range(-0x10000, (int64_t)maxw << 16));
        case 2: return strf::width_t((int)s.range(-2, maxw));
        default: return strf::width_t((int)s.draw(maxw + 1));
    }
}
inline strf::text_alignment align(Src& s) { return s.pick<strf::text_alignment>({strf::text_alignment::right, strf::text_alignment::left, strf::text_alignment::center}); }
inline strf::alignment_format af(Src& s, const Opt& o, Ctx& cx) {
    auto f = strf::alignment_format{gen::fill_char(s), width(s, o.maxw), align(s)};
    if (cx.want_text) cx.text << " align{fill=" << std::hex << (uint32_t)f.fill << std::dec << ",w=" << f.width.underlying_value() / 65536.0 << "," << (f.alignment == strf::text_alignment::left ? "left" : f.alignment == strf::text_alignment::right ? "right" : "center") << "}";
    return f;
}
inline strf::showsign sign(Src& s) { return s.pick<strf::showsign>({strf::showsign::negative_only, strf::showsign::positive_also, strf::showsign::fill_instead_of_positive}); }

template <class C> struct Pool {
    std::list<std::basic_string<C>> strs; std::list<std::string> s8; std::list<std::u16string> s16; std::list<std::u32string> s32;
    std::list<std::vector<int>> vi; std::list<std::vector<double>> vd; std::list<std::vector<std::basic_string<C>>> vs;
};

template <class C> std::basic_string<C>& text(Src& s, const Opt& o, Pool<C>& p, Ctx& cx) {
    p.strs.push_back(o.bad_text ? gen::any_text<C>(s, o.maxstr) : gen::valid_text<C>(s, o.maxstr));
    if (cx.want_text) cx.text << " " << pbt::show(p.strs.back());
    return p.strs.back();
}

// a position that is not inside a character
template <class C> size_t boundary(Src& s, const std::basic_string<C>& t) { size_t p = s.draw(t.size() + 1); while (p < t.size() && ((sizeof(C) == 1 && ((unsigned)t[p] & 0xC0) == 0x80) || (sizeof(C) == 2 && ((unsigned)t[p] & 0xFC00) == 0xDC00))) ++p; return p; }

constexpr int kinds = 34;

// calls f(arg) with a generated printable argument
template <class C, class F>
void visit(Src& s, Ctx& cx, Pool<C>& p, const Opt& o, F&& f, int kind = -1) {
    using S = std::basic_string<C>;
    int k = kind >= 0 ? kind : (int)s.draw(kinds);
    auto T = [&](const char* t) { if (cx.want_text) cx.text << " [" << t << "]"; };
    auto N = [&](auto v) { if (cx.want_text) cx.text << " " << v; return v; };
    auto strfi = [&]() { strf::int_format r; r.base = s.pick<int>({10, 16, 8, 2}); r.precision = (int)s.draw(30); r.pad0width = (int)s.draw(40); r.sign = sign(s); r.showbase = s.coin(); r.punctuate = s.coin();
        if (cx.want_text) cx.text << " int{b" << r.base << ",p" << r.precision << ",pad0 " << r.pad0width << ",sign" << (int)r.sign << ",sb" << r.showbase << ",punct" << r.punctuate << "}"; return r; };
    auto strff = [&]() { strf::float_format r; r.notation = s.pick<strf::float_notation>({strf::float_notation::general, strf::float_notation::fixed, strf::float_notation::scientific, strf::float_notation::hex});
        r.precision = s.coin() ? -1 : (int)s.draw(30); r.pad0width = s.coin() ? 0 : (int)s.draw(40); r.sign = sign(s); r.showpoint = s.coin(); r.punctuate = s.coin();
        if (cx.want_text) cx.text << " float{n" << (int)r.notation << ",p" << r.precision << ",pad0 " << r.pad0width << ",sign" << (int)r.sign << ",pt" << r.showpoint << ",punct" << r.punctuate << "}"; return r; };
    switch (k) {
        case 0: T("str"); f(std::basic_string_view<C>(text<C>(s, o, p, cx))); break;
        case 1: { T("str|align"); auto& t = text<C>(s, o, p, cx); f(strf::fmt(t).set_alignment_format(af(s, o, cx))); break; }
        case 2: { T("str.p"); auto& t = text<C>(s, o, p, cx); f(strf::fmt(t).p(width(s, o.maxw))); break; }
        case 3: { T("str.p|align"); auto& t = text<C>(s, o, p, cx); f(strf::fmt(t).p(width(s, o.maxw)).set_alignment_format(af(s, o, cx))); break; }
        case 4: { T("sani"); auto& t = text<C>(s, o, p, cx); f(strf::sani(t)); break; }
        case 5: { T("sani|p|align"); auto& t = text<C>(s, o, p, cx); f(strf::sani(t).p(width(s, o.maxw)).set_alignment_format(af(s, o, cx))); break; }
        case 6: { T("transcode16/8"); 
            if constexpr (sizeof(C) == 1) { p.s16.push_back(gen::any_text<char16_t>(s, o.maxstr)); if (cx.want_text) cx.text << pbt::show(p.s16.back()); f(strf::transcode(p.s16.back()).set_alignment_format(af(s, o, cx))); }
            else { p.s8.push_back(gen::any_text<char>(s, o.maxstr)); if (cx.want_text) cx.text << pbt::show(p.s8.back()); f(strf::transcode(p.s8.back()).set_alignment_format(af(s, o, cx))); } break; }
        case 7: { T("transcode32");
            if constexpr (!std::is_same<C, char32_t>::value) { p.s32.push_back(gen::any_text<char32_t>(s, o.maxstr)); if (cx.want_text) cx.text << pbt::show(p.s32.back()); f(strf::transcode(p.s32.back())); }
            else { p.s16.push_back(gen::any_text<char16_t>(s, o.maxstr)); if (cx.want_text) cx.text << pbt::show(p.s16.back()); f(strf::transcode(p.s16.back())); } break; }
        case 8: { T("latin1->"); 
            if constexpr (sizeof(C) == 1 && !std::is_same<C, char>::value) { p.s32.push_back(gen::any_text<char32_t>(s, o.maxstr)); f(strf::transcode(p.s32.back()).p(width(s, o.maxw))); }
            else { p.s8.push_back(gen::any_text<char>(s, o.maxstr)); if (cx.want_text) cx.text << pbt::show(p.s8.back()); f(strf::transcode(p.s8.back(), strf::iso_8859_3<char>).p(width(s, o.maxw))); } break; }
        case 9: T("int"); f(N(gen::integer<int>(s))); break;
        case 10: T("i64"); f(N(gen::integer<int64_t>(s))); break;
        case 11: { T("u64|align"); auto v = N(gen::integer<uint64_t>(s)); f(strf::fmt(v).set_alignment_format(af(s, o, cx))); break; }
        case 12: { T("i64 fmt"); auto v = N(gen::integer<int64_t>(s)); f(strf::fmt(v).set_int_format(strfi())); break; }
        case 13: { T("i64 fmt|align"); auto v = N(gen::integer<int64_t>(s)); f(strf::fmt(v).set_int_format(strfi()).set_alignment_format(af(s, o, cx))); break; }
        case 14: { T("hex(i16)"); auto v = N(gen::integer<int16_t>(s)); f(*strf::hex(v).p((int)s.draw(8)).set_alignment_format(af(s, o, cx))); break; }
        case 15: { T("!dec"); auto v = N(gen::integer<int64_t>(s)); f(+!strf::dec(v).pad0((int)s.draw(50))); break; }
        case 16: { T("bin"); auto v = N(gen::integer<uint64_t>(s)); f(*strf::bin(v)); break; }
        case 17: T("double"); f(N(gen::f64(s))); break;
        case 18: T("float"); f(N(gen::f32(s))); break;
        case 19: { T("double fmt"); auto v = N(gen::f64(s)); f(strf::fmt(v).set_float_format(strff())); break; }
        case 20: { T("double fmt|align"); auto v = N(gen::f64(s)); f(strf::fmt(v).set_float_format(strff()).set_alignment_format(af(s, o, cx))); break; }
        case 21: { T("float fixed"); auto v = N(gen::f32(s)); f(strf::fixed(v, (int)s.draw(60)).set_alignment_format(af(s, o, cx))); break; }
        case 22: T("char"); f((C)('!' + s.draw(90))); break;
        case 23: { T("multi"); auto c = (C)('!' + s.draw(90)); auto n = (int)s.draw(o.maxstr + 1); N(n); f(strf::multi(c, n).set_alignment_format(af(s, o, cx))); break; }
        case 24: { T("char32"); auto c = gen::any_cp(s); auto n = (int)s.draw(o.maxstr / 2 + 1); N((unsigned)c); N(n); f(strf::multi(c, n).set_alignment_format(af(s, o, cx))); break; }
        case 25: { T("char32"); auto c = gen::any_cp(s); N((unsigned)c); f(c); break; }
        case 26: { T("bool"); bool b = s.coin(); if (s.coin()) f(b); else f(strf::fmt(b).set_alignment_format(af(s, o, cx))); break; }
        case 27: { T("ptr"); auto v = (const void*)(uintptr_t)gen::u64(s); N(v); if (s.coin()) f(v); else f(strf::fmt(v).set_alignment_format(af(s, o, cx))); break; }
        case 28: { T("range<int>"); p.vi.emplace_back(); size_t n = s.size(20); for (size_t i = 0; i < n; ++i) p.vi.back().push_back(gen::integer<int>(s)); N(n);
            if (s.coin()) { auto& sep = text<C>(s, Opt{8, 0, false}, p, cx); for (auto& c : sep) if (c == 0) c = 'z'; f(strf::separated_range(p.vi.back(), sep.c_str())); } else f(strf::range(p.vi.back())); break; }
        case 29: { T("fmt_separated_range<double>"); p.vd.emplace_back(); size_t n = s.size(12); for (size_t i = 0; i < n; ++i) p.vd.back().push_back(gen::f64(s)); N(n);
            auto& sep = text<C>(s, Opt{8, 0, false}, p, cx); for (auto& c : sep) if (c == 0) c = 'z';
            f(strf::fmt_separated_range(p.vd.back(), sep.c_str()).set_float_format(strff()).set_alignment_format(af(s, Opt{20, 20, true}, cx))); break; }
        case 30: { T("range<str>"); p.vs.emplace_back(); size_t n = s.size(8); for (size_t i = 0; i < n; ++i) p.vs.back().push_back(gen::any_text<C>(s, 30)); N(n);
            f(strf::fmt_range(p.vs.back()).set_alignment_format(af(s, Opt{20, 20, true}, cx))); break; }
        case 31: { T("join"); auto& t = text<C>(s, o, p, cx); auto v = N(gen::integer<int64_t>(s)); auto d = N(gen::f64(s));
            f(strf::join(t, strf::hex(v) > 12, d, (C)'|').set_alignment_format(af(s, o, cx))); break; }
        case 32: { T("join plain nested"); auto& t = text<C>(s, o, p, cx); auto v = N(gen::integer<int64_t>(s)); auto a = af(s, o, cx); 
            f(strf::join(v, strf::join(t, true).set_alignment_format(a), strf::with(strf::lettercase::upper, strf::numpunct<16>(3))(!strf::hex(v)))); break; }
        default: { T("tr"); auto& t = text<C>(s, Opt{24, 0, true}, p, cx); S x; for (auto c : t) { x.push_back(c); } size_t n = s.draw(4);
            for (size_t i = 0; i < n; ++i) { size_t pos = boundary(s, x); switch (s.draw(5)) { case 0: x.insert(pos, S{'{', '}'}); break; case 1: x.insert(pos, S{'{', '0', '}'}); break; case 2: x.insert(pos, S{'{', '{'}); break; case 3: x.insert(pos, S{'{', '-', 'c', '}'}); break; default: x.insert(pos, S{'{', '1', 'a', '}'}); } }
            p.strs.push_back(x); if (cx.want_text) cx.text << "=" << pbt::show(x); auto v = N(gen::integer<int>(s)); auto& u = text<C>(s, o, p, cx);
            f(strf::tr(std::basic_string_view<C>(p.strs.back() /*stable*/), v, u)); break; }
    }
}
// note: the tr case keeps the template alive in the pool (list nodes do not move)

// the printers visit() does not reach: one for every combination of static formats
constexpr int kinds_more = 31;
template <class C, class F>
void visit_more(Src& s, Ctx& cx, Pool<C>& p, const Opt& o, F&& f) {
    auto T = [&](const char* t) { if (cx.want_text) cx.text << " [" << t << "]"; };
    auto N = [&](auto v) { if (cx.want_text) cx.text << " " << +v; return v; };
    auto A = [&]() { return af(s, o, cx); };
    switch ((int)s.draw(kinds_more)) {
        case 0: { T("+dec"); auto v = N(gen::integer<int64_t>(s)); f(+strf::dec(v)); break; }
        case 1: { T("~dec"); auto v = N(gen::integer<int>(s)); f(~strf::dec(v)); break; }
        case 2: { T("+dec|"); auto v = N(gen::integer<int64_t>(s)); f((+strf::fmt(v)).set_alignment_format(A())); break; }
        case 3: { T("*hex"); auto v = N(gen::integer<uint64_t>(s)); f(*strf::hex(v)); break; }
        case 4: { T("hex"); auto v = N(gen::integer<int64_t>(s)); f(strf::hex(v)); break; }
        case 5: { T("*oct"); auto v = N(gen::integer<int64_t>(s)); f(*strf::oct(v)); break; }
        case 6: { T("oct|"); auto v = N(gen::integer<uint64_t>(s)); f(strf::oct(v).set_alignment_format(A())); break; }
        case 7: { T("*hex|"); auto v = N(gen::integer<uint64_t>(s)); f((*strf::hex(v)).set_alignment_format(A())); break; }
        case 8: { T("*bin|"); auto v = N(gen::integer<int64_t>(s)); f((*strf::bin(v)).set_alignment_format(A())); break; }
        case 9: { T("bin8"); auto v = N(gen::integer<uint8_t>(s)); f(strf::bin(v)); break; }
        case 10: { T("dec.p"); auto v = N(gen::integer<int64_t>(s)); f(strf::dec(v).p((int)s.draw(200)).pad0((int)s.draw(250))); break; }
        case 11: { T("*hex.p"); auto v = N(gen::integer<uint64_t>(s)); f((*strf::hex(v)).p((int)s.draw(200)).pad0((int)s.draw(250))); break; }
        case 12: { T("*oct.p|"); auto v = N(gen::integer<int64_t>(s)); f((*strf::oct(v)).p((int)s.draw(100)).pad0((int)s.draw(150)).set_alignment_format(A())); break; }
        case 13: { T("*bin.p|"); auto v = N(gen::integer<uint64_t>(s)); f((*strf::bin(v)).p((int)s.draw(100)).pad0((int)s.draw(150)).set_alignment_format(A())); break; }
        case 14: { T("!*hex"); auto v = N(gen::integer<uint64_t>(s)); f(!*strf::hex(v)); break; }
        case 15: { T("!oct.p"); auto v = N(gen::integer<uint64_t>(s)); f((!*strf::oct(v)).p((int)s.draw(60)).pad0((int)s.draw(80))); break; }
        case 16: { T("!bin|"); auto v = N(gen::integer<uint64_t>(s)); f((!*strf::bin(v)).set_alignment_format(A())); break; }
        case 17: { T("!dec|"); auto v = N(gen::integer<int64_t>(s)); f((~!strf::dec(v)).set_alignment_format(A())); break; }
        case 18: { T("!hex.p|"); auto v = N(gen::integer<int64_t>(s)); f((!strf::hex(v)).p((int)s.draw(60)).pad0((int)s.draw(80)).set_alignment_format(A())); break; }
        case 19: { T("u16"); auto v = N(gen::integer<uint16_t>(s)); f(v); break; }
        case 20: { T("schar|"); auto v = N(gen::integer<signed char>(s)); f(strf::right((int)v, (int)s.draw(90))); break; }
        case 21: { T("!int"); auto v = N(gen::integer<int>(s)); f(!strf::fmt(v)); break; }
        case 22: { T("+double"); auto v = N(gen::f64(s)); f(+strf::fmt(v)); break; }
        case 23: { T("sci.p|"); auto v = N(gen::f64(s)); f((*strf::sci(v)).p((int)s.draw(80)).set_alignment_format(A())); break; }
        case 24: { T("!fixed"); auto v = N(gen::f64(s)); f(!strf::fixed(v).pad0((int)s.draw(300))); break; }
        case 25: { T("hex double"); auto v = N(gen::f32(s)); f((*strf::hex(v)).p((int)s.draw(60)).pad0((int)s.draw(90))); break; }
        case 26: { T("fixed|"); auto v = N(gen::f32(s)); f(strf::fixed(v).set_alignment_format(A())); break; }
        case 27: case 28: { T("unsafe"); 
            auto go = [&](auto& pool, auto u) { using U = decltype(u); pool.push_back(gen::valid_text<U>(s, o.maxstr)); if (cx.want_text) cx.text << " " << pbt::show(pool.back());
                switch (s.draw(3)) { case 0: f(strf::unsafe_transcode(pool.back())); break; case 1: f(strf::unsafe_transcode(pool.back()).set_alignment_format(A())); break; default: f(strf::unsafe_transcode(pool.back()).p(width(s, o.maxw))); } };
            if constexpr (sizeof(C) == 1) go(p.s16, char16_t()); else go(p.s8, char()); break; }
        case 29: { T("tr without arguments"); auto& t = text<C>(s, Opt{24, 0, true}, p, cx); using S = std::basic_string<C>; for (size_t i = s.draw(3); i; --i) { size_t pos = boundary(s, t); switch (s.draw(3)) { case 0: t.insert(pos, S{'{', '}'}); break; case 1: t.insert(pos, S{'{', '{'}); break; default: t.insert(pos, S{'{', '-', 'c', '}'}); } }
            if (cx.want_text) cx.text << "=" << pbt::show(t); f(strf::tr(std::basic_string_view<C>(t))); break; }
        default: { T("fmt_range"); p.vi.emplace_back(); size_t n = s.size(20); for (size_t i = 0; i < n; ++i) p.vi.back().push_back(gen::integer<int>(s)); N(n);
            switch (s.draw(3)) { case 0: f(+strf::fmt_range(p.vi.back())); break; case 1: f((!*strf::fmt_range(p.vi.back()).hex()).p((int)s.draw(20))); break;
                default: { auto& sep = text<C>(s, Opt{8, 0, false}, p, cx); for (auto& c : sep) if (c == 0) c = 'z'; f((*strf::fmt_separated_range(p.vi.back(), sep.c_str()).bin()).pad0((int)s.draw(40))); } } }
    }
}

struct Facets { strf::numpunct<10> p10; strf::numpunct<16> p16; strf::numpunct<8> p8; strf::lettercase lc; };
template <int B> strf::numpunct<B> numpunct(Src& s) {
    strf::numpunct<B> r;
    switch (s.draw(4)) { case 0: return r; case 1: r = strf::numpunct<B>((int)(1 + s.draw(5))); break; case 2: r = strf::numpunct<B>((int)(1 + s.draw(4)), (int)(1 + s.draw(4))); break; default: r = strf::numpunct<B>((int)(1 + s.draw(4)), (int)(1 + s.draw(4)), -1); }
    if (s.coin()) r.thousands_sep(gen::fill_char(s));
    if (s.coin()) r.decimal_point(gen::fill_char(s));
    return r;
}
inline Facets facets(Src& s) { return {numpunct<10>(s), numpunct<16>(s), numpunct<8>(s), s.pick<strf::lettercase>({strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper})}; }
inline auto pack(const Facets& f) { return strf::pack(f.p10, f.p16, f.p8, f.lc); }

} // namespace zoo
#endif
