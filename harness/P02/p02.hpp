// P02: digit grouping.
#include "common/intm.hpp"
#include <strf/to_string.hpp>
namespace p02 {
using namespace intm;
// one of the ways to describe the grouping
inline strf::digits_grouping make(Src& s, Ctx& cx, const Grp& g) {
    switch (s.draw(5)) {
        case 0: cx.label("ints"); return by_ints(g);
        case 1: cx.label("string"); return by_string(g);
        case 2: cx.label("creator"); return by_creator(g, s.coin());
        case 3: { cx.label("copy"); strf::digits_grouping d = by_ints(g), e; e = d; return e; }
        default: { cx.label("numpunct of ints"); auto v = g.g; if (!g.repeat) v.push_back(-1);
            switch (v.size()) { case 1: return strf::numpunct<10>(v[0]).grouping(); case 2: return strf::numpunct<10>(v[0], v[1]).grouping(); case 3: return strf::numpunct<10>(v[0], v[1], v[2]).grouping(); default: return strf::numpunct<10>(by_ints(g)).grouping(); } }
    }
}
// inserts the separators in the integral digits of a plain decimal text, and replaces the point
inline std::u32string regroup(const std::string& plain, const Grp& g, bool valid, char32_t sep, char32_t point, bool hex) {
    std::u32string r; size_t i = 0;
    if (hex) { for (char c : plain) r.push_back(c == '.' ? point : (char32_t)c); return r; }
    while (i < plain.size() && !(plain[i] >= '0' && plain[i] <= '9')) r.push_back((char32_t)plain[i++]);
    std::u32string d; while (i < plain.size() && plain[i] >= '0' && plain[i] <= '9') d.push_back((char32_t)plain[i++]);
    r += valid ? separate(d, g, sep) : d;
    for (; i < plain.size(); ++i) r.push_back(plain[i] == '.' ? point : (char32_t)plain[i]);
    return r;
}
template <class C, class Pack, class A> std::basic_string<C> print(Src& s, const Pack& pk, const A& a) {
    if (s.chance(1, 4)) return strf::to_basic_string<C>.with(pk)(a);
    tc::Chunked<C> d(tc::chunk_sizes(s)); size_t pre = s.draw(80); std::basic_string<C> lead(pre, (C)'~'); d.write(lead.data(), lead.size());
    strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a);
    auto r = d.finish(); check_eq("text before the number", r.substr(0, pre), lead); return r.substr(pre);
}
template <class C, class T, class Pack> void ints(Src& s, Ctx& cx, int cs, const Pack& pk, const Grp& g, char32_t sep, bool valid) {
    T v = gen::integer<T>(s); Fmt m; m.grp = g; m.sep = sep; m.punct_valid = valid;
    m.f.base = s.pick<int>({10, 2, 16, 8, 2}); m.f.punctuate = !s.chance(1, 6); m.f.sign = zoo::sign(s); m.f.showbase = s.coin(); m.f.pad0width = s.coin() ? 0 : (int)s.draw(90); m.f.precision = s.coin() ? 0 : (int)s.draw(80);
    m.aligned = s.coin(); m.a = {U'^', strf::width_t((int)s.draw(100)), zoo::align(s)};
    auto n = num(v); auto want = text<C>(cs, n, m);
    bool dyn = s.coin();
    if (!m.f.punctuate && !dyn) { m.f.sign = strf::showsign::negative_only; m.f.showbase = false; m.f.pad0width = m.f.precision = 0; want = text<C>(cs, n, m); }
    if (cx.want_text) cx.text << " " << (n.neg ? "-" : "") << n.mag << " base " << m.f.base << (m.f.punctuate ? " punctuated" : "") << " p" << m.f.precision << " pad0 " << m.f.pad0width << " expecting " << pbt::show(want);
    cx.nt(m.f.punctuate && valid && !g.g.empty() && digits(m.f.base == 10 ? n.mag : n.bits, m.f.base, false).size() > (size_t)g.g[0]);
    auto go = [&](auto a) { std::basic_string<C> got; if (m.aligned) got = print<C>(s, pk, std::move(a).set_alignment_format(m.a)); else got = print<C>(s, pk, a); check_eq("integer", got, want); };
    if (dyn) { go(strf::fmt(v).set_int_format(m.f)); return; }
    if (!m.f.punctuate) { switch (m.f.base) { case 2: go(strf::bin(v)); break; case 8: go(strf::oct(v)); break; case 16: go(strf::hex(v)); break; default: go(strf::fmt(v)); } return; }
    auto dress = [&](auto a) { return std::move(a).p(m.f.precision).pad0(m.f.pad0width); };
    auto sb = [&](auto a) { if (m.f.showbase) go(*std::move(a)); else go(a); };
    switch (m.f.base) { case 2: sb(dress(!strf::bin(v))); break; case 8: sb(dress(!strf::oct(v))); break; case 16: sb(dress(!strf::hex(v))); break;
        default: { auto a = dress(!strf::dec(v)); if (m.f.sign == strf::showsign::positive_also) go(+std::move(a)); else if (m.f.sign == strf::showsign::fill_instead_of_positive) go(~std::move(a)); else go(a); } }
}
template <class C, class T, class Pack> void floats(Src& s, Ctx& cx, int cs, const Pack& pk, const Grp& g, char32_t sep, bool valid, char32_t point10, char32_t point16) {
    T v = (T)0; switch (s.draw(3)) { case 0: v = sizeof(T) == 4 ? (T)gen::f32(s) : (T)gen::f64(s); break; case 1: v = (T)std::ldexp((double)(1 + s.draw(1ull << 53)), (int)s.range(sizeof(T) == 4 ? -60 : -80, sizeof(T) == 4 ? 70 : 900)); break; default: v = (T)gen::u64(s); }
    if (!std::isfinite(v)) v = 12345;
    strf::float_format f; f.notation = s.pick<strf::float_notation>({strf::float_notation::fixed, strf::float_notation::general, strf::float_notation::fixed, strf::float_notation::scientific, strf::float_notation::hex});
    f.precision = s.coin() ? -1 : (int)s.draw(30); f.showpoint = s.chance(1, 4);
    // general notation without precision may choose another notation when there are separators: the printed
    // number of characters is what it minimises
    if (f.notation == strf::float_notation::general && f.precision < 0) f.notation = strf::float_notation::fixed;
    bool ask = !s.chance(1, 6);
    std::string plain = strf::to_string(strf::fmt(v).set_float_format(f));
    f.punctuate = ask;
    bool hex = f.notation == strf::float_notation::hex;
    auto u = ask ? regroup(plain, g, valid, sep, hex ? point16 : point10, hex) : regroup(plain, Grp{}, false, 0, U'.', true);
    auto want = raw<C>(cs, u);
    bool al = s.coin(); strf::alignment_format af{U'^', strf::width_t((int)s.draw(100)), zoo::align(s)};
    if (al) want = strm::align<C>(cs, af, (int64_t)u.size() << 16, want);
    if (cx.want_text) { char t[64]; snprintf(t, sizeof t, " %a", (double)v); cx.text << t << " notation " << (int)f.notation << " p" << f.precision << (ask ? " punctuated" : "") << (al ? " aligned" : "") << " plain " << plain << " expecting " << pbt::show(want); }
    cx.nt(ask && u.size() != plain.size());
    switch (s.draw(2)) {
        case 0: if (al) check_eq("floating-point", print<C>(s, pk, strf::fmt(v).set_float_format(f).set_alignment_format(af)), want); else check_eq("floating-point", print<C>(s, pk, strf::fmt(v).set_float_format(f)), want); break;
        default:
            if (ask && !f.showpoint && !al) {
                if (f.precision >= 0) switch (f.notation) { case strf::float_notation::fixed: check_eq("!fixed(v, p)", print<C>(s, pk, !strf::fixed(v, f.precision)), want); break; case strf::float_notation::scientific: check_eq("!sci(v, p)", print<C>(s, pk, !strf::sci(v, f.precision)), want); break;
                    case strf::float_notation::hex: check_eq("!hex(v).p", print<C>(s, pk, !strf::hex(v).p(f.precision)), want); break; default: check_eq("!gen(v, p)", print<C>(s, pk, !strf::gen(v, f.precision)), want); }
                else switch (f.notation) { case strf::float_notation::fixed: check_eq("!fixed(v)", print<C>(s, pk, !strf::fixed(v)), want); break; case strf::float_notation::scientific: check_eq("!sci(v)", print<C>(s, pk, !strf::sci(v)), want); break;
                    case strf::float_notation::hex: check_eq("!hex(v)", print<C>(s, pk, !strf::hex(v)), want); break; default: break; }
            } else if (!ask && !f.showpoint && !al) { if (f.precision < 0 && f.notation == strf::float_notation::fixed) check_eq("fixed(v)", print<C>(s, pk, strf::fixed(v)), want); else if (f.precision >= 0 && f.notation == strf::float_notation::fixed) check_eq("fixed(v,p)", print<C>(s, pk, strf::fixed(v, f.precision)), want); }
    }
}
template <class C, class MakePack> void gen_case(Src& s, Ctx& cx, int cs, MakePack&& mk) {
    Grp g = grouping(s); auto dg = make(s, cx, g);
    auto ch = [&](char32_t d) { return s.coin() ? d : cs != UTF && s.coin() ? tc::sbc_cp(s, cs) : gen::fill_char(s); };
    char32_t sep = ch(U','), p10 = ch(U'.'), p16 = ch(U'.'); if (!sep_valid<C>(cs, p10)) p10 = U';'; if (!sep_valid<C>(cs, p16)) p16 = U'`';
    bool valid = sep_valid<C>(cs, sep);
    if (cx.want_text) cx.text << cs_name<C>(cs) << "/" << uname<C>::v << " grouping" << intm::show(g) << " sep U+" << std::hex << (unsigned)sep << " points U+" << (unsigned)p10 << " U+" << (unsigned)p16 << std::dec;
    auto pk = mk(strf::pack(strf::numpunct<10>(dg).thousands_sep(sep).decimal_point(p10), strf::numpunct<16>(dg).thousands_sep(sep).decimal_point(p16), strf::numpunct<8>(dg).thousands_sep(sep), strf::numpunct<2>(dg).thousands_sep(sep)));
    switch (s.draw(7)) {
        case 0: ints<C, int>(s, cx, cs, pk, g, sep, valid); break; case 1: ints<C, int64_t>(s, cx, cs, pk, g, sep, valid); break; case 2: ints<C, uint64_t>(s, cx, cs, pk, g, sep, valid); break; case 3: ints<C, unsigned char>(s, cx, cs, pk, g, sep, valid); break;
        case 4: floats<C, float>(s, cx, cs, pk, g, sep, valid, p10, p16); break;
        default: floats<C, double>(s, cx, cs, pk, g, sep, valid, p10, p16);
    }
}
}
