// P01: integers.
#include "common/intm.hpp"
#include <strf/to_string.hpp>
namespace p01 {
using namespace intm;
template <class C, class Pack, class A> std::basic_string<C> print(Src& s, const Pack& pk, const A& a) {
    tc::Chunked<C> d(tc::chunk_sizes(s)); size_t pre = s.draw(80); std::basic_string<C> lead(pre, (C)'~');
    d.write(lead.data(), lead.size());
    strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a);
    auto r = d.finish(); check_eq("text before the integer", r.substr(0, pre), lead);
    return r.substr(pre);
}
inline std::string describe(const Fmt& m) { char t[200]; snprintf(t, sizeof t, " base %d p%d pad0 %d sign%d%s%s lc%d", m.f.base, m.f.precision, m.f.pad0width, (int)m.f.sign, m.f.showbase ? " showbase" : "", m.f.punctuate ? " punct" : "", (int)m.lc); std::string r = t;
    if (m.aligned) { snprintf(t, sizeof t, " align{%x,%g,%d}", (unsigned)m.a.fill, m.a.width.underlying_value() / 65536.0, (int)m.a.alignment); r += t; } return r; }
template <class C, class T, class Pack> void one(Src& s, Ctx& cx, int cs, const Pack& pk, Fmt m) {
    T v = gen::integer<T>(s); auto n = num(v);
    if (cx.want_text) cx.text << " " << (n.neg ? "-" : "") << n.mag << "(" << sizeof(T) << (n.is_signed ? "s" : "u") << ")";
    // every option that a chain does not set keeps its default
    auto& f = m.f; strf::int_format set = f; f = strf::int_format{};
    strf::alignment_format al = m.a; m.aligned = false;
    auto run = [&](const auto& a, const char* what) {
        std::basic_string<C> want = text<C>(cs, n, m);
        if (cx.want_text) cx.text << " " << what << describe(m) << " expecting " << pbt::show(want);
        cx.label(what); cx.nt(n.neg || n.mag > 9 || want.size() > 1);
        check_eq(what, print<C>(s, pk, a), want);
    };
    auto base = [&](int b) { f.base = b; }; auto aligned = [&] { m.aligned = true; };
    auto prec = [&] { f.precision = set.precision; return set.precision; }; auto pad = [&] { f.pad0width = set.pad0width; return set.pad0width; };
    auto P = [&] { f.punctuate = true; };
    switch (s.draw(28)) {
        case 0: run(v, "v"); break;
        case 1: run(strf::fmt(v), "fmt(v)"); break;
        case 2: run(strf::dec(v), "dec(v)"); break;
        case 3: aligned(); run(strf::fmt(v).set_alignment_format(al), "aligned"); break;
        case 4: base(16); run(strf::hex(v), "hex(v)"); break;
        case 5: base(8); run(strf::oct(v), "oct(v)"); break;
        case 6: base(2); run(strf::bin(v), "bin(v)"); break;
        case 7: base(16); aligned(); run(strf::hex(v).set_alignment_format(al), "hex aligned"); break;
        case 8: base(8); aligned(); run(strf::fmt(v).oct().set_alignment_format(al), "oct aligned"); break;
        case 9: base(2); aligned(); run(strf::fmt(v).bin().set_alignment_format(al), "bin aligned"); break;
        case 10: f.precision = prec(); f.sign = strf::showsign::positive_also; run(+strf::dec(v).p(set.precision), "+dec.p"); break;
        case 11: pad(); f.sign = strf::showsign::fill_instead_of_positive; run(~strf::fmt(v).pad0(set.pad0width), "~pad0"); break;
        case 12: pad(); prec(); aligned(); f.sign = strf::showsign::fill_instead_of_positive; run(strf::fmt(v).pad0(set.pad0width).p(set.precision).fill_sign().set_alignment_format(al), "fill_sign pad0 p aligned"); break;
        case 13: pad(); prec(); aligned(); run(strf::pad0(v, set.pad0width).p(set.precision).set_alignment_format(al), "pad0 p aligned"); break;
        case 14: base(16); prec(); pad(); run(strf::hex(v).p(set.precision).pad0(set.pad0width), "hex p pad0"); break;
        case 15: base(16); f.showbase = true; prec(); pad(); aligned(); run(*strf::hex(v).p(set.precision).pad0(set.pad0width).set_alignment_format(al), "*hex p pad0 aligned"); break;
        case 16: base(8); f.showbase = true; prec(); pad(); run(*strf::oct(v).p(set.precision).pad0(set.pad0width), "*oct p pad0"); break;
        case 17: base(8); f.showbase = true; prec(); aligned(); run(*strf::oct(v).p(set.precision).set_alignment_format(al), "*oct p aligned"); break;
        case 18: base(2); f.showbase = true; prec(); pad(); run(*strf::bin(v).p(set.precision).pad0(set.pad0width), "*bin p pad0"); break;
        case 19: base(2); f.showbase = true; pad(); aligned(); run(*strf::bin(v).pad0(set.pad0width).set_alignment_format(al), "*bin pad0 aligned"); break;
        case 20: P(); run(strf::punct(v), "punct(v)"); break;
        case 21: P(); prec(); pad(); f.sign = strf::showsign::positive_also; run(+!strf::dec(v).p(set.precision).pad0(set.pad0width), "+!dec p pad0"); break;
        case 22: P(); pad(); aligned(); f.sign = strf::showsign::fill_instead_of_positive; run(~!strf::dec(v).pad0(set.pad0width).set_alignment_format(al), "~!dec pad0 aligned"); break;
        case 23: P(); base(16); f.showbase = true; prec(); pad(); aligned(); run(*!strf::hex(v).p(set.precision).pad0(set.pad0width).set_alignment_format(al), "*!hex p pad0 aligned"); break;
        case 24: P(); base(8); f.showbase = true; prec(); pad(); run(*!strf::oct(v).p(set.precision).pad0(set.pad0width), "*!oct p pad0"); break;
        case 25: P(); base(2); f.showbase = true; prec(); pad(); run(*!strf::bin(v).p(set.precision).pad0(set.pad0width), "*!bin p pad0"); break;
        case 26: f = set; run(strf::fmt(v).set_int_format(set), "set_int_format"); break;
        default: f = set; aligned(); run(strf::fmt(v).set_int_format(set).set_alignment_format(al), "set_int_format aligned"); break;
    }
}
template <class C, class MakePack> void gen_case(Src& s, Ctx& cx, int cs, MakePack&& mk) {
    Fmt m; m.grp = grouping(s); m.sep = s.coin() ? U',' : gen::fill_char(s); m.lc = lcase(s);
    m.punct_valid = sep_valid<C>(cs, m.sep);
    m.f.base = s.pick<int>({10, 16, 8, 2}); m.f.precision = len(s); m.f.pad0width = len(s); m.f.sign = zoo::sign(s); m.f.showbase = s.coin(); m.f.punctuate = s.coin();
    zoo::Opt o; m.a = {gen::fill_char(s), zoo::width(s, o.maxw), zoo::align(s)};
    auto g = by_ints(m.grp);
    if (cx.want_text) cx.text << cs_name<C>(cs) << "/" << uname<C>::v << " grouping" << intm::show(m.grp) << " sep U+" << std::hex << (unsigned)m.sep << std::dec;
    auto pk = mk(strf::pack(strf::numpunct<10>(g).thousands_sep(m.sep), strf::numpunct<16>(g).thousands_sep(m.sep), strf::numpunct<8>(g).thousands_sep(m.sep), strf::numpunct<2>(g).thousands_sep(m.sep), m.lc));
    switch (s.draw(10)) {
        case 0: one<C, int>(s, cx, cs, pk, m); break; case 1: one<C, long long>(s, cx, cs, pk, m); break; case 2: one<C, unsigned long>(s, cx, cs, pk, m); break;
        case 3: one<C, signed char>(s, cx, cs, pk, m); break; case 4: one<C, unsigned char>(s, cx, cs, pk, m); break; case 5: one<C, short>(s, cx, cs, pk, m); break;
        case 6: one<C, unsigned short>(s, cx, cs, pk, m); break; case 7: one<C, unsigned>(s, cx, cs, pk, m); break; case 8: one<C, long>(s, cx, cs, pk, m); break;
        default: one<C, unsigned long long>(s, cx, cs, pk, m);
    }
}
}
