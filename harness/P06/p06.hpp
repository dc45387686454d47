// P06: floating-point decoration.
#include "common/fltm.hpp"
#include <strf/to_string.hpp>
namespace p06 {
using namespace fltm;
// values whose rounding changes their number of digits, too
template <class T> T val(Src& s) {
    if (s.coin()) return value<T>(s);
    std::string d; size_t n = 1 + s.draw(6); for (size_t i = 0; i < n; ++i) d.push_back((char)('0' + s.pick<int>({9, 9, 9, 5, 1, 0}))); d += "e" + std::to_string(s.range(-9, 4));
    return s.coin() ? (T)strtod(d.c_str(), nullptr) : -(T)strtod(d.c_str(), nullptr);
}
template <class C, class T, class Pack> void one(Src& s, Ctx& cx, int cs, const Pack& pk, fltm::Fmt m) {
    T v = val<T>(s);
    if (in_finding(v, m.f.notation, m.f.precision, m.f.showpoint)) m.f.showpoint = false; // P04 has it
    auto want = text<T, C>(cs, v, m);
    if (cx.want_text) cx.text << hexf(v) << " " << nname(m.f.notation) << " p" << m.f.precision << " pad0 " << m.f.pad0width << " sign" << (int)m.f.sign << (m.f.showpoint ? " showpoint" : "") << (m.f.punctuate ? " punct" : "") << " lc" << (int)m.lc;
    if (cx.want_text && m.aligned) cx.text << " align{" << std::hex << (unsigned)m.a.fill << std::dec << "," << m.a.width.underlying_value() / 65536.0 << "," << (int)m.a.alignment << "}";
    if (cx.want_text) cx.text << " expecting " << pbt::show(want);
    cx.nt(want != wide<C>(fltm::plain(v, m.f.notation, m.f.precision))); cx.label(nname(m.f.notation));
    auto run = [&](const auto& a) {
        check_eq("text", print<C>(s, pk, a), want);
        if (s.chance(1, 8)) check_eq("with the size computed before", (std::basic_string<C>)strf::to_basic_string<C>.with(pk).reserve_calc()(a), want);
    };
    auto al = [&](auto a) { if (m.aligned) run(std::move(a).set_alignment_format(m.a)); else run(a); };
    if (s.coin()) { al(strf::fmt(v).set_float_format(m.f)); return; }
    auto pn = [&](auto a) { if (m.f.punctuate) al(!std::move(a)); else al(std::move(a)); };
    auto sg = [&](auto a) { if (m.f.sign == strf::showsign::positive_also) pn(+std::move(a)); else if (m.f.sign == strf::showsign::fill_instead_of_positive) pn(~std::move(a)); else pn(std::move(a)); };
    auto base = strf::fmt(v).set_float_notation(m.f.notation).pad0(m.f.pad0width);
    if (m.f.precision >= 0) { if (m.f.showpoint) sg(*std::move(base).p(m.f.precision)); else sg(std::move(base).p(m.f.precision)); }
    else if (m.f.showpoint) sg(*std::move(base)); else sg(std::move(base));
}
// formats without punctuation have printers of their own
template <class C, class T, class Pack> void simple(Src& s, Ctx& cx, int cs, const Pack& pk, fltm::Fmt m) {
    T v = val<T>(s); strf::float_format set = m.f; m.f = strf::float_format{}; auto al = m.a; m.aligned = false;
    auto run = [&](const auto& a, const char* w) { auto want = text<T, C>(cs, v, m); if (cx.want_text) cx.text << hexf(v) << " " << w << " expecting " << pbt::show(want); cx.nt(want != wide<C>(strf::to_string(v))); cx.label(w); check_eq(w, print<C>(s, pk, a), want); };
    switch (s.draw(8)) {
        case 0: run(v, "v"); break;
        case 1: run(strf::fmt(v), "fmt(v)"); break;
        case 2: m.aligned = true; run(strf::fmt(v).set_alignment_format(al), "aligned"); break;
        case 3: m.f.notation = float_notation::fixed; run(strf::fixed(v), "fixed"); break;
        case 4: m.f.notation = float_notation::scientific; m.aligned = true; run(strf::sci(v).set_alignment_format(al), "sci aligned"); break;
        case 5: m.f.notation = float_notation::hex; run(strf::hex(v), "hex"); break;
        case 6: m.f.sign = strf::showsign::positive_also; run(+strf::fmt(v), "+"); break;
        default: m.f.punctuate = true; run(strf::punct(v), "punct"); break;
    }
    (void)set;
}
template <class C, class MakePack> void gen_case(Src& s, Ctx& cx, int cs, MakePack&& mk) {
    fltm::Fmt m; m.grp = intm::grouping(s); m.lc = intm::lcase(s);
    auto ch = [&](char32_t d) { return s.coin() ? d : cs != UTF && s.coin() ? tc::sbc_cp(s, cs) : gen::fill_char(s); };
    m.sep = ch(U','); m.point10 = ch(U'.'); m.point16 = ch(U'.'); m.sep_ok = intm::sep_valid<C>(cs, m.sep);
    m.f.notation = s.pick<float_notation>({float_notation::general, float_notation::fixed, float_notation::scientific, float_notation::hex});
    m.f.precision = s.coin() ? -1 : s.chance(1, 10) ? (int)s.draw(300) : (int)s.draw(12); m.f.pad0width = s.coin() ? 0 : intm::len(s); m.f.sign = zoo::sign(s); m.f.showpoint = s.chance(1, 3); m.f.punctuate = s.coin();
    m.aligned = s.coin(); m.a = {gen::fill_char(s), zoo::width(s, 60), zoo::align(s)};
    if (cx.want_text) cx.text << cs_name<C>(cs) << "/" << uname<C>::v << " grouping" << intm::show(m.grp) << std::hex << " sep U+" << (unsigned)m.sep << " points U+" << (unsigned)m.point10 << " U+" << (unsigned)m.point16 << std::dec;
    auto dg = intm::by_ints(m.grp);
    auto pk = mk(strf::pack(strf::numpunct<10>(dg).thousands_sep(m.sep).decimal_point(m.point10), strf::numpunct<16>(1).thousands_sep(U'_').decimal_point(m.point16), m.lc));
    switch (s.draw(6)) { case 0: one<C, float>(s, cx, cs, pk, m); break; case 1: simple<C, double>(s, cx, cs, pk, m); break; case 2: simple<C, float>(s, cx, cs, pk, m); break; default: one<C, double>(s, cx, cs, pk, m); }
}
}
