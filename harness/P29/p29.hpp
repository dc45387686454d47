// P29: chains of format functions. The programs are generated by gen.py; this is what they use.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/intm.hpp"
#include <vector>
namespace p29 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail;
using Fn = void (*)(Src&, Ctx&);
struct Prog { const char* text; const char* kind; Fn fn; };
inline std::vector<Prog>& progs() { static std::vector<Prog> v; return v; }
struct Reg { Reg(const char* t, const char* k, Fn f) { progs().push_back({t, k, f}); } };
inline strf::alignment_format al(char32_t f, strf::width_t w, strf::text_alignment a) { strf::alignment_format r; r.fill = f; r.width = w; r.alignment = a; return r; }
inline strf::int_format ifmt(int b, int p, int z, strf::showsign sg, bool sb, bool pu) { strf::int_format f; f.base = b; f.precision = p; f.pad0width = z; f.sign = sg; f.showbase = sb; f.punctuate = pu; return f; }
template <class P> strf::float_format ffmt(P p, int z, strf::float_notation n, strf::showsign sg, bool sp, bool pu) { strf::float_format f; f.precision = (decltype(f.precision))p; f.pad0width = (decltype(f.pad0width))z; f.notation = n; f.sign = sg; f.showpoint = sp; f.punctuate = pu; return f; }
inline strf::dynamic_charset<char> dyn() { static auto c = strf::iso_8859_15<char>; return strf::dynamic_charset<char>(c); }
template <class A, class B> void eq(const char* what, A a, B b) { if (!(a == b)) fail(std::string(what) + ": got " + std::to_string((long long)a) + ", want " + std::to_string((long long)b)); }
template <class A> void bits(const char* what, A a, A b) { if (memcmp(&a, &b, sizeof a)) fail(std::string(what) + " differs from the formatted value"); }
template <class G> void same_int(const G& g, const strf::int_format& f) { strf::int_format x = g; eq("get_int_format().base", x.base, f.base); eq("get_int_format().precision", x.precision, f.precision); eq("get_int_format().pad0width", x.pad0width, f.pad0width); eq("get_int_format().sign", (int)x.sign, (int)f.sign); eq("get_int_format().showbase", x.showbase, f.showbase); eq("get_int_format().punctuate", x.punctuate, f.punctuate);
    eq("member base", g.base, f.base); eq("member precision", g.precision, f.precision); eq("member pad0width", g.pad0width, f.pad0width); eq("member sign", (int)g.sign, (int)f.sign); eq("member showbase", g.showbase, f.showbase); eq("member punctuate", g.punctuate, f.punctuate); }
template <class G> void same_flt(const G& g, const strf::float_format& f) { strf::float_format x = g; eq("get_float_format().precision", x.precision, f.precision); eq("get_float_format().pad0width", x.pad0width, f.pad0width); eq("get_float_format().notation", (int)x.notation, (int)f.notation); eq("get_float_format().sign", (int)x.sign, (int)f.sign); eq("get_float_format().showpoint", x.showpoint, f.showpoint); eq("get_float_format().punctuate", x.punctuate, f.punctuate);
    eq("member precision", g.precision, f.precision); eq("member pad0width", g.pad0width, f.pad0width); eq("member notation", (int)g.notation, (int)f.notation); eq("member sign", (int)g.sign, (int)f.sign); eq("member showpoint", g.showpoint, f.showpoint); eq("member punctuate", g.punctuate, f.punctuate); }
template <class E> void same_al(const E& e, const strf::alignment_format& a) { strf::alignment_format x = e.get_alignment_format(); eq("get_alignment_format().width", x.width.underlying_value(), a.width.underlying_value()); eq("get_alignment_format().fill", (uint32_t)x.fill, (uint32_t)a.fill); eq("get_alignment_format().alignment", (int)x.alignment, (int)a.alignment); eq("width()", e.width().underlying_value(), a.width.underlying_value()); }
// the operands of one program
struct Ops {
    int n[6]; strf::width_t w[6]; char32_t ch[6]; strf::lettercase lc; strf::numpunct<10> p10{1}; strf::numpunct<16> p16{1}; strf::numpunct<8> p8{1}; strf::numpunct<2> p2{1};
    Ops(Src& s, Ctx& cx) {
        int hi = s.pick<int>({5, 12, 40}); for (auto& x : n) x = (int)s.draw(hi);
        for (auto& x : w) x = s.chance(1, 4) ? zoo::width(s, 30) : strf::width_t((std::int16_t)s.draw(30));
        for (auto& x : ch) x = s.pick<char32_t>({U'.', U'*', U'~', U'0', U' ', U'\u00e9', U'\u6c34', U'\U0001F600', U'#'});
        lc = intm::lcase(s); auto sep = [&]() -> char32_t { return s.pick<char32_t>({U'.', U',', U'\'', U'_', U'\u00b7'}); };
        int a = 1 + (int)s.draw(4), b = s.coin() ? -1 : 2; p10 = strf::numpunct<10>(a, b); p10.thousands_sep(sep()); p10.decimal_point(sep()); p16 = strf::numpunct<16>(1 + (int)s.draw(4)); p16.thousands_sep(sep()); p16.decimal_point(sep()); p8 = strf::numpunct<8>(1 + (int)s.draw(4)); p8.thousands_sep(sep()); p2 = strf::numpunct<2>(1 + (int)s.draw(6)); p2.thousands_sep(sep());
        if (cx.want_text) { cx.text << " n={"; for (int x : n) cx.text << x << " "; cx.text << "} w={"; for (auto x : w) cx.text << x.underlying_value() / 65536.0 << " "; cx.text << "} ch={" << std::hex; for (auto x : ch) cx.text << (uint32_t)x << " "; cx.text << std::dec << "}"; }
    }
    template <class T> T integer(Src& s, Ctx& cx) const { T v = gen::integer<T>(s); if (cx.want_text) cx.text << " " << +v; return v; }
    template <class T> T floating(Src& s, Ctx& cx) const { T v = sizeof(T) == 4 ? (T)gen::f32(s) : (T)gen::f64(s); if (s.coin()) v = s.pick<T>({(T)1.0, (T)-0.0, (T)0.1, (T)-12345.678, (T)1e10, (T)9.9999e-7, (T)INFINITY, (T)NAN, (T)250}); if (cx.want_text) cx.text << " " << v; return v; }
    template <class X> std::basic_string<X> text(Src& s, Ctx& cx, bool valid, bool ascii) const {
        std::basic_string<X> r; size_t m = s.draw(12);
        for (size_t q = 0; q < m; ++q) { char32_t c = s.pick<char32_t>({U'a', U'Z', U' ', U'0', U'\u00e9', U'\u6c34', U'\u0301', U'\U0001F600', U'\u20ac'}); if (ascii && c > 0x7F) c = U'q'; if (!valid && s.chance(1, 8)) r.push_back((X)s.pick<uint32_t>({0xD800, 0x80, 0xFF, 0xDC00, 0xE6})); else gen::enc(r, c); }
        if (cx.want_text) { cx.text << " " << pbt::show(r); } return r; }
    template <class C> std::basic_string<C> sep(Src& s) const { std::basic_string<C> r; for (size_t k = s.draw(3); k; --k) r.push_back((C)s.pick<char>({',', ' ', ';'})); return r; }
};
template <class C> struct Out {
    using S = std::basic_string<C>; const Ops& o; Ctx& cx;
    Out(const Ops& oo, Src&, Ctx& c) : o(oo), cx(c) {}
    template <class E> S text(const E& e) const { return (S)strf::to_basic_string<C>.with(o.lc, o.p10, o.p16, o.p8, o.p2).reserve_calc()(e); }
    template <class E> void same(Src& s, const S& want, const E& e) const {
        cx.nt(!want.empty());
        switch (s.draw(4)) {
            case 0: check_eq("printed", text(e), want); break;
            case 1: { Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d)).with(o.lc, o.p10, o.p16, o.p8, o.p2)(e); check_eq("printed", d.finish(), want); break; }
            case 2: { Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d)).with(o.lc, o.p10, o.p16, o.p8, o.p2)((C)'[', e, (C)'|', strf::fmt(E(e)), (C)']'); S w; w.push_back((C)'['); w += want; w.push_back((C)'|'); w += want; w.push_back((C)']'); check_eq("printed twice", d.finish(), w); break; }
            default: { S g = (S)strf::to_basic_string<C>.with(o.lc, o.p10, o.p16, o.p8, o.p2).no_reserve()(strf::join(e, (C)'|')); S w = want; w.push_back((C)'|'); check_eq("printed in a join", g, w); }
        }
    }
};
}
