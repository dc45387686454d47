// P30: user-defined printable types and overriders. The programs are generated by gen.py; this is what they use.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include <functional>
#include <list>
namespace p30 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail;
// a user-defined facet category: a pair of brackets
struct BrkC; struct Brk { using category = BrkC; char o = '(', c = ')'; };
struct BrkC { static constexpr bool constrainable = true; static Brk get_default() noexcept { return {}; } };
// the types
enum class Col { red, green, blue };                                     // print only, alignment, overridable
struct Pt { double x, y; };                                              // make_printer, its own format functions, float formats and alignment, overridable
struct Low { int n; };                                                   // make_printer that returns a function object, its own format function with a quantity
struct Big { std::string s; explicit Big(std::string t) : s(std::move(t)) {} Big(const Big&) = delete; Big& operator=(const Big&) = delete; }; // never copied, overridable
struct Base { int n; }; struct Derived : Base { int extra; }; struct Conv { int n; operator Base() const { return Base{n}; } }; // get_printable_def, not overridable
struct Plain { int n; };                                                 // print only, no format specifiers, overridable
struct NoF { int n; };                                                   // make_printer, no format specifiers, not overridable
struct Half { int n; };                                                  // make_printer of the bare value only
template <class T> struct Tpl { T v; };                                  // around another printable
template <class T> Tpl<T> tpl(const T& v) { return Tpl<T>{v}; }
inline const char* name(Col c) { return c == Col::red ? "red" : c == Col::green ? "green" : "blue"; }
enum class Form { vec, alg };
struct FormSpec { template <class T> class fn { public:
    constexpr fn() = default; constexpr explicit fn(Form f) : f_(f) {}
    template <class U> constexpr explicit fn(const fn<U>& u) : f_(u.get_form()) {}
    constexpr T&& vec() && { f_ = Form::vec; return static_cast<T&&>(*this); } constexpr T& vec() & { f_ = Form::vec; return static_cast<T&>(*this); }
    constexpr T vec() const& { return T{static_cast<const T&>(*this), strf::tag<FormSpec>{}, Form::vec}; }
    constexpr T&& alg() && { f_ = Form::alg; return static_cast<T&&>(*this); } constexpr T& alg() & { f_ = Form::alg; return static_cast<T&>(*this); }
    constexpr T alg() const& { return T{static_cast<const T&>(*this), strf::tag<FormSpec>{}, Form::alg}; }
    constexpr Form get_form() const { return f_; }
    private: Form f_ = Form::vec; }; };
struct TimesSpec { template <class T> class fn { public:
    constexpr fn() = default; constexpr explicit fn(int n) : n_(n) {}
    template <class U> constexpr explicit fn(const fn<U>& u) : n_(u.get_times()) {}
    constexpr T&& times(int n) && { n_ = n; return static_cast<T&&>(*this); } constexpr T& times(int n) & { n_ = n; return static_cast<T&>(*this); }
    constexpr T times(int n) const& { return T{static_cast<const T&>(*this), strf::tag<TimesSpec>{}, n}; }
    constexpr int get_times() const { return n_; }
    private: int n_ = 1; }; };
}
namespace strf {
template <> struct printable_def<p30::Col> { using representative = p30::Col; using forwarded_type = p30::Col; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class FP> static void print(strf::destination<C>& dst, const FP& fp, p30::Col c) { auto b = strf::get_facet<p30::BrkC, p30::Col>(fp); to(dst)(fp, (C)b.o, strf::unsafe_transcode(p30::name(c)), (C)b.c); }
    template <class C, class FP, class... T> static void print(strf::destination<C>& dst, const FP& fp, const strf::value_and_format<T...>& x) { auto b = strf::get_facet<p30::BrkC, p30::Col>(fp);
        to(dst).with(fp)(strf::join((C)b.o, strf::unsafe_transcode(p30::name(x.value())), (C)b.c).set_alignment_format(x.get_alignment_format())); } };
template <> struct printable_def<p30::Pt> { using representative = p30::Pt; using forwarded_type = p30::Pt; using is_overridable = std::true_type; using format_specifiers = strf::tag<p30::FormSpec, strf::alignment_format_specifier, strf::float_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p30::Pt p) { auto b = strf::get_facet<p30::BrkC, p30::Pt>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)b.o, p.x, (C)',', (C)' ', p.y, (C)b.c)); }
    template <class C, class Pre, class FP, class... T> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def, T...>& a) { auto b = strf::get_facet<p30::BrkC, p30::Pt>(fp); auto p = a.value(); bool alg = a.get_form() == p30::Form::alg;
        return strf::make_printer<C>(pre, fp, strf::join(strf::multi((C)b.o, !alg), strf::fmt(p.x).set_float_format(a.get_float_format()), strf::unsafe_transcode(alg ? "+i*" : ", "), strf::fmt(p.y).set_float_format(a.get_float_format()), strf::multi((C)b.c, !alg)).set_alignment_format(a.get_alignment_format())); } };
template <> struct printable_def<p30::Low> { using forwarded_type = p30::Low; using is_overridable = std::false_type; using format_specifiers = strf::tag<p30::TimesSpec, strf::quantity_format_specifier, strf::alignment_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p30::Low l) { pre->add_width(1); pre->add_size(1); auto w = strf::make_printer<C>(pre, fp, l.n); return [w](strf::destination<C>& d) { strf::to(d)((C)'#'); w(d); }; }
    template <class C, class Pre, class FP, class Q> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def, p30::TimesSpec, Q, strf::alignment_format_specifier_q<false>>& a) {
        int k = a.get_times(); auto n = a.value().n; auto q = a.scount(); pre->add_width(static_cast<strf::width_t>(k + (int)q)); pre->add_size(k + (int)q); for (int i = 0; i < k; ++i) strf::measure<C>(pre, fp, n);
        return [k, n, q, fp](strf::destination<C>& d) { for (int i = 0; i < k; ++i) strf::to(d).with(fp)((C)':', n); strf::to(d)(strf::multi((C)'!', (int)q)); }; }
    template <class C, class Pre, class FP, class Q> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def, p30::TimesSpec, Q, strf::alignment_format_specifier_q<true>>& a) {
        return strf::make_printer<C>(pre, fp, strf::join(a.clear_alignment_format()).set_alignment_format(a.get_alignment_format())); } };
template <> struct printable_def<p30::Big> { using representative = p30::Big; using forwarded_type = std::reference_wrapper<const p30::Big>; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const p30::Big& x) { auto b = strf::get_facet<p30::BrkC, p30::Big>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)b.o, strf::unsafe_transcode(x.s), (C)b.c)); }
    template <class C, class Pre, class FP, class... T> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& x) { auto b = strf::get_facet<p30::BrkC, p30::Big>(fp); const p30::Big& v = x.value();
        return strf::make_printer<C>(pre, fp, strf::join((C)b.o, strf::unsafe_transcode(v.s), (C)b.c).set_alignment_format(x.get_alignment_format())); } };
template <> struct printable_def<p30::Base> { using representative = p30::Base; using forwarded_type = p30::Base; using is_overridable = std::false_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p30::Base x) { auto b = strf::get_facet<p30::BrkC, p30::Base>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)'B', (C)b.o, x.n, (C)b.c)); }
    template <class C, class Pre, class FP, class... T> static auto make_printer(strf::tag<C> t, Pre* pre, const FP& fp, const strf::value_and_format<T...>& x) { (void)t; auto b = strf::get_facet<p30::BrkC, p30::Base>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)'B', (C)b.o, x.value().n, (C)b.c).set_alignment_format(x.get_alignment_format())); } };
strf::printable_def<p30::Big> get_printable_def(strf::printable_tag, const p30::Big&); // (what is forwarded, a reference_wrapper, has to be printable too)
strf::printable_def<p30::Base> get_printable_def(strf::printable_tag, const p30::Base&);
template <> struct printable_def<p30::Plain> { using representative = p30::Plain; using forwarded_type = p30::Plain; using is_overridable = std::true_type;
    template <class C, class FP> static void print(strf::destination<C>& dst, const FP& fp, p30::Plain x) { auto b = strf::get_facet<p30::BrkC, p30::Plain>(fp); to(dst).with(fp)((C)'p', (C)b.o, x.n, (C)b.c); } };
template <> struct printable_def<p30::NoF> { using representative = p30::NoF; using forwarded_type = p30::NoF;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p30::NoF x) { auto b = strf::get_facet<p30::BrkC, p30::NoF>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)'n', (C)b.o, x.n, (C)b.c)); } };
template <> struct printable_def<p30::Half> { using forwarded_type = p30::Half; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p30::Half x) { auto b = strf::get_facet<p30::BrkC, p30::Half>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)'h', (C)b.o, x.n, (C)b.c)); } };
template <class U> struct printable_def<p30::Tpl<U>> { using representative = p30::Tpl<U>; using forwarded_type = p30::Tpl<U>; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p30::Tpl<U> x) { auto b = strf::get_facet<p30::BrkC, p30::Tpl<U>>(fp); return strf::make_printer<C>(pre, fp, strf::join((C)'T', (C)b.o, x.v, (C)b.c)); }
    template <class C, class Pre, class FP, class... T> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& a) { auto b = strf::get_facet<p30::BrkC, p30::Tpl<U>>(fp); auto x = a.value(); return strf::make_printer<C>(pre, fp, strf::join((C)'T', (C)b.o, x.v, (C)b.c).set_alignment_format(a.get_alignment_format())); } };
}
namespace p30 {
// overriders
struct OvCol { using category = strf::printable_overrider_c_of<Col>; int id; // print only
    template <class C, class FP> void print(strf::destination<C>& dst, const FP& fp, Col c) const { to(dst).with(fp)((C)'<', id, (C)':', strf::unsafe_transcode(name(c)), (C)'>'); }
    template <class C, class FP, class... T> void print(strf::destination<C>& dst, const FP& fp, const strf::value_and_format<T...>& x) const { to(dst).with(fp)(strf::join((C)'<', id, (C)':', strf::unsafe_transcode(name(x.value())), (C)'>').set_alignment_format(x.get_alignment_format())); } };
struct OvColM { using category = strf::printable_overrider_c_of<Col>; int id; // make_printer for a type that has print
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, Col c) const { return strf::make_printer<C>(pre, fp, strf::join((C)'M', id, strf::unsafe_transcode(name(c)))); }
    template <class C, class Pre, class FP, class... T> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& x) const { return strf::make_printer<C>(pre, fp, strf::join((C)'M', id, strf::unsafe_transcode(name(x.value()))).set_alignment_format(x.get_alignment_format())); } };
struct OvPt { using category = strf::printable_overrider_c_of<Pt>; int id;
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, Pt p) const { return strf::make_printer<C>(pre, fp, strf::join((C)'P', id, (C)' ', p.x)); }
    template <class C, class Pre, class FP, class... T> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& a) const { return strf::make_printer<C>(pre, fp, strf::join((C)'P', id, (C)' ', strf::fmt(a.value().x).set_float_format(a.get_float_format())).set_alignment_format(a.get_alignment_format())); } };
struct OvBool { using category = strf::printable_overrider_c_of<bool>; int id;
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP&, bool x) const { return strf::make_printer<C>(pre, strf::pack(), strf::join((C)'b', id, strf::unsafe_transcode(x ? "vero" : "falso"))); }
    template <class C, class Pre, class FP, class... T> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& x) const { return strf::make_printer<C>(pre, fp, strf::join((C)'b', id, strf::unsafe_transcode(x.value() ? "vero" : "falso")).set_alignment_format(x.get_alignment_format())); } };
struct OvDbl { using category = strf::printable_overrider_c_of<double>; int id;
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, double) const { return strf::make_printer<C>(pre, fp, strf::join((C)'d', id)); }
    template <class C, class Pre, class FP, class... T> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& x) const { return strf::make_printer<C>(pre, fp, strf::join((C)'d', id).set_alignment_format(x.get_alignment_format())); } };
struct OvBig { using category = strf::printable_overrider_c_of<Big>; int id;
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const Big& x) const { return strf::make_printer<C>(pre, fp, strf::join((C)'G', id, (C)':', strf::unsafe_transcode(x.s))); }
    template <class C, class Pre, class FP, class... T> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& x) const { const Big& v = x.value(); return strf::make_printer<C>(pre, fp, strf::join((C)'G', id, (C)':', strf::unsafe_transcode(v.s)).set_alignment_format(x.get_alignment_format())); } };
struct OvPlain { using category = strf::printable_overrider_c_of<Plain>; int id; template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, Plain x) const { return strf::make_printer<C>(pre, fp, strf::join((C)'L', id, (C)'/', x.n)); } };
template <class T> struct OvTpl { using category = strf::printable_overrider_c_of<Tpl<T>>; int id; // prints what it is around, with the facets it is given
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, Tpl<T> x) const { return strf::make_printer<C>(pre, fp, strf::join((C)'t', id, (C)'=', x.v)); }
    template <class C, class Pre, class FP, class... U> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<U...>& a) const { return strf::make_printer<C>(pre, fp, strf::join((C)'t', id, (C)'=', a.value().v).set_alignment_format(a.get_alignment_format())); } };
// for types that cannot be overridden: never used
template <class T> struct Ign { using category = strf::printable_overrider_c_of<T>; int id;
    template <class C, class Pre, class FP, class X> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const X&) const { return strf::make_printer<C>(pre, fp, strf::unsafe_transcode("IGNORED OVERRIDER USED")); }
    template <class C, class FP, class X> void print(strf::destination<C>& d, const FP&, const X&) const { to(d)(strf::unsafe_transcode("IGNORED OVERRIDER USED")); } };
// ---- model ----
template <class C> struct Node { std::basic_string<C> t; long w = 0; };
struct Al { char32_t fill = U' '; strf::width_t w; strf::text_alignment a = strf::text_alignment::right; };
template <class C> struct V { using S = std::basic_string<C>; using N = Node<C>;
    Col col[4]; Pt pt[4]; Low low[3]; Big big[3]; Base base[3]; Derived der[3]; Conv conv[3]; Plain plain[3]; NoF nof[3]; Half half[3]; double d[4]; bool b[2]; int i[3];
    strf::width_t w[8]; char32_t f[8]; strf::text_alignment a[8]; int pr[4], k[4]; strf::numpunct<10> np[12]; Brk brk[12]; S sep[2], str[3];
    std::vector<Col> vcol; std::vector<Pt> vpt; std::list<Derived> lder; std::vector<Plain> vplain; std::vector<NoF> vnof; std::vector<Low> vlow; std::vector<Tpl<Pt>> vtpt; std::vector<Tpl<Col>> vtcol; std::vector<bool> vb;
    static std::string word(Src& s) { std::string r; size_t n = s.size(s.chance(1, 8) ? 90 : 9); for (size_t q = 0; q < n; ++q) r += (char)('a' + s.draw(26)); return r; }
    static double num(Src& s) { return s.chance(1, 4) ? gen::f64(s) : s.coin() ? (double)s.range(-5000, 5000) : (double)s.range(-90000, 90000) / 64; }
    static strf::numpunct<10> punct(Src& s) { auto p = strf::numpunct<10>((int)(1 + s.draw(4)), s.coin() ? -1 : 2); p.thousands_sep(s.pick<char32_t>({U',', U'\'', U'.', U'\u00b7', U'\u2022'})); p.decimal_point(s.pick<char32_t>({U'.', U',', U'\u00b7'})); return p; }
    V(Src& s, Ctx& cx) : big{Big(word(s)), Big(word(s)), Big(word(s))}, np{punct(s), punct(s), punct(s), punct(s), punct(s), punct(s), punct(s), punct(s), punct(s), punct(s), punct(s), punct(s)} {
        for (auto& x : col) x = (Col)s.draw(3); for (auto& x : pt) x = {num(s), num(s)}; auto iv = [&] { return s.coin() ? (int)s.range(-99, 999) : gen::integer<int>(s); };
        for (auto& x : low) x.n = iv(); for (auto& x : base) x.n = iv(); for (auto& x : der) { x.n = iv(); x.extra = iv(); } for (auto& x : conv) x.n = iv(); for (auto& x : plain) x.n = iv(); for (auto& x : nof) x.n = iv(); for (auto& x : half) x.n = iv();
        for (auto& x : d) x = num(s); for (auto& x : b) x = s.coin(); for (auto& x : i) x = iv(); for (auto& x : w) x = zoo::width(s, s.coin() ? 24 : 70); for (auto& x : f) x = gen::fill_char(s); for (auto& x : a) x = zoo::align(s);
        for (auto& x : pr) x = (int)s.draw(s.chance(1, 6) ? 60 : 9); for (auto& x : k) x = (int)s.draw(5); for (auto& x : brk) { x.o = s.pick({'{', '[', '<', '"'}); x.c = s.pick({'}', ']', '>', '"'}); }
        for (auto& x : sep) { auto q = word(s).substr(0, 4); x.assign(q.begin(), q.end()); } for (auto& x : str) { auto q = word(s); x.assign(q.begin(), q.end()); }
        auto n = [&] { return s.draw(5); }; for (size_t q = n(); q; --q) vcol.push_back((Col)s.draw(3)); for (size_t q = n(); q; --q) vpt.push_back({num(s), num(s)}); for (size_t q = n(); q; --q) { Derived e; e.n = iv(); e.extra = iv(); lder.push_back(e); } for (size_t q = n(); q; --q) vplain.push_back({iv()}); for (size_t q = n(); q; --q) vnof.push_back({iv()}); for (size_t q = n(); q; --q) vlow.push_back({iv()}); for (size_t q = n(); q; --q) vtpt.push_back({{num(s), num(s)}}); for (size_t q = n(); q; --q) vtcol.push_back({(Col)s.draw(3)}); for (size_t q = n(); q; --q) vb.push_back(s.coin());
        if (cx.want_text) { cx.text << std::dec << " pt="; for (auto& x : pt) cx.text << "(" << x.x << "," << x.y << ")"; cx.text << " d="; for (auto x : d) cx.text << x << ","; cx.text << " w="; for (auto x : w) cx.text << x.underlying_value() / 65536.0 << ","; cx.text << " f="; for (auto x : f) cx.text << std::hex << (uint32_t)x << std::dec << ","; cx.text << " a="; for (auto x : a) cx.text << (int)x << ","; cx.text << " i="; for (auto x : i) cx.text << x << ","; cx.text << " big="; for (auto& x : big) cx.text << x.s << ","; cx.text << " low="; for (auto& x : low) cx.text << x.n << ","; cx.text << " pr="; for (auto x : pr) cx.text << x << ","; cx.text << " k="; for (auto x : k) cx.text << x << ","; }
    }
    static N lit(const std::string& t) { return {S(t.begin(), t.end()), (long)t.size()}; }
    static N lit(char c) { return lit(std::string(1, c)); } static N lit(int n) { return lit(std::to_string(n)); } static N own(const S& t) { return {t, (long)t.size()}; }
    template <class... A> static N cat(const A&... a) { N r; (void)std::initializer_list<int>{(r.t += a.t, r.w += a.w, 0)...}; return r; }
    // alignment: the room is rounded to the nearest, ties towards zero
    static N al(char32_t fill, strf::width_t w, strf::text_alignment a, const N& n) {
        int64_t room = (int64_t)w.underlying_value() - ((int64_t)n.w << 16); long k = room > 0 ? (long)(room >> 16) + ((room & 0xFFFF) > 0x8000) : 0; long l = a == strf::text_alignment::left ? 0 : a == strf::text_alignment::right ? k : k / 2;
        N r; S u = tc::raw_encode<C>(tc::UTF, fill); for (long q = 0; q < l; ++q) r.t += u; r.t += n.t; for (long q = 0; q < k - l; ++q) r.t += u; r.w = n.w + k; return r; }
    template <class P, class A> static N num(const P& p, const A& a) { N r; r.t = (S)strf::to_basic_string<C>.with(p)(a); r.w = (long)gen::decode(r.t.data(), r.t.size()).size(); return r; } // a float by itself: the other properties' matter
    static N br(const Brk& b, const N& n) { return cat(lit(b.o), n, lit(b.c)); }
    template <class R, class F> static N range(const R& r, const S* sep, F f) { N n; bool first = true; for (const auto& e : r) { if (!first && sep) n = cat(n, own(*sep)); first = false; n = cat(n, f(e)); } return n; }
    static N low_(int n, int times, int q) { N r; for (int x = 0; x < times; ++x) r = cat(r, lit(':'), lit(n)); return cat(r, lit(std::string((size_t)q, '!'))); }
};
template <class C, class FP, class... A> void measured(const char* text, const Node<C>& want, const FP& fp, const A&... a) {
    strf::full_premeasurements pre; strf::measure<C>(&pre, fp, a...);
    if (pre.accumulated_ssize() < (std::ptrdiff_t)want.t.size()) fail(std::string(text) + ": measured size " + std::to_string(pre.accumulated_ssize()) + ", printed " + std::to_string(want.t.size()));
    if (pre.accumulated_width() != strf::width_t((int)want.w)) fail(std::string(text) + ": measured width " + std::to_string(pre.accumulated_width().underlying_value() / 65536.0) + ", want " + std::to_string(want.w));
    strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> pw; strf::measure<C>(&pw, fp, a...); if (pw.accumulated_width() != strf::width_t((int)want.w)) fail(std::string(text) + ": width measured alone " + std::to_string(pw.accumulated_width().underlying_value() / 65536.0) + ", want " + std::to_string(want.w));
    strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> ps; strf::measure<C>(&ps, fp, a...); if (ps.accumulated_ssize() < (std::ptrdiff_t)want.t.size()) fail(std::string(text) + ": size measured alone " + std::to_string(ps.accumulated_ssize()) + ", printed " + std::to_string(want.t.size()));
}
}
