// P19: facet stacks. The programs (stacks of settings around arguments) are generated by gen.py; this is what they use.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/intm.hpp"
#include "common/anyw.hpp"
#include <set>
namespace p19 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail;
// two user-defined categories, each with two facet types
template <int Cat, int T> struct Fc;
template <int Cat> struct UC { static constexpr bool constrainable = true; static Fc<Cat, 0> get_default() noexcept { return Fc<Cat, 0>{}; } };
template <int Cat, int T> struct Fc { using category = UC<Cat>; static constexpr int type = T; int id = -1; };
struct NC; struct Nf { using category = NC; int id = -1; }; struct NC { static constexpr bool constrainable = false; static Nf get_default() noexcept { return Nf{}; } }; // not constrainable
template <class F> int ident(const F& f) { return f.id < 0 ? -1 : f.id * 2 + F::type; }
struct Note { using category = strf::tr_error_notifier_c; std::set<int>* log; int id;
    template <class Charset> void handle(const typename Charset::code_unit*, std::size_t, Charset, std::size_t) noexcept { log->insert(id); }
    template <class Charset> void handle(const typename Charset::code_unit*, std::size_t, Charset, std::size_t) const noexcept { log->insert(id); } };
// overriders print "<id:" and what fits
template <class T> struct Ov { using category = strf::printable_overrider_c_of<T>; int id;
    template <class C, class Pre, class FP> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, T) const { return strf::make_printer<C>(pre, fp, strf::join((C)'<', id, (C)'>')); }
    template <class C, class Pre, class FP, class... X> auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<X...>&) const { return strf::make_printer<C>(pre, fp, strf::join((C)'<', id, (C)'>')); } };
template <int N> struct Probe {};
}
namespace strf {
template <int N> struct printable_def<p19::Probe<N>> { using representative = p19::Probe<N>; using forwarded_type = p19::Probe<N>; using is_overridable = std::false_type; using format_specifiers = strf::tag<>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, p19::Probe<N>) {
        return strf::make_printer<C>(pre, strf::pack(), strf::join((C)'[', p19::ident(strf::get_facet<p19::UC<0>, p19::Probe<N>>(fp)), (C)',', p19::ident(strf::get_facet<p19::UC<1>, p19::Probe<N>>(fp)), (C)',', strf::get_facet<p19::NC, p19::Probe<N>>(fp).id, (C)']')); } };
}
namespace p19 {
template <class C> struct V { using S = std::basic_string<C>; using X = std::conditional_t<sizeof(C) == 1, char16_t, char>;
    std::set<int> log; strf::lettercase lc[24]; strf::numpunct<10> p10[24]{strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1), strf::numpunct<10>(1)};
    strf::numpunct<16> p16[24]{strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1), strf::numpunct<16>(1)};
    AnyWidth wc[24]; bool b; int i; unsigned long long u; short sh; double d; float f; const void* p; C ch; char32_t c32; S str, sep, trs; std::basic_string<X> sx; std::basic_string_view<C> sv; std::vector<int> vi; strf::int_format ifmt; strf::width_t w;
    V(Src& s, Ctx& cx) {
        for (int k = 0; k < 24; ++k) { lc[k] = intm::lcase(s); wc[k].k = (int)s.draw(5);
            auto ch = [&]() -> char32_t { return U"._'`~;|_\u00b7\u2022"[s.draw(10)]; };
            p10[k] = strf::numpunct<10>((int)(1 + s.draw(4)), s.coin() ? -1 : 2).thousands_sep(ch()).decimal_point(ch()); p16[k] = strf::numpunct<16>((int)(1 + s.draw(4))).thousands_sep(ch()).decimal_point(ch()); }
        b = s.coin(); i = gen::integer<int>(s); u = gen::u64(s); sh = (short)gen::u64(s); d = s.coin() ? gen::f64(s) : s.pick<double>({1e50, -1.5e-70, 123456789.25, 1.0 / 0.0, 0.0, -1.0 / 0.0, 65536.5}); f = s.coin() ? gen::f32(s) : 1e30f; p = (const void*)(uintptr_t)(u | 0xabc);
        auto text = [&](auto* t, size_t n) { using T = std::remove_pointer_t<decltype(t)>; std::basic_string<T> r; size_t m = s.draw(n); for (size_t q = 0; q < m; ++q) gen::enc(r, (char32_t)s.pick<uint32_t>({'a', 'b', '.', 'Q', 0x6C34, 0xE9, 0x301, 0x1F600, 0x20AC, '0'})); return r; };
        str = text((C*)0, 9); sep = text((C*)0, 4); sx = text((X*)0, 9); sv = str; ch = (C)('!' + s.draw(90)); c32 = s.pick<char32_t>({U'a', U'\u6c34', U'\u0301', U'\U0001F600'});
        size_t n = s.draw(5); for (size_t q = 0; q < n; ++q) vi.push_back(gen::integer<int>(s));
        trs = text((C*)0, 4); trs += (C)'{'; trs += (C)'}'; if (s.chance(2, 3)) { trs += (C)'{'; trs += (C)'7'; trs += (C)'}'; } trs += text((C*)0, 3);
        ifmt.base = s.pick<int>({10, 16}); ifmt.punctuate = s.coin(); ifmt.showbase = s.coin(); ifmt.precision = (int)s.draw(12); w = zoo::width(s, 20);
        if (cx.want_text) cx.text << " b=" << b << " i=" << i << " u=" << u << " sh=" << sh << " d=" << d << " f=" << f << " ch=" << (uint32_t)ch << " c32=" << (uint32_t)c32 << " str=" << pbt::show(str) << " sx=" << pbt::show(sx) << " sep=" << pbt::show(sep) << " tr=" << pbt::show(trs) << " w=" << w.underlying_value() / 65536.0 << " nvi=" << vi.size();
    }
    Note note(int id) { return Note{&log, id}; }
};
template <class A, class B> void eqi(const char* what, A got, B want) { if ((long long)got != (long long)want) pbt::fail(std::string(what) + ": got " + std::to_string((long long)got) + ", want " + std::to_string((long long)want)); }
}
