// Model of a printed string argument: precision, transcoding, alignment.
#ifndef VERIF_STRM_HPP
#define VERIF_STRM_HPP
#include "tc.hpp"
#include "anyw.hpp"
#include "zoo.hpp"
namespace strm {
using namespace pbt; using namespace tc;
struct Spec { bool p = false, a = false; strf::width_t prec; strf::alignment_format af; };
// Q16.16, rounded half towards zero
inline long round16(int64_t v) { long i = (long)(v >> 16); return i + ((v & 0xFFFF) > 0x8000); }
template <class D> std::basic_string<D> fill(int dcs, char32_t ch, long n) { std::basic_string<D> r, u = raw_encode<D>(dcs, ch); for (long i = 0; i < n; ++i) r += u; return r; }
// `content` of width `w` aligned; the fill is written with the destination charset's encode_fill
template <class D> std::basic_string<D> align(int dcs, const strf::alignment_format& a, int64_t w, const std::basic_string<D>& content) {
    int64_t room = (int64_t)a.width.underlying_value() - w; long n = room > 0 ? round16(room) : 0;
    switch (a.alignment) { case strf::text_alignment::left: return content + fill<D>(dcs, a.fill, n); case strf::text_alignment::right: return fill<D>(dcs, a.fill, n) + content;
        default: return fill<D>(dcs, a.fill, n / 2) + content + fill<D>(dcs, a.fill, n - n / 2); }
}
// the units of the source that are printed, and their width, as the (separately checked) calculator measures them
template <class S> std::pair<size_t, int64_t> cut(const AnyWidth& w, int scs, const Spec& sp, const S* b, const S* e) {
    auto go = [&](auto cs) -> std::pair<size_t, int64_t> {
        if (sp.p) { auto r = w.str_width_and_pos(cs, sp.prec, b, e); return {(size_t)(r.ptr - b), r.width.underlying_value()}; }
        return {(size_t)(e - b), sp.a ? w.str_width(cs, sp.af.width, b, e).underlying_value() : 0};
    };
    if constexpr (std::is_same<S, char>::value) { if (scs != UTF) return go(sbc_dyn()[scs]); }
    return go(strf::utf<S>);
}
enum { POL_NONE, POL_TRANSCODE, POL_SANI, POL_UNSAFE };
template <class S, class D> Ref<D> print(const AnyWidth& w, int pol, int scs, int dcs, const Spec& sp, const S* b, const S* e) {
    auto c = cut<S>(w, scs, sp, b, e);
    Ref<D> r;
    bool same = scs == dcs && sizeof(S) == sizeof(D);
    if (pol == POL_NONE || (same && (pol == POL_TRANSCODE || pol == POL_UNSAFE))) r.out.assign(b, b + c.first);
    else r = reference<S, D>(scs, dcs, b, c.first, nocap, strf::transcode_flags::none);
    if (sp.a) r.out = align<D>(dcs, sp.af, c.second, r.out);
    return r;
}
inline Spec spec(Src& s, Ctx& cx, int maxw) {
    Spec r; r.p = s.coin(); r.a = s.coin();
    if (r.p) { r.prec = zoo::width(s, maxw); if (cx.want_text) cx.text << " p(" << r.prec.underlying_value() / 65536.0 << ")"; }
    if (r.a) { zoo::Opt o; o.maxw = maxw; r.af = zoo::af(s, o, cx); }
    return r;
}
// calls f(formatted argument) for the spec
template <class A, class F> void apply(const Spec& sp, const A& a, F&& f) {
    if (sp.p && sp.a) f(a.p(sp.prec).set_alignment_format(sp.af)); else if (sp.p) f(a.p(sp.prec)); else if (sp.a) f(a.set_alignment_format(sp.af)); else f(a);
}
}
#endif
