// P08: strings in the destination's encoding.
#include "common/strm.hpp"
#include <strf/to_string.hpp>
namespace p08 {
using namespace strm;
template <class C> using Traits2 = std::char_traits<C>;
template <class C> struct Alloc : std::allocator<C> { template <class U> struct rebind { using other = Alloc<U>; }; };
template <class C, class Pack> void with_facets(Src& s, Ctx& cx, const AnyWidth& w, int cs, const Pack& pk) {
    size_t maxlen = s.chance(1, 6) ? 400 : 30;
    auto in = source_text<C>(s, cs, maxlen);
    if (s.chance(1, 8)) in.append(s.draw(200), (C)'m');
    Spec sp = spec(s, cx, s.coin() ? 30 : 120);
    int holder = (int)s.draw(6);
    if (holder >= 4) { auto z = in.find(C()); if (z != in.npos && s.coin()) in.resize(z); } // what a pointer sees is checked below anyway
    if (holder == 5 && in.size() > 47) in.resize(47);
    if (cx.want_text) cx.text << " " << uname<C>::v << " " << cs_name<C>(cs) << " holder" << holder << " " << show(in);
    auto seen = holder >= 4 ? in.substr(0, in.find(C())) : in;
    Exact<C> x(seen);
    auto ref = print<C, C>(w, POL_NONE, cs, cs, sp, x.b(), x.e());
    auto c = cut<C>(w, cs, sp, x.b(), x.e());
    if (sp.p) {
        // the property of precision, restated without the position the measure gives: the width fits ...
        strf::width_t big = (strf::width_t::max)();
        auto width_of = [&](size_t n) { if constexpr (std::is_same<C, char>::value) if (cs != UTF) return w.str_width(sbc_dyn()[cs], big, x.b(), x.b() + n).underlying_value(); return w.str_width(strf::utf<C>, big, x.b(), x.b() + n).underlying_value(); };
        if (c.first > 0 && sp.prec > 0 && width_of(c.first) > sp.prec.underlying_value()) fail("the measure's prefix does not fit in the precision");
        if (c.first == in.size()) cx.label("precision takes all"); else cx.label("precision cuts");
    }
    if (sp.a) cx.label("aligned"); cx.nt(!in.empty() && (sp.p ? c.first < in.size() : true));
    // what precedes decides where in the buffer it lands
    size_t lead = s.coin() ? 0 : s.draw(80); std::basic_string<C> pre(lead, (C)'-');
    std::basic_string<C> want = pre + ref.out + (C)'|';
    Chunked<C> d(chunk_sizes(s)); bool tostr = s.chance(1, 4); std::basic_string<C> got;
    auto out = [&](const auto& a) {
        if (tostr) got = strf::to_basic_string<C>.with(pk)(pre, a, (C)'|');
        else { strf::to(d).with(pk)(pre, a, (C)'|'); got = d.finish(); }
    };
    auto go = [&](const auto& v) { if (!sp.p && !sp.a && s.coin()) out(v); else apply(sp, strf::fmt(v), out); };
    std::unique_ptr<C[]> nul(new C[in.size() + 1]); std::copy(in.begin(), in.end(), nul.get()); nul[in.size()] = C();
    switch (holder) {
        case 0: go(in); break;
        case 1: go(std::basic_string_view<C>(x.b(), in.size())); break;
        case 2: { std::basic_string<C, Traits2<C>, Alloc<C>> t(in.begin(), in.end()); go(t); break; }
        case 3: go(std::basic_string<C>(in)); break;
        case 4: go((const C*)nul.get()); break;
        default: { C arr[48]; std::fill(arr, arr + 48, (C)'?'); std::copy(in.begin(), in.end(), arr); arr[in.size()] = C(); const C(&carr)[48] = arr; go(carr); break; }
    }
    check_eq("printed", got, want);
}
template <class C> void statics(Src& s, Ctx& cx) { AnyWidth w = any_width(s, cx); with_facets<C>(s, cx, w, UTF, strf::pack(w)); }
inline void dynamics(Src& s, Ctx& cx) {
    AnyWidth w = any_width(s, cx); int k = (int)s.draw(sbc::count + 1) - 1;
    with_facets<char>(s, cx, w, k, strf::pack(w, k == UTF ? strf::utf<char>.to_dynamic() : sbc_dyn()[k]));
}
}
