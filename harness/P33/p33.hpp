// P33: a printer made once prints the same whenever, wherever and however often it is called, and so do its copies.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/anyw.hpp"
#include <functional>
#ifndef ZOO_VISIT
#define ZOO_VISIT zoo::visit
#endif
namespace p33 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check_eq; using pbt::fail; using pbt::show;
// the printer stored in a user's own function object, as the documentation shows
template <class C, class PR> struct Twice { PR a; PR b; void operator()(strf::destination<C>& d) const { a(d); strf::put(d, (C)'|'); b(d); } };
template <class C, class PR, class Make> void history(Src& s, Ctx& cx, const std::basic_string<C>& t, Make&& make) {
    using S = std::basic_string<C>; std::vector<std::unique_ptr<PR>> slots(4); int copies = 0, prints = 0; std::string log;
    auto print = [&](const PR& p, const char* who) { Chunked<C> d(chunk_sizes(s)); size_t pre = s.draw(70); for (size_t i = 0; i < pre; ++i) strf::put(static_cast<strf::destination<C>&>(d), (C)'p'); p(static_cast<strf::destination<C>&>(d));
        if (s.coin()) { p(static_cast<strf::destination<C>&>(d)); check_eq((log + who + " called twice").c_str(), d.finish(), S(pre, (C)'p') + t + t); } else check_eq((log + who).c_str(), d.finish(), S(pre, (C)'p') + t); ++prints; };
    slots[0].reset(new PR(make()));
    for (size_t n = 2 + s.draw(10); n; --n) { size_t i = s.draw(4), j = s.draw(4); 
        switch (s.draw(6)) {
            case 0: if (slots[i] && i != j) { log += "copy "; const PR& c = *slots[i]; slots[j].reset(new PR(c)); ++copies; } break;
            case 1: if (slots[i] && i != j) { log += "move "; slots[j].reset(new PR(std::move(*slots[i]))); slots[i].reset(); ++copies; } break;
            case 2: if (slots[i] && i != 0) { log += "destroy "; slots[i].reset(); } break;
            case 3: if (!slots[i]) { log += "make "; slots[i].reset(new PR(make())); } break;
            case 4: if (slots[i]) { log += "wrap "; Twice<C, PR> w{*slots[i], slots[j] ? *slots[j] : *slots[i]}; ++copies; Chunked<C> d(chunk_sizes(s)); std::unique_ptr<Twice<C, PR>> x(new Twice<C, PR>(std::move(w))); (*x)(static_cast<strf::destination<C>&>(d)); check_eq((log + "copies in a function object").c_str(), d.finish(), t + (C)'|' + t); ++prints; } break;
            default: if (slots[i]) { log += "print "; print(*slots[i], "a printer"); } } }
    for (auto& p : slots) if (p) print(*p, "in the end"); cx.nt(copies > 0 && t.size() > 1); cx.label(copies ? "copied or moved" : "not copied"); (void)prints;
}
template <class C, class P, class A> void value(Src& s, Ctx& cx, const P& pk, const A& a) {
    Chunked<C> q({size_t(1) << 15}); strf::to(static_cast<strf::destination<C>&>(q)).with(pk)(a); auto t = q.finish();
    // the argument object does not outlive the creation of the printer; what it refers to does
    auto made = [&](auto pre0) { auto make = [&, pre0] { auto pre = pre0; std::unique_ptr<A> h(new A(a)); return strf::make_printer<C>(&pre, pk, *h); }; history<C, decltype(make())>(s, cx, t, make); };
    auto lim = [&] { return strf::width_t::from_underlying((int32_t)s.range(-0x10000, 0x400000)); };
    using strf::size_presence; using strf::width_presence;
    switch (s.draw(4)) {
        case 0: made(strf::no_premeasurements{}); break;
        case 1: made(strf::premeasurements<size_presence::yes, width_presence::no>{}); break;
        case 2: made(strf::premeasurements<size_presence::no, width_presence::yes>{lim()}); break;
        default: made(strf::full_premeasurements{lim()}); }
}
template <class C, class P> void args(Src& s, Ctx& cx, const P& pk) { zoo::Opt o; o.maxstr = 60; o.maxw = 90; zoo::Pool<C> pool; ZOO_VISIT<C>(s, cx, pool, o, [&](const auto& a) { value<C>(s, cx, pk, a); }); }
template <class C> void plain(Src& s, Ctx& cx) { if (cx.want_text) cx.text << uname<C>::v; auto f = zoo::facets(s); auto aw = any_width(s, cx); args<C>(s, cx, strf::pack(f.p10, f.p16, f.p8, f.lc, aw)); }
}
