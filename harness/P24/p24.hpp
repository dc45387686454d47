// P24: what measure() computes, against what is then printed.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/anyw.hpp"
#ifndef ZOO_VISIT
#define ZOO_VISIT zoo::visit
#endif
namespace p24 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail; using pbt::show;
using strf::size_presence; using strf::width_presence; using strf::width_t;
inline std::string w(width_t x) { char t[64]; snprintf(t, sizeof t, "%.6g(%ld)", x.underlying_value() / 65536.0, (long)x.underlying_value()); return t; }
inline void same(const char* what, width_t got, width_t want) { if (got != want) fail(std::string(what) + ": " + w(got) + " want " + w(want)); }
// a destination with exactly `n` units, then more
template <class C> struct Exactly : Chunked<C> { Exactly(size_t n) : Chunked<C>({64}) { this->cur_n = n; this->cur.reset(new C[n ? n : 1]); this->set_buffer_ptr(this->cur.get()); this->set_buffer_end(this->cur.get() + n); } };
struct M { size_t size; width_t width; };
inline width_t limit(Src& s, width_t full) { int64_t f = full.underlying_value(); int64_t v; switch (s.draw(6)) { case 0: v = f; break; case 1: v = f + s.range(-3, 3); break; case 2: v = f + s.range(-0x20000, 0x20000); break; case 3: v = s.range(0, f > 0 ? f : 0); break; case 4: v = s.range(-0x10000, 0x7fffffff); break; default: v = (int64_t)s.draw(60) << 16; }
    if (v > 0x7fffffff) v = 0x7fffffff; if (v < -0x7fffffff) v = -0x7fffffff; return width_t::from_underlying((int32_t)v); }
inline width_t least(width_t a, width_t b) { return a < b ? a : b; }
// everything that must agree, for a list of arguments; total: as measured one by one
template <class C, class P, class... A> M all(Src& s, Ctx& cx, const P& pk, const A&... a) {
    strf::full_premeasurements both; strf::measure<C>(&both, pk, a...); M m{both.accumulated_size(), both.accumulated_width()}; check((std::ptrdiff_t)m.size == both.accumulated_ssize(), "accumulated_ssize()");
    strf::premeasurements<size_presence::yes, width_presence::no> size; strf::measure<C>(&size, pk, a...); check(size.accumulated_size() == m.size, "size alone is " + std::to_string(size.accumulated_size()) + " but with width it is " + std::to_string(m.size));
    strf::premeasurements<size_presence::no, width_presence::yes> width; strf::measure<C>(&width, pk, a...); same("width alone, vs with size", width.accumulated_width(), m.width);
    width_t l = limit(s, m.width); if (cx.want_text) cx.text << " limit " << w(l);
    auto lim = [&](const auto& p, const char* what) {
        same(what, p.accumulated_width(), least(m.width, l)); bool more = m.width < l; if (p.has_remaining_width() != more) fail(std::string(what) + ": has_remaining_width() is " + (more ? "false" : "true") + " for width " + w(m.width) + " limit " + w(l));
        same("remaining_width()", p.remaining_width(), more ? width_t::from_underlying(l.underlying_value() - (m.width.underlying_value())) : width_t(0));
        width_t q = limit(s, l); int64_t sum = (int64_t)m.width.underlying_value() + q.underlying_value(); if (more && q >= 0 && p.remaining_width_greater_than(q) != (sum < l.underlying_value())) fail("remaining_width_greater_than(" + w(q) + ")"); };
    { strf::full_premeasurements p(l); strf::measure<C>(&p, pk, a...); check(p.accumulated_size() == m.size, "size with a width limit"); lim(p, "width with limit"); }
    { strf::premeasurements<size_presence::no, width_presence::yes> p(l); strf::measure<C>(&p, pk, a...); lim(p, "width alone with limit"); }
    if (m.width < l) cx.label("below the limit"); else cx.label("limit reached");
    size_t k = s.draw(300); strf::full_premeasurements acc; acc.add_size(k); strf::measure<C>(&acc, pk, a...); check(acc.accumulated_size() == m.size + k, "size is not added");
    return m;
}
template <class C, class P, class... A> std::basic_string<C> printed(Src& s, const P& pk, const A&... a) { (void)s; Chunked<C> q({size_t(1) << 15}); strf::to(static_cast<strf::destination<C>&>(q)).with(pk)(a...); return q.finish(); }
inline width_t sat(width_t a, width_t b) { int64_t v = (int64_t)a.underlying_value() + b.underlying_value(); return width_t::from_underlying((int32_t)std::min<int64_t>(v, 0x7fffffff)); }
template <class C, class P> void args(Src& s, Ctx& cx, const P& pk, int cs, int wk, bool noerr) {
    using S = std::basic_string<C>; zoo::Opt o; o.maxstr = 90; o.maxw = s.chance(1, 25) ? 32000 : 120; o.bad_text = !noerr; zoo::Pool<C> pool; 
    ZOO_VISIT<C>(s, cx, pool, o, [&](const auto& a) {
        S t = printed<C>(s, pk, a); cx.nt(t.size() > 1);
        M m = all<C>(s, cx, pk, a);
        if (m.size < t.size()) fail("the computed size is " + std::to_string(m.size) + " but " + std::to_string(t.size()) + " units are printed");
        if (noerr && m.size != t.size()) fail("the computed size is " + std::to_string(m.size) + ", not " + std::to_string(t.size()) + ": " + show(t)); else if (m.size != t.size()) cx.label("size over-estimated");
        { Exactly<C> d(m.size); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a); check(d.recycles == 0, "recycle() was called although the computed size was available"); check_eq("text", d.finish(), t); }
        size_t n = 0; bool clean = true; for (auto& it : decode(cs, t.data(), t.size(), false)) { ++n; clean = clean && it.ok && it.cp != 0xFFFD && (cs == UTF || it.cp != '?'); }
        if ((wk == 2 || wk == 3) && clean) { cx.label("width is the number of characters"); same("width, counting characters", m.width, width_t((int)n)); }
        switch (s.draw(3)) {
            case 0: break;
            case 1: { cx.label("several arguments"); size_t n = s.draw(40); S x(n, (C)'x'); int i = gen::integer<int>(s); M mx = all<C>(s, cx, pk, x), mi = all<C>(s, cx, pk, i), r = all<C>(s, cx, pk, x, a, i, a, a); check(r.size == mx.size + mi.size + 3 * m.size, "size of a list"); same("width of a list", r.width, sat(sat(sat(sat(mx.width, m.width), mi.width), m.width), m.width)); break; }
            default: { cx.label("in a join or template"); M r = all<C>(s, cx, pk, strf::join(a, 7, a)); check(r.size == 2 * m.size + 1, "size of a join"); same("width of a join", r.width, sat(sat(m.width, width_t(1)), m.width)); 
                S tm; for (size_t n = s.draw(20); n; --n) tm.push_back((C)'x'); size_t n = tm.size(); tm.push_back((C)'{'); tm.push_back((C)'}'); tm.push_back((C)'{'); tm.push_back((C)'0'); tm.push_back((C)'}'); M q = all<C>(s, cx, pk, strf::tr(tm, a)); if (wk != 4) { check(q.size == 2 * m.size + n, "size of a template: " + std::to_string(q.size) + " want " + std::to_string(2 * m.size + n)); same("width of a template", q.width, sat(sat(width_t((int)n), m.width), m.width)); } } } });
}
template <class C> void plain(Src& s, Ctx& cx) { if (cx.want_text) cx.text << uname<C>::v; auto f = zoo::facets(s); auto aw = any_width(s, cx); bool noerr = s.coin(); args<C>(s, cx, strf::pack(f.p10, f.p16, f.p8, f.lc, aw), UTF, aw.k, noerr); }
}
