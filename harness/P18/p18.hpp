// P18: joins, against a model that carries text and width.
#include "P16/p16.hpp"
#include "common/strm.hpp"
#include <vector>
namespace p18 {
using namespace strm;
template <class C> struct Node { std::basic_string<C> t; int64_t w = 0; };
template <class C> void operator+=(Node<C>& a, const Node<C>& b) { a.t += b.t; a.w = std::min<int64_t>(a.w + b.w, INT32_MAX); }
template <class C> Node<C> operator+(Node<C> a, const Node<C>& b) { a += b; return a; }
template <class C> Node<C> aligned(int cs, const strf::alignment_format& a, const Node<C>& n) {
    Node<C> r; r.t = strm::align<C>(cs, a, n.w, n.t); int64_t room = (int64_t)a.width.underlying_value() - n.w; r.w = std::min<int64_t>(n.w + (room > 0 ? (int64_t)round16(room) << 16 : 0), INT32_MAX); return r;
}
template <class C> size_t codepoints(int cs, const std::basic_string<C>& t) { return tc::decode<C>(cs, t.data(), t.size(), true).size(); }
inline strf::alignment_format afmt(Src& s, Ctx& cx) {
    strf::alignment_format a{gen::fill_char(s), s.chance(1, 12) ? s.pick<strf::width_t>({strf::width_t(300), (strf::width_t::max)(), (strf::width_t::min)(), strf::width_t(-1), strf::width_t::from_underlying(0x8000), strf::width_t(4000)}) : s.chance(1, 3) ? strf::width_t(0) : zoo::width(s, s.coin() ? 30 : 120), zoo::align(s)};
    if (a.width.underlying_value() > (5000 << 16)) { a.width = strf::width_t(s.coin() ? 0 : 4999); } // the largest width makes texts of 32767 characters: kept for the outermost only
    if (cx.want_text) cx.text << " align{" << std::hex << (uint32_t)a.fill << std::dec << "," << a.width.underlying_value() / 65536.0 << "," << (int)a.alignment << "}";
    return a;
}
template <class C, class Pack> struct Model { int cs; AnyWidth w; const Pack& pk; Ctx& cx; using S = std::basic_string<C>;
    int64_t width(const AnyWidth& wc, const C* b, const C* e) const { if constexpr (std::is_same<C, char>::value) if (cs != UTF) return wc.str_width(sbc_dyn()[cs], (strf::width_t::max)(), b, e).underlying_value(); return wc.str_width(strf::utf<C>, (strf::width_t::max)(), b, e).underlying_value(); }
    Node<C> text(const S& t, const AnyWidth* wc = nullptr) const { if (cx.want_text) cx.text << " " << show(t); return {t, width(wc ? *wc : w, t.data(), t.data() + t.size())}; }
    template <class P, class A> Node<C> num_with(const P& p, const A& a) const { Node<C> n; n.t = (S)strf::to_basic_string<C>.with(p)(a); n.w = (int64_t)codepoints<C>(cs, n.t) << 16; if (cx.want_text) cx.text << " " << show(n.t); return n; }
    template <class A> Node<C> num(const A& a) const { return num_with(pk, a); }
    Node<C> cp(char32_t c, int n, bool own) const { Node<C> r; S u; int64_t cw;
        if (own) { u.push_back((C)c); } else u = raw_encode<C>(cs, c);
        if (own || std::is_same<C, char32_t>::value) { if constexpr (std::is_same<C, char>::value) cw = cs != UTF ? w.char_width(sbc_dyn()[cs], (C)c).underlying_value() : w.char_width(strf::utf<C>, (C)c).underlying_value(); else cw = w.char_width(strf::utf<C>, (C)c).underlying_value(); }
        else cw = w.char_width(strf::utf<char32_t>, c).underlying_value();
        for (int i = 0; i < n; ++i) { r.t += u; } r.w = std::min<int64_t>(cw * n, INT32_MAX); if (cx.want_text) cx.text << " U+" << std::hex << (uint32_t)c << std::dec << "x" << n; return r; }
    Node<C> str(const S& t, const Spec& sp) const { auto c = cut<C>(w, cs, sp, t.data(), t.data() + t.size()); Node<C> n{t.substr(0, c.first), 0}; n.w = sp.p ? c.second : width(w, t.data(), t.data() + t.size()); if (cx.want_text) cx.text << " " << show(t); return sp.a ? aligned<C>(cs, sp.af, n) : n; }
    template <class X> Node<C> foreign(int pol, const std::basic_string<X>& t, const Spec& sp) const { Spec q = sp; q.a = false; Node<C> n; const X* b = t.data(); auto r = strm::print<X, C>(w, pol, pol == POL_SANI ? cs : UTF, cs, q, b, b + t.size()); n.t = r.out;
        Spec z = q; z.a = !q.p; z.af.width = (strf::width_t::max)(); n.w = cut<X>(w, pol == POL_SANI ? cs : UTF, z, b, b + t.size()).second; if (cx.want_text) cx.text << " " << show(t); return sp.a ? aligned<C>(cs, sp.af, n) : n; }
};
struct Join { template <class... A> auto operator()(const A&... a) const { return strf::join(a...); } };
// `build(maker)` applies a join maker to the arguments; inner: what they print
template <class C, class Pack, class B> void check_join(Src& s, Ctx& cx, const Model<C, Pack>& m, const Pack& pk, const char* what, const Node<C>& inner, B&& build) {
    using S = std::basic_string<C>; strf::alignment_format a = afmt(s, cx); std::string w = what; cx.label(what);
    if (s.chance(1, 2)) { int64_t near = inner.w + s.pick<int64_t>({0, 1, -1, 0x8000, 0x8001, 0x10000, 0x18000, 5 << 16, 6 << 16, -0x10000}); if (near <= INT32_MAX) a.width = strf::width_t::from_underlying((int32_t)near); }
    else if (s.chance(1, 100)) a.width = (strf::width_t::max)();
    if (a.width.underlying_value() > (9000 << 16) && !s.chance(1, 10)) a.width = strf::width_t(0);
    if (cx.want_text) cx.text << " outer width " << a.width.underlying_value() / 65536.0 << " content width " << inner.w / 65536.0;
    Node<C> all = aligned<C>(m.cs, a, inner); cx.nt(!inner.t.empty()); if (all.t.size() > inner.t.size()) cx.label("fill added");
    auto go = [&](const std::string& k, const auto& j, const Node<C>& want) {
        switch (s.draw(5)) {
            case 0: { Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)((C)'[', j, (C)']'); check_eq(k.c_str(), d.finish(), (C)'[' + want.t + (C)']'); break; }
            case 1: { Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(j); check_eq(k.c_str(), d.finish(), want.t); break; }
            case 2: check_eq((k + ", size computed").c_str(), (S)strf::to_basic_string<C>.with(pk).reserve_calc()(j), want.t); break;
            case 3: { auto b = afmt(s, cx); check_eq((k + ", inside an aligned join").c_str(), (S)strf::to_basic_string<C>.with(pk).reserve_calc()(strf::join(j, j).set_alignment_format(b)), aligned<C>(m.cs, b, want + want).t); break; }
            default: { auto b = afmt(s, cx); auto c = afmt(s, cx); Node<C> z; z.t.push_back((C)'7'); z.w = 0x10000; Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(strf::join(7, strf::join(j).set_alignment_format(b), 7).set_alignment_format(c)); check_eq((k + ", inside two aligned joins").c_str(), d.finish(), aligned<C>(m.cs, c, z + aligned<C>(m.cs, b, want) + z).t); }
        }
    };
    bool ascii_fill = a.fill < 0x80 && a.fill != ' ';
    auto with_al = [&](strf::text_alignment t) { auto x = a; x.alignment = t; return aligned<C>(m.cs, x, inner); };
    switch (s.draw(8)) {
        case 0: go(w + " join", build(Join()), inner); break;
        case 1: go(w + " join > <", build(Join()).set_alignment_format(a), all); break;
        case 2: { auto x = a; x.fill = U' '; Node<C> n;
            switch (s.draw(3)) { case 0: x.alignment = strf::text_alignment::right; go(w + " join > w", build(Join()) > a.width, aligned<C>(m.cs, x, inner)); break; case 1: x.alignment = strf::text_alignment::left; go(w + " join < w", build(Join()) < a.width, aligned<C>(m.cs, x, inner)); break; default: x.alignment = strf::text_alignment::center; go(w + " join ^ w", build(Join()) ^ a.width, aligned<C>(m.cs, x, inner)); } break; }
        case 3: switch (s.draw(3)) { case 0: go(w + " join.fill > w", build(Join()).fill(a.fill) > a.width, with_al(strf::text_alignment::right)); break; case 1: go(w + " join.fill < w", build(Join()).fill(a.fill) < a.width, with_al(strf::text_alignment::left)); break; default: go(w + " (join ^ w).fill", (build(Join()) ^ a.width).fill(a.fill), with_al(strf::text_alignment::center)); } break;
        case 4: go(w + " join_align(w, al, fill)", build(strf::join_align(a.width, a.alignment, a.fill)), all); break;
        case 5: { auto x = a; x.fill = U' '; go(w + " join_align(w, al)", build(strf::join_align(a.width, a.alignment)), aligned<C>(m.cs, x, inner)); break; }
        case 6: { auto x = a; if (!ascii_fill) x.fill = U'*'; C f = (C)x.fill; x.alignment = strf::text_alignment::right; auto l = x; l.alignment = strf::text_alignment::left; auto c = x; c.alignment = strf::text_alignment::center;
            switch (s.draw(3)) { case 0: go(w + " join_right(w, fill)", build(strf::join_right(a.width, f)), aligned<C>(m.cs, x, inner)); break; case 1: go(w + " join_left(w, fill)", build(strf::join_left(a.width, f)), aligned<C>(m.cs, l, inner)); break; default: go(w + " join_center(w, fill)", build(strf::join_center(a.width, f)), aligned<C>(m.cs, c, inner)); } break; }
        default: { auto x = a; x.fill = U' '; x.alignment = strf::text_alignment::right; auto l = x; l.alignment = strf::text_alignment::left; auto c = x; c.alignment = strf::text_alignment::center;
            switch (s.draw(3)) { case 0: go(w + " join_right(w)", build(strf::join_right(a.width)), aligned<C>(m.cs, x, inner)); break; case 1: go(w + " join_left(w)", build(strf::join_left(a.width)), aligned<C>(m.cs, l, inner)); break; default: go(w + " join_center(w)", build(strf::join_center(a.width)), aligned<C>(m.cs, c, inner)); } }
    }
}
template <class C, class Pack> void one(Src& s, Ctx& cx, int cs, const AnyWidth& w, const Pack& pk) {
    using S = std::basic_string<C>; Model<C, Pack> m{cs, w, pk, cx}; using SV = std::basic_string_view<C>;
    if (cx.want_text) cx.text << uname<C>::v << " " << cs_name<C>(cs);
    auto T = [&](size_t n) { return source_text<C>(s, cs, n); };
    S t1 = T(24), t2 = T(s.chance(1, 10) ? 200 : 12); SV v1(t1), v2(t2); int i = gen::integer<int>(s); uint64_t u = gen::u64(s); double d = gen::f64(s); bool b = s.coin(); auto a1 = afmt(s, cx), a2 = afmt(s, cx);
    switch (s.draw(12)) {
        case 0: check_join<C>(s, cx, m, pk, "empty", Node<C>{}, [&](const auto& j) { return j(); }); break;
        case 1: check_join<C>(s, cx, m, pk, "one integer", m.num(i), [&](const auto& j) { return j(i); }); break;
        case 2: { auto f = *strf::hex(u).set_alignment_format(a1); check_join<C>(s, cx, m, pk, "string and aligned number", m.text(t1) + aligned<C>(cs, a1, m.num(*strf::hex(u))), [&](const auto& j) { return j(v1, f); }); break; }
        case 3: { Spec sp; sp.p = sp.a = true; sp.prec = zoo::width(s, 20); sp.af = a1; int n = (int)s.draw(30); char32_t c = gen::any_cp(s);
            check_join<C>(s, cx, m, pk, "cut string, code points, double", m.str(t1, sp) + aligned<C>(cs, a2, m.cp(c, n, false)) + m.num(d), [&](const auto& j) { return j(strf::fmt(v1).p(sp.prec).set_alignment_format(a1), strf::multi(c, n).set_alignment_format(a2), d); }); break; }
        case 4: check_join<C>(s, cx, m, pk, "aligned join inside", aligned<C>(cs, a1, m.text(t1) + m.num(i)) + m.num(strf::hex(u)), [&](const auto& j) { return j(strf::join(v1, i).set_alignment_format(a1), strf::hex(u)); }); break;
        case 5: { auto a3 = afmt(s, cx); check_join<C>(s, cx, m, pk, "three levels", m.num(i) + aligned<C>(cs, a3, aligned<C>(cs, a1, m.text(t1)) + aligned<C>(cs, a2, m.num(b)) + m.text(t2)),
            [&](const auto& j) { return j(i, strf::join(strf::join(v1).set_alignment_format(a1), strf::fmt(b).set_alignment_format(a2), strf::join(v2)).set_alignment_format(a3)); }); break; }
        case 6: { AnyWidth w2 = any_width(s, cx); auto p2 = strf::pack(pk, strf::lettercase::upper, strf::numpunct<10>(2)); auto h = *strf::hex(u); auto nn = !strf::dec(i);
            check_join<C>(s, cx, m, pk, "facets inside", m.text(t1, &w2) + m.num_with(p2, h) + aligned<C>(cs, a1, m.text(t2, &w2) + m.num_with(p2, nn)) + m.text(t2),
                [&](const auto& j) { return j(strf::with(w2, strf::lettercase::upper, strf::numpunct<10>(2))(v1, h, strf::join(v2, nn).set_alignment_format(a1)), v2); }); break; }
        case 7: { std::vector<int> vi; std::vector<S> vs; size_t n = s.size(s.chance(1, 6) ? 200 : 12); for (size_t k = 0; k < n; ++k) vi.push_back(gen::integer<int>(s)); size_t n2 = s.draw(5); for (size_t k = 0; k < n2; ++k) vs.push_back(T(12)); S sep = T(4); for (auto& c : sep) if (c == 0) c = (C)'z';
            Node<C> x, y = m.text(sep), z; for (size_t k = 0; k < n; ++k) { if (k) x += y; x += m.num(vi[k]); } for (size_t k = 0; k < n2; ++k) { if (k) z += y; Spec sp; sp.a = true; sp.af = a1; z += m.str(vs[k], sp); }
            check_join<C>(s, cx, m, pk, "ranges inside", x + z + x, [&](const auto& j) { return j(strf::separated_range(vi, sep.c_str()), strf::fmt_separated_range(vs, sep.c_str()).set_alignment_format(a1), strf::separated_range(vi, sep.c_str(), [](int q) { return strf::dec(q); })); }); break; }
        case 8: { S t = p16::templ<C>(s); Node<C> x, e0 = aligned<C>(cs, a1, m.num(i)), e1 = m.text(t2), rep; if (cs == UTF) gen::enc(rep.t, U'\uFFFD'); else rep.t.push_back((C)'?'); rep.w = 0x10000;
            int na = s.coin() ? 2 : 0; if (cx.want_text) cx.text << " template " << show(t) << " arguments " << na;
            for (auto& g : p16::parse(t, na)) if (g.kind == 2 && w.k != 0 && w.k != 3) return; // the width of the replacement character under other measures is not documented
            // an escaped brace is measured with the text after it, as one string
            std::vector<p16::Seg> segs; for (auto& g : p16::parse(t, na)) { if (g.kind == 0 && !segs.empty() && segs.back().kind == 0 && segs.back().b == g.a && t[g.a - 1] == (C)'{') segs.back().b = g.b; else segs.push_back(g); }
            for (auto& g : segs) x += g.kind == 0 ? m.text(t.substr(g.a, g.b - g.a)) : g.kind == 1 ? (g.a ? e1 : e0) : rep;
            if (na == 0) check_join<C>(s, cx, m, pk, "tr-string without arguments inside", x + m.text(t2), [&](const auto& j) { return j(strf::tr(SV(t)), v2); }); else
            check_join<C>(s, cx, m, pk, "tr-string inside", x + m.text(t2), [&](const auto& j) { return j(strf::tr(SV(t), strf::fmt(i).set_alignment_format(a1), v2), v2); }); break; }
        case 9: { using X = std::conditional_t<sizeof(C) == 1, char16_t, char8_t>; auto f = gen::any_text<X>(s, 30); Spec sp = spec(s, cx, 20), sp2 = spec(s, cx, 20);
            auto x = m.template foreign<X>(POL_TRANSCODE, f, sp); Node<C> y = cs == UTF ? m.template foreign<C>(POL_SANI, t1, sp2) : Node<C>{};
            apply(sp, strf::transcode(f), [&](const auto& p) { if (cs == UTF) apply(sp2, strf::sani(v1), [&](const auto& q) { check_join<C>(s, cx, m, pk, "foreign and sanitised strings", x + y, [&](const auto& j) { return j(p, q); }); }); else check_join<C>(s, cx, m, pk, "foreign strings", x + x, [&](const auto& j) { return j(p, p); }); }); break; }
        case 10: { C c = (C)('!' + s.draw(90)); int n = (int)s.draw(80); auto pt = (const void*)(uintptr_t)u; float f = gen::f32(s);
            check_join<C>(s, cx, m, pk, "twelve arguments", m.num(i) + m.text(t1) + m.num(b) + m.num(pt) + m.cp((char32_t)c, 1, true) + aligned<C>(cs, a1, m.cp((char32_t)c, n, true)) + m.num(d) + m.num(+strf::fixed(f, 3)) + m.text(t2) + m.num(u) + aligned<C>(cs, a2, m.num(strf::sci(d))) + m.num(*strf::bin(i)),
                [&](const auto& j) { return j(i, v1, b, pt, c, strf::multi(c, n).set_alignment_format(a1), d, +strf::fixed(f, 3), v2, u, strf::sci(d).set_alignment_format(a2), *strf::bin(i)); }); break; }
        default: { S big(s.draw(3000), (C)'x'); SV bv(big); check_join<C>(s, cx, m, pk, "long strings", m.text(big) + m.text(t1) + m.text(big), [&](const auto& j) { return j(bv, t1, bv); }); }
    }
}
template <class C> void statics(Src& s, Ctx& cx) { AnyWidth w = any_width(s, cx); auto fc = zoo::facets(s); one<C>(s, cx, UTF, w, strf::pack(w, fc.p10, fc.p16, fc.p8, fc.lc)); }
inline void dynamics(Src& s, Ctx& cx) { AnyWidth w = any_width(s, cx); auto fc = zoo::facets(s); int k = (int)s.draw(sbc::count); one<char>(s, cx, k, w, strf::pack(w, fc.p10, fc.p16, fc.p8, fc.lc, sbc_dyn()[k])); }
}
