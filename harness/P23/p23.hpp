// P23: what a user-supplied destination receives does not depend on the buffers it offers; exact-size heap buffers under ASan are the guard areas.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#ifndef ZOO_VISIT
#define ZOO_VISIT zoo::visit
#endif
namespace p23 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail; using pbt::show;
// as Chunked, optionally with a do_write() of its own
template <class D> struct Dest : Chunked<D> { bool direct; size_t first; bool shrunk = false;
    Dest(std::vector<size_t> sz, long bad, bool direct_, size_t first_) : Chunked<D>(std::move(sz), bad), direct(direct_), first(first_) {
        // the first buffer may have any size: only recycle() guarantees a minimum
        this->cur_n = first; this->cur.reset(new D[first ? first : 1]); this->set_buffer_ptr(this->cur.get()); this->set_buffer_end(this->cur.get() + first); }
    void do_write(const D* p, std::size_t n) override {
        if (!direct) { strf::output_buffer<D, 0>::do_write(p, n); return; }
        this->take(); ++this->recycles; if (this->bad_after >= 0 && this->recycles > this->bad_after) this->set_good(false); if (this->good()) this->got.append(p, n); this->next(); } };
template <class C> std::basic_string<C> whole(size_t n, std::function<void(strf::destination<C>&)> print) { Chunked<C> q({n}); print(q); return q.finish(); }
template <class C> void compare(Src& s, Ctx& cx, const std::function<void(strf::destination<C>&)>& print) {
    using S = std::basic_string<C>;
    S want; { Chunked<C> q({size_t(1) << 15}); print(q); long r = q.recycles; want = q.finish(); (void)r; }
    size_t times = 2;
    while (times--) {
        std::vector<size_t> sz = chunk_sizes(s); if (s.chance(1, 6)) sz.push_back(64 + s.draw(500)); size_t first = s.coin() ? s.draw(130) : 64; bool direct = s.chance(1, 4); long bad = times == 0 ? (long)s.draw(want.size() / 64 + 3) : -1;
        if (cx.want_text) { cx.text << (bad < 0 ? " | buffers " : " | failing buffers "); cx.text << first; for (auto z : sz) cx.text << "," << z; if (direct) cx.text << " direct"; if (bad >= 0) cx.text << " bad after " << bad; }
        Dest<C> d(sz, bad, direct, first); print(d);
        if (d.good() != (bad < 0 || d.recycles <= bad)) fail("good() changed by a printer");
        bool still = d.good(); S got = d.finish();
        if (still) { check_eq("text received through small buffers", got, want); if (d.recycles > 0) cx.label("recycled"); if (d.recycles > 2) cx.label("recycled more than twice"); if (bad < 0) cx.nt(d.recycles > 0 && want.size() > 1); }
        else { cx.label("destination failed"); if (got.size() > want.size() || want.compare(0, got.size(), got) != 0) fail("what a failing destination received is not a prefix: " + show(got) + " of " + show(want)); }
    }
}
template <class C, class P> void args(Src& s, Ctx& cx, const P& pk) {
    using S = std::basic_string<C>; zoo::Opt o; o.maxstr = 180; o.maxw = 220; zoo::Pool<C> pool; if (cx.want_text) cx.text << uname<C>::v;
    size_t lead = s.draw(130); S pre(lead, (C)'.'); // shifts the boundaries
    ZOO_VISIT<C>(s, cx, pool, o, [&](const auto& a) {
        switch (s.draw(3)) {
            case 0: compare<C>(s, cx, [&](strf::destination<C>& d) { strf::to(d).with(pk)(a); }); break;
            case 1: cx.label("shifted"); compare<C>(s, cx, [&](strf::destination<C>& d) { strf::to(d).with(pk)(pre, a, 42, a); }); break;
            default: { cx.label("template"); S t = pre; t.push_back((C)'{'); t.push_back((C)'}'); t += t; compare<C>(s, cx, [&](strf::destination<C>& d) { strf::to(d).with(pk).tr(t, a, a); }); } } });
}
template <class C> void plain(Src& s, Ctx& cx) { auto f = zoo::facets(s); args<C>(s, cx, strf::pack(f.p10, f.p16, f.p8, f.lc)); }
// the functions user-defined printers write with
template <class C> void direct(Src& s, Ctx& cx) {
    using S = std::basic_string<C>; if (cx.want_text) cx.text << uname<C>::v; size_t n = 1 + s.draw(8); struct Op { int k; S t; size_t n; C c; char32_t cp; std::string a8; std::u16string a16; bool lax; }; std::vector<Op> ops;
    for (size_t i = 0; i < n; ++i) { Op p; p.k = (int)s.draw(9); size_t m = s.coin() ? s.draw(140) : s.pick<size_t>({0, 1, 63, 64, 65, 128, 129, 500}); p.n = m; p.c = (C)('!' + s.draw(90)); p.cp = gen::any_cp(s); for (size_t j = 0; j < m; ++j) p.t.push_back((C)('a' + j % 23)); p.lax = s.coin(); if (p.k == 6) p.a16 = gen::any_text<char16_t>(s, 200); if (p.k == 7) p.a8 = gen::any_text<char>(s, 200); if (cx.want_text) cx.text << " op" << p.k << "(" << m << ")"; ops.push_back(p); }
    compare<C>(s, cx, [&](strf::destination<C>& d) {
        constexpr auto cs = strf::utf_t<C>{}; auto fl = strf::transcode_flags::none;
        for (auto& p : ops) { switch (p.k) {
            case 0: { Exact<C> e(p.t); d.write(e.b(), e.n); break; }
            case 1: { Exact<C> e(p.t); d.write(e.b(), (std::ptrdiff_t)e.n); break; }
            case 2: strf::to(d)(strf::multi(p.c, p.n)); break;
            case 3: for (size_t j = 0; j < p.n; ++j) strf::put(d, (C)(p.c + j % 3)); break;
            case 4: cs.encode_fill_func()(d, (std::ptrdiff_t)p.n, p.cp); break;
            case 5: cs.write_replacement_char_func()(d); break;
            case 6: { strf::transcode_size_f<char16_t> sz = nullptr; (void)sz; strf::to(d)(strf::transcode(p.a16)); break; }
            case 7: { strf::to(d)(strf::transcode(p.a8, strf::windows_1252<char>)); break; }
            default: { size_t k = p.n % 65; d.ensure(k); if (d.buffer_space() < k) fail("ensure()"); std::copy(p.t.begin(), p.t.begin() + (long)std::min(k, p.t.size()), d.buffer_ptr()); d.advance(std::min(k, p.t.size())); }
        } } (void)fl; });
}
}
