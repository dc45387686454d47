// P21: string destinations: histories of writes, and every reserve policy of the printing syntax, against plain concatenation.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include <new>
namespace p21 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail; using pbt::show;
// an allocator that refuses after a number of allocations (-1: never), and a traits type of its own
inline thread_local long quota = -1, refused = 0, live = 0;
template <class T> struct Alloc { using value_type = T; Alloc() = default; template <class U> Alloc(const Alloc<U>&) {}
    T* allocate(std::size_t n) { if (quota == 0) { ++refused; throw std::bad_alloc(); } if (quota > 0) --quota; ++live; return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { --live; std::allocator<T>().deallocate(p, n); }
    template <class U> bool operator==(const Alloc<U>&) const { return true; } template <class U> bool operator!=(const Alloc<U>&) const { return false; } };
template <class C> struct Traits : std::char_traits<C> {};
template <class C> using Str2 = std::basic_string<C, Traits<C>, Alloc<C>>;
template <class S> struct Base; 
template <class C, class T, class A> std::basic_string<C> plain(const std::basic_string<C, T, A>& s) { return std::basic_string<C>(s.data(), s.size()); }
template <class C> std::basic_string<C> piece(Src& s, size_t n) { std::basic_string<C> t; size_t c = s.draw(26); for (size_t i = 0; i < n; ++i) t.push_back((C)('a' + (c + i % 5) % 26)); return t; }
inline size_t len(Src& s) { return s.coin() ? s.draw(130) : s.pick<size_t>({0, 1, 2, 15, 16, 22, 23, 63, 64, 65, 127, 128, 129, 300, 1000}); }

// a history of operations on a destination; returns what was written. `finish`: the destination may be closed half-way
template <class C, class D, class Fin> std::basic_string<C> history(Src& s, Ctx& cx, D& d, bool may_finish, Fin&& fin, bool& finished) {
    using S = std::basic_string<C>; S full; size_t n = 1 + s.draw(8); finished = false; zoo::Opt o; o.maxstr = 80; o.maxw = 120;
    size_t ops = 0;
    for (size_t i = 0; i < n; ++i) {
        if (may_finish && !finished && s.chance(1, 14)) { fin(); finished = true; cx.label("closed before the last operation"); if (cx.want_text) cx.text << " finish"; check(!d.good(), "good() after finish()"); }
        S t;
        switch (s.draw(7)) {
            case 0: case 1: { t = piece<C>(s, len(s)); if (cx.want_text) cx.text << " write" << t.size(); std::unique_ptr<C[]> ex(new C[t.size() ? t.size() : 1]); std::copy(t.begin(), t.end(), ex.get()); d.write(ex.get(), t.size()); break; }
            case 2: { t = piece<C>(s, 1 + s.draw(6)); if (cx.want_text) cx.text << " put" << t.size(); for (C c : t) strf::put(d, c); break; }
            case 3: { size_t m = s.draw(65); t = piece<C>(s, m); if (cx.want_text) cx.text << " ensure" << m; d.ensure(m); check(d.buffer_space() >= m, "ensure() did not provide the space"); std::copy(t.begin(), t.end(), d.buffer_ptr()); d.advance(m); break; }
            case 4: { if (cx.want_text) cx.text << " recycle"; if (s.coin()) d.recycle(); else d.flush(); check(d.buffer_space() >= 64, "recycle() postcondition"); break; }
            default: { zoo::Pool<C> pool; zoo::visit<C>(s, cx, pool, o, [&](const auto& a) { Chunked<C> q(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(q))(a); t = q.finish(); if (s.coin()) strf::to(d)(a); else strf::to(static_cast<strf::destination<C>&>(d))(a); }); }
        }
        if (!finished) full += t;
        check(d.good() == !finished, "good()"); check(d.buffer_ptr() <= d.buffer_end(), "buffer_ptr past buffer_end"); ops += !t.empty();
    }
    cx.nt(ops > 1 && full.size() > 16); if (full.size() > 64) cx.label("longer than the internal buffer");
    return full;
}
template <class Str, class C = typename Str::value_type> void makers(Src& s, Ctx& cx) {
    using S = std::basic_string<C>; using T = typename Str::traits_type; using A = typename Str::allocator_type; bool fin = false;
    if (cx.want_text) cx.text << uname<C>::v;
    switch (s.draw(4)) {
        case 0: { if (cx.want_text) cx.text << " basic_string_maker"; cx.label("maker"); Str got; strf::basic_string_maker<C, T, A> d; S want = history<C>(s, cx, d, true, [&] { got = d.finish(); }, fin);
            if (!fin) got = d.finish(); check(!d.good(), "good() after finish()"); check_eq("string made", plain(got), want); if (s.coin()) d.finish(); d.recycle(); check(d.buffer_space() >= 64, "recycle() after finish()"); check_eq("string made, later", plain(got), want); break; }
        case 1: { size_t cap = len(s); if (cx.want_text) cx.text << " basic_sized_string_maker " << cap; cx.label("sized maker"); Str got; strf::basic_sized_string_maker<C, T, A> d(cap); check(d.buffer_space() >= cap, "space after construction"); const C* at = nullptr;
            S want = history<C>(s, cx, d, true, [&] { got = d.finish(); at = got.data(); }, fin); if (!fin) { got = d.finish(); at = got.data(); }
            check(!d.good(), "good() after finish()"); check_eq("string made", plain(got), want); if (s.coin()) { auto r = d.finish(); check(!d.good(), "good() after a second finish()"); (void)r; } d.recycle(); check(d.buffer_space() >= 64, "recycle() after finish()"); strf::put(d, (C)'!'); check_eq("string made, later", plain(got), want); (void)at; break; }
        case 2: { S init = piece<C>(s, len(s)); Str str(init.data(), init.size()); if (cx.want_text) cx.text << " basic_string_appender to " << init.size(); cx.label("appender"); S want;
            { strf::basic_string_appender<C, T, A> d(str); want = history<C>(s, cx, d, true, [&] { d.finish(); }, fin); if (!fin && s.coin()) { d.finish(); fin = true; if (s.coin()) d.write(piece<C>(s, 5).data(), 5); if (s.coin()) strf::put(d, (C)'!'); if (s.coin()) d.recycle(); if (s.coin()) d.finish(); } if (fin) check_eq("string appended to", plain(str), init + want); }
            check_eq("string appended to, after destruction", plain(str), init + want); break; }
        default: { S init = piece<C>(s, s.coin() ? 0 : len(s)); Str str(init.data(), init.size()); size_t cap = len(s); if (cx.want_text) cx.text << " basic_string_appender to " << init.size() << " reserving " << cap; cx.label("reserving appender"); S want;
            { strf::basic_string_appender<C, T, A> d(str, cap); want = history<C>(s, cx, d, true, [&] { d.finish(); }, fin); } check_eq("string appended to, after destruction", plain(str), init + want); break; }
    }
}
// printing syntax: every reserve policy
template <class Str, class C = typename Str::value_type> void policies(Src& s, Ctx& cx) {
    using S = std::basic_string<C>; using T = typename Str::traits_type; using A = typename Str::allocator_type; zoo::Opt o; o.maxstr = 150; o.maxw = 150;
    auto fc = zoo::facets(s); const auto pk = strf::pack(fc.p10, fc.p16, fc.p8, fc.lc); zoo::Pool<C> pool; if (cx.want_text) cx.text << uname<C>::v;
    auto go = [&](const S& base, auto&& call) {
        int how = (int)s.draw(3); bool line = how == 1, tr = how == 2; S want = base; S tmpl; 
        if (tr) { tmpl = piece<C>(s, s.draw(90)); S t2 = piece<C>(s, s.draw(20)); want = tmpl + base + t2; tmpl.push_back((C)'{'); tmpl.push_back((C)'}'); tmpl += t2; }
        if (line) want.push_back((C)'\n');
        auto run = [&](const auto& syn) { return call(syn, how, tmpl); };
        size_t n = s.coin() ? s.draw(want.size() + 2) : s.pick<size_t>({0, 1, want.size(), want.size() + 1, 15, 16, 64, 5000});
        cx.nt(!want.empty()); if (cx.want_text) cx.text << " how " << how << " reserve " << n;
        auto make = [&](const char* what, Str r) { check_eq(what, plain(r), want); };
        auto sy = strf::to_basic_string<C, T, A>.with(pk);
        switch (s.draw(8)) {
            case 0: make("to_string", run(sy)); break;
            case 1: make("to_string, no_reserve", run(sy.reserve(n).no_reserve())); break;
            case 2: make("to_string, calculated", run(sy.reserve_calc())); break;
            case 3: make("to_string, given then calculated", run(sy.reserve(3).reserve(n).reserve_calc())); break;
            case 4: make("to_string, given", run(sy.reserve(n))); break;
            case 5: make("to_string, calculated then given", run(sy.reserve_calc().reserve(n))); break;
            default: {
                S init = piece<C>(s, len(s)); Str str(init.data(), init.size()); bool asg = s.coin(); if (cx.want_text) cx.text << (asg ? " assign to " : " append to ") << init.size(); cx.label(asg ? "assign" : "append");
                S all = asg ? want : init + want; size_t old = asg ? 0 : init.size();
                auto with = [&](auto&& syn) { auto z = std::move(syn).with(pk); switch (s.draw(4)) {
                    case 0: run(z); check_eq("string", plain(str), all); break;
                    case 1: run(z.reserve_calc()); check_eq("string, calculated", plain(str), all); break;
                    case 2: run(z.reserve(n)); check_eq("string, given", plain(str), all); check(str.capacity() >= old + n, "capacity"); break;
                    default: run(z.reserve(n).no_reserve()); check_eq("string, no_reserve", plain(str), all); } };
                if (asg) with(strf::assign(str)); else with(strf::append(str)); } }
    };
    auto txt = [&](const auto& a) { Chunked<C> q(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(q)).with(pk)(a); return q.finish(); };
    zoo::visit<C>(s, cx, pool, o, [&](const auto& a) {
        if (s.coin()) { S w = txt(a); go(w, [&](const auto& syn, int how, const S& t) { return how == 0 ? syn(a) : how == 1 ? syn.line(a) : syn.tr(t, a); }); }
        else { S x = piece<C>(s, len(s)), w = txt(a); int i = gen::integer<int>(s); S wi = txt(i); double d = gen::f64(s); S wd = txt(*strf::sci(d)); cx.label("several arguments");
            go(x + w + wi + wd + w, [&](const auto& syn, int how, const S& t) { return how == 0 ? syn(x, a, i, *strf::sci(d), a) : how == 1 ? syn.line(x, a, i, *strf::sci(d), a) : syn.tr(t, strf::join(x, a, i, *strf::sci(d), a)); }); }
    });
}
// memory runs out at some allocation: what is there is a prefix, nothing leaks or crashes, and the error is reported
template <class C> void out_of_memory(Src& s, Ctx& cx) {
    using S = std::basic_string<C>; using Str = Str2<C>; quota = -1; refused = 0; live = 0; S init = piece<C>(s, len(s)); int what = (int)s.draw(5); size_t cap = len(s); long q = (long)s.draw(5); S t; size_t n = 1 + s.draw(5); std::vector<S> ps; for (size_t i = 0; i < n; ++i) { ps.push_back(piece<C>(s, len(s))); t += ps.back(); }
    if (cx.want_text) cx.text << uname<C>::v << " what " << what << " quota " << q << " init " << init.size() << " pieces " << n << " of " << t.size(); bool threw = false; std::vector<size_t> sizes;
    bool any = s.coin(); zoo::Pool<C> pool; zoo::Opt o; o.maxstr = 80; o.maxw = 200;
    auto put = [&](auto& d) { if (any) { t.clear(); long q0 = quota; zoo::visit<C>(s, cx, pool, o, [&](const auto& a) { quota = -1; Chunked<C> w(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(w))(a, a); t = w.finish(); quota = q0; strf::to(static_cast<strf::destination<C>&>(d))(a, a); }); return; }
        for (auto& p : ps) { switch (s.draw(3)) { case 0: d.write(p.data(), p.size()); break; case 1: for (C c : p) strf::put(d, c); break; default: strf::to(static_cast<strf::destination<C>&>(d))(p); } } };
    { Str str(init.data(), init.size()); Str got; quota = q;
    try { switch (what) {
        case 0: { strf::basic_string_maker<C, Traits<C>, Alloc<C>> d; put(d); got = d.finish(); break; }
        case 1: { strf::basic_sized_string_maker<C, Traits<C>, Alloc<C>> d(cap); put(d); got = d.finish(); break; }
        case 2: { strf::basic_string_appender<C, Traits<C>, Alloc<C>> d(str); put(d); d.finish(); break; }
        case 3: { strf::basic_string_appender<C, Traits<C>, Alloc<C>> d(str); put(d); break; } // destructor: failure is discarded
        default: { auto v = strf::join(ps[0], 12345, ps.back()); t = ps[0] + (S)strf::to_basic_string<C>(12345) + ps.back(); if (s.coin()) got = strf::to_basic_string<C, Traits<C>, Alloc<C>>.reserve_calc()(v); else got = strf::to_basic_string<C, Traits<C>, Alloc<C>>(v); } }
    } catch (const std::bad_alloc&) { threw = true; }
    quota = -1; S r = plain(what == 2 || what == 3 ? str : got); S all = (what == 2 || what == 3 ? init : S()) + t;
    if (refused) cx.label("ran out of memory"); cx.nt(refused > 0);
    if (!threw && (refused == 0)) check_eq("text", r, all);
    else if (what == 2 || what == 3) { check(r.size() >= init.size() && r.size() <= all.size() && all.compare(0, r.size(), r) == 0, "string is not its old content and a prefix of the text: " + show(r)); check(threw || (what == 3 && refused), "failure not reported"); }
    else check(threw, "failure not reported"); }
    check(live == 0, "memory leak");
}
}
