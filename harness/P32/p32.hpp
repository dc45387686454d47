// P32: buffers of any element type: histories of every way of writing to an output_buffer, against a plain vector.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include <strf/iterator.hpp>
#include <algorithm>
#include <cstddef>
#include <iterator>
namespace p32 {
using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::fail;
struct Pod { int a; unsigned char b; double c; bool operator==(const Pod& x) const { return a == x.a && b == x.b && c == x.c; } };
struct Odd { unsigned char x[7]; bool operator==(const Odd& o) const { return std::equal(x, x + 7, o.x); } };
enum class En : short { a, b = -7 };
template <class T> struct El { static T make(unsigned n) { return (T)n; } };
template <> struct El<Pod> { static Pod make(unsigned n) { return {(int)n, (unsigned char)(n * 7), n / 4.0}; } };
template <> struct El<Odd> { static Odd make(unsigned n) { Odd o; for (unsigned i = 0; i < 7; ++i) o.x[i] = (unsigned char)(n + i * 31); return o; } };
template <> struct El<const char*> { static const char* make(unsigned n) { static const char t[4096] = {}; return t + n % 4096; } };
template <> struct El<bool> { static bool make(unsigned n) { return n % 3 == 0; } };
struct Refused {};
// takes the elements in recycle(); may turn bad, or throw, at some recycle
template <class T, unsigned L> struct Sink final : strf::output_buffer<T, L> {
    std::vector<T> got; std::vector<size_t> sizes; size_t i = 0; std::unique_ptr<T[]> cur; size_t n = 0; long bad_at, throw_at, recycles = 0, taken_bad = 0;
    Sink(size_t first, std::vector<size_t> z, long bad, long thr) : strf::output_buffer<T, L>(nullptr, (std::ptrdiff_t)0), sizes(std::move(z)), bad_at(bad), throw_at(thr) { next(first); }
    void next(size_t k) { n = k; cur.reset(new T[k]); if (i & 1) { this->set_ptr(cur.get()); this->set_end(cur.get() + k); } else { this->set_buffer_end(cur.get() + k); this->set_buffer_ptr(cur.get()); } }
    void recycle() override {
        const T* p = this->buffer_ptr(); if (p < cur.get() || p > cur.get() + n) fail("buffer_ptr() out of the buffer"); bool g = this->good();
        if (g) { this->set_good(false); got.insert(got.end(), (const T*)cur.get(), p); }
        long r = ++recycles; next(sizes[i++ % sizes.size()]);
        if (r == throw_at) throw Refused();
        this->set_good(g && r != bad_at);
    }
    std::vector<T> finish() { if (this->good()) { got.insert(got.end(), (const T*)cur.get(), (const T*)this->buffer_ptr()); this->set_good(false); } return got; }
};
template <class F> void as_integral(Src& s, long n, F&& f) { // the same number in a type that can hold it
    for (;;) switch (s.draw(11)) {
        case 0: return f((int)n); case 1: return f(n); case 2: return f((long long)n); case 3: return f((std::ptrdiff_t)n);
        case 4: if (n < 0) break; return f((std::size_t)n); case 5: if (n < 0) break; return f((unsigned)n);
        case 6: if (n < -32768 || n > 32767) break; return f((short)n); case 7: if (n < 0 || n > 65535) break; return f((unsigned short)n);
        case 8: if (n < -128 || n > 127) break; return f((signed char)n); case 9: if (n < 0 || n > 255) break; return f((unsigned char)n);
        default: return f((std::int64_t)n); }
}
// b: the buffer seen as an output_buffer that guarantees 2^L elements, or fewer
template <class T, unsigned L, class B, class K> void operation(Src& s, Ctx& cx, B& b, K& sink, std::vector<T>& all, unsigned& serial, bool integral) {
    constexpr long min = (long)1 << L; static_assert(B::min_space_after_recycle == (std::size_t)min && B::min_sspace_after_recycle == min && std::is_same<typename B::value_type, T>::value, "");
    auto next = [&] { return El<T>::make(serial++); }; auto observe = [&] {
        check(b.ptr() == b.buffer_ptr() && b.pointer() == b.buffer_ptr() && b.end() == b.buffer_end() && b.buffer_end() == sink.cur.get() + sink.n && b.buffer_ptr() >= sink.cur.get() && b.buffer_ptr() <= b.buffer_end(), "pointers");
        check(b.space() == (std::size_t)(b.end() - b.ptr()) && b.buffer_space() == b.space() && b.sspace() == b.end() - b.ptr() && b.buffer_sspace() == b.sspace(), "space"); };
    observe(); const long space = b.sspace(), before = sink.recycles; long want = 0; // recycles wanted
    auto data = [&](size_t n) { std::unique_ptr<T[]> d(new T[n]); for (size_t i = 0; i < n; ++i) all.push_back(d[i] = next()); return d; };
    switch (s.draw(integral ? 9 : 7)) {
        case 0: case 1: { long n = s.chance(1, 6) ? -(long)s.draw(5) : s.coin() ? (long)s.draw(12) : (long)s.draw(200); if (s.chance(1, 4)) n = space + (long)s.draw(3) - 1; if (s.chance(1, 5)) n = space + (long)sink.sizes[sink.i % sink.sizes.size()] + (long)s.draw(3) - 1;
            if (cx.want_text) cx.text << " write" << n; auto d = data((size_t)std::max(n, 0L)); long left = n - space; for (size_t j = sink.i; left > 0; ++j) { ++want; left -= (long)sink.sizes[j % sink.sizes.size()]; if (sink.bad_at == before + want || !sink.good()) break; }
            as_integral(s, n, [&](auto k) { b.write(d.get(), k); }); break; }
        case 2: { if (cx.want_text) cx.text << " put"; T v = next(); all.push_back(v); want = space == 0; strf::put(static_cast<strf::output_buffer<T, 0>&>(b), v); break; }
        case 3: { size_t n = s.draw(20); if (cx.want_text) cx.text << " iterator" << n; auto it = strf::make_iterator(static_cast<strf::output_buffer<T, 0>&>(b)); check(it.failed() == !b.good(), "failed()"); want = -1; auto d = data(n);
            switch (s.draw(5)) { case 0: it = std::copy(d.get(), d.get() + n, it); break; case 1: for (size_t i = 0; i < n; ++i) *it++ = d[i]; break; case 2: for (size_t i = 0; i < n; ++i) { *it = d[i]; ++it; } break;
                case 3: { size_t i = 0; std::generate_n(it, n, [&] { return d[i++]; }); break; } default: { strf::output_buffer_iterator<T> j(it); std::transform(d.get(), d.get() + n, j, [](const T& x) { return x; }); } }
            check(it.failed() == !b.good(), "failed() afterwards"); break; }
        case 4: { long m = s.chance(1, 8) ? -(long)s.draw(4) : (long)s.draw((size_t)min + 1); if (cx.want_text) cx.text << " ensure" << m; want = space < m; as_integral(s, m, [&](auto k) { b.ensure(k); }); check(b.sspace() >= m, "ensure() without the space"); observe();
            long n = s.coin() ? b.sspace() : std::min<long>(b.sspace(), (long)s.draw(9)); for (long i = 0; i < n; ++i) { T v = next(); all.push_back(v); b.ptr()[i] = v; }
            T* to = b.ptr() + n; switch (s.draw(3)) { case 0: as_integral(s, n, [&](auto k) { b.advance(k); }); break; case 1: b.advance_to(to); break; default: for (long i = 0; i < n; ++i) b.advance(); } check(b.ptr() == to, "advance()"); break; }
        case 5: if (cx.want_text) cx.text << " flush"; want = 1; b.flush(); check(b.sspace() >= min, "space after flush()"); break;
        default: if (cx.want_text) cx.text << " recycle"; want = 1; b.recycle(); check(b.sspace() >= min, "space after recycle()"); break;
    }
    observe(); if (want >= 0 && sink.recycles - before != want) fail("recycled " + std::to_string(sink.recycles - before) + " times, want " + std::to_string(want));
}
template <class T, unsigned L, unsigned K> struct Via { static void go(Src& s, Ctx& cx, Sink<T, L>& k, std::vector<T>& all, unsigned& n, unsigned level) {
    if (level == K) operation<T, K>(s, cx, static_cast<strf::output_buffer<T, K>&>(k), k, all, n, false); else Via<T, L, K - 1>::go(s, cx, k, all, n, level); } };
template <class T, unsigned L> struct Via<T, L, 0> { static void go(Src& s, Ctx& cx, Sink<T, L>& k, std::vector<T>& all, unsigned& n, unsigned) { operation<T, 0>(s, cx, static_cast<strf::output_buffer<T, 0>&>(k), k, all, n, false); } };
template <class T, unsigned L> void history(Src& s, Ctx& cx) {
    std::vector<size_t> z; for (size_t i = 1 + s.draw(3); i; --i) z.push_back(((size_t)1 << L) + (s.coin() ? 0 : s.draw(s.coin() ? 5 : 150))); long bad = s.chance(1, 4) ? (long)(1 + s.draw(6)) : -1, thr = s.chance(1, 5) ? (long)(1 + s.draw(6)) : -1;
    Sink<T, L> k(s.coin() ? z[0] : s.draw(70), z, bad, thr); std::vector<T> all; unsigned serial = 0; size_t at_throw = 0; bool thrown = false; if (cx.want_text) { cx.text << " L=" << L << " bad at " << bad << " throws at " << thr << " buffers:"; for (auto x : z) cx.text << " " << x; cx.text << " first " << k.n << ";"; }
    for (size_t ops = 1 + s.draw(14); ops; --ops) { size_t was = all.size(); bool g = k.good(); try { Via<T, L, L>::go(s, cx, k, all, serial, (unsigned)s.draw(L + 1)); } catch (Refused&) { thrown = true; at_throw = all.size(); } if (!g) check(!k.good(), "good again"); (void)was; (void)at_throw; }
    bool fine = k.good(); auto got = k.finish(); cx.nt(all.size() > 3 && k.recycles > 0); if (!fine) cx.label(thrown ? "threw" : "turned bad"); if (k.recycles > 3) cx.label("more than three buffers");
    if (fine ? got.size() != all.size() : got.size() > all.size()) fail(std::to_string(got.size()) + " elements of " + std::to_string(all.size()));
    for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == all[i])) fail("element " + std::to_string(i) + " of " + std::to_string(got.size()) + " is another one");
    check(fine == !(thrown || (bad > 0 && k.recycles >= bad) || (thr > 0 && k.recycles >= thr)), "good()");
}
// what is discarded leaves no trace
template <class T> void discards(Src& s, Ctx& cx) {
    strf::discarder<T> d; unsigned serial = 0; auto shape = [&](bool fresh) { check(!d.good(), "a discarder is never good"); check(d.buffer_ptr() >= strf::garbage_buff<T>() && d.buffer_ptr() <= d.buffer_end() && d.buffer_end() == strf::garbage_buff_end<T>(), "not in the garbage buffer"); if (fresh) check(d.buffer_ptr() == strf::garbage_buff<T>(), "not at the start of the garbage buffer"); };
    shape(true); check(strf::garbage_buff_end<T>() - strf::garbage_buff<T>() == (std::ptrdiff_t)strf::garbage_buff_size && strf::garbage_buff_size >= 64, "garbage_buff_size");
    for (size_t ops = 1 + s.draw(12); ops; --ops) { bool fresh = false; switch (s.draw(5)) {
        case 0: { size_t n = s.draw(300); std::unique_ptr<T[]> p(new T[n]); for (size_t i = 0; i < n; ++i) p[i] = El<T>::make(serial++); d.write(p.get(), n); if (cx.want_text) cx.text << " write" << n; break; }
        case 1: strf::put(static_cast<strf::output_buffer<T, 0>&>(d), El<T>::make(serial++)); break; case 2: { long n = (long)s.draw(65); d.ensure(n); check(d.sspace() >= n, "ensure()"); for (long i = 0; i < n; ++i) d.ptr()[i] = El<T>::make(serial++); d.advance(n); break; }
        case 3: d.flush(); fresh = true; break; default: d.recycle(); fresh = true; } shape(fresh); }
    cx.nt(serial > 64);
}
template <class C> void discards_text(Src& s, Ctx& cx) { zoo::Pool<C> pool; zoo::Opt o; o.maxstr = 90; o.maxw = 200; strf::discarder<C> d; bool any = false; zoo::visit<C>(s, cx, pool, o, [&](const auto& a) { strf::to(d)(a, a); any = true; }); check(!d.good() && d.buffer_end() == strf::garbage_buff_end<C>(), "discarder after a print"); cx.nt(any); }
}
