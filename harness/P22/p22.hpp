// P22: FILE and streambuf destinations against a sink that starts refusing data somewhere.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include <strf/to_streambuf.hpp>
#include <strf/to_cfile.hpp>
#include <sstream>
#include <fstream>
#include <streambuf>
namespace p22 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check; using pbt::check_eq; using pbt::fail; using pbt::show;
struct Refusal {}; // what a throwing sink throws
enum Kind { none, permanent, transient, throwing, throwing_once };
// how much of a request of n units a sink that has received `got` accepts
struct Fault { Kind kind = none; size_t at = 0; bool hit = false, part = true; bool thrown = false;
    size_t accept(size_t got, size_t n) { // units accepted by this call
        if (kind == none || (hit && (kind == transient || kind == throwing_once))) return n;
        if (hit) { if (kind == throwing) { thrown = true; throw Refusal(); } return 0; }
        if (got + n <= at) return n;
        hit = true; return part ? at - got : 0; }
    bool raise() { if (hit && (kind == throwing || (kind == throwing_once && !thrown))) { thrown = true; return true; } return false; } };
extern thread_local struct WideSink* wide_sink; inline thread_local bool wide_file_in_use = false; // fputwc() cannot tell the unit WEOF (not a character) from a failure
struct WideSink { std::wstring got; Fault f; };
inline Fault fault(Src& s, Ctx& cx, bool exceptions) { Fault f; f.kind = (Kind)(s.chance(1, 6) ? 0 : 1 + s.draw(exceptions ? 4 : 2)); f.at = s.coin() ? s.draw(150) : s.draw(700); f.part = s.chance(3, 4); static const char* nm[] = {"accepts all", "refuses for good", "refuses once", "throws", "throws once"};
    if (cx.want_text) { cx.text << " " << nm[f.kind]; if (f.kind) cx.text << " at " << f.at << (f.part ? "" : " (whole call)"); } cx.label(nm[f.kind]); return f; }
template <class C> struct Sink : std::basic_streambuf<C> { std::basic_string<C> got; Fault f; bool putarea = false; C area[16];
    explicit Sink(Fault f_) : f(f_) {}
    std::streamsize xsputn(const C* p, std::streamsize n) override { check(n >= 0, "sputn() with a negative count"); size_t k = f.accept(got.size(), (size_t)n); got.append(p, k); if (f.raise()) throw Refusal(); return (std::streamsize)k; }
    typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type) override { fail("unexpected overflow()"); } };
// only overflow(): the base class' xsputn stores one unit at a time
template <class C> struct UnitSink : std::basic_streambuf<C> { using T = std::char_traits<C>; std::basic_string<C> got; Fault f; explicit UnitSink(Fault f_) : f(f_) {}
    typename T::int_type overflow(typename T::int_type c) override { size_t k = f.accept(got.size(), 1); if (k) got.push_back(T::to_char_type(c)); if (f.raise()) throw Refusal(); return k ? T::not_eof(c) : T::eof(); } };
template <class C> std::basic_string<C> piece(Src& s, size_t n) { std::basic_string<C> t; size_t c = s.draw(26); for (size_t i = 0; i < n; ++i) t.push_back((C)('a' + (c + i % 23) % 26)); return t; }
inline size_t len(Src& s) { return s.coin() ? s.draw(130) : s.pick<size_t>({0, 1, 2, 63, 64, 65, 127, 128, 129, 300}); }

template <class C> struct Hist { std::basic_string<C> full; bool threw = false; };
// operations; `seen()` returns what the sink got so far
template <class C, class D, class Seen> void history(Src& s, Ctx& cx, D& d, Hist<C>& h, Seen&& seen) {
    using S = std::basic_string<C>; size_t n = 1 + s.draw(8); zoo::Opt o; o.maxstr = 100; o.maxw = 150;
    for (size_t i = 0; i < n; ++i) {
        S t; bool was = d.good();
        try { switch (s.draw(7)) {
            case 0: case 1: { t = piece<C>(s, len(s)); h.full += t; if (cx.want_text) cx.text << " write" << t.size(); Exact<C> ex(t); d.write(ex.b(), t.size()); break; }
            case 2: { t = piece<C>(s, 1 + s.draw(20)); h.full += t; if (cx.want_text) cx.text << " put" << t.size(); for (C c : t) strf::put(d, c); break; }
            case 3: { size_t m = s.draw(65); t = piece<C>(s, m); h.full += t; if (cx.want_text) cx.text << " ensure" << m; d.ensure(m); check(d.buffer_space() >= m, "ensure() did not provide the space"); std::copy(t.begin(), t.end(), d.buffer_ptr()); d.advance(m); break; }
            case 4: { if (cx.want_text) cx.text << " recycle"; if (s.coin()) d.recycle(); else d.flush(); check(d.buffer_space() >= 64, "recycle() postcondition"); if (was && d.good()) check_eq("delivered after recycle()", seen(), h.full); break; }
            default: { zoo::Pool<C> pool; zoo::visit<C>(s, cx, pool, o, [&](const auto& a) { Chunked<C> q(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(q))(a); h.full += q.finish(); strf::to(static_cast<strf::destination<C>&>(d))(a); }); }
        } } catch (const Refusal&) { h.threw = true; cx.label("the sink threw"); check(!d.good(), "good() after the sink threw"); }
        if (!was) check(!d.good(), "good() became true again"); check(d.buffer_ptr() <= d.buffer_end(), "buffer_ptr past buffer_end");
        S now = seen(); if (h.full.compare(0, now.size(), now) != 0 || now.size() > h.full.size()) fail("what was delivered is not a prefix of the text: " + show(now) + " of " + show(h.full));
    }
}
// verdict after finish() (or destruction): st: 0 not finished; partial_ok: units of the last, throwing call cannot be counted
template <class C, class R> void verdict(const std::basic_string<C>& got, const std::basic_string<C>& full, const Fault& f, bool threw, const R* r) {
    bool all = got.size() == full.size();
    if (got.size() > full.size() || full.compare(0, got.size(), got) != 0) fail("what was delivered is not a prefix of the text: " + show(got) + " of " + show(full));
    if (wide_file_in_use && full.find((C)WEOF) != full.npos) return;
    if (!f.hit) check(all, "not delivered to a sink that accepts everything: got " + show(got) + " want " + show(full));
    if (r) { if (!threw) { check(r->success == all, std::string("success is ") + (r->success ? "true" : "false") + " but " + std::to_string(got.size()) + " of " + std::to_string(full.size()) + " units were delivered"); check((size_t)r->count == got.size(), "count is " + std::to_string((size_t)r->count) + " but the sink accepted " + std::to_string(got.size())); }
        else { check(!r->success, "success although the sink threw"); check((size_t)r->count <= got.size(), "count is more than what the sink accepted"); } }
}
template <class C, class D, class Seen, class F> void closing(Src& s, Ctx& cx, std::unique_ptr<D> d, Hist<C>& h, Seen&& seen, F& fault, bool late_ops = true) {
    using R = decltype(d->finish()); (void)late_ops; bool good = d->good();
    if (s.chance(1, 4)) { if (cx.want_text) cx.text << " destroy"; cx.label("destroyed without finish()"); d.reset(); auto g = seen(); verdict<C, R>(g, h.full, fault, h.threw, nullptr); return; }
    R r{}; bool done = false; try { r = d->finish(); done = true; } catch (const Refusal&) { h.threw = true; }
    check(!d->good(), "good() after finish()"); auto g = seen(); verdict<C, R>(g, h.full, fault, h.threw, done ? &r : nullptr); if (done && !good) check(!r.success, "success after good() was false");
    if (s.coin()) { auto t = piece<C>(s, s.draw(70)); d->write(t.data(), t.size()); for (size_t i = s.draw(3); i; --i) strf::put(*d, (C)'!'); d->recycle(); check(d->buffer_space() >= 64, "recycle() after finish()"); check(seen() == g, "something was delivered after finish()"); }
    d.reset(); check(seen() == g, "something was delivered by the destructor after finish()");
}
template <class C> void note(Ctx& cx, const Hist<C>& h, const Fault& f) { cx.nt(h.full.size() > 64 && (f.kind == none || f.hit)); if (f.hit) cx.label("fault hit"); if (h.full.size() > 64) cx.label("longer than the internal buffer"); }

template <class C> void sb(Src& s, Ctx& cx) {
    if (cx.want_text) cx.text << uname<C>::v << " streambuf"; Fault f = fault(s, cx, true); Hist<C> h;
    auto go = [&](auto& sink) { using W = strf::basic_streambuf_writer<C>; std::unique_ptr<W> w(s.coin() ? new W(sink) : new W(&sink)); auto seen = [&] { return sink.got; }; history<C>(s, cx, *w, h, seen); closing<C>(s, cx, std::move(w), h, seen, sink.f); note(cx, h, sink.f); };
    if (!(std::is_same<C, char>::value || std::is_same<C, wchar_t>::value) || s.chance(2, 3)) { Sink<C> k(f); go(k); } else { UnitSink<C> k(f); cx.label("unit-wise sink"); go(k); } // libstdc++'s char_traits<char16_t> turns U+FFFF into U+FFFD on its way to overflow()
}
// a printing: one call, result as reported by it
template <class C, class To, class Seen> void printing(Src& s, Ctx& cx, To&& to, Seen&& seen, Fault& f) {
    using S = std::basic_string<C>; zoo::Pool<C> pool; zoo::Opt o; o.maxstr = 150; o.maxw = 200;
    zoo::visit<C>(s, cx, pool, o, [&](const auto& a) { Chunked<C> q(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(q))(a); S t = q.finish(), x = piece<C>(s, len(s)); Hist<C> h; int i = gen::integer<int>(s); S ti = strf::to_basic_string<C>(i);
        try { switch (s.draw(4)) { case 0: { h.full = t; auto r = to(a); verdict<C>(seen(), h.full, f, false, &r); break; }
            case 1: { h.full = x + t + ti + t; h.full.push_back((C)'\n'); auto r = to.line(x, a, i, a); verdict<C>(seen(), h.full, f, false, &r); break; }
            case 2: { h.full = x + ti; S tm = x; tm.push_back((C)'{'); tm.push_back((C)'}'); auto r = to.tr(tm, i); verdict<C>(seen(), h.full, f, false, &r); break; }
            default: { h.full = t + x + ti + t; auto r = to(a, x, i, a); verdict<C>(seen(), h.full, f, false, &r); } } }
        catch (const Refusal&) { h.threw = true; verdict<C, typename strf::basic_streambuf_writer<C>::result>(seen(), h.full, f, true, nullptr); }
        note(cx, h, f); });
}
template <class C> void sb_print(Src& s, Ctx& cx) { if (cx.want_text) cx.text << uname<C>::v << " to(streambuf)"; Fault f = fault(s, cx, true); Sink<C> k(f); if (s.coin()) printing<C>(s, cx, strf::to(k), [&] { return k.got; }, k.f); else printing<C>(s, cx, strf::to(&k), [&] { return k.got; }, k.f); }
// C FILE over a cookie, unbuffered
template <class C> struct Cookie { std::string bytes; Fault f; std::FILE* file = nullptr;
    static ssize_t write(void* c, const char* p, size_t n) { auto* k = (Cookie*)c; size_t m = k->f.accept(k->bytes.size(), n); k->bytes.append(p, m); return (ssize_t)m; }
    explicit Cookie(Fault f_) : f(f_) { f.at *= sizeof(C); cookie_io_functions_t io{nullptr, write, nullptr, nullptr}; file = fopencookie(this, "w", io); if (!file) fail("fopencookie"); setvbuf(file, nullptr, _IONBF, 0); }
    ~Cookie() { std::fclose(file); }
    std::basic_string<C> got() const { std::basic_string<C> r(bytes.size() / sizeof(C), C()); memcpy((void*)r.data(), bytes.data(), r.size() * sizeof(C)); return r; } };
template <class C, size_t N> void cf(Src& s, Ctx& cx) {
    if (cx.want_text) cx.text << uname<C>::v << " FILE, buffer of " << N; Fault f = fault(s, cx, false); Hist<C> h; Cookie<C> k(f); using W = strf::narrow_cfile_writer<C, N>;
    std::unique_ptr<W> w(new W(k.file)); auto seen = [&] { return k.got(); }; history<C>(s, cx, *w, h, seen); closing<C>(s, cx, std::move(w), h, seen, k.f); note(cx, h, k.f);
}
template <class C> void cf_any(Src& s, Ctx& cx) { switch (s.draw(3)) { case 0: cf<C, 64>(s, cx); break; case 1: cf<C, 65>(s, cx); break; default: cf<C, 400>(s, cx); } }
template <class C> void cf_print(Src& s, Ctx& cx) { if (cx.want_text) cx.text << uname<C>::v << " to(FILE*)"; Fault f = fault(s, cx, false); Cookie<C> k(f); printing<C>(s, cx, strf::to<C>(k.file), [&] { return k.got(); }, k.f); }
}
