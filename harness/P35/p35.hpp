// P35: prints do not interfere: whatever else is printed meanwhile -- inside the destination's recycle(), inside an error
// notifier, by other threads taking turns, by other threads running freely (built with ThreadSanitizer) -- each output is
// what the print gives alone.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/anyw.hpp"
#include "p35_jobs.hpp"
#ifndef ZOO_VISIT
#define ZOO_VISIT zoo::visit
#endif
namespace p35 {
using namespace tc; using pbt::show;
template <class C> struct HookDst : strf::destination<C> {
    std::basic_string<C> got; std::vector<size_t> sizes; size_t i = 0; std::unique_ptr<C[]> cur;
    explicit HookDst(std::vector<size_t> z) : strf::destination<C>(nullptr, (C*)nullptr), sizes(std::move(z)) { next(); }
    void next() { size_t n = sizes[i % sizes.size()]; ++i; cur.reset(new C[n]); this->set_buffer_ptr(cur.get()); this->set_buffer_end(cur.get() + n); }
    void take() { got.append(cur.get(), (size_t)(this->buffer_ptr() - cur.get())); }
    void recycle() override { take(); at(); next(); }
    const std::basic_string<C>& finish() { take(); this->set_good(false); return got; }
};
// one object for every thread: it keeps nothing
struct Meanwhile : strf::transcoding_error_notifier {
    void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override { at(); }
    void unsupported_codepoint(const char*, unsigned) override { at(); }
};
inline Meanwhile meanwhile;
template <class C, class P, class A> void add(Src& s, Ctx& cx, Case& cs, std::shared_ptr<const P> pk, const A& a0) {
    using S = std::basic_string<C>; auto a = std::make_shared<const A>(a0); Job j; j.what = uname<C>::v;
    auto alone = [pk, a] { HookDst<C> q({size_t(1) << 15}); strf::to(static_cast<strf::destination<C>&>(q)).with(*pk)(*a); return S(q.finish()); };
    auto want = std::make_shared<S>(); auto ok = [want](const S& g) { return g == *want ? std::string() : "got " + show(g) + " want " + show(*want); };
    j.alone = [alone, want] { *want = alone(); return want->size(); };
    switch (s.draw(7)) {
        case 0: case 1: { auto z = chunk_sizes(s); j.run = [=] { HookDst<C> d(z); strf::to(static_cast<strf::destination<C>&>(d)).with(*pk)(*a); return ok(d.finish()); }; break; }
        case 2: { auto z = chunk_sizes(s); j.run = [=] { HookDst<C> d(z); for (int i = 0; i < 3; ++i) { strf::to(static_cast<strf::destination<C>&>(d)).with(*pk)(*a); at(); } S g = d.finish(), w; for (int i = 0; i < 3; ++i) w += *want; return g == w ? std::string() : "three times: got " + show(g) + " want " + show(w); }; break; }
        case 3: j.run = [=] { strf::basic_string_maker<C> m; strf::to(static_cast<strf::destination<C>&>(m)).with(*pk)(*a); at(); return ok(m.finish()); }; break;
        case 4: { size_t room = 1 + s.draw(200); auto into = [=] { std::vector<C> b(room + 1, (C)'#'); strf::basic_cstr_destination<C> m(b.data(), room); strf::to(static_cast<strf::destination<C>&>(m)).with(*pk)(*a); auto r = m.finish(); at(); S g(b.data(), (size_t)(r.ptr - b.data())); if (r.truncated) g += (C)'T'; g += b[room]; return g; };
            auto w4 = std::make_shared<S>(); j.alone = [=] { *want = alone(); *w4 = into(); return want->size(); };
            j.run = [=] { auto g = into(); return g == *w4 ? std::string() : "into " + std::to_string(room) + " units: got " + show(g) + " want " + show(*w4); }; break; }
        case 5: { auto z = chunk_sizes(s); j.run = [=] { strf::full_premeasurements pre; strf::measure<C>(&pre, *pk, *a); at(); HookDst<C> d(z); strf::to(static_cast<strf::destination<C>&>(d)).with(*pk)(*a); auto e = ok(d.finish()); if (e.empty() && pre.accumulated_size() < want->size()) e = "measured size " + std::to_string(pre.accumulated_size()) + " < " + std::to_string(want->size()); return e; }; break; }
        default: { // one printer, called by all
            auto z = chunk_sizes(s); strf::no_premeasurements no; auto pr = std::make_shared<decltype(strf::make_printer<C>(&no, *pk, *a))>(strf::make_printer<C>(&no, *pk, *a)); j.run = [=] { HookDst<C> d(z); (*pr)(static_cast<strf::destination<C>&>(d)); return ok(d.finish()); }; break; }
    }
    cs.jobs.push_back(std::move(j)); (void)cx;
}
template <class C> void job(Src& s, Ctx& cx, Case& cs) {
    if (cx.want_text) cx.text << "\n  " << cs.jobs.size() << ": " << uname<C>::v;
    auto f = zoo::facets(s); auto aw = any_width(s, cx); auto mk = [&] { return strf::pack(f.p10, f.p16, f.p8, f.lc, aw, strf::transcoding_error_notifier_ptr{&meanwhile}); };
    auto pk = std::make_shared<const decltype(mk())>(mk()); zoo::Opt o; o.maxstr = 130; o.maxw = 200; auto pool = std::make_shared<zoo::Pool<C>>(); cs.keep.push_back(pool);
    ZOO_VISIT<C>(s, cx, *pool, o, [&](const auto& a) { add<C>(s, cx, cs, pk, a); });
}
}
