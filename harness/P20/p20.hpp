// P20: histories of writes into fixed-size destinations against a model.
#include "common/zoo.hpp"
#include <strf.hpp>
#include <memory>
#ifndef ZOO_VISIT
#define ZOO_VISIT zoo::visit
#endif
using namespace pbt;
namespace {

// An exact-size heap block: any write outside is an ASan report; guards on top of that.
template <class C> struct Block {
    static constexpr size_t G = 8;
    std::unique_ptr<C[]> mem; size_t n;
    explicit Block(size_t n_) : mem(new C[n_ + 2 * G]), n(n_) { for (size_t i = 0; i < n + 2 * G; ++i) mem[i] = (C)0x5A; }
    C* begin() { return mem.get() + G; }
    void check_guards(const char* w) {
        for (size_t i = 0; i < G; ++i) { if (mem[i] != (C)0x5A) fail(std::string(w) + ": wrote before the destination"); if (mem[G + n + i] != (C)0x5A) fail(std::string(w) + ": wrote past the destination"); }
    }
};

template <class C, bool CSTR, class D>
void history(Src& s, Ctx& cx, D& d, Block<C>& blk, size_t cap /*usable units*/) {
    using S = std::basic_string<C>;
    S model;              // content expected so far (while good)
    bool good = true;
    bool lost = false;    // something was dropped
    bool finished = false;
    size_t nops = 1 + s.draw(7);
    int after_trunc = 0;
    zoo::Opt o; o.maxstr = 60; o.maxw = 60;
    auto txt = [&](size_t n) { S t; for (size_t i = 0; i < n; ++i) t.push_back((C)('a' + (i + model.size()) % 26)); return t; };
    auto on_trunc_unknown = [&](const S& all) { // content is some prefix of `all`, at least model
        // what is in the buffer is only known at the end; find it from the final result
        (void)all;
    };
    (void)on_trunc_unknown;
    S full = model;       // full text requested so far
    size_t min_len = 0;   // content certainly present once bad
    for (size_t i = 0; i < nops; ++i) {
        if (!good) ++after_trunc;
        switch (s.draw(7)) {
            case 0: case 1: { // raw write
                size_t n = s.pick<size_t>({0, 1, 2, 5, 20, 63, 64, 65, 130, 300}); if (s.coin()) n = s.draw(cap + 20);
                S t = txt(n); if (cx.want_text) cx.text << " write" << n;
                std::unique_ptr<C[]> ex(new C[n ? n : 1]); std::copy(t.begin(), t.end(), ex.get());
                if (s.coin()) d.write(ex.get(), n); else d.write(ex.get(), (std::ptrdiff_t)n);
                if (good) {
                    full += t;
                    if (n > cap - model.size()) { model += t.substr(0, cap - model.size()); min_len = model.size(); good = false; lost = true; }
                    else model += t;
                }
                break; }
            case 2: { // single units
                size_t n = 1 + s.draw(4); if (cx.want_text) cx.text << " put" << n;
                for (size_t k = 0; k < n; ++k) {
                    C c = (C)('A' + k); strf::put(d, c);
                    if (good) { full.push_back(c); if (model.size() == cap) { good = false; lost = true; min_len = model.size(); } else model.push_back(c); }
                }
                break; }
            case 3: { // documented low-level protocol
                size_t n = s.draw(65); if (cx.want_text) cx.text << " ensure" << n;
                bool fits = n <= cap - (good ? model.size() : 0);
                d.ensure(n);
                check(d.buffer_space() >= n, "ensure() did not provide the space");
                S t = txt(n); std::copy(t.begin(), t.end(), d.buffer_ptr());
                if (s.coin()) d.advance(n); else d.advance_to(d.buffer_ptr() + n);
                if (good) { full += t; if (fits) model += t; else { good = false; lost = lost || n > 0; min_len = model.size(); } }
                break; }
            case 4: case 5: { // print
                zoo::Pool<C> pool;
                ZOO_VISIT<C>(s, cx, pool, o, [&](const auto& arg) {
                    S t = strf::to_basic_string<C>(arg);
                    strf::to(d)(arg);
                    if (good) {
                        if (t.size() <= cap - model.size()) { full += t; model += t; check(d.good(), "printing something that fits turned the destination bad"); }
                        else { full += t; min_len = model.size(); model = full; good = false; lost = true; }
                    }
                });
                break; }
            default: { // repeated recycling once bad has no effect
                if (!good) { if (cx.want_text) cx.text << " recycle"; d.recycle(); check(d.buffer_space() >= 64, "recycle() postcondition"); }
                else if constexpr (CSTR) { if (s.chance(1, 4)) { if (cx.want_text) cx.text << " finish"; auto r = d.finish(); finished = true; good = false;
                    check(!r.truncated, "finish(): truncated but everything fitted"); check(r.ptr == blk.begin() + model.size(), "finish(): wrong end"); min_len = model.size(); } }
                break; }
        }
        check(d.good() == good, "good() is " + std::to_string(d.good()) + " but expected " + std::to_string(good));
        check(d.buffer_ptr() <= d.buffer_end(), "buffer_ptr past buffer_end");
        blk.check_guards("op");
        if (good) {
            check(d.buffer_ptr() == blk.begin() + model.size(), "buffer_ptr is not at the end of the content");
            check(d.buffer_end() == blk.begin() + cap, "buffer_end moved");
            check(std::equal(model.begin(), model.end(), blk.begin()), "content differs");
        }
    }
    for (int k = 0; k < (CSTR ? 2 : 1); ++k) {
        auto r = d.finish();
        bool want_trunc = CSTR ? (lost || finished || k > 0 || !good) : !good;
        check(r.truncated == want_trunc, "truncated is " + std::to_string(r.truncated) + ", expected " + std::to_string(want_trunc));
        check(r.ptr >= blk.begin() && r.ptr <= blk.begin() + cap, "result pointer outside of the destination: offset " + std::to_string(r.ptr - blk.begin()) + " capacity " + std::to_string(cap));
        S got(blk.begin(), (size_t)(r.ptr - blk.begin()));
        if (CSTR) check(*r.ptr == C(), "not null-terminated at result pointer");
        blk.check_guards("finish");
        if (good || finished) { check_eq("content", got, model); }
        else {
            // exactly a prefix of the text requested up to the truncation
            check(got.size() >= min_len, "content lost something that had been accepted: " + show(got) + " vs at least " + std::to_string(min_len) + " of " + show(full));
            check(got.size() <= full.size() && full.compare(0, got.size(), got) == 0, "content is not a prefix of the text: " + show(got) + " vs " + show(full));
            if (model.size() <= cap) check_eq("content after truncation", got, model);
        }
    }
    if (after_trunc) cx.label("operation after truncation");
    if (lost) cx.label("truncated");
    cx.nt(lost && nops > 1);
}

template <class C> void cstr(Src& s, Ctx& cx) {
    size_t n = 1 + s.pick<size_t>({0, 1, 2, 3, 7, 15, 31, 62, 63, 64, 65, 100, 200}); if (s.coin()) n = 1 + s.draw(80);
    Block<C> b(n); if (cx.want_text) cx.text << zoo::name_of<C>::v << " cstr[" << n << "]";
    switch (s.draw(3)) {
        case 0: { strf::basic_cstr_destination<C> d(b.begin(), b.begin() + n); history<C, true>(s, cx, d, b, n - 1); break; }
        case 1: { strf::basic_cstr_destination<C> d(b.begin(), n); history<C, true>(s, cx, d, b, n - 1); break; }
        default: { strf::basic_cstr_destination<C> d(typename strf::basic_cstr_destination<C>::range{b.begin(), b.begin() + n}); history<C, true>(s, cx, d, b, n - 1); break; }
    }
}
template <class C> void arr(Src& s, Ctx& cx) {
    size_t n = s.pick<size_t>({0, 1, 2, 3, 7, 15, 31, 62, 63, 64, 65, 100, 200}); if (s.coin()) n = s.draw(80);
    Block<C> b(n); if (cx.want_text) cx.text << zoo::name_of<C>::v << " array[" << n << "]";
    switch (s.draw(3)) {
        case 0: { strf::array_destination<C> d(b.begin(), b.begin() + n); history<C, false>(s, cx, d, b, n); break; }
        case 1: { strf::array_destination<C> d(b.begin(), n); history<C, false>(s, cx, d, b, n); break; }
        default: { strf::array_destination<C> d(typename strf::array_destination<C>::range{b.begin(), b.begin() + n}); history<C, false>(s, cx, d, b, n); break; }
    }
}
// strf::to(buf, ...)(args...), to_range, and .tr
template <class C> void call(Src& s, Ctx& cx) {
    using S = std::basic_string<C>;
    size_t n = 1 + s.draw(90); Block<C> b(n);
    zoo::Pool<C> pool; zoo::Opt o; o.maxstr = 50; o.maxw = 50;
    if (cx.want_text) cx.text << zoo::name_of<C>::v << " to(buf," << n << ")";
    ZOO_VISIT<C>(s, cx, pool, o, [&](const auto& a1) {
        int64_t v = gen::integer<int64_t>(s); auto& t2 = zoo::text<C>(s, o, pool, cx);
        bool range = s.coin(); unsigned form = (unsigned)s.draw(3);
        S want; C* ptr; bool trunc;
        static const C trs[] = {'a', '{', '}', 'b', '{', '}', '{', '}', 0};
        auto run = [&](auto&& target) {
            if (form == 0) { auto r = target(a1, v, t2); ptr = r.ptr; trunc = r.truncated; }
            else if (form == 1) { auto r = target.tr(trs, a1, v, t2); ptr = r.ptr; trunc = r.truncated; }
            else { auto r = target.with(strf::lettercase::upper)(a1, v, t2); ptr = r.ptr; trunc = r.truncated; }
        };
        if (form == 0) want = strf::to_basic_string<C>(a1, v, t2);
        else if (form == 1) want = strf::to_basic_string<C>.tr(trs, a1, v, t2);
        else want = strf::to_basic_string<C>.with(strf::lettercase::upper)(a1, v, t2);
        size_t cap = range ? n : n - 1;
        if (range) { if (s.coin()) run(strf::to_range(b.begin(), n)); else run(strf::to_range(b.begin(), b.begin() + n)); }
        else { if (s.coin()) run(strf::to(b.begin(), n)); else run(strf::to(b.begin(), b.begin() + n)); }
        b.check_guards("call");
        check(ptr >= b.begin() && ptr <= b.begin() + cap, "result pointer outside of the destination");
        S got(b.begin(), (size_t)(ptr - b.begin()));
        if (!range) check(*ptr == C(), "not null-terminated");
        if (want.size() <= cap) { check(!trunc, "truncated although the text fits: " + show(want)); check_eq("content", got, want); }
        else { check(trunc, "text does not fit but truncated is false"); check(want.compare(0, got.size(), got) == 0, "not a prefix: " + show(got) + " of " + show(want)); }
        cx.nt(want.size() > cap); if (trunc) cx.label("truncated");
    });
}
}
#define P20(C, SUF) \
    PBT_PROP(p20_cstr_##SUF, 3) { cstr<C>(s, cx); } \
    PBT_PROP(p20_array_##SUF, 2) { arr<C>(s, cx); } \
    PBT_PROP(p20_call_##SUF, 2) { call<C>(s, cx); }
