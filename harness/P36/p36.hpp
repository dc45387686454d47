// P36: an exception thrown by code of the user that a print calls reaches the caller of the print, everything
// the print had made is destroyed, what was delivered before is what is delivered without it, and nothing else is changed.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/anyw.hpp"
#include "p36_ev.hpp"
#include <strf/to_streambuf.hpp>
#include <strf/to_string.hpp>
#ifndef ZOO_VISIT
#define ZOO_VISIT zoo::visit
#endif
#ifndef P36_ONCE
#define P36_ONCE
namespace p36 {
using namespace tc; using pbt::show; using pbt::check_eq;
struct Evt : Live { int len; explicit Evt(int n) : len(n) {} };
struct EvtP : Live { int len; explicit EvtP(int n) : len(n) {} };
template <class C> struct EvtPrinter : Live { int len; explicit EvtPrinter(int n) : len(n) {} void operator()(strf::destination<C>& d) const { ev("printer"); for (int i = 0; i < len; ++i) strf::put(d, (C)('a' + i % 26)); ev("printer, at the end"); } };
// facets whose functions may throw
struct EvWidth { using category = strf::width_calculator_c; AnyWidth w;
    template <class Cs> strf::width_t char_width(Cs cs, typename Cs::code_unit c) const { ev("char_width"); return w.char_width(cs, c); }
    template <class Cs> strf::width_t str_width(Cs cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const { ev("str_width"); return w.str_width(cs, lim, b, e); }
    template <class Cs> auto str_width_and_pos(Cs cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const -> strf::width_and_ptr<typename Cs::code_unit> { ev("str_width_and_pos"); return w.str_width_and_pos(cs, lim, b, e); } };
struct EvNotify : strf::transcoding_error_notifier { void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override { ev("invalid_sequence"); } void unsupported_codepoint(const char*, unsigned) override { ev("unsupported_codepoint"); } };
inline EvNotify ev_notify;
struct EvTr { using category = strf::tr_error_notifier_c; template <class Cs> void handle(const typename Cs::code_unit*, std::ptrdiff_t, Cs, std::ptrdiff_t) const { ev("tr error"); } };
template <class C> struct EvDst : strf::destination<C> {
    std::basic_string<C>& got; size_t& ngot; std::vector<size_t> sizes; size_t i = 0; std::unique_ptr<C[]> cur;
    EvDst(std::basic_string<C>& g, size_t& n, std::vector<size_t> z) : strf::destination<C>(nullptr, (C*)nullptr), got(g), ngot(n), sizes(std::move(z)) { got.clear(); ngot = 0; E.got = &ngot; next(); }
    void next() { size_t n = sizes[i % sizes.size()]; ++i; cur.reset(new C[n]); this->set_buffer_ptr(cur.get()); this->set_buffer_end(cur.get() + n); }
    void take() { got.append(cur.get(), (size_t)(this->buffer_ptr() - cur.get())); ngot = got.size(); this->set_buffer_ptr(cur.get()); }
    void recycle() override { bool late = i % 2; if (!late) ev("recycle"); take(); if (late) ev("recycle, delivered"); next(); }
};
// elements that throw when looked at, or when the iterator moves
template <class V> struct EvIt : Live { using value_type = V; using difference_type = std::ptrdiff_t; using pointer = const V*; using reference = V; using iterator_category = std::forward_iterator_tag;
    const V* p; explicit EvIt(const V* x) : p(x) {} V operator*() const { ev("*iterator"); return *p; } EvIt& operator++() { ev("++iterator"); ++p; return *this; } EvIt operator++(int) { auto c = *this; ++*this; return c; } bool operator==(const EvIt& o) const { return p == o.p; } bool operator!=(const EvIt& o) const { return p != o.p; } };
template <class It> struct View { using const_iterator = It; It b, e; It begin() const { return b; } It end() const { return e; } };
template <class C> struct EvAlloc : Live { using value_type = C; EvAlloc() = default; template <class U> EvAlloc(const EvAlloc<U>&) {} C* allocate(size_t n) { ev("allocate"); return std::allocator<C>().allocate(n); } void deallocate(C* p, size_t n) { std::allocator<C>().deallocate(p, n); } template <class U> bool operator==(const EvAlloc<U>&) const { return true; } template <class U> bool operator!=(const EvAlloc<U>&) const { return false; } };
// a stream buffer
template <class C> struct EvBuf : std::basic_streambuf<C>, Live { using T = std::char_traits<C>; std::basic_string<C>& got; bool by_char; EvBuf(std::basic_string<C>& g, bool b) : got(g), by_char(b) {}
    std::streamsize xsputn(const C* p, std::streamsize n) override { if (by_char) return std::basic_streambuf<C>::xsputn(p, n); ev("xsputn"); got.append(p, (size_t)n); return n; }
    typename T::int_type overflow(typename T::int_type c) override { if (got.size() % 16 == 0) ev("overflow"); if (!T::eq_int_type(c, T::eof())) got += T::to_char_type(c); return T::not_eof(c); } };
// a creator of destinations
template <class C> struct Sink { std::basic_string<C> got; size_t n = 0; std::vector<size_t> sizes; };
template <class C> struct MadeDst : EvDst<C>, Live { using EvDst<C>::EvDst; explicit MadeDst(Sink<C>* k) : EvDst<C>(k->got, k->n, k->sizes) { ev("destination"); } MadeDst(const MadeDst&) = delete; int finish() { ev("finish"); this->take(); return 7; } };
template <class C> struct MadeSized : MadeDst<C> { explicit MadeSized(std::pair<Sink<C>*, size_t> k) : MadeDst<C>(k.first) {} };
template <class C> struct Creator { using char_type = C; using destination_type = MadeDst<C>; using sized_destination_type = MadeSized<C>; using finish_type = int; Sink<C>* k; Sink<C>* create() const { ev("create"); return k; } std::pair<Sink<C>*, size_t> create(size_t n) const { ev("create with size"); return {k, n}; } };
}
namespace strf {
template <> struct printable_def<p36::Evt> { using representative = p36::Evt; using forwarded_type = const p36::Evt&; using format_specifiers = strf::tag<>; using is_overridable = std::false_type;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP&, const p36::Evt& e) { p36::ev("make_printer"); pre->add_size(e.len); pre->add_width(strf::width_t((std::int16_t)e.len)); p36::ev("make_printer, measured"); return p36::EvtPrinter<C>(e.len); } };
template <> struct printable_def<p36::EvtP> { using representative = p36::EvtP; using forwarded_type = const p36::EvtP&; using format_specifiers = strf::tag<>; using is_overridable = std::false_type;
    template <class C, class FP> static void print(strf::destination<C>& d, const FP&, const p36::EvtP& e) { p36::ev("print"); p36::EvtPrinter<C> x(e.len); x(d); }
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP&, const p36::EvtP& e) { p36::ev("make_printer"); pre->add_size(e.len); pre->add_width(strf::width_t((std::int16_t)e.len)); return p36::EvtPrinter<C>(e.len); } };
}
#endif
namespace p36 {
// prints given arguments with a pack, in several ways (Modes: bit set)
template <class C, int Modes, class P, class... A> void prints(Src& s, Ctx& cx, const P& pk, const A&... a) {
    using S = std::basic_string<C>; auto say = [&](const char* t) { if (cx.want_text) cx.text << " [" << t << "]"; };
    S want; Sink<C> k; k.sizes = chunk_sizes(s); k.got.reserve(1 << 15); { size_t n; E.on = false; EvDst<C> q(k.got, n, {size_t(1) << 15}); strf::to(static_cast<strf::destination<C>&>(q)).with(pk)(a...); q.take(); want = k.got; } E.got = nullptr;
    auto cmp = [&] { return k.got == want ? std::string() : "got " + show(k.got) + " want " + show(want); };
    auto partly = [&](size_t n) { return k.got == want.substr(0, n) ? std::string() : "had received " + show(k.got) + " want " + show(want.substr(0, n)); };
    auto none = [](size_t) { return std::string(); };
    int m = (int)s.draw(16); while (!(Modes >> m & 1)) m = (m + 1) % 16;
    if constexpr ((Modes & 1) != 0) if (m == 0) { say("destination"); faults(s, cx, [&] { EvDst<C> d(k.got, k.n, k.sizes); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a...); d.take(); }, cmp, partly); }
    if constexpr ((Modes & 2) != 0) if (m == 1) { say("creator"); faults(s, cx, [&] { k.got.clear(); k.n = 0; strf::printing_syntax<Creator<C>, strf::no_reserve>(Creator<C>{&k}).with(pk)(a...); }, cmp, partly); }
    if constexpr ((Modes & 4) != 0) if (m == 2) { say("creator, reserve_calc"); faults(s, cx, [&] { k.got.clear(); k.n = 0; strf::printing_syntax<Creator<C>, strf::reserve_calc>(Creator<C>{&k}).with(pk)(a...); }, cmp, partly); }
    if constexpr ((Modes & 8) != 0) if (m == 3) { say("string"); faults(s, cx, [&] { k.got.clear(); strf::basic_string_maker<C, std::char_traits<C>, EvAlloc<C>> d; strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a...); auto r = d.finish(); k.got.assign(r.data(), r.size()); }, cmp, none); }
    if constexpr ((Modes & 16) != 0) if (m == 4) { say("measure"); std::pair<size_t, int32_t> m0{}, mm{}; auto go = [&] { strf::full_premeasurements pre; strf::measure<C>(&pre, pk, a...); mm = {pre.accumulated_size(), pre.accumulated_width().underlying_value()}; }; E.on = false; go(); m0 = mm; faults(s, cx, go, [&] { return mm == m0 ? std::string() : std::string("measures differ"); }, none); }
    if constexpr ((Modes & 32) != 0) if (m == 5) { say("string, reserve"); faults(s, cx, [&] { k.got.clear(); strf::basic_sized_string_maker<C, std::char_traits<C>, EvAlloc<C>> d(want.size() / 2); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a...); auto r = d.finish(); k.got.assign(r.data(), r.size()); }, cmp, none); }
    if constexpr ((Modes & 64) != 0) if (m == 6) { say("measure and print"); faults(s, cx, [&] { k.n = 0; EvDst<C> d(k.got, k.n, k.sizes); strf::full_premeasurements pre; strf::measure<C>(&pre, pk, a...); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a...); d.take(); }, cmp, partly); }
    if constexpr ((Modes & 128) != 0) if (m == 7) { say("stored target"); auto t = strf::printing_syntax<Creator<C>, strf::reserve_calc>(Creator<C>{&k}).with(pk); faults(s, cx, [&] { k.got.clear(); k.n = 0; t(a...); }, cmp, partly); }
    if constexpr ((Modes & 0xff00) != 0) if (m > 7) {
        using ES = std::basic_string<C, std::char_traits<C>, EvAlloc<C>>; struct Keep { S& to; const ES& from; ~Keep() { to.assign(from.data(), from.size()); } }; const S init(s.draw(60), (C)'i');
        // the text received is the beginning of what is received otherwise
        auto begun = [&](size_t) { return want.compare(0, k.got.size(), k.got) == 0 ? std::string() : "had received " + show(k.got) + " which does not begin " + show(want); };
        if (m < 12) want = m < 11 ? init + want : want; size_t res = s.draw(2) ? s.draw(500) : 40 + s.draw(20);
        auto with_string = [&](auto print) { faults(s, cx, [&] { k.got.clear(); ES x; { bool on = E.on; E.on = false; x.assign(init.data(), init.size()); E.on = on; } Keep q{k.got, x}; print(x); }, cmp, begun); };
        if (m == 8) { say("append, no_reserve"); with_string([&](auto& x) { strf::append(x).no_reserve().with(pk)(a...); }); }
        if (m == 9) { say("append, reserve_calc"); with_string([&](auto& x) { strf::append(x).reserve_calc().with(pk)(a...); }); }
        if (m == 10) { say("append, reserve(n)"); with_string([&](auto& x) { strf::append(x).reserve(res).with(pk)(a...); }); }
        if (m == 11) { say("assign"); with_string([&](auto& x) { strf::assign(x).reserve_calc().with(pk)(a...); }); }
        auto to_str = [&](auto mk) { faults(s, cx, [&] { k.got.clear(); auto r = mk(strf::to_basic_string<C, std::char_traits<C>, EvAlloc<C>>); k.got.assign(r.data(), r.size()); }, cmp, none); };
        if (m == 12) { say("to_basic_string"); to_str([&](auto t) { return t.with(pk)(a...); }); }
        if (m == 13) { say("to_basic_string, reserve_calc"); to_str([&](auto t) { return t.reserve_calc().with(pk)(a...); }); }
        if (m == 14) { say("to_basic_string, reserve(n)"); to_str([&](auto t) { return t.reserve(res).with(pk)(a...); }); }
        if (m == 15) { say("streambuf"); const bool by_char = s.coin() && sizeof(C) == 1; /* U+FFFF and 0xFFFFFFFF are values of eof() */ faults(s, cx, [&] { k.got.clear(); EvBuf<C> b(k.got, by_char); auto r = strf::to(b).with(pk)(a...); if (!r.success || r.count != (std::streamsize)k.got.size()) k.got += (C)'?'; }, cmp, begun); }
    }
}
template <class C> auto packed(Src& s, Ctx& cx) { auto f = zoo::facets(s); EvWidth aw{any_width(s, cx)}; return strf::pack(f.p10, f.p16, f.p8, f.lc, aw, strf::transcoding_error_notifier_ptr{&ev_notify}, EvTr{}); }
// every kind of argument
template <class C> void kinds(Src& s, Ctx& cx) {
    if (cx.want_text) cx.text << uname<C>::v; live = 0; auto pk = packed<C>(s, cx); zoo::Opt o; o.maxstr = 130; o.maxw = 200; zoo::Pool<C> pool;
    ZOO_VISIT<C>(s, cx, pool, o, [&](const auto& a) { prints<C, 1 | 64>(s, cx, pk, a); });
}
// compositions of arguments with user-defined ones
#ifdef P36_COMP
template <class C> void compositions(Src& s, Ctx& cx) {
    if (cx.want_text) cx.text << uname<C>::v; live = 0; auto pk = packed<C>(s, cx); zoo::Opt o; o.maxstr = 130; o.maxw = 200; zoo::Pool<C> pool; auto len = [&] { return (int)s.draw(s.coin() ? 6 : 120); };
    auto say = [&](const char* t) { if (cx.want_text) cx.text << " " << t; }; Evt e1(len()), e2(len()); EvtP p(len()); EvWidth aw{any_width(s, cx)};
    auto& t = zoo::text<C>(s, o, pool, cx); auto a = strf::sani(t); auto w = zoo::width(s, 90); auto n = gen::integer<int>(s); auto al = zoo::af(s, o, cx); constexpr int all = 0xffff;
    switch (s.draw(8)) {
        case 0: say("e1, text, print()"); prints<C, all>(s, cx, pk, e1, strf::sani(t).p(w), p); break;
        case 1: { say("join"); prints<C, all>(s, cx, pk, strf::join(e1, t, strf::join(e2) < 9).set_alignment_format(al)); break; }
        case 2: { say("join of print()"); prints<C, all>(s, cx, pk, strf::join(p, a), e1); break; }
        case 3: { say("with(..)(..)"); prints<C, 7>(s, cx, pk, strf::with(aw, strf::lettercase::upper)(e1, a, e2)); break; }
        case 4: { say("tr"); static const char* ts[] = {"{} {1}-{}{7}{x}", "{2}{0}{0}{", "{}}{{-{} {-c} {1}", "{5}{5}{}{ 9 "}; const char* q = ts[s.draw(4)]; say(q); pool.strs.push_back(std::basic_string<C>(q, q + strlen(q))); auto& u = pool.strs.back(); if (s.coin()) prints<C, all>(s, cx, pk, strf::tr(u, e1, a, e2)); else prints<C, 1 | 4>(s, cx, pk, strf::join(strf::tr(u, t, e1)).set_alignment_format(al)); break; }
        case 5: case 6: { say("ranges"); std::vector<int> v; for (size_t i = s.draw(12); i; --i) v.push_back(gen::integer<int>(s)); View<EvIt<int>> r{EvIt<int>(v.data()), EvIt<int>(v.data() + v.size())}; C sep[] = {(C)',', (C)' ', 0};
            switch (s.draw(5)) { case 0: prints<C, all>(s, cx, pk, strf::range(r), e1); break; case 1: prints<C, all>(s, cx, pk, n, strf::separated_range(r, sep)); break; case 2: prints<C, 5>(s, cx, pk, strf::fmt_range(r).hex().set_alignment_format(al)); break;
                case 3: prints<C, 5>(s, cx, pk, strf::fmt_separated_range(r, sep).pad0((int)s.draw(20))); break; default: prints<C, 5>(s, cx, pk, strf::join(strf::separated_range(r, sep)) > (std::int16_t)s.draw(99), e1); } break; }
        default: { say("transformed range"); std::vector<int> v; for (size_t i = s.draw(9); i; --i) v.push_back(gen::integer<int>(s)); C sep[] = {(C)'|', 0}; auto f1 = [e1](int x) { ev("transform"); return strf::join(x, (C)'=', e1); }; auto f2 = [](int x) { ev("transform"); return strf::hex((unsigned)x) > 9; };
            switch (s.draw(3)) { case 0: prints<C, all>(s, cx, pk, strf::range(v, f1), a); break; case 1: prints<C, 5>(s, cx, pk, strf::separated_range(v, sep, f2)); break; default: prints<C, 5>(s, cx, pk, strf::join(strf::separated_range(v, sep, f1), a) > (std::int16_t)s.draw(200)); } }
    }
}
#endif
}
