// P17: ranges.
#include "common/strm.hpp"
#include <strf/to_string.hpp>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <forward_list>
#include <array>
#include <functional>
namespace p17 {
using namespace pbt; using namespace tc;
// a pack with a charset cannot be given at argument level
template <class P> struct Constrainable { static constexpr bool v = true; };
template <class... F> struct Constrainable<strf::facets_pack<F...>> { static constexpr bool v = !(std::is_same<F, strf::dynamic_charset<char>>::value || ...); };
// an iterator whose elements exist only while they are looked at
struct Gen { using value_type = int64_t; using difference_type = std::ptrdiff_t; using pointer = const int64_t*; using reference = int64_t; using iterator_category = std::forward_iterator_tag;
    int64_t x; int i; int64_t operator*() const { return x * i * i - i; } Gen& operator++() { ++i; return *this; } Gen operator++(int) { auto c = *this; ++i; return c; } bool operator==(const Gen& o) const { return i == o.i; } bool operator!=(const Gen& o) const { return i != o.i; } };
template <class C> struct Words { using value_type = std::basic_string<C>; using difference_type = std::ptrdiff_t; using pointer = const value_type*; using reference = value_type; using iterator_category = std::forward_iterator_tag;
    const std::basic_string<C>* base; int i; value_type operator*() const { return base->substr((size_t)(i % 7)) + *base; } Words& operator++() { ++i; return *this; } Words operator++(int) { auto c = *this; ++i; return c; } bool operator==(const Words& o) const { return i == o.i; } bool operator!=(const Words& o) const { return i != o.i; } };
template <class It> struct View { using const_iterator = It; It b, e; It begin() const { return b; } It end() const { return e; } };
inline strf::int_format int_fmt(Src& s) { strf::int_format r; r.base = s.pick<int>({10, 16, 8, 2}); r.precision = s.coin() ? 0 : (int)s.draw(30); r.pad0width = s.coin() ? 0 : (int)s.draw(30); r.sign = zoo::sign(s); r.showbase = s.coin(); r.punctuate = s.coin(); return r; }
inline strf::float_format float_fmt(Src& s) { strf::float_format r; r.notation = s.pick<strf::float_notation>({strf::float_notation::general, strf::float_notation::fixed, strf::float_notation::scientific, strf::float_notation::hex}); r.precision = s.coin() ? -1 : (int)s.draw(20); r.pad0width = s.coin() ? 0 : (int)s.draw(30); r.sign = zoo::sign(s); r.showpoint = s.coin(); r.punctuate = s.coin(); return r; }
inline strf::alignment_format small_af(Src& s) { return {gen::fill_char(s), zoo::width(s, 24), zoo::align(s)}; }
template <class C> struct Env { using S = std::basic_string<C>; Src& s; Ctx& cx; S sep; std::string ops; size_t count = 0; };
// prints `arg` one way and compares
template <class C, class Pack, class A> void prints(Env<C>& e, const Pack& pk, const char* what, const A& arg, const std::basic_string<C>& want) {
    using S = std::basic_string<C>;
    switch (e.s.draw(6)) {
        case 0: { Chunked<C> d(chunk_sizes(e.s)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)((C)'[', arg, (C)']'); check_eq(what, d.finish(), (C)'[' + want + (C)']'); break; }
        case 1: check_eq((std::string(what) + ", size computed").c_str(), (S)strf::to_basic_string<C>.with(pk).reserve_calc()(arg), want); break;
        case 2: check_eq((std::string(what) + " in a join").c_str(), (S)strf::to_basic_string<C>.with(pk).no_reserve()(strf::join((C)'<', arg, (C)'>')), (C)'<' + want + (C)'>'); break;
        case 3: check_eq((std::string(what) + " in an aligned join").c_str(), (S)strf::to_basic_string<C>.with(pk).reserve_calc()(strf::join(arg) > 0), want); break;
        case 4: if constexpr (Constrainable<Pack>::v) { check_eq((std::string(what) + " after facets").c_str(), (S)strf::to_basic_string<C>(strf::with(pk)(arg)), want); break; } [[fallthrough]];
        default: { Chunked<C> d(chunk_sizes(e.s)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(arg, arg); check_eq((std::string(what) + " twice").c_str(), d.finish(), want + want); }
    }
}
template <class C> std::basic_string<C> glue(const std::vector<std::basic_string<C>>& v, const std::basic_string<C>& sep) { std::basic_string<C> r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r; }
// every API over [b, e). `plain(x)`: the printed form of one; dress(f): adds format functions to a formattable
template <class C, class Pack, class B, class Fm, class Op>
void apis(Env<C>& e, const Pack& pk, const char* kind, B&& call, const std::vector<std::basic_string<C>>& plain, const std::vector<std::basic_string<C>>& fmted, const std::vector<std::basic_string<C>>& opd, Fm&& dress, Op op) {
    using S = std::basic_string<C>; const S none; const C* sep = e.sep.c_str();
    std::string k = kind; e.cx.label(kind);
    switch (e.s.draw(6)) {
        case 0: call([&](const auto&... r) { prints<C>(e, pk, (k + ": range").c_str(), strf::range(r...), glue(plain, none)); }); break;
        case 1: call([&](const auto&... r) { prints<C>(e, pk, (k + ": separated_range").c_str(), strf::separated_range(r..., sep), glue(plain, e.sep)); }); break;
        case 2: call([&](const auto&... r) { prints<C>(e, pk, (k + ": fmt_range").c_str(), dress(strf::fmt_range(r...)), glue(fmted, none)); }); break;
        case 3: call([&](const auto&... r) { prints<C>(e, pk, (k + ": fmt_separated_range").c_str(), dress(strf::fmt_separated_range(r..., sep)), glue(fmted, e.sep)); }); break;
        case 4: call([&](const auto&... r) { prints<C>(e, pk, (k + ": range with a function").c_str(), strf::range(r..., op), glue(opd, none)); }); break;
        default: call([&](const auto&... r) { prints<C>(e, pk, (k + ": separated_range with a function").c_str(), strf::separated_range(r..., sep, op), glue(opd, e.sep)); }); break;
    }
}
// one container: each element printed alone gives what the range must print
template <class C, class Pack, class R, class Call, class Fm, class Op>
void with_container(Env<C>& e, const Pack& pk, const char* kind, const R& r, Call&& call, Fm&& dress, Op op) {
    using S = std::basic_string<C>; auto to = strf::to_basic_string<C>.with(pk); std::vector<S> a, b, c;
    for (auto&& x : r) { a.push_back((S)to(x)); b.push_back((S)to(dress(strf::fmt(x)))); c.push_back((S)to(op(x))); }
    e.count = a.size(); e.cx.nt(a.size() >= 2); if (a.empty()) e.cx.label("empty"); if (a.size() > 40) e.cx.label("many elements");
    if (e.cx.want_text) { e.cx.text << " " << kind << " sep=" << show(e.sep) << " elements"; for (auto& x : a) e.cx.text << " " << show(x); }
    apis<C>(e, pk, kind, call, a, b, c, dress, op);
}
#define OBJ(r) [&](auto&& f) { f(r); }
#define ITS(r) [&](auto&& f) { f((r).begin(), (r).end()); }
template <class C, class Pack> void one(Src& s, Ctx& cx, int cs, const Pack& pk) {
    using S = std::basic_string<C>; Env<C> e{s, cx, S(), ""};
    e.sep = s.chance(1, 5) ? S() : source_text<C>(s, cs, s.chance(1, 8) ? 90 : 5); for (auto& c : e.sep) if (c == 0) c = (C)'z';
    size_t n = s.size(s.chance(1, 6) ? 120 : 10);
    auto I = int_fmt(s); auto F = float_fmt(s); auto A = small_af(s); auto P = zoo::width(s, 12); int k = (int)s.draw(9);
    auto dressI = [&](auto f) { return std::move(f).set_int_format(I).set_alignment_format(A); }; auto dressF = [&](auto f) { return std::move(f).set_float_format(F).set_alignment_format(A); };
    auto dressS = [&](auto f) { return std::move(f).p(P).set_alignment_format(A); }; auto dressA = [&](auto f) { return std::move(f).set_alignment_format(A); };
    if (cx.want_text) cx.text << uname<C>::v << " fmt{b" << I.base << " p" << I.precision << " pad0 " << I.pad0width << " sign" << (int)I.sign << " " << I.showbase << I.punctuate << "; n" << (int)F.notation << " p" << F.precision << " pad0 " << F.pad0width << "; " << (uint32_t)A.fill << " " << A.width.underlying_value() / 65536.0 << " " << (int)A.alignment << "; p " << P.underlying_value() / 65536.0 << "} ";
    switch (s.draw(14)) {
        case 0: { std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(gen::integer<int>(s)); auto op = [k](int x) { return *strf::hex(x) > k; }; if (s.coin()) with_container<C>(e, pk, "vector<int>", v, OBJ(v), dressI, op); else with_container<C>(e, pk, "vector<int> iterators", v, ITS(v), dressI, op); break; }
        case 1: { std::list<uint64_t> v; for (size_t i = 0; i < n; ++i) v.push_back(gen::integer<uint64_t>(s)); auto op = [](uint64_t x) { return x % 3 == 0; }; if (s.coin()) with_container<C>(e, pk, "list<uint64_t>", v, OBJ(v), dressI, op); else with_container<C>(e, pk, "list<uint64_t> iterators", v, ITS(v), dressI, op); break; }
        case 2: { std::set<int16_t> v; for (size_t i = 0; i < n; ++i) v.insert(gen::integer<int16_t>(s)); with_container<C>(e, pk, "set<int16_t>", v, OBJ(v), dressI, [](int16_t x) { return strf::join(x, (C)'=', strf::hex(x)); }); break; }
        case 3: { std::deque<double> v; for (size_t i = 0; i < n; ++i) v.push_back(gen::f64(s)); with_container<C>(e, pk, "deque<double>", v, OBJ(v), dressF, [](double x) { return strf::sci(x, 3); }); break; }
        case 4: { std::vector<float> v; for (size_t i = 0; i < n; ++i) v.push_back(gen::f32(s)); with_container<C>(e, pk, "vector<float>", v, ITS(v), dressF, [](float x) { return x < 0 ? -x : x; }); break; }
        case 5: { std::vector<S> v; for (size_t i = 0; i < n; ++i) v.push_back(source_text<C>(s, cs, 30)); if (s.coin()) with_container<C>(e, pk, "vector<string>", v, OBJ(v), dressS, [](const S& x) { return S(x.rbegin(), x.rend()); });
            else with_container<C>(e, pk, "vector<string> sanitised", v, OBJ(v), [&](auto f) { return std::move(f).sani().p(P).set_alignment_format(A); }, [](const S& x) { return x.size(); }); break; }
        case 6: { std::forward_list<std::basic_string_view<C>> v; std::list<S> st; for (size_t i = 0; i < n; ++i) { st.push_back(source_text<C>(s, cs, 30)); v.push_front(st.back()); } with_container<C>(e, pk, "forward_list<string_view>", v, OBJ(v), dressS, [k](std::basic_string_view<C> x) { return strf::fmt(x) < k; }); break; }
        case 7: { std::vector<C> v; for (size_t i = 0; i < n; ++i) v.push_back((C)('!' + s.draw(90))); auto c = [k](C x) { return x == (C)'a' ? (C)'b' : x; };
            with_container<C>(e, pk, "vector<char type>", v, OBJ(v), [&](auto f) { return std::move(f).multi(k).set_alignment_format(A); }, c); break; }
        case 8: { std::array<int, 5> v; for (auto& x : v) x = gen::integer<int>(s); int w[3]; for (auto& x : w) x = gen::integer<int>(s); std::function<std::string(int)> fn = [](int x) { return std::to_string(x); };
            if (s.coin()) with_container<C>(e, pk, "std::array", v, OBJ(v), dressI, [](int x) { return -(int64_t)x; }); else with_container<C>(e, pk, "array", w, OBJ(w), dressI, [](int x) { return -(int64_t)x; });
            break; }
        case 9: { Gen b{gen::integer<int32_t>(s), 0}; Gen en{b.x, (int)n}; View<Gen> v{b, en}; with_container<C>(e, pk, "computed integers", v, [&](auto&& f) { f(b, en); }, dressI, [k](int64_t x) { return strf::fmt(x + k).hex(); }); break; }
        case 10: { S base = source_text<C>(s, cs, 20); base.resize(base.size() + 7, (C)'w'); Words<C> b{&base, 0}, en{&base, (int)std::min<size_t>(n, 12)}; View<Words<C>> v{b, en}; with_container<C>(e, pk, "computed strings", v, OBJ(v), dressS, [](const S& x) { return x.size(); }); break; }
        case 11: { std::vector<bool> v; for (size_t i = 0; i < n; ++i) v.push_back(s.coin()); with_container<C>(e, pk, "vector<bool>", v, OBJ(v), dressA, [](bool x) { return x ? (C)'+' : (C)'-'; }); break; }
        case 12: { std::vector<const void*> v; for (size_t i = 0; i < n; ++i) v.push_back((const void*)(uintptr_t)gen::u64(s)); with_container<C>(e, pk, "vector<pointer>", v, ITS(v), dressA, [](const void* x) { return (uintptr_t)x; }); break; }
        default: { // foreign strings; initializer lists
            if (s.coin()) { using X = std::conditional_t<sizeof(C) == 2, char, char16_t>; std::vector<std::basic_string<X>> v; for (size_t i = 0; i < n; ++i) v.push_back(gen::any_text<X>(s, 20)); auto to = strf::to_basic_string<C>.with(pk); std::vector<S> a;
                for (auto& x : v) a.push_back((S)to(strf::transcode(x).p(P).set_alignment_format(A))); e.cx.nt(n > 1); cx.label("foreign strings");
                if (s.coin()) prints<C>(e, pk, "fmt_range(foreign strings).transcode()", strf::fmt_range(v).transcode().p(P).set_alignment_format(A), glue(a, S())); else prints<C>(e, pk, "fmt_separated_range(foreign strings).transcode()", strf::fmt_separated_range(v, e.sep.c_str()).set_alignment_format(A).p(P).transcode(), glue(a, e.sep)); }
            else { int a = gen::integer<int>(s), b = gen::integer<int>(s), c = gen::integer<int>(s); auto to = strf::to_basic_string<C>.with(pk); std::vector<S> p{(S)to(a), (S)to(b), (S)to(c)}, f{(S)to(dressI(strf::fmt(a))), (S)to(dressI(strf::fmt(b))), (S)to(dressI(strf::fmt(c)))}, o{(S)to(*strf::oct(a)), (S)to(*strf::oct(b)), (S)to(*strf::oct(c))}; auto op = [](int x) { return *strf::oct(x); }; const C* sep = e.sep.c_str();
                e.cx.nt(); cx.label("initializer list"); S x, y;
                switch (s.draw(6)) { case 0: x = (S)to(strf::range({a, b, c})); y = glue(p, S()); break; case 1: x = (S)to(strf::separated_range({a, b, c}, sep)); y = glue(p, e.sep); break; case 2: x = (S)to(dressI(strf::fmt_range({a, b, c}))); y = glue(f, S()); break;
                    case 3: x = (S)to(dressI(strf::fmt_separated_range({a, b, c}, sep))); y = glue(f, e.sep); break; case 4: x = (S)to(strf::range({a, b, c}, op)); y = glue(o, S()); break; default: x = (S)to(strf::separated_range({a, b, c}, sep, op)); y = glue(o, e.sep); }
                check_eq("range of an initializer list", x, y); }
        }
    }
}
template <class C> void statics(Src& s, Ctx& cx) { AnyWidth w = any_width(s, cx); auto fc = zoo::facets(s); one<C>(s, cx, UTF, strf::pack(w, fc.p10, fc.p16, fc.p8, fc.lc)); }
inline void dynamics(Src& s, Ctx& cx) { AnyWidth w = any_width(s, cx); auto fc = zoo::facets(s); int k = (int)s.draw(sbc::count); one<char>(s, cx, k, strf::pack(w, fc.p10, fc.p16, fc.p8, fc.lc, sbc_dyn()[k])); }
}
