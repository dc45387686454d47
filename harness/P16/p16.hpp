#pragma once
// P16: tr-strings.
#include "common/intm.hpp"
#include "common/anyw.hpp"
#include <strf/to_string.hpp>
namespace p16 {
using namespace pbt; using namespace tc;
struct Seg { int kind; size_t a, b; }; // 0: text [a,b)  1: argument a  2: error at a
template <class C> std::vector<Seg> parse(const std::basic_string<C>& t, size_t nargs) {
    std::vector<Seg> r; size_t i = 0, n = t.size(), next = 0;
    auto is = [&](size_t k, char c) { return k < n && t[k] == (C)c; };
    auto text = [&](size_t a, size_t b) { if (a < b) r.push_back({0, a, b}); };
    auto until = [&](size_t k) { while (k < n && !is(k, '}')) ++k; return k < n ? k + 1 : n; };
    while (i < n) {
        size_t st = i; while (i < n && !is(i, '{')) ++i; text(st, i); if (i == n) break;
        size_t open = i++; 
        auto take = [&](size_t k) { if (k < nargs) r.push_back({1, k, 0}); else r.push_back({2, open, 0}); };
        if (i == n) { take(next); ++next; break; }
        if (is(i, '{')) { text(i, i + 1); ++i; continue; }
        if (is(i, '-')) { i = until(i); continue; }
        if (t[i] >= (C)'0' && t[i] <= (C)'9') { size_t k = 0; size_t j = i; while (j < n && t[j] >= (C)'0' && t[j] <= (C)'9') { if (k < 1000000) k = k * 10 + (size_t)(t[j] - (C)'0'); ++j; } take(k); i = until(j); continue; }
        take(next); ++next; i = until(i);
    }
    return r;
}
struct Err { const void* str; ptrdiff_t len, pos; std::string cs; };
struct Notifier { using category = strf::tr_error_notifier_c; std::vector<Err>* v;
    template <class Cs> void handle(const typename Cs::code_unit* s, ptrdiff_t n, Cs cs, ptrdiff_t p) const { v->push_back({s, n, p, cs.name()}); } };
template <class C> std::basic_string<C> templ(Src& s) {
    std::basic_string<C> r; size_t n = s.size(s.chance(1, 8) ? 120 : 12);
    auto put = [&](const char* p) { while (*p) r.push_back((C)*p++); };
    auto words = [&](size_t k) { for (size_t i = 0; i < k; ++i) r.push_back((C)s.pick<char>({'a', ' ', '1', '-', '}', '.', 'z', '9', '0', '/', ':'})); };
    for (size_t i = 0; i < n; ++i) switch (s.draw(14)) {
        case 0: put("{}"); break;
        case 1: put("{"); break;
        case 2: put("}"); break;
        case 3: put("{{"); break;
        case 4: r.push_back((C)'{'); put(std::to_string(s.draw(14)).c_str()); if (s.coin()) words(s.draw(3)); if (s.chance(7, 8)) put("}"); break;
        case 5: put("{-"); words(s.draw(5)); if (s.chance(7, 8)) put("}"); break;
        case 6: put("{ "); words(s.draw(5)); if (s.chance(7, 8)) put("}"); break;
        case 7: put("{"); put(s.pick<const char*>({"00", "007", "0000000000000000000000001", "18446744073709551616", "18446744073709551617", "4294967296", "99999999999999999999999999", "2147483648", "1", "10", "12", "13"})); put("}"); break;
        case 8: r += gen::any_text<C>(s, 20); break;
        case 9: { std::basic_string<C> x = gen::valid_text<C>(s, 4); put("{"); r += x; put("}"); break; }
        case 10: for (size_t k = s.draw(8); k; --k) r.push_back((C)s.pick<char>({'{', '}', '-', '0', '1', '{'})); break;
        case 11: words(1 + s.draw(s.chance(1, 6) ? 200 : 10)); break;
        case 12: r.push_back((C)0); break;
        default: put("{"); r.push_back((C)s.pick<uint32_t>({'/', ':', '0' + 256, 0x7B + 256, 0x7D + 256, 0x2D + 256, 0xFB, 0xB0, 0x130})); put("}");
    }
    return r;
}
template <class C> struct Args { std::basic_string<C> t0, t1; int i; double d; bool b; C c; uint64_t u; };
// calls f(args...) with the first n of twelve arguments
template <class C, class F> void with_args(Args<C>& a, int n, F&& f) {
    std::basic_string_view<C> t0 = a.t0, t1 = a.t1;
    auto h = *strf::hex(a.u) > 9; auto m = strf::multi(a.c, 3); auto j = strf::join(a.i, t1) > 12; auto d = +strf::fixed(a.d, 2); auto in = strf::tr(t1, a.b, a.i);
    switch (n) {
        case 0: f(); break; case 1: f(t0); break; case 2: f(a.i, t0); break; case 3: f(j, in, a.b); break;
        case 5: f(t0, a.i, h, m, d); break;
        default: f(t0, a.i, h, m, d, a.b, j, a.c, in, a.u, t1, U'\u20AC'); break;
    }
}
template <class C, class Pack> void run(Src& s, Ctx& cx, int cs, const std::string& csname, const Pack& base) {
    auto lc = intm::lcase(s); std::vector<Err> errs; Notifier nt; nt.v = &errs;
    auto pk = strf::pack(base, lc, nt); auto quiet = strf::pack(base, lc);
    int n = s.pick<int>({0, 1, 2, 3, 5, 12}); auto t = templ<C>(s);
    Args<C> a{s.coin() ? templ<C>(s) : gen::any_text<C>(s, 12), s.coin() ? templ<C>(s) : gen::any_text<C>(s, 12), gen::integer<int>(s), (double)s.range(-100, 100000) / 8, s.coin(), (C)('!' + s.draw(90)), gen::u64(s)};
    if (cx.want_text) cx.text << csname << "/" << uname<C>::v << " " << show(t) << " with " << n << " arguments " << show(a.t0) << " " << a.i << " " << show(a.t1);
    Exact<C> x(t); std::basic_string_view<C> tv(x.b(), t.size());
    std::vector<std::basic_string<C>> each; size_t inner = 0;
    with_args<C>(a, n, [&](const auto&... v) { (each.push_back(strf::to_basic_string<C>.with(quiet)(v)), ...); });
    std::basic_string<C> want, repl; if (cs == UTF) gen::enc(repl, U'\uFFFD'); else repl.push_back((C)'?');
    std::vector<ptrdiff_t> pos; auto segs = parse(t, (size_t)n); std::vector<int> uses(13, 0); size_t nph = 0;
    for (auto& g : segs) { if (g.kind == 0) want += t.substr(g.a, g.b - g.a); else { ++nph; if (g.kind == 1) { want += each[g.a]; ++uses[g.a]; } else { want += repl; pos.push_back((ptrdiff_t)g.a); } } }
    cx.nt(nph > 0 || want != t); if (!pos.empty()) cx.label("missing arguments"); if (nph > 3) cx.label("4+ placeholders"); if (t.find((C)'{') != t.npos && nph == 0) cx.label("comments or escapes only");
    // errors of nested tr-strings (argument `in`) carry another template
    auto verify = [&](const char* w, std::basic_string<C> got, const std::basic_string<C>& exp) {
        check_eq(w, got, exp); size_t k = 0;
        for (auto& e : errs) { if (e.str != (const void*)x.b()) { ++inner; continue; }
            if (e.len != (ptrdiff_t)t.size()) fail(std::string(w) + ": reported length " + std::to_string(e.len));
            if (e.cs != csname) fail(std::string(w) + ": reported charset " + e.cs);
            if (k >= pos.size() || pos[k] != e.pos) fail(std::string(w) + ": reported an error at " + std::to_string(e.pos) + ", expected " + (k < pos.size() ? std::to_string(pos[k]) : "none")); ++k; }
        if (k != pos.size()) fail(std::string(w) + ": " + std::to_string(pos.size() - k) + " errors were not reported"); errs.clear();
    };
    auto nl = want + (C)'\n', dbl = std::basic_string<C>(1, (C)'<') + want + (C)'>';
    with_args<C>(a, n, [&](const auto&... v) {
        { Chunked<C> d(chunk_sizes(s)); auto& ds = static_cast<strf::destination<C>&>(d);
            switch (s.draw(4)) { case 0: strf::to(ds).with(pk).tr(tv, v...); verify("to(dst).tr(..)", d.finish(), want); break;
                case 1: strf::to(ds).with(pk).trline(tv, v...); verify("to(dst).trline(..)", d.finish(), nl); break;
                case 2: strf::to(ds).with(pk)((C)'<', strf::tr(tv, v...), (C)'>'); verify("to(dst)(tr(..))", d.finish(), dbl); break;
                default: strf::to(ds).with(pk).line(strf::tr(tv, v...)); verify("to(dst).line(tr(..))", d.finish(), nl); } }
        { auto ts = strf::to_basic_string<C>.with(pk);
            switch (s.draw(4)) { case 0: verify("to_string.reserve_calc().tr(..)", (std::basic_string<C>)ts.reserve_calc().tr(tv, v...), want); break;
                case 1: verify("to_string.reserve_calc().trline(..)", (std::basic_string<C>)ts.reserve_calc().trline(tv, v...), nl); break;
                case 2: verify("to_string.reserve_calc()(tr(..))", (std::basic_string<C>)ts.reserve_calc()((C)'<', strf::tr(tv, v...), (C)'>'), dbl); break;
                default: verify("to_string.reserve(3).tr(..)", (std::basic_string<C>)ts.reserve(3).tr(tv, v...), want); } }
        if (s.chance(1, 4)) { auto al = strf::alignment_format{U'*', strf::width_t(0), strf::text_alignment::right};
            verify("to_string.reserve_calc()(join(tr(..)) aligned)", (std::basic_string<C>)strf::to_basic_string<C>.with(pk).reserve_calc()(strf::join(strf::tr(tv, v...)).set_alignment_format(al)), want); }
    });
    // as many C-string templates
    if (t.find((C)0) == t.npos && s.chance(1, 4)) { Chunked<C> d(chunk_sizes(s)); std::basic_string<C> z(t); x.~Exact<C>(); new (&x) Exact<C>(t); 
        strf::to(static_cast<strf::destination<C>&>(d)).with(quiet).tr(z.c_str(), a.i); 
        std::basic_string<C> w2; auto i0 = strf::to_basic_string<C>(a.i); for (auto& g : parse(t, 1)) { if (g.kind == 0) w2 += t.substr(g.a, g.b - g.a); else w2 += g.kind == 1 ? i0 : repl; }
        check_eq("tr(const char*)", d.finish(), w2); }
}
}
#define P16(C) PBT_PROP(templates_of_##C, 3) { p16::run<C>(s, cx, tc::UTF, tc::utf_name<C>(), strf::pack()); }
