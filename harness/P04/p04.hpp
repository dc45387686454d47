// P04: floating-point precision.
#include "common/fltm.hpp"
#include <strf/to_string.hpp>
namespace p04 {
using namespace fltm;
// values and precisions where rounding has something to decide
template <class T> T decimal(Src& s) {
    std::string d; size_t n = 1 + s.draw(sizeof(T) == 4 ? 8 : 16); unsigned style = (unsigned)s.draw(4);
    for (size_t i = 0; i < n; ++i) d.push_back(style == 0 ? '9' : style == 1 ? (char)('0' + s.pick<int>({9, 9, 9, 0, 5})) : style == 2 ? (i + 1 == n ? '5' : (char)('0' + s.draw(10))) : (char)('0' + s.pick<int>({0, 0, 1, 5, 9})));
    if (s.chance(1, 3)) d.back() = '5';
    d += "e" + std::to_string(s.coin() ? s.range(-30, 25) : s.range(-(int64_t)n - 6, 3)); if (s.chance(1, 8)) d += s.coin() ? "" : "0";
    T v = sizeof(T) == 4 ? (T)strtof(d.c_str(), nullptr) : (T)strtod(d.c_str(), nullptr); if (!std::isfinite(v)) v = (T)0.95; return s.coin() ? -v : v;
}
template <class T> int precision(Src& s, const Dec& d, float_notation n) {
    long len = (long)d.d.size(); long all = n == float_notation::fixed ? std::max<long>(0, len - 1 - d.x) : n == float_notation::scientific ? len - 1 : len;
    switch (s.draw(4)) { case 0: return (int)s.draw(8); case 1: return (int)std::max<long>(0, all - (long)s.draw(all + 1)); case 2: return (int)(all + s.draw(4)); default: return (int)s.draw(s.coin() ? 40 : 400); }
}
template <class C, class T> void one(Src& s, Ctx& cx) {
    T v = s.coin() ? decimal<T>(s) : finite<T>(s);
    auto n = s.pick<float_notation>({float_notation::general, float_notation::fixed, float_notation::scientific});
    auto d = shortest(v); int p = precision<T>(s, d, n); bool alt = s.chance(1, 3);
    if (std::fabs(v) < (T)1e-30 && n == float_notation::fixed && s.coin()) p += (int)s.draw(340);
    auto want = fltm::plain(v, n, p, alt);
    if (cx.want_text) cx.text << uname<C>::v << hexf(v) << " " << nname(n) << " p" << p << (alt ? " showpoint" : "") << " shortest " << d.d << "e" << d.x << " expecting " << want;
    cx.nt(v != 0 && want != fltm::plain(v, n, -1, alt)); cx.label(nname(n));
    long k = n == float_notation::fixed ? d.x + 1 + (long)p : n == float_notation::scientific ? p + 1 : (p ? p : 1); if (k < (long)d.d.size()) cx.label("rounded");
    spell(s, v, n, p, alt, [&](const auto& a, const char* w) {
        if (cx.want_text) cx.text << " " << w;
        auto got = print<C>(s, strf::pack(), a);
        if (got != wide<C>(want) && in_finding(v, n, p, alt) && got == wide<C>(with_finding(v, p))) { cx.known = true; cx.known_id = "general-alt-rounded-zeros"; return; }
        check_eq(w, got, wide<C>(want));
    });
}
}
