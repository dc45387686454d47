// P03: the shortest text that round-trips.
#include "common/fltm.hpp"
#include <strf/to_string.hpp>
namespace p03 {
using namespace fltm;
inline void parse(const char* t, char** e, double& v) { v = strtod(t, e); } inline void parse(const char* t, char** e, float& v) { v = strtof(t, e); }
template <class T> void judge(Ctx& cx, T v, const std::string& t, float_notation n) {
    char* e; T back; parse(t.c_str(), &e, back);
    if (*e || t.empty()) fail("not a number: " + t);
    if (memcmp(&back, &v, sizeof v) != 0) fail("does not parse back to the value: " + t);
    auto sh = shortest(v); // independent digits (std::to_chars): fewest, closest
    std::string digs; for (char c : t) { if (c == 'e') break; if (c >= '0' && c <= '9') digs.push_back(c); }
    size_t a = digs.find_first_not_of('0'); digs = a == std::string::npos ? "0" : digs.substr(a); while (digs.size() > 1 && digs.back() == '0') digs.pop_back();
    if (digs != sh.d) fail("significant digits " + digs + ", the shortest (closest) ones are " + sh.d + " in " + t);
    check_eq("text", t, fltm::plain(v, n, -1));
    // general: no notation would be shorter
    if (n == float_notation::general) { auto f = fltm::plain(v, float_notation::fixed, -1), g = fltm::plain(v, float_notation::scientific, -1); check_num("length of the general notation", t.size(), std::min(f.size(), g.size())); }
    (void)cx;
}
template <class C> std::string narrow(const std::basic_string<C>& t) { std::string r; for (C c : t) r.push_back((uint32_t)c < 0x80 ? (char)c : '?'); return r; }
template <class C, class T> void one(Src& s, Ctx& cx) {
    T v = finite<T>(s);
    auto n = s.pick<float_notation>({float_notation::general, float_notation::fixed, float_notation::scientific});
    if (cx.want_text) cx.text << uname<C>::v << hexf(v) << " " << nname(n);
    cx.nt(v != 0 && v != (T)(long)(std::fabs(v) < 1e6 ? v : 0)); cx.label(nname(n));
    auto run = [&](const auto& a, const char* w) {
        if (cx.want_text) cx.text << " " << w;
        auto t = narrow(print<C>(s, strf::pack(), a));
        judge(cx, v, t, n);
        if (s.chance(1, 8)) { cx.label("reserve"); check_eq("with the size computed before", narrow((std::basic_string<C>)strf::to_basic_string<C>.reserve_calc()(a)), t); }
    };
    if (n == float_notation::general && s.coin()) run(v, "v"); else spell(s, v, n, -1, false, run);
}
// neighbouring values: distinct texts, and in the right order
template <class T> void neighbours(Src& s, Ctx& cx) {
    T v = std::fabs(finite<T>(s)); auto t0 = strf::to_string(v); if (cx.want_text) cx.text << hexf(v); cx.nt();
    for (int i = 0; i < 24; ++i) { v = std::nextafter(v, std::numeric_limits<T>::infinity()); if (!std::isfinite(v)) break; auto t1 = strf::to_string(v); if (t1 == t0) fail("two values print as " + t1); judge(cx, v, t1, float_notation::general); t0 = t1; }
}
// many values that share an exponent (each exponent has its own constants in the algorithm), against std::to_chars
template <class T> void judge_fast(T v, bool dflt) {
    char ref[64]; auto r = std::to_chars(ref, ref + sizeof ref, v, std::chars_format::scientific);
    char got[64]; char* e = strf::to(got)(strf::sci(v)).ptr;
    if (e - got != r.ptr - ref || memcmp(got, ref, e - got) != 0) fail("scientific notation of " + hexf(v) + ": " + std::string(got, e) + " instead of " + std::string(ref, r.ptr));
    if (!dflt) return;
    char gen[64]; char* g = strf::to(gen)(v).ptr; int k = 0, m = 0; char a[24], b[24];
    for (char* p = gen; p != g && *p != 'e'; ++p) if (*p >= '0' && *p <= '9' && (k || *p != '0') && k < 24) a[k++] = *p;
    for (char* p = ref; p != r.ptr && *p != 'e'; ++p) if (*p >= '0' && *p <= '9' && (m || *p != '0') && m < 24) b[m++] = *p;
    while (k && a[k - 1] == '0') --k; while (m && b[m - 1] == '0') --m;
    if (k != m || memcmp(a, b, k) != 0) fail("digits of the default notation of " + hexf(v) + ": " + std::string(gen, g) + ", the shortest are in " + std::string(ref, r.ptr));
}
template <class T> void binade(Src& s, Ctx& cx) {
    using U = std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t>; constexpr int mb = sizeof(T) == 8 ? 52 : 23; constexpr U mask = (U(1) << mb) - 1;
    U e = (U)s.draw(sizeof(T) == 8 ? 2047 : 255); uint64_t x = s.draw(0); int n = (int)s.range(1, 300); if (cx.want_text) cx.text << "exponent " << (unsigned)e << ", " << n << " values from " << x; cx.nt();
    for (int i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; U b = (e << mb) | ((U)(x >> 11) & mask); T v; memcpy(&v, &b, sizeof v); judge_fast(v, i & 1); }
}
// a slice of all the floats
inline void float_slice(Src& s, Ctx& cx) {
    uint32_t b = (uint32_t)s.draw(0x7F800000u >> 10) << 10; if (cx.want_text) cx.text << "1024 floats from bits " << b; cx.nt();
    for (int i = 0; i < 1024; ++i, ++b) { float v; memcpy(&v, &b, 4); judge_fast(v, true); }
}
}
