// P05: hexadecimal floating-point.
#include "common/fltm.hpp"
#include <strf/to_string.hpp>
using namespace fltm;
namespace {
void parse(const char* t, char** e, double& v) { v = strtod(t, e); } void parse(const char* t, char** e, float& v) { v = strtof(t, e); }
template <class T> T val(Src& s) {
    if (s.chance(1, 3)) return finite<T>(s);
    // mantissas with long runs, near ties at hexadecimal digits
    uint64_t m = 0; unsigned style = (unsigned)s.draw(4); for (int i = 0; i < 13; ++i) m = m << 4 | (style == 0 ? 15 : style == 1 ? s.pick<uint64_t>({15, 15, 0, 8, 7}) : style == 2 ? 0 : s.draw(16));
    if (s.coin()) { int sh = (int)s.draw(14) * 4; m = (m >> sh) << sh; if (sh && s.coin()) m |= 1ull << (sh - 1); if (sh > 1 && s.chance(1, 3)) m |= 1; }
    if (sizeof(T) == 8) { uint64_t e = s.pick<uint64_t>({0, 1, 1023, 2046, s.draw(2047)}); uint64_t b = (s.draw(2) << 63) | (e << 52) | (m & 0xFFFFFFFFFFFFFull); T v; memcpy(&v, &b, sizeof v); return v; }
    uint32_t e = (uint32_t)s.pick<uint64_t>({0, 1, 127, 254, s.draw(255)}); uint32_t b = (uint32_t)(s.draw(2) << 31) | (e << 23) | (uint32_t)((m >> 29) & 0x7FFFFF); T v; memcpy(&v, &b, sizeof v); return v;
}
template <class C> std::string narrow(const std::basic_string<C>& t) { std::string r; for (C c : t) r.push_back((uint32_t)c < 0x80 ? (char)c : '?'); return r; }
template <class C, class T> void one(Src& s, Ctx& cx) {
    T v = val<T>(s); int p = s.coin() ? -1 : s.chance(1, 6) ? (int)s.draw(200) : (int)s.draw(16); bool alt = s.chance(1, 3);
    if (cx.want_text) cx.text << uname<C>::v << hexf(v) << " p" << p << (alt ? " showpoint" : "");
    auto q = hex_parts(v, p, alt); std::string want = (std::signbit(v) ? "-" : "") + join(q);
    if (cx.want_text) cx.text << " expecting " << want;
    cx.nt(v != 0 && (!q.frac.empty() || p >= 0)); cx.label(p < 0 ? "exact" : p < 13 ? "rounded" : "extended");
    spell(s, v, float_notation::hex, p, alt, [&](const auto& a, const char* w) {
        if (cx.want_text) cx.text << " " << w;
        auto t = narrow(print<C>(s, strf::pack(), a));
        char* e; T back; parse(t.c_str(), &e, back); if (*e || t.empty()) fail("not a number: " + t);
        if (p < 0 || p >= 13) { if (memcmp(&back, &v, sizeof v)) fail("does not parse back to the value: " + t); }
        check_eq(w, t, want);
        // the C library agrees
        char b[400]; if (p < 0) snprintf(b, sizeof b, alt ? "%#a" : "%a", (double)v); else snprintf(b, sizeof b, alt ? "%#.*a" : "%.*a", p, (double)v);
        double x, y; x = strtod(b, nullptr); y = strtod(t.c_str(), nullptr); if (sizeof(T) == 8 || std::fpclassify(v) == FP_NORMAL) if (!(x == y)) fail(std::string("differs from the value printed by the C library: ") + t + " and " + b);
    });
}
}
PBT_PROP(doubles_in_char, 4) { one<char, double>(s, cx); }
PBT_PROP(floats_in_char, 3) { one<char, float>(s, cx); }
PBT_PROP(doubles_in_char16_t, 1) { one<char16_t, double>(s, cx); }
PBT_PROP(floats_in_wchar_t, 1) { one<wchar_t, float>(s, cx); }
PBT_PROP(doubles_in_char8_t, 1) { one<char8_t, double>(s, cx); }
PBT_PROP(floats_in_char32_t, 1) { one<char32_t, float>(s, cx); }
