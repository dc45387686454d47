// Generators shared by the harnesses, and reference UTF encoders/decoders.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "pbt.hpp"
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <deque>

namespace gen {
using pbt::Src;

// ---------------------------------------------------------------- integers
inline uint64_t u64(Src& s) {
    switch (s.draw(6)) {
        case 0: return s.draw(20);
        case 1: { unsigned b = (unsigned)s.draw(65); uint64_t m = b == 64 ? ~0ull : ((1ull << b) - 1); return (m + s.draw(5)) - 2; }
        case 2: { static const uint64_t p10[] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,
                    10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,
                    10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
                  uint64_t p = p10[s.draw(20)]; p *= 1 + s.draw(9); return p + s.draw(5) - 2; }
        case 3: { unsigned b = (unsigned)s.draw(64); return s.draw(0) >> b; }
        case 4: { uint64_t v = 0; unsigned n = 1 + (unsigned)s.draw(20); for (unsigned i = 0; i < n; ++i) v = v * 10 + s.pick<unsigned>({0, 9, 1, 5, 0, 9}); return v; }
        default: return s.draw(0);
    }
}
template <class T> T integer(Src& s) {
    if (s.chance(1, 10)) return s.pick<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::min() + 1)});
    uint64_t v = u64(s);
    if (std::is_signed<T>::value && s.coin()) v = 0 - v;
    return (T)v;
}

// ---------------------------------------------------------------- floating point
inline double f64(Src& s) {
    uint64_t b;
    switch (s.draw(13)) {
        case 0: return (double)(int64_t)s.range(-20, 1100);
        case 1: b = s.draw(0); break;                                            // any bits
        case 2: { int e = (int)s.range(1023 - 70, 1023 + 70); b = ((uint64_t)e << 52) | (s.draw(0) >> 12); break; }
        case 3: { int k = (int)s.range(-1074, 1023); double d = std::ldexp(1.0, k); memcpy(&b, &d, 8); b += s.draw(5) - 2; break; }
        case 4: b = s.draw(1ull << s.draw(53)); break;                           // subnormals
        case 5: { // short decimal
            uint64_t m = s.draw(1000000) ; int e = (int)s.range(-25, 25); char t[40]; snprintf(t, sizeof t, "%llue%d", (unsigned long long)m, e);
            double d = strtod(t, nullptr); return s.coin() ? -d : d; }
        case 6: { // 9s and 5s
            char t[48]; unsigned n = 1 + (unsigned)s.draw(17); unsigned i = 0; unsigned mode = (unsigned)s.draw(3);
            for (; i < n; ++i) t[i] = mode == 0 ? '9' : mode == 1 ? (i + 1 == n ? '5' : (char)('0' + s.draw(10))) : (char)('0' + s.pick<int>({9, 9, 9, 0, 5, 4}));
            snprintf(t + n, sizeof t - n, "e%d", (int)s.range(-40, 30));
            double d = strtod(t, nullptr); return s.coin() ? -d : d; }
        case 7: { double d = (double)u64(s); return s.coin() ? -d : d; }
        case 8: return s.pick<double>({0.0, -0.0, 1e100, 1e-100, 1e99, 9.5e99, 9.95e-100, 1e22, 1e23, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 0.5, 1e15, 1e16, 1e17, 99999.5, 0.0001, 0.00001, 0.00099995});
        case 9: { // large decimal exponents near +-100
            char t[48]; auto m = (unsigned long long)(1 + s.draw(99999)); int e = (int)(s.coin() ? s.range(92, 103) : s.range(-106, -92)); snprintf(t, sizeof t, "%llue%d", m, e);
            double d = strtod(t, nullptr); return s.coin() ? -d : d; }
        case 10: { char t[48]; auto i = (unsigned long long)s.draw(100000); auto f = (unsigned long long)s.draw(100000); snprintf(t, sizeof t, "%llu.%llu", i, f);
            double d = strtod(t, nullptr); return s.coin() ? -d : d; }
        case 11: { uint64_t m = s.draw(1ull << 12); int sh = (int)s.draw(60) - 30; double d = std::ldexp((double)m, sh); return s.coin() ? -d : d; } // dyadic: exact ties
        default: { b = s.draw(0) & ~((1ull << s.draw(53)) - 1); break; }          // sparse mantissa
    }
    double d; memcpy(&d, &b, 8);
    return d;
}
inline float f32(Src& s) {
    uint32_t b;
    switch (s.draw(6)) {
        case 0: return (float)(int64_t)s.range(-20, 1100);
        case 1: b = (uint32_t)s.draw(1ull << 32); break;
        case 2: { int k = (int)s.range(-149, 127); float d = std::ldexp(1.0f, k); memcpy(&b, &d, 4); b += (uint32_t)s.draw(5) - 2; break; }
        case 3: b = (uint32_t)s.draw(1ull << s.draw(24)); break;
        case 4: { char t[40]; auto m = (unsigned long long)s.draw(100000); int e = (int)s.range(-40, 35); snprintf(t, sizeof t, "%llue%d", m, e);
            float d = strtof(t, nullptr); return s.coin() ? -d : d; }
        default: { double d = f64(s); if (std::fabs(d) > 3e38) d = 1.5; return (float)d; }
    }
    float d; memcpy(&d, &b, 4);
    return d;
}

// ---------------------------------------------------------------- code points
inline bool is_scalar(char32_t c) { return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF); }
inline char32_t scalar(Src& s) {
    switch (s.weighted({6, 3, 3, 3, 3, 2})) {
        case 0: return (char32_t)('a' + s.draw(26));
        case 1: return (char32_t)s.range(0x80, 0x7FF);
        case 2: { char32_t c = (char32_t)s.range(0x800, 0xFFFF - 0x800); return c >= 0xD800 ? c + 0x800 : c; }
        case 3: return (char32_t)s.range(0x10000, 0x10FFFF);
        case 4: return s.pick<char32_t>({0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0xFEFF, 0});
        default: return (char32_t)s.range(0, 0x7F);
    }
}
inline char32_t any_cp(Src& s) { // including non scalars
    if (s.chance(1, 4)) return s.pick<char32_t>({0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xD912, 0xDEAD});
    return scalar(s);
}
inline char32_t fill_char(Src& s) {
    switch (s.draw(6)) { case 0: return U' '; case 1: return U'*'; case 2: return (char32_t)s.range('!', '~'); case 3: return scalar(s); case 4: return s.pick<char32_t>({0xE9, 0x20AC, 0x1F600, 0x3042}); default: return any_cp(s); }
}

// ---------------------------------------------------------------- reference UTF codecs
template <class C> constexpr int utf_width() { return sizeof(C) == 1 ? 8 : sizeof(C) == 2 ? 16 : 32; }

template <class C> void enc(std::basic_string<C>& r, char32_t c) { // c scalar (or surrogate, encoded naively)
    if (sizeof(C) == 1) {
        if (c < 0x80) r.push_back((C)c);
        else if (c < 0x800) { r.push_back((C)(0xC0 | (c >> 6))); r.push_back((C)(0x80 | (c & 0x3F))); }
        else if (c < 0x10000) { r.push_back((C)(0xE0 | (c >> 12))); r.push_back((C)(0x80 | ((c >> 6) & 0x3F))); r.push_back((C)(0x80 | (c & 0x3F))); }
        else { r.push_back((C)(0xF0 | (c >> 18))); r.push_back((C)(0x80 | ((c >> 12) & 0x3F))); r.push_back((C)(0x80 | ((c >> 6) & 0x3F))); r.push_back((C)(0x80 | (c & 0x3F))); }
    } else if (sizeof(C) == 2) {
        if (c < 0x10000) r.push_back((C)c);
        else { c -= 0x10000; r.push_back((C)(0xD800 + (c >> 10))); r.push_back((C)(0xDC00 + (c & 0x3FF))); }
    } else r.push_back((C)c);
}
template <class C> std::basic_string<C> encode(const std::u32string& v) { std::basic_string<C> r; for (auto c : v) enc(r, c); return r; }

struct Item { char32_t cp; bool ok; size_t pos, len; }; // ok=false: ill-formed subsequence [pos,pos+len)

// Unicode "maximal subpart" decoding; lax: surrogate code points are accepted
template <class C> std::vector<Item> decode(const C* p, size_t n, bool lax = false) {
    std::vector<Item> r;
    size_t i = 0;
    if (sizeof(C) == 1) {
        auto B = [&](size_t k) -> unsigned { return (unsigned char)p[k]; };
        while (i < n) {
            unsigned b = B(i);
            if (b < 0x80) { r.push_back({b, true, i, 1}); ++i; continue; }
            unsigned need, lo = 0x80, hi = 0xBF; char32_t cp;
            if (b >= 0xC2 && b <= 0xDF) { need = 1; cp = b & 0x1F; }
            else if (b >= 0xE0 && b <= 0xEF) { need = 2; cp = b & 0x0F; if (b == 0xE0) lo = 0xA0; if (b == 0xED && !lax) hi = 0x9F; }
            else if (b >= 0xF0 && b <= 0xF4) { need = 3; cp = b & 7; if (b == 0xF0) lo = 0x90; if (b == 0xF4) hi = 0x8F; }
            else { r.push_back({0xFFFD, false, i, 1}); ++i; continue; }
            size_t j = i + 1; bool ok = true;
            for (unsigned k = 0; k < need; ++k) {
                if (j >= n || B(j) < lo || B(j) > hi) { ok = false; break; }
                cp = (cp << 6) | (B(j) & 0x3F); ++j; lo = 0x80; hi = 0xBF;
            }
            r.push_back({ok ? cp : 0xFFFD, ok, i, j - i}); i = j;
        }
    } else if (sizeof(C) == 2) {
        while (i < n) {
            char32_t c = (char32_t)(uint16_t)p[i];
            if (c >= 0xD800 && c <= 0xDBFF && i + 1 < n && (uint16_t)p[i + 1] >= 0xDC00 && (uint16_t)p[i + 1] <= 0xDFFF) {
                r.push_back({0x10000 + ((c - 0xD800) << 10) + ((char32_t)(uint16_t)p[i + 1] - 0xDC00), true, i, 2}); i += 2; continue;
            }
            bool sur = c >= 0xD800 && c <= 0xDFFF;
            r.push_back({sur && !lax ? 0xFFFD : c, !sur || lax, i, 1}); ++i;
        }
    } else {
        while (i < n) {
            char32_t c = (char32_t)p[i];
            bool ok = c <= 0x10FFFF && (lax || c < 0xD800 || c > 0xDFFF);
            r.push_back({ok ? c : 0xFFFD, ok, i, 1}); ++i;
        }
    }
    return r;
}
template <class C> bool valid(const std::basic_string<C>& s, bool lax = false) { for (auto& i : decode(s.data(), s.size(), lax)) if (!i.ok) return false; return true; }

// ---------------------------------------------------------------- text
inline std::u32string scalars(Src& s, size_t maxlen) {
    std::u32string r; size_t n = s.size(maxlen);
    unsigned style = (unsigned)s.draw(4);
    for (size_t i = 0; i < n; ++i)
        r.push_back(style == 0 ? (char32_t)('a' + s.draw(26)) : style == 1 ? (char32_t)s.pick<char32_t>({'a', 0xE9, 0x20AC, 0x1F600, 'b'}) : scalar(s));
    return r;
}
template <class C> std::basic_string<C> valid_text(Src& s, size_t maxlen) { return encode<C>(scalars(s, maxlen)); }
// possibly ill-formed
template <class C> std::basic_string<C> any_text(Src& s, size_t maxlen) {
    unsigned mode = (unsigned)s.draw(4);
    if (mode == 0) return valid_text<C>(s, maxlen);
    std::basic_string<C> r; size_t n = s.size(maxlen);
    for (size_t i = 0; i < n; ++i) {
        switch (s.weighted({4, 3, 3, 2})) {
            case 0: enc(r, scalar(s)); break;
            case 1: // a raw unit
                if (sizeof(C) == 1) r.push_back((C)s.pick<unsigned>({0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF, 0x9F, 0xA0, 0x8F, 0x90, 0xFE}));
                else if (sizeof(C) == 2) r.push_back((C)s.pick<unsigned>({0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00, 0xFFFF}));
                else r.push_back((C)any_cp(s));
                break;
            case 2: { // a truncated or damaged sequence
                std::basic_string<C> t; enc(t, s.pick<char32_t>({0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xD800, 0xDFFF, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 0x1FFFFF}) );
                if (t.size() > 1 && s.coin()) t.resize(1 + s.draw(t.size() - 1));
                else if (t.size() > 1 && s.coin()) t[s.draw(t.size())] = (C)s.pick<unsigned>({0x20, 0x80, 0xBF, 0xC3, 0xED});
                r += t; break; }
            default: if (sizeof(C) == 1) r.push_back((C)s.draw(256)); else if (sizeof(C) == 2) r.push_back((C)s.draw(65536)); else r.push_back((C)s.draw(0x120000)); break;
        }
    }
    return r;
}
} // namespace gen
#endif
