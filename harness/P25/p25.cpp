// P25: width_t against exact integer arithmetic (128-bit model of Q16.16)
#include "pbt.hpp"
#include <strf/width_t.hpp>
#include <limits>
using namespace pbt;
using strf::width_t;
typedef __int128 i128;
static const i128 MAXV = 0x7FFFFFFF, MINV = -(i128)0x80000000ll;

static int32_t gen_raw(Src& s) {
    switch (s.draw(9)) {
        case 8: return s.coin() ? INT32_MIN + (int32_t)s.draw(3) : INT32_MAX - (int32_t)s.draw(3);
        case 0: return (int32_t)s.range(-3, 3);
        case 1: return (int32_t)((uint32_t)s.range(-5, 5) << 16);
        case 2: return (int32_t)(((uint32_t)s.range(-0x8000, 0x7FFF) << 16) + (uint32_t)s.range(-2, 2));
        case 3: return (int32_t)(((uint32_t)s.range(-0x8000, 0x7FFF) << 16) + 0x8000u + (uint32_t)s.range(-2, 2));
        case 4: return s.coin() ? INT32_MAX - (int32_t)s.draw(0x20002) : INT32_MIN + (int32_t)s.draw(0x20002);
        case 5: { int sh = (int)s.draw(31); return (int32_t)((s.coin() ? -1 : 1) * ((int64_t)1 << sh) + s.range(-1, 1)); }
        case 6: return (int32_t)s.range(-0x40000, 0x40000);
        default: return (int32_t)(uint32_t)s.draw(0x100000000ull);
    }
}
template <class T> static T gen_int(Src& s) {
    typedef std::numeric_limits<T> L;
    switch (s.draw(7)) {
        case 0: return (T)s.range(0, 5);
        case 1: return L::is_signed ? (T)s.range(-5, 5) : (T)s.range(0, 10);
        case 2: return (T)(0x8000 + s.range(-3, 3));
        case 3: return L::is_signed ? (T)(-0x8000 + s.range(-3, 3)) : (T)s.range(0x7000, 0x9000);
        case 4: return s.coin() ? L::max() - (T)s.draw(3) : (T)(L::min() + (T)s.draw(3));
        case 5: { int sh = (int)s.draw(sizeof(T) * 8); T v = (T)(((uint64_t)1 << sh) + (uint64_t)s.range(-2, 2)); return s.coin() ? v : (T)(0 - (uint64_t)v); }
        default: return (T)s.draw(0);
    }
}
static i128 clampv(i128 x) { return x > MAXV ? MAXV : x < MINV ? MINV : x; }
static bool fits(i128 x) { return x >= MINV && x <= MAXV; }
static std::string s128(i128 v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string r; do { r.insert(r.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u); return n ? "-" + r : r; }
static void eq(const char* op, i128 got, i128 want, i128 a, i128 b) {
    if (got != want) fail(std::string(op) + "(" + s128(a) + "," + s128(b) + ") = " + s128(got) + " want " + s128(want));
}
static width_t W(int32_t v) { return width_t::from_underlying(v); }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }

PBT_PROP(p25_unary, 2) {
    int32_t v = gen_raw(s); width_t w = W(v); i128 x = v;
    cx.text << "raw=" << v; cx.nt(v != 0 && (v & 0xFFFF) != 0);
    eq("underlying", w.underlying_value(), x, x, 0);
    eq("floor", w.floor(), floordiv(x, 65536), x, 0);
    eq("ceil", w.ceil(), -floordiv(-x, 65536), x, 0);
    // nearest integer, ties toward zero
    i128 ax = x < 0 ? -x : x; i128 r = (ax + 0x7FFF) / 65536; if (x < 0) r = -r;
    eq("round", w.round(), r, x, 0);
    eq("nnfloor", w.non_negative_floor(), x < 0 ? 0 : floordiv(x, 65536), x, 0);
    eq("nnceil", w.non_negative_ceil(), x < 0 ? 0 : -floordiv(-x, 65536), x, 0);
    eq("zero", w.zero(), x == 0, x, 0); eq("not_zero", w.not_zero(), x != 0, x, 0);
    eq("gt_zero", w.gt_zero(), x > 0, x, 0); eq("ge_zero", w.ge_zero(), x >= 0, x, 0);
    eq("lt_zero", w.lt_zero(), x < 0, x, 0); eq("le_zero", w.le_zero(), x <= 0, x, 0);
    eq("plus", (+w).underlying_value(), x, x, 0);
    if (fits(-x)) eq("neg", (-w).underlying_value(), -x, x, 0);
    eq("max", width_t::max().underlying_value(), MAXV, 0, 0); eq("min", width_t::min().underlying_value(), MINV, 0, 0);
    eq("width_max", strf::width_max.underlying_value(), MAXV, 0, 0);
    eq("def", width_t().underlying_value(), 0, 0, 0);
}

PBT_PROP(p25_binary, 4) {
    int32_t a = gen_raw(s), b = s.chance(1, 12) ? a : gen_raw(s);
    width_t x = W(a), y = W(b); i128 A = a, B = b;
    cx.text << "a=" << a << " b=" << b; cx.nt(a != 0 && b != 0 && a != b);
    eq("==", x == y, A == B, A, B); eq("!=", x != y, A != B, A, B);
    eq("<", x < y, A < B, A, B); eq(">", x > y, A > B, A, B); eq("<=", x <= y, A <= B, A, B); eq(">=", x >= y, A >= B, A, B);
    if (fits(A + B)) { eq("+", (x + y).underlying_value(), A + B, A, B); auto t = x; t += y; eq("+=", t.underlying_value(), A + B, A, B); }
    if (fits(A - B)) { eq("-", (x - y).underlying_value(), A - B, A, B); auto t = x; t -= y; eq("-=", t.underlying_value(), A - B, A, B); }
    i128 m = clampv(A * B / 65536);
    eq("*", (x * y).underlying_value(), m, A, B); { auto t = x; t *= y; eq("*=", t.underlying_value(), m, A, B); }
    eq("sat_mul", strf::sat_mul(x, y).underlying_value(), m, A, B);
    eq("sat_add", strf::sat_add(x, y).underlying_value(), clampv(A + B), A, B);
    eq("sat_sub", strf::sat_sub(x, y).underlying_value(), clampv(A - B), A, B);
    if (b != 0) {
        i128 q = A * 65536 / B;
        if (fits(q)) { eq("/", (x / y).underlying_value(), q, A, B); auto t = x; t /= y; eq("/=", t.underlying_value(), q, A, B); if (q != 0) cx.label("division"); }
    }
}
PBT_PROP(p25_int16, 3) {
    int32_t a = gen_raw(s); int16_t b = gen_int<int16_t>(s); width_t x = W(a); i128 A = a, B = (i128)b * 65536;
    cx.text << "a=" << a << " i16=" << b; cx.nt(a != 0 && b != 0);
    eq("ctor16", width_t(b).underlying_value(), B, A, B);
    { width_t t; t = b; eq("assign16", t.underlying_value(), B, A, B); }
    eq("==", x == b, A == B, A, B); eq("!=", x != b, A != B, A, B);
    eq("<", x < b, A < B, A, B); eq(">", x > b, A > B, A, B); eq("<=", x <= b, A <= B, A, B); eq(">=", x >= b, A >= B, A, B);
    eq("r==", b == x, A == B, A, B); eq("r!=", b != x, A != B, A, B);
    eq("r<", b < x, B < A, A, B); eq("r>", b > x, B > A, A, B); eq("r<=", b <= x, B <= A, A, B); eq("r>=", b >= x, B >= A, A, B);
    if (fits(A + B)) { eq("+i", (x + b).underlying_value(), A + B, A, B); eq("i+", (b + x).underlying_value(), A + B, A, B); }
    if (fits(A - B)) eq("-i", (x - b).underlying_value(), A - B, A, B);
    if (fits(B - A)) eq("i-", (b - x).underlying_value(), B - A, A, B);
    i128 m = clampv(A * B / 65536);
    eq("*i", (x * b).underlying_value(), m, A, B); eq("i*", (b * x).underlying_value(), m, A, B);
    if (b != 0 && fits(A * 65536 / B)) eq("/i", (x / b).underlying_value(), A * 65536 / B, A, B);
    if (a != 0 && fits(B * 65536 / A)) eq("i/", (b / x).underlying_value(), B * 65536 / A, A, B);
}
static int sgn(i128 x) { return x < 0 ? -1 : x > 0; }
template <class T> static void ints(Src& s, Ctx& cx, const char* tn) {
    int32_t a = gen_raw(s); T b = gen_int<T>(s); width_t x = W(a); i128 A = a, B = (i128)b * 65536;
    cx.text << tn << " a=" << a << " i=" << s128((i128)b); cx.nt(a != 0 && b != 0);
    if constexpr (sizeof(T) >= 2) eq("ctor", width_t(b).underlying_value(), clampv(B), A, B);
    if constexpr (sizeof(T) > 2) eq("sat_cast", width_t::sat_cast(b).underlying_value(), clampv(B), A, B);
    eq("compare", sgn(strf::compare(x, b)), sgn(A - B), A, B);
    eq("rcompare", sgn(strf::compare(b, x)), sgn(B - A), A, B);
    if constexpr (std::is_signed<T>::value) {
        eq("sat_add", strf::sat_add(x, b).underlying_value(), clampv(A + B), A, B);
        eq("rsat_add", strf::sat_add(b, x).underlying_value(), clampv(A + B), A, B);
        eq("sat_sub", strf::sat_sub(x, b).underlying_value(), clampv(A - B), A, B);
    }
    if constexpr (!std::is_same<T, uint16_t>::value) {
        eq("sat_mul", strf::sat_mul(x, b).underlying_value(), clampv(A * (i128)b), A, B);
        eq("rsat_mul", strf::sat_mul(b, x).underlying_value(), clampv(A * (i128)b), A, B);
    }
}
PBT_PROP(p25_ints, 6) {
    switch (s.draw(6)) {
        case 0: ints<int16_t>(s, cx, "i16"); break;
        case 1: ints<uint16_t>(s, cx, "u16"); break;
        case 2: ints<int32_t>(s, cx, "i32"); break;
        case 3: ints<uint32_t>(s, cx, "u32"); break;
        case 4: ints<int64_t>(s, cx, "i64"); break;
        default: ints<uint64_t>(s, cx, "u64"); break;
    }
}
