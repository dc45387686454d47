// Model of a printed floating-point value.
#ifndef VERIF_FLTM_HPP
#define VERIF_FLTM_HPP
#include "intm.hpp"
#include <charconv>
namespace fltm {
using namespace pbt; using namespace tc;
using strf::float_notation;
// d[0].d[1]d[2]... * 10^x ; zero is "0", 0
struct Dec { std::string d; int x; };
template <class T> Dec shortest(T v) { // |v|
    v = std::fabs(v); if (v == 0) return {"0", 0};
    char b[64]; auto r = std::to_chars(b, b + sizeof b, v, std::chars_format::scientific); std::string t(b, r.ptr);
    size_t e = t.find('e'); Dec k; k.x = atoi(t.c_str() + e + 1); for (char c : t.substr(0, e)) if (c != '.') k.d.push_back(c);
    while (k.d.size() > 1 && k.d.back() == '0') k.d.pop_back();
    return k;
}
// rounded to k significant digits (k may be zero or negative), ties to even. Gives exactly k digits
// (k + 1 when the carry adds one and `fixed`), or "0" where nothing is left.
inline Dec round_to(const Dec& v, long k, bool fixed) {
    if (v.d == "0") return {"0" + std::string(k > 1 ? k - 1 : 0, '0'), 0};
    if (k < 0) return {"", v.x};
    if ((size_t)k >= v.d.size()) return {v.d + std::string(k - v.d.size(), '0'), v.x};
    std::string head = v.d.substr(0, k), tail = v.d.substr(k);
    int cmp = tail[0] > '5' ? 1 : tail[0] < '5' ? -1 : tail.find_first_not_of('0', 1) == std::string::npos ? 0 : 1;
    bool odd = k > 0 && ((head[k - 1] - '0') & 1);
    if (cmp < 0 || (cmp == 0 && !odd)) return {head, v.x};
    long i = k; while (i > 0 && head[i - 1] == '9') head[--i] = '0';
    if (i > 0) { ++head[i - 1]; return {head, v.x}; }
    std::string r = "1" + head; if (!fixed) r.resize(k); return {r, v.x + 1};
}
struct Parts { bool special = false; std::string name; std::string prefix, ip; bool point = false; std::string frac, exp; char exp_letter = 0; };
inline std::string exp10(int x) { char t[16]; snprintf(t, sizeof t, "%c%02d", x < 0 ? '-' : '+', x < 0 ? -x : x); return t; }
inline Parts as_fixed(const std::string& digits, int x, long nfrac, bool alt) { // value = digits * 10^(x-len+1), nfrac fractional digits available
    Parts p; std::string all = digits; 
    if (x < 0) all = std::string(-x, '0') + all; else if ((long)all.size() < x + 1) all += std::string(x + 1 - all.size(), '0');
    size_t ni = x < 0 ? 1 : x + 1;
    p.ip = all.substr(0, ni); p.frac = all.substr(ni); p.frac.resize(nfrac, '0'); p.point = alt || nfrac > 0; return p;
}
inline Parts as_sci(const std::string& digits, int x, bool alt) { Parts p; p.ip = digits.substr(0, 1); p.frac = digits.substr(1); p.point = alt || !p.frac.empty(); p.exp_letter = 'e'; p.exp = exp10(x); return p; }
inline size_t chars(const Parts& p) { return p.ip.size() + p.point + p.frac.size() + (p.exp_letter ? 1 + p.exp.size() : 0); }
template <class T> Parts hex_parts(T v, int prec, bool alt) {
    Parts p; p.prefix = "0x"; p.exp_letter = 'p';
    uint64_t b = 0; int e; uint64_t m; bool sub;
    if (sizeof(T) == 8) { memcpy(&b, &v, 8); e = (int)((b >> 52) & 0x7FF); m = b & 0xFFFFFFFFFFFFFull; sub = e == 0; e = e - 1023 + sub; }
    else { uint32_t w; memcpy(&w, &v, 4); e = (int)((w >> 23) & 0xFF); m = (uint64_t)(w & 0x7FFFFF) << 29; sub = e == 0; e = e - 127 + sub; }
    if (sub && m == 0) e = 0;
    uint64_t all = m | ((uint64_t)!sub << 52); // lead . 13 hex digits
    int n = 13;
    if (prec < 0) { while (n > 0 && (all & 0xF) == 0) { all >>= 4; --n; } }
    else if (prec < 13) { int sh = 4 * (13 - prec); uint64_t low = all & ((1ull << sh) - 1), half = 1ull << (sh - 1); all >>= sh; if (low > half || (low == half && (all & 1))) ++all; n = prec; }
    char t[32]; p.ip = std::to_string((unsigned)(all >> (4 * n)));
    for (int i = n - 1; i >= 0; --i) { snprintf(t, sizeof t, "%x", (unsigned)(all >> (4 * i)) & 15); p.frac += t; }
    if (prec > 13) p.frac.resize(prec, '0');
    p.point = alt || !p.frac.empty();
    snprintf(t, sizeof t, "%+d", e); p.exp = t;
    return p;
}
// The known finding of P04 (general-alt-rounded-zeros): *gen(v, p), when v has more than p digits, loses the fractional
// zeros of the rounded digits, unless these are a power of ten (obtained from all nines).
template <class T> bool in_finding(T v, float_notation nt, int prec, bool alt) {
    if (!alt || prec < 0 || nt != float_notation::general || !std::isfinite(v)) return false;
    int P = prec ? prec : 1; Dec s = shortest(v); if ((long)s.d.size() <= P) return false;
    Dec r = round_to(s, P, false); return r.x == s.x && r.d.back() == '0' && r.x + 1 != P; // (x + 1 == P: no fractional digit)
}
template <class T> Parts parts(T v, float_notation nt, int prec, bool alt, const intm::Grp* g = nullptr) {
    if (v != v) { Parts p; p.special = true; p.name = "nan"; return p; }
    if (std::isinf(v)) { Parts p; p.special = true; p.name = "inf"; return p; }
    if (nt == float_notation::hex) return hex_parts(v, prec, alt);
    Dec s = shortest(v); long len = (long)s.d.size(); long needfrac = std::max<long>(0, len - 1 - s.x);
    if (prec < 0) {
        auto f = as_fixed(s.d, s.x, needfrac, alt); auto e = as_sci(s.d, s.x, alt);
        if (nt == float_notation::fixed) return f; if (nt == float_notation::scientific) return e;
        size_t fc = chars(f); if (g) fc += g->groups((int)f.ip.size()).size() - 1;
        return chars(e) < fc ? e : f;
    }
    if (nt == float_notation::fixed) { Dec r = round_to(s, s.x + 1 + (long)prec, true); if (r.d.empty()) r = {"0", -prec}; if (r.d.find_first_not_of('0') == std::string::npos) { return as_fixed("0", 0, prec, alt); } return as_fixed(r.d, r.x, prec, alt); }
    if (nt == float_notation::scientific) { Dec r = round_to(s, (long)prec + 1, false); return as_sci(r.d, r.x, alt); }
    int P = prec ? prec : 1; Dec r = round_to(s, P, false);
    if (r.x < -4 || r.x >= P) { std::string d = r.d; if (!alt) while (d.size() > 1 && d.back() == '0') d.pop_back(); return as_sci(d, r.x, alt); }
    auto p = as_fixed(r.d, r.x, P - 1 - r.x, alt); if (!alt) { while (!p.frac.empty() && p.frac.back() == '0') p.frac.pop_back(); p.point = !p.frac.empty(); } return p;
}
inline std::string join(const Parts& p) { if (p.special) return p.name; std::string r = p.prefix + p.ip; if (p.point) r += '.'; r += p.frac; if (p.exp_letter) { r += p.exp_letter; r += p.exp; } return r; }
template <class T> std::string with_finding(T v, int prec) { auto p = parts(v, float_notation::general, prec, true); while (!p.frac.empty() && p.frac.back() == '0') p.frac.pop_back(); return (std::signbit(v) ? "-" : "") + join(p); }
template <class T> std::string plain(T v, float_notation nt, int prec, bool alt = false) { return (std::signbit(v) ? "-" : "") + join(parts(v, nt, prec, alt)); }

struct Fmt { strf::float_format f; bool aligned = false; strf::alignment_format a; intm::Grp grp; bool sep_ok = true; char32_t sep = U',', point10 = U'.', point16 = U'.'; strf::lettercase lc = strf::lettercase::lower; };
template <class T, class D> std::basic_string<D> text(int dcs, T v, const Fmt& m) {
    const auto& f = m.f; bool hex = f.notation == float_notation::hex; bool grp = f.punctuate && m.sep_ok && !hex;
    Parts p = parts(v, f.notation, f.precision < 0 ? -1 : f.precision, f.showpoint, grp ? &m.grp : nullptr);
    std::u32string sign; if (std::signbit(v)) sign = U"-"; else if (f.sign == strf::showsign::positive_also) sign = U"+"; else if (f.sign == strf::showsign::fill_instead_of_positive) sign = std::u32string(1, m.aligned ? m.a.fill : U' ');
    auto up = [](std::string t) { for (char& c : t) if (c >= 'a' && c <= 'z') c -= 32; return t; };
    auto w32 = [](const std::string& t) { return std::u32string(t.begin(), t.end()); };
    std::u32string body; auto a = m.a;
    if (p.special) {
        std::string n = p.name; if (m.lc == strf::lettercase::upper) n = up(n); else if (m.lc == strf::lettercase::mixed) n = n == "nan" ? "NaN" : "Inf";
        body = sign + w32(n);
        if (!m.aligned) a = strf::alignment_format{U' ', strf::width_t(0), strf::text_alignment::right};
        // zero padding widens it with fill
        if (f.pad0width > a.width.round()) a.width = strf::width_t(f.pad0width);
        auto r = intm::raw<D>(dcs, body);
        return strm::align<D>(dcs, a, (int64_t)body.size() << 16, r);
    }
    bool U = m.lc == strf::lettercase::upper, digU = m.lc != strf::lettercase::lower;
    std::u32string ip = w32(p.ip); if (grp) ip = intm::separate(ip, m.grp, m.sep);
    std::u32string rest = ip; if (p.point) rest.push_back(f.punctuate ? (hex ? m.point16 : m.point10) : U'.');
    rest += w32(digU && hex ? up(p.frac) : p.frac);
    if (p.exp_letter) { rest.push_back(U ? p.exp_letter - 32 : p.exp_letter); rest += w32(p.exp); }
    std::u32string head = sign + w32(U ? up(p.prefix) : p.prefix);
    long z = f.pad0width - (long)(head.size() + rest.size()); if (z > 0) head.append(z, U'0');
    body = head + rest;
    auto r = intm::raw<D>(dcs, body);
    return m.aligned ? strm::align<D>(dcs, a, (int64_t)body.size() << 16, r) : r;
}
template <class T> T value(Src& s) { if constexpr (sizeof(T) == 4) return gen::f32(s); else return gen::f64(s); }
template <class T> T finite(Src& s) { T v = value<T>(s); return std::isfinite(v) ? v : (T)(v != v ? 0.3 : 9.5); }
template <class T> std::string hexf(T v) { char t[80]; snprintf(t, sizeof t, " %.17g(%a%s)", (double)v, (double)v, sizeof(T) == 4 ? "f" : ""); return t; }
template <class C> std::basic_string<C> wide(const std::string& t) { return std::basic_string<C>(t.begin(), t.end()); }
// prints after a few units, into small buffers
template <class C, class Pack, class A> std::basic_string<C> print(Src& s, const Pack& pk, const A& a) {
    tc::Chunked<C> d(tc::chunk_sizes(s)); size_t pre = s.draw(80); std::basic_string<C> lead(pre, (C)'~'); d.write(lead.data(), lead.size());
    strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a);
    auto r = d.finish(); check_eq("text before the number", r.substr(0, pre), lead); return r.substr(pre);
}
inline const char* nname(float_notation n) { return n == float_notation::fixed ? "fixed" : n == float_notation::scientific ? "scientific" : n == float_notation::general ? "general" : "hex"; }
// calls f(formatted, description) with one of the spellings of (notation, precision, showpoint)
template <class T, class F> void spell(Src& s, T v, float_notation n, int prec, bool alt, F&& f) {
    strf::float_format ff; ff.notation = n; ff.precision = prec; ff.showpoint = alt;
    auto a = [&](auto x, const char* w) { if (alt) f(*std::move(x), w); else f(std::move(x), w); };
    auto p = [&](auto x, const char* w) { if (prec >= 0) a(std::move(x).p(prec), w); else a(std::move(x), w); };
    switch (s.draw(4)) {
        case 0: f(strf::fmt(v).set_float_format(ff), "set_float_format"); return;
        case 1: switch (n) { case float_notation::fixed: p(strf::fixed(v), "fixed(v)"); return; case float_notation::scientific: p(strf::sci(v), "sci(v)"); return; case float_notation::hex: p(strf::hex(v), "hex(v)"); return; default: p(strf::gen(v), "gen(v)"); return; }
        case 2: switch (n) { case float_notation::fixed: p(strf::fmt(v).fixed(), "fmt(v).fixed()"); return; case float_notation::scientific: p(strf::fmt(v).sci(), "fmt(v).sci()"); return; case float_notation::hex: p(strf::fmt(v).hex(), "fmt(v).hex()"); return; default: p(strf::fmt(v), "fmt(v)"); return; }
        default: if (prec >= 0) switch (n) { case float_notation::fixed: a(strf::fixed(v, prec), "fixed(v,p)"); return; case float_notation::scientific: a(strf::sci(v, prec), "sci(v,p)"); return; case float_notation::hex: a(strf::hex(v).p(prec), "hex(v).p"); return; default: a(strf::gen(v, prec), "gen(v,p)"); return; }
            p(strf::fmt(v).set_float_notation(n), "set_float_notation"); return;
    }
}
}
#endif
