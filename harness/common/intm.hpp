// Model of a printed integer, and of digit grouping.
#ifndef VERIF_INTM_HPP
#define VERIF_INTM_HPP
#include "strm.hpp"
namespace intm {
using namespace pbt; using namespace tc;

// ---- grouping: sizes from the least significant group; the last one repeated or not
struct Grp {
    std::vector<int> g; bool repeat = true;
    std::vector<int> groups(int digits) const { // sizes actually used, least significant first; sums to digits
        std::vector<int> r; size_t i = 0;
        while (digits > 0) {
            int k = i < g.size() ? g[i] : (repeat && !g.empty()) ? g.back() : digits;
            if (k > digits) k = digits;
            r.push_back(k); digits -= k; ++i;
        }
        return r;
    }
    bool is_boundary(int low_digits, int digits) const { int a = 0; for (int k : groups(digits)) { a += k; if (a == low_digits && a < digits) return true; } return false; }
};
inline std::string show(const Grp& g) { std::string r = "("; for (int k : g.g) r += std::to_string(k) + " "; return r + (g.repeat ? "..)" : ")"); }
// digits, most significant first, with the separator at each boundary
inline std::u32string separate(const std::u32string& digits, const Grp& g, char32_t sep) {
    auto gs = g.groups((int)digits.size()); std::u32string r; size_t pos = 0;
    for (size_t i = gs.size(); i-- > 0;) { r.append(digits, pos, gs[i]); pos += gs[i]; if (i) r.push_back(sep); }
    return r;
}
inline Grp grouping(Src& s) {
    Grp r; if (s.chance(1, 8)) { r.repeat = false; return r; }
    size_t n = s.pick<size_t>({1, 1, 2, 2, 3, 4, 5, 6});
    int hi = s.pick<int>({3, 3, 5, 31});
    for (size_t i = 0; i < n; ++i) r.g.push_back(1 + (int)s.draw(hi));
    r.repeat = !s.chance(1, 3);
    return r;
}
inline strf::digits_grouping by_ints(const Grp& g) {
    auto v = g.g; if (!g.repeat) v.push_back(-1);
    switch (v.size()) { case 1: return strf::digits_grouping(v[0]); case 2: return strf::digits_grouping(v[0], v[1]); case 3: return strf::digits_grouping(v[0], v[1], v[2]); case 4: return strf::digits_grouping(v[0], v[1], v[2], v[3]);
        case 5: return strf::digits_grouping(v[0], v[1], v[2], v[3], v[4]); case 6: return strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], v[5]); default: return strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); }
}
inline strf::digits_grouping by_string(const Grp& g) { std::string t; for (int k : g.g) t.push_back((char)k); if (!g.repeat) t.push_back('\xFF'); std::unique_ptr<char[]> p(new char[t.size() + 1]); memcpy(p.get(), t.c_str(), t.size() + 1); return strf::digits_grouping(p.get()); }
inline strf::digits_grouping by_creator(const Grp& g, bool uns) { strf::digits_grouping_creator c; for (int k : g.g) { if (uns) c.push_high((unsigned)k); else c.push_high(k); if (c.failed()) fail("digits_grouping_creator failed for valid groups"); } return g.repeat ? c.finish() : c.finish_no_more_sep(); }

// ---- integers
struct Num { uint64_t mag; bool neg; bool is_signed; uint64_t bits; }; // bits: as unsigned of the same type
template <class T> Num num(T v) {
    Num r; r.is_signed = std::is_signed<T>::value; r.neg = v < 0; r.bits = (uint64_t)(std::make_unsigned_t<T>)v;
    __int128 w = (__int128)v; r.mag = (uint64_t)(w < 0 ? -w : w); return r;
}
struct Fmt { strf::int_format f; bool aligned = false; strf::alignment_format a; bool punct_valid = true; Grp grp; char32_t sep = U','; strf::lettercase lc = strf::lettercase::lower; };
inline std::u32string digits(uint64_t v, int base, bool upper) {
    std::u32string r; do { unsigned d = (unsigned)(v % base); r.insert(r.begin(), d < 10 ? U'0' + d : (upper ? U'A' : U'a') + (d - 10)); v /= base; } while (v); return r;
}
// text before alignment, with the fill character standing in the place of a fill sign
inline std::u32string content(const Num& n, const Fmt& m) {
    bool upper = m.lc != strf::lettercase::lower; const auto& f = m.f; int base = f.base; int prec = f.precision;
    std::u32string d = digits(base == 10 ? n.mag : n.bits, base, upper), prefix;
    size_t nd = d.size();
    if (base == 10) {
        if (n.neg) prefix = U"-";
        else if (n.is_signed && f.sign == strf::showsign::positive_also) prefix = U"+";
        else if (n.is_signed && f.sign == strf::showsign::fill_instead_of_positive) prefix = std::u32string(1, m.aligned ? m.a.fill : U' ');
    } else if (f.showbase) {
        bool ux = m.lc == strf::lettercase::upper;
        if (base == 16) prefix = ux ? U"0X" : U"0x"; else if (base == 2) prefix = ux ? U"0B" : U"0b";
        else if (n.bits) { prefix = U"0"; if (prec > 0) --prec; } // octal: the leading zero counts as a digit
    }
    if (f.punctuate && m.punct_valid) d = separate(d, m.grp, m.sep);
    long zeros = std::max<long>({0, prec - (long)nd, f.pad0width - (long)(d.size() + prefix.size())});
    return prefix + std::u32string((size_t)zeros, U'0') + d;
}
template <class D> std::basic_string<D> raw(int dcs, const std::u32string& t) { std::basic_string<D> r; for (auto c : t) r += raw_encode<D>(dcs, c); return r; }
template <class D> std::basic_string<D> text(int dcs, const Num& n, const Fmt& m) {
    auto c = content(n, m); auto r = raw<D>(dcs, c);
    return m.aligned ? strm::align<D>(dcs, m.a, (int64_t)c.size() << 16, r) : r;
}
template <class D> bool sep_valid(int dcs, char32_t c) {
    if (c < 0x80) return true;
    if (dcs != UTF) return c == 0xFFFD || (c < 0xFFFF && sbc_encode(dcs, c) >= 0);
    return (sizeof(D) == 4 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF)) || (sizeof(D) != 4 && gen::is_scalar(c));
}
inline strf::lettercase lcase(Src& s) { return s.pick<strf::lettercase>({strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper}); }
// numeric sizes: mostly small, sometimes past any internal buffer
inline int len(Src& s) { switch (s.draw(8)) { case 0: return (int)s.draw(700); case 1: case 2: case 3: return 0; default: return (int)s.draw(70); } }
}
#endif
