// P09: the width calculators against UAX #29 (Unicode 13 classes, tools/gen_gcb.pl).
#include "common/tc.hpp"
#include "P09/gcb_table.hpp"
#include <algorithm>
using namespace pbt; using namespace tc;
namespace {
const size_t nranges = sizeof gcb_ranges / sizeof gcb_ranges[0];
const GcbRange& range_of(char32_t c) { return *(std::upper_bound(gcb_ranges, gcb_ranges + nranges, c, [](char32_t v, const GcbRange& r) { return v < r.first; }) - 1); }
Gcb gcb(char32_t c) { return range_of(c).g; }
const std::vector<std::vector<int>>& by_class() { static const auto v = [] { std::vector<std::vector<int>> r(15); for (size_t i = 0; i < nranges; ++i) if (gcb_ranges[i].in13) r[gcb_ranges[i].g].push_back((int)i); return r; }(); return v; }
bool wide(char32_t c) {
    static const char32_t w[][2] = {{0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0x303E}, {0x3040, 0xA4CF}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19}, {0xFE30, 0xFE6F}, {0xFF00, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1F300, 0x1F64F}, {0x1F900, 0x1F9FF}, {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}};
    for (auto& r : w) if (c >= r[0] && c <= r[1]) return true;
    return false;
}
// true: a cluster boundary before t[i]
bool boundary(const std::u32string& t, size_t i) {
    if (i == 0) return true;
    Gcb a = gcb(t[i - 1]), b = gcb(t[i]);
    auto ctl = [](Gcb g) { return g == G_Control || g == G_CR || g == G_LF; };
    if (a == G_CR && b == G_LF) return false;                                                  // GB3
    if (ctl(a) || ctl(b)) return true;                                                         // GB4, GB5
    if (a == G_L && (b == G_L || b == G_V || b == G_LV || b == G_LVT)) return false;           // GB6
    if ((a == G_LV || a == G_V) && (b == G_V || b == G_T)) return false;                       // GB7
    if ((a == G_LVT || a == G_T) && b == G_T) return false;                                    // GB8
    if (b == G_Extend || b == G_ZWJ || b == G_SpacingMark) return false;                       // GB9, 9a
    if (a == G_Prepend) return false;                                                          // GB9b
    if (a == G_ZWJ && b == G_ExtPict) { size_t j = i - 1; while (j > 0 && gcb(t[j - 1]) == G_Extend) --j; if (j > 0 && gcb(t[j - 1]) == G_ExtPict) return false; } // GB11
    if (a == G_Regional_Indicator && b == G_Regional_Indicator) { size_t n = 0, j = i; while (j > 0 && gcb(t[j - 1]) == G_Regional_Indicator) { ++n; --j; } if (n % 2) return false; } // GB12, 13
    return true;
}
std::u32string clusters_text(Src& s, size_t maxlen) {
    std::u32string r; size_t n = s.size(maxlen); unsigned style = (unsigned)s.draw(4);
    auto of = [&](Gcb g) { auto& v = by_class()[g]; auto& q = gcb_ranges[v[s.draw(v.size())]]; return (char32_t)(q.first + (s.coin() ? 0 : s.draw(q.last - q.first + 1))); };
    for (size_t i = 0; i < n; ++i) {
        char32_t c;
        switch (style) {
            case 0: c = s.pick<char32_t>({'a', 0x300, 0x200D, 0x1F468, 0x1F1E6, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, '\r', '\n', 0x4E00, 0x1F3FB, 0xAD}); break;
            case 1: c = s.chance(1, 8) ? s.pick<char32_t>({0x4E00, 0x300, 'b'}) : U'a'; break;
            case 2: c = of((Gcb)s.draw(15)); break;
            default: c = s.coin() ? of(G_Other) : gen::scalar(s); break;
        }
        if (c >= 0xD800 && c < 0xE000) c = 'z';
        if (!range_of(c).in13) c = 'y';
        r.push_back(c);
        if (style == 0 && s.chance(1, 6)) { size_t k = s.draw(34); while (k--) r.push_back(s.pick<char32_t>({0x300, 0x1F1E6, 0x200D, 0x1100})); }
    }
    return r;
}
strf::width_t limit_(Src& s, Ctx& cx, long total) {
    strf::width_t l; switch (s.draw(6)) { case 0: l = strf::width_t((int)s.draw((uint64_t)total + 3)); break; case 1: l = strf::width_max; break; case 2: l = strf::width_t::from_underlying((int32_t)s.draw((uint64_t)(total + 2) << 16)); break;
        case 3: l = strf::width_t((int)-(long)s.draw(3)); break; case 4: l = strf::width_t((int)std::max<long>(0, total - (long)s.draw(3))); break; default: l = strf::width_t((int)s.draw(4)); }
    if (cx.want_text) cx.text << " limit " << l.underlying_value() / 65536.0; return l;
}
template <class Cs> void std_one(const char* what, Cs cs, const std::basic_string<typename Cs::code_unit>& in, const std::vector<Item>& items, strf::width_t lim) {
    using C = typename Cs::code_unit;
    std::u32string t; for (auto& i : items) t.push_back(i.cp);
    long total = 0; size_t end = 0; bool stopped = false; int32_t u = lim.underlying_value(); int32_t nn = u < 0 ? 0 : u;
    for (size_t i = 0; i < t.size(); ++i) { if (boundary(t, i)) { long w = wide(t[i]) ? 2 : 1; if (!stopped && ((int64_t)(total + w) << 16) > nn) stopped = true; total += w; } if (!stopped) end = items[i].pos + items[i].len; }
    int32_t want = ((int64_t)total << 16) < nn ? (int32_t)(total << 16) : nn;
    Exact<C> x(in);
    auto w = strf::std_width_calc.str_width(cs, lim, x.b(), x.e());
    check_num((std::string(what) + ": str_width, in 1/65536").c_str(), w.underlying_value(), want);
    auto r = strf::std_width_calc.str_width_and_pos(cs, lim, x.b(), x.e());
    check_num((std::string(what) + ": str_width_and_pos: width, in 1/65536").c_str(), r.width.underlying_value(), want);
    check_num((std::string(what) + ": str_width_and_pos: ptr").c_str(), r.ptr - x.b(), end);
}
template <class C> std::vector<Item> ok_items(const std::u32string& t) { auto e = gen::encode<C>(t); return gen::decode(e.data(), e.size()); }
}
PBT_PROP(std_width, 6) {
    auto t = clusters_text(s, s.coin() ? 12 : 110); long clusters = 0; for (size_t i = 0; i < t.size(); ++i) clusters += boundary(t, i);
    auto lim = limit_(s, cx, 2 * clusters); if (cx.want_text) cx.text << " " << show(t);
    cx.nt(t.size() > 1 && clusters < (long)t.size()); if (t.size() > 32) cx.label("more than 32 code points");
    bool dyn = s.coin();
    auto go = [&](auto cs) { using C = typename decltype(cs)::code_unit; auto e = gen::encode<C>(t); auto it = gen::decode(e.data(), e.size()); if (dyn) std_one("dynamic charset", cs.to_dynamic(), e, it, lim); else std_one(uname<C>::v, cs, e, it, lim); };
    if (s.coin()) { go(strf::utf<char>); go(strf::utf<char16_t>); go(strf::utf<char32_t>); } else { go(strf::utf<char8_t>); go(strf::utf<wchar_t>); }
}
PBT_PROP(std_width_ill_formed, 3) {
    visit_unit(s, [&](auto* q) { using C = std::remove_pointer_t<decltype(q)>;
        auto a = gen::any_text<C>(s, s.coin() ? 12 : 80); std::basic_string<C> in; bool bad = false;
        for (auto& i : gen::decode(a.data(), a.size())) { if (i.ok && !range_of(i.cp).in13) { in.push_back((C)'y'); continue; } bad |= !i.ok; in.append(a, i.pos, i.len); if (s.chance(1, 5)) gen::enc(in, s.pick<char32_t>({0x300, 0x200D, 0x1F468})); }
        auto items = gen::decode(in.data(), in.size()); auto lim = limit_(s, cx, (long)items.size()); if (cx.want_text) cx.text << " " << uname<C>::v << " " << show(in); cx.nt(bad);
        std_one(uname<C>::v, strf::utf<C>, in, items, lim); });
}
PBT_PROP(std_width_single_byte, 1) {
    int k = (int)s.draw(sbc::count); auto in = source_text<char>(s, k, 70); auto items = tc::decode(k, in.data(), in.size(), false); auto lim = limit_(s, cx, (long)items.size());
    if (cx.want_text) cx.text << " " << sbc::names[k] << " " << show(in); cx.nt(in.size() > 1); std_one(sbc::names[k], sbc_dyn()[k], in, items, lim);
}
namespace {
template <class Cs> void other(Src& s, Ctx& cx, int cs_, Cs cs, const std::basic_string<typename Cs::code_unit>& in) {
    using C = typename Cs::code_unit; auto items = tc::decode(cs_, in.data(), in.size(), false); bool valid = true; for (auto& i : items) valid &= i.ok;
    long n = (long)items.size(); auto lim = limit_(s, cx, (long)in.size()); Exact<C> x(in); if (cx.want_text) cx.text << " " << cs_name<C>(cs_) << " " << show(in); cx.nt(in.size() > 1 && lim > 0);
    int32_t u = lim.underlying_value(), nn = u < 0 ? 0 : u; long fl = nn >> 16, ce = ((long)nn + 0xFFFF) >> 16;
    auto pos = [&](long k) { return k >= n ? in.size() : items[(size_t)k].pos; };
    { auto w = strf::fast_width.str_width(cs, lim, x.b(), x.e()); int64_t full = (int64_t)in.size() << 16; check_num("fast_width.str_width, in 1/65536", w.underlying_value(), full <= nn ? full : nn);
      auto r = strf::fast_width.str_width_and_pos(cs, lim, x.b(), x.e()); long k = std::min<long>(fl, (long)in.size()); check_num("fast_width.str_width_and_pos: width", r.width.underlying_value(), (int64_t)k << 16); check_num("fast_width.str_width_and_pos: ptr", r.ptr - x.b(), k); }
    auto test = [&](const char* nm, auto calc) {
        auto w = calc.str_width(cs, lim, x.b(), x.e()); check_num((std::string(nm) + ".str_width").c_str(), w.underlying_value(), std::min<int64_t>((int64_t)std::min(n, ce) << 16, 0x7FFFFFFF));
        auto r = calc.str_width_and_pos(cs, lim, x.b(), x.e()); long k = std::min(n, fl); check_num((std::string(nm) + ".str_width_and_pos: width").c_str(), r.width.underlying_value(), (int64_t)k << 16); check_num((std::string(nm) + ".str_width_and_pos: ptr").c_str(), r.ptr - x.b(), pos(k)); };
    test("width_as_u32len", strf::width_as_u32len);
    if (valid) test("width_as_fast_u32len", strf::width_as_fast_u32len);
    if (!in.empty()) { C c = in[s.draw(in.size())]; auto d = cs.decode_unit(c); check_num("std_width_calc.char_width", strf::std_width_calc.char_width(cs, c).underlying_value(), wide(d) ? 0x20000 : 0x10000);
        check(strf::fast_width.char_width(cs, c) == 1 && strf::width_as_u32len.char_width(cs, c) == 1 && strf::width_as_fast_u32len.char_width(cs, c) == 1, "char_width of the counting calculators"); }
}
}
PBT_PROP(counting_calculators, 3) {
    if (s.chance(1, 4)) { int k = (int)s.draw(sbc::count); other(s, cx, k, sbc_dyn()[k], source_text<char>(s, k, 60)); }
    else visit_unit(s, [&](auto* q) { using C = std::remove_pointer_t<decltype(q)>; auto in = gen::any_text<C>(s, 60); if (s.chance(1, 4)) other(s, cx, UTF, strf::utf<C>.to_dynamic(), in); else other(s, cx, UTF, strf::utf<C>, in); });
}
// every code point: its own width and its class in context
PBT_PROP(code_points, 2) {
    char32_t c0 = (char32_t)(s.draw(0x110) << 12 | s.draw(64) << 6); if (cx.want_text) cx.text << "U+" << std::hex << (unsigned)c0 << "..+3f"; cx.nt();
    char32_t ctx[] = {'a', 0x300, 0x200D, 0x1F468, 0x1F1E6, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, '\r', 0x4E00};
    char32_t p = s.pick<char32_t>({'a', 0x1F468, 0x1F1E6, 0x600, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, '\r', 0x4E00, 0x300}), q = ctx[s.draw(14)], z = s.coin() ? 0x200D : ctx[s.draw(14)];
    for (char32_t c = c0; c < c0 + 64; ++c) { if (!gen::is_scalar(c)) continue; check_num("char32_width", strf::std_width_calc.char32_width(c).underlying_value(), wide(c) ? 0x20000 : 0x10000); if (!range_of(c).in13) continue;
        std::u32string t{p, z, c, q}; std_one("char32_t", strf::utf<char32_t>, t, gen::decode(t.data(), t.size()), strf::width_t(20)); std::u32string t2{p, c, z, q}; std_one("char32_t", strf::utf<char32_t>, t2, gen::decode(t2.data(), t2.size()), strf::width_t(20)); }
}
// the width of every code point, alone and as the middle of a text
PBT_PROP(char_widths, 3) {
    char32_t c0 = (char32_t)(s.draw(0x110) << 12); if (cx.want_text) cx.text << "U+" << std::hex << (unsigned)c0 << "..+fff"; cx.nt();
    for (char32_t c = c0; c < c0 + 0x1000; ++c) if (int32_t w = strf::std_width_calc.char32_width(c).underlying_value(), x = wide(c) ? 0x20000 : 0x10000; w != x) { if (cx.want_text) cx.text << " at " << (unsigned)c; check_num("char32_width", w, x); }
    // the ends of runs of one width
    for (char32_t c = c0 ? c0 : 1; c < c0 + 0x1000; ++c) if (wide(c) != wide(c - 1)) for (char32_t k : {(char32_t)(c - 1), c}) if (gen::is_scalar(k) && range_of(k).in13) { std::u32string t{U'a', k, U'b'}; auto e = gen::encode<char>(t); std_one("char", strf::utf<char>, e, gen::decode(e.data(), e.size()), strf::width_t(20)); }
}
// both ends of every range of a class, and their neighbours, between every two kinds of context
PBT_PROP(class_edges, 4) {
    size_t r0 = s.draw((nranges + 7) / 8) * 8; char32_t ctx[] = {'a', 0x300, 0x200D, 0x1F468, 0x1F1E6, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, '\r', '\n', 0x4E00};
    char32_t p = ctx[s.draw(15)]; if (cx.want_text) cx.text << "classes from U+" << std::hex << (unsigned)gcb_ranges[r0].first << " after U+" << (unsigned)p; cx.nt();
    for (size_t r = r0; r < r0 + 8 && r < nranges; ++r) {
        auto& g = gcb_ranges[r]; char32_t e[] = {g.first, g.last, g.first + (g.last - g.first) / 2}; int ne = g.last == g.first ? 1 : g.last - g.first > 1 ? 3 : 2;
        for (int k = 0; k < ne; ++k) { char32_t c = e[k]; if (!g.in13 || !gen::is_scalar(c)) continue;
            check_num("char32_width", strf::std_width_calc.char32_width(c).underlying_value(), wide(c) ? 0x20000 : 0x10000);
            for (auto q : ctx) { std::u32string t{p, c, q, U'b'}; std_one("char32_t", strf::utf<char32_t>, t, gen::decode(t.data(), t.size()), strf::width_t(20)); }
            for (auto q : ctx) { std::u32string t{c, q, p, q}; std_one("char32_t", strf::utf<char32_t>, t, gen::decode(t.data(), t.size()), strf::width_t(3)); }
            // what tells Extend, SpacingMark, Prepend and pictographs apart
            for (const std::u32string& t : {std::u32string{0x1F468, c, 0x200D, 0x1F468}, std::u32string{c, 0x200D, 0x1F468, p}, std::u32string{p, 0x200D, c, 0x1F468}, std::u32string{0x1F468, 0x200D, c, p}, std::u32string{0x1F468, c, c, 0x200D, c, 0x1F468}, std::u32string{0x1F1E6, c, 0x1F1E6, 0x1F1E6}})
                std_one("char32_t", strf::utf<char32_t>, t, gen::decode(t.data(), t.size()), strf::width_t(20)); }
    }
}
// texts around and beyond what a width_t can hold (32767.99)
PBT_PROP(long_texts, 1) {
    long total = (long)s.pick<int>({32766, 32767, 32768, 32769, 65535, 65536, 65537, 70000}) + (long)s.draw(3);
    visit_unit(s, [&](auto* q) { using C = std::remove_pointer_t<decltype(q)>;
        int k = std::is_same<C, char>::value && s.coin() ? (int)s.draw(sbc::count) : UTF; std::basic_string<C> part, in;
        if (k == UTF) part = s.coin() ? gen::any_text<C>(s, 6) : gen::encode<C>(std::u32string(1, s.pick<char32_t>({'a', 0x4E00, 0xE9, 0x1F600}))); else part.assign(1, (C)(0x41 + s.draw(20)));
        if (part.empty()) part.push_back((C)'a'); long per = (long)tc::decode(k, part.data(), part.size(), false).size(); for (long n = 0; n < total; n += per) in += part;
        cx.label(uname<C>::v); size_t lead = s.size(5); while (lead--) in.insert(in.begin(), (C)'b');
        auto small = [&](auto cs) { auto items = tc::decode(k, in.data(), in.size(), false); bool valid = true; for (auto& i : items) valid &= i.ok; long n = (long)items.size();
            strf::width_t lim = s.pick<strf::width_t>({strf::width_max, strf::width_max, strf::width_t(32767), strf::width_t(32766), strf::width_t::from_underlying(0x7FFF0001), strf::width_t(5)});
            if (cx.want_text) cx.text << uname<C>::v << " " << cs_name<C>(k) << " " << n << " characters, repeating " << show(part) << ", limit " << lim.underlying_value() / 65536.0; cx.nt();
            Exact<C> x(in); int32_t nn = lim.underlying_value(); long fl = nn >> 16, ce = ((long)nn + 0xFFFF) >> 16; auto pos = [&](long j) { return j >= n ? in.size() : items[(size_t)j].pos; };
            { auto w = strf::fast_width.str_width(cs, lim, x.b(), x.e()); check_num("fast_width.str_width, in 1/65536", w.underlying_value(), std::min<int64_t>((int64_t)in.size() << 16, nn));
              auto r = strf::fast_width.str_width_and_pos(cs, lim, x.b(), x.e()); long j = std::min<long>(fl, (long)in.size()); check_num("fast_width.str_width_and_pos: width", r.width.underlying_value(), (int64_t)j << 16); check_num("fast_width.str_width_and_pos: ptr", r.ptr - x.b(), j); }
            auto test = [&](const char* nm, auto calc) {
                auto w = calc.str_width(cs, lim, x.b(), x.e()); check_num((std::string(nm) + ".str_width").c_str(), w.underlying_value(), std::min<int64_t>((int64_t)std::min(n, ce) << 16, 0x7FFFFFFF));
                auto r = calc.str_width_and_pos(cs, lim, x.b(), x.e()); long j = std::min(n, fl); check_num((std::string(nm) + ".str_width_and_pos: width").c_str(), r.width.underlying_value(), (int64_t)j << 16); check_num((std::string(nm) + ".str_width_and_pos: ptr").c_str(), r.ptr - x.b(), pos(j)); };
            test("width_as_u32len", strf::width_as_u32len); if (valid) test("width_as_fast_u32len", strf::width_as_fast_u32len);
            bool known = true; for (auto& i : items) known &= range_of(i.cp).in13 && gcb(i.cp) != G_Regional_Indicator; if (known) std_one(cs_name<C>(k).c_str(), cs, in, items, lim); };
        if constexpr (std::is_same<C, char>::value) { if (k == UTF) small(strf::utf<char>); else small(sbc_dyn()[k]); } else small(strf::utf<C>); });
}
