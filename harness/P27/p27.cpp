// P27: locale_numpunct() for generated locales: localeconv() and nl_langinfo() are replaced by stand-ins.
#include "common/zoo.hpp"
#include "common/intm.hpp"
#include "common/fltm.hpp"
#include <strf/locale.hpp>
#include <clocale>
#include <langinfo.h>
namespace p27 {
using namespace tc; using namespace pbt;
static thread_local bool active = false; static thread_local lconv conv; static thread_local const char* codeset;
static thread_local int langinfo_calls = 0;
}
extern "C" struct lconv* localeconv() noexcept { static thread_local char empty[1] = ""; static thread_local char dot[2] = "."; static thread_local lconv c_locale; if (p27::active) return &p27::conv; memset(&c_locale, 0x7f, sizeof c_locale); c_locale.decimal_point = dot; c_locale.thousands_sep = empty; c_locale.grouping = empty; return &c_locale; }
extern "C" char* nl_langinfo(nl_item item) noexcept { if (p27::active && item == CODESET) { ++p27::langinfo_calls; return const_cast<char*>(p27::codeset); } static char e[24] = "ANSI_X3.4-1968"; static char n[1] = ""; return item == CODESET ? e : n; }
namespace p27 {
// model
static int table_of(const std::string& codeset) { if (codeset == "UTF-8") return UTF; for (int i = 0; i < (int)sbc::count; ++i) if (codeset == sbc::names[i] && (codeset == "ISO-8859-1" || codeset == "ISO-8859-3" || codeset == "ISO-8859-15")) return i; return -2; }
static char32_t first(const std::string& t, int cs) { auto v = decode(cs, t.data(), t.size(), false); return v.empty() || !v[0].ok ? 0xFFFD : v[0].cp; }
struct Want { char32_t point = 0xFFFD, sep = U','; intm::Grp grp; };
static intm::Grp parse_grouping(const std::string& g) { // as in C: bytes are sizes from the least significant, CHAR_MAX: no further grouping, the end: repeat the last
    intm::Grp r; r.repeat = true; for (char ch : g) { unsigned b = (unsigned char)ch; if (ch == CHAR_MAX || b >= 0x80) { r.repeat = false; break; } r.g.push_back((int)b); }
    bool ok = !r.g.empty() && r.g.size() <= (size_t)strf::digits_grouping::grps_count_max; for (int k : r.g) ok = ok && k <= strf::digits_grouping::grp_max; if (!ok) { r.g.clear(); r.repeat = false; } return r; }
static Want model(const std::string& point, const std::string& sep, const std::string& grp, const std::string& codeset) {
    Want w; int cs = table_of(codeset); w.grp = parse_grouping(grp);
    if (!point.empty()) w.point = (unsigned char)point[0] < 0x80 ? (char32_t)point[0] : cs == -2 ? 0xFFFD : first(point, cs);
    if (!w.grp.g.empty()) { char32_t c; if (sep.empty()) c = 0xFFFD; else if ((unsigned char)sep[0] < 0x80) c = (char32_t)sep[0]; else if (cs == -2) c = 0xA0; else c = first(sep, cs);
        if (c == 0xFFFD) { w.grp.g.clear(); w.grp.repeat = false; } else w.sep = c; }
    return w; }
// generators
static std::string mark(Src& s, const std::string& codeset) { std::string t; int cs = table_of(codeset);
    switch (s.draw(8)) { case 0: return t; case 1: t.push_back((char)s.pick<int>({'.', ',', ' ', '\'', '_', 1, 0x7f})); break; case 2: case 3: { char32_t c = gen::scalar(s); if (cs >= 0) { c = sbc_cp(s, cs); int b = sbc_encode(cs, c); t.push_back(b < 0 ? (char)(0x80 + s.draw(128)) : (char)b); } else gen::enc(t, c); break; }
        case 4: t.push_back((char)(0x80 + s.draw(128))); break; case 5: { std::string u; gen::enc(u, gen::scalar(s)); t = u.substr(0, 1 + s.draw(u.size())); break; } case 6: { t = gen::any_text<char>(s, 4); break; } default: t = s.pick<std::string>({"\xC2\xA0", "\xE2\x80\xAF", "\xD9\xAB", "\xD9\xAC", "\xEF\xBF\xBD", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80"}); }
    if (s.chance(1, 3)) { size_t n = s.draw(5); while (n--) t.push_back((char)(1 + s.draw(255))); }
    size_t z = t.find('\0'); if (z != t.npos) t.resize(z); return t; }
static std::string grouping(Src& s) { std::string g; size_t n = s.pick<size_t>({0, 1, 1, 2, 2, 3, 6, 7, 9}); int hi = s.pick<int>({3, 3, 5, 31, 126}); for (size_t i = 0; i < n; ++i) g.push_back((char)(1 + s.draw(hi))); if (s.chance(1, 5)) for (size_t i = 1; i < g.size(); ++i) g[i] = g[0]; if (s.chance(1, 3)) { g.push_back((char)CHAR_MAX); if (s.chance(1, 4)) g.push_back((char)(1 + s.draw(126))); } if (s.chance(1, 12)) g.push_back('\xFF'); return g; }
static std::string a_codeset(Src& s) { return s.pick<std::string>({"UTF-8", "ISO-8859-1", "ISO-8859-3", "ISO-8859-15", "UTF-8", "ANSI_X3.4-1968", "KOI8-R", "EUC-JP", "", "ISO-8859-999", "UTF-", "ISO-8859-"}); }
static std::string hex(const std::string& t) { std::string r = "\""; char b[8]; for (unsigned char c : t) { if (c >= 0x20 && c < 0x7f) r.push_back((char)c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r + "\""; }
struct Locale { std::unique_ptr<char[]> p, t, g, c; // exact-size: reads past the end are reported
    static std::unique_ptr<char[]> own(const std::string& x) { std::unique_ptr<char[]> r(new char[x.size() + 1]); memcpy(r.get(), x.c_str(), x.size() + 1); return r; }
    Locale(const std::string& point, const std::string& sep, const std::string& grp, const std::string& cs) : p(own(point)), t(own(sep)), g(own(grp)), c(own(cs)) { memset((void*)&conv, 0x7f, sizeof conv); conv.decimal_point = p.get(); conv.thousands_sep = t.get(); conv.grouping = g.get(); codeset = c.get(); active = true; }
    ~Locale() { active = false; } };
template <class C> void print(Src& s, const strf::numpunct<10>& np, const Want& w) {
    auto v = gen::integer<int64_t>(s); intm::Fmt m; m.f.punctuate = true; m.grp = w.grp; m.sep = w.sep; if (s.chance(1, 4)) v = (int64_t)s.draw(0) | (1LL << 60);
    check_eq("integer", fltm::print<C>(s, strf::pack(np), !strf::dec(v)), intm::text<C>(UTF, intm::num(v), m));
    double d = fltm::finite<double>(s); fltm::Fmt f; f.f.punctuate = true; f.f.notation = s.pick<strf::float_notation>({strf::float_notation::fixed, strf::float_notation::scientific}); f.f.precision = s.coin() ? -1 : (int)s.draw(8); f.grp = w.grp; f.sep = w.sep; f.point10 = w.point;
    check_eq("floating-point", fltm::print<C>(s, strf::pack(np), strf::fmt(d).set_float_format(f.f)), fltm::text<double, C>(UTF, d, f));
}
}
PBT_PROP(locale, 3) {
    using namespace p27; std::string cs = a_codeset(s), point = mark(s, cs), sep = mark(s, cs), grp = grouping(s);
    if (cx.want_text) cx.text << "codeset " << hex(cs) << " decimal_point " << hex(point) << " thousands_sep " << hex(sep) << " grouping " << hex(grp);
    Want w = model(point, sep, grp, cs); strf::numpunct<10> np; { Locale l(point, sep, grp, cs); np = strf::locale_numpunct(); }
    cx.nt(!w.grp.g.empty() || w.point != 0xFFFD); if (w.grp.g.empty()) cx.label("no grouping"); else cx.label(w.grp.repeat ? "grouping, repeated" : "grouping, not repeated"); if (w.point >= 0x80 && w.point != 0xFFFD) cx.label("decoded decimal point"); if (!w.grp.g.empty() && w.sep >= 0x80) cx.label("decoded separator"); if (w.point == 0xFFFD) cx.label("decimal point fallback");
    check_num("decimal_point", (unsigned)np.decimal_point(), (unsigned)w.point);
    if (w.grp.g.empty()) { if (!np.grouping().empty()) fail("grouping is not empty"); } else { check_num("thousands_sep", (unsigned)np.thousands_sep(), (unsigned)w.sep); if (np.grouping().empty()) fail("no grouping, want " + intm::show(w.grp)); }
    for (int n : {1, 2, 3, 4, 7, 20, 100}) { auto gs = w.grp.groups(n); check_num("separators_count", np.thousands_sep_count(n), (int)gs.size() - 1); }
    if (s.coin()) print<char>(s, np, w); else print<char32_t>(s, np, w);
}
namespace p27 {
template <class C> std::unique_ptr<wchar_t[]> wown(const C& x) { std::unique_ptr<wchar_t[]> r(new wchar_t[x.size() + 1]); for (size_t i = 0; i < x.size(); ++i) r[i] = (wchar_t)x[i]; r[x.size()] = 0; return r; }
}
// the form in which Windows tells the grouping: sizes of one or two digits separated by ';', a final ";0" meaning that the last one repeats
PBT_PROP(windows_grouping, 1) {
    using namespace p27; std::wstring t; bool valid = true; std::vector<int> g; bool repeat = false;
    size_t n = s.pick<size_t>({0, 1, 1, 2, 2, 3, 5, 6, 6, 7, 8, 12}); int hi = s.pick<int>({3, 9, 31, 31, 40, 99});
    for (size_t i = 0; i < n; ++i) { int k = 1 + (int)s.draw(hi); if (i) t += L';'; t += std::to_wstring(k); g.push_back(k); }
    if (n && s.coin()) { t += L";0"; repeat = true; } else if (!n && s.coin()) t = L"0";
    if (s.chance(1, 4)) { // malformed
        std::wstring u = t; switch (s.draw(6)) {
            case 0: u += L';'; break; case 1: u = L";" + u; break; case 2: if (n) u += L";0;3"; else u = L"0;3"; break;
            case 3: { static const wchar_t bad[] = {L' ', L'/', L':', L'x', L'-', L'+', L',', L'.', (wchar_t)0x3B3B, (wchar_t)0x0660, (wchar_t)0x1F}; u.insert(u.begin() + (long)s.draw(u.size() + 1), bad[s.draw(11)]); break; }
            case 4: u += u.empty() ? L"123" : L";123"; break; default: { size_t k = u.find(L';'); if (k == u.npos) u += L";;1"; else u.insert(u.begin() + (long)k, L';'); } }
        t = u; valid = false; }
    if (!valid || n > (size_t)strf::digits_grouping::grps_count_max) { g.clear(); } for (int k : g) if (k > strf::digits_grouping::grp_max) { g.clear(); break; }
    if (g.empty()) repeat = false; intm::Grp w; w.g = g; w.repeat = repeat;
    if (cx.want_text) { cx.text << "grouping string \""; for (wchar_t c : t) if (c >= 0x20 && c < 0x7f) cx.text << (char)c; else cx.text << "\\u" << std::hex << (unsigned)c << std::dec; cx.text << "\""; }
    cx.nt(!t.empty()); cx.label(!valid ? "malformed" : g.empty() ? "unrepresentable or none" : repeat ? "repeated" : "not repeated");
    auto own = wown(t); strf::digits_grouping got = strf::detail::parse_win_grouping(own.get());
    if (got.empty() != g.empty()) fail(g.empty() ? "a grouping was obtained, want none" : "no grouping was obtained");
    for (int d : {1, 2, 3, 4, 7, 20, 60, 100, 200}) check_num("separators_count", got.separators_count(d), (int)w.groups(d).size() - 1);
    if (!g.empty()) { Want pw; pw.grp = w; pw.point = U'.'; pw.sep = U','; p27::print<char>(s, strf::numpunct<10>(got), pw); }
}
PBT_PROP(windows_mark, 1) {
    using namespace p27; std::vector<unsigned> u; char32_t want; int kind = (int)s.draw(6);
    auto hi = [&] { return (unsigned)(0xD800 + s.pick<unsigned>({0, 0x3FF, (unsigned)s.draw(0x400)})); }; auto lo = [&] { return (unsigned)(0xDC00 + s.pick<unsigned>({0, 0x3FF, (unsigned)s.draw(0x400)})); };
    auto bmp = [&] { unsigned c = s.pick<unsigned>({1, 0x2E, 0x7F, 0x80, 0xA0, 0x202F, 0xD7FF, 0xE000, 0xFFFF, 1 + (unsigned)s.draw(0xFFFE)}); return c >= 0xD800 && c < 0xE000 ? c - 0x800 : c; };
    switch (kind) { case 0: want = 0xFFFD; break; case 1: case 2: u.push_back(bmp()); want = u[0]; break;
        case 3: { unsigned h = hi(), l = lo(); u = {h, l}; want = 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00); break; }
        case 4: u.push_back(hi()); if (s.coin()) u.push_back(s.coin() ? bmp() : hi()); want = 0xFFFD; break; default: u.push_back(lo()); if (s.coin()) u.push_back(s.coin() ? hi() : lo()); want = 0xFFFD; }
    if (kind && !(kind == 4 && u.size() == 1) && s.chance(1, 3)) u.push_back(s.coin() ? bmp() : lo());
    if (cx.want_text) { cx.text << "UTF-16 units"; for (unsigned c : u) cx.text << " " << std::hex << c << std::dec; } cx.nt(!u.empty());
    cx.label(u.empty() ? "empty" : want == 0xFFFD ? "malformed" : want > 0xFFFF ? "surrogate pair" : "one unit"); auto own = wown(u);
    check_num("character", (unsigned)strf::detail::decode_first_char_from_utf16(own.get()), (unsigned)want);
}
