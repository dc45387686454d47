// P34: charsets made by the user (specialisations of static_charset and static_transcoder, and the
// dynamic_charset made from them) are as good as the ones of the library.
#include "common/zoo.hpp"
#include "common/tc.hpp"
#include "common/anyw.hpp"
namespace p34 {
using namespace tc; using pbt::Src; using pbt::Ctx; using pbt::check_eq; using pbt::check_num; using pbt::fail; using pbt::show; using gen::Item;

// The encoding: U+0000..U+007F are one unit each; anything else is a unit `lead + n` followed by its n
// hexadecimal digits, most significant first, each a unit in [digit, digit + 16). Four variants, which
// differ in their constants, in what they cannot encode, in the replacement character and in which of
// the optional lookups they have.
template <int V> struct Lay {
    static constexpr unsigned lead = V & 1 ? 0xA0 : 0xE0, digit = V & 1 ? 0xB0 : 0xF0;
    static constexpr char32_t repl = V & 1 ? U'\u203B' : U'?';
    static constexpr bool has_to = V == 1 || V == 3, has_from = V == 2 || V == 3;
    static bool can(char32_t c) { return c != 0xFFFD && c <= 0xFFFFFF && (V & 1 ? c - 0x400 >= 0x100u : c - 0x2500 >= 0x80u); }
};
template <class C, int V> constexpr strf::charset_id id() { return (strf::charset_id)(0x51AF0000u + sizeof(C) * 16 + V); } // one identity per encoding and size of the unit
template <int V> constexpr const char* name() { return V == 0 ? "escape-0" : V == 1 ? "escape-1" : V == 2 ? "escape-2" : "escape-3"; }
template <class C> unsigned unit(C c) { return (unsigned)(std::make_unsigned_t<C>)c; }
inline unsigned unit(char16_t c) { return c; } 
inline unsigned unit(char8_t c) { return c; }
template <int V, class C> void put(std::basic_string<C>& r, char32_t c) { // c can be encoded
    if (c < 0x80) { r.push_back((C)c); return; }
    int n = 1; while (c >> (4 * n)) ++n;
    r.push_back((C)(Lay<V>::lead + n)); for (int i = n - 1; i >= 0; --i) r.push_back((C)(Lay<V>::digit + ((c >> (4 * i)) & 15)));
}
template <int V, class C> std::basic_string<C> one(char32_t c) { std::basic_string<C> r; put<V>(r, Lay<V>::can(c) ? c : Lay<V>::repl); return r; }
template <int V, class C> std::basic_string<C> all(const std::u32string& t) { std::basic_string<C> r; for (auto c : t) put<V>(r, Lay<V>::can(c) ? c : Lay<V>::repl); return r; }
template <int V, class C> std::vector<Item> dec(const C* p, size_t n, bool lax) {
    std::vector<Item> r;
    for (size_t i = 0; i < n;) { unsigned u = unit(p[i]);
        if (u < 0x80) { r.push_back({(char32_t)u, true, i, 1}); ++i; continue; }
        unsigned k = u - Lay<V>::lead; if (k < 2 || k > 6) { r.push_back({0xFFFD, false, i, 1}); ++i; continue; }
        size_t j = i + 1; char32_t c = 0; while (j < n && j <= i + k && unit(p[j]) - Lay<V>::digit < 16u) c = c << 4 | (unit(p[j++]) - Lay<V>::digit);
        bool ok = j == i + k + 1 && c >= 0x80 && c >> (4 * (k - 1)) && c <= 0x10FFFF && (lax || c < 0xD800 || c > 0xDFFF);
        r.push_back({ok ? c : U'\xFFFD', ok, i, j - i}); i = j; }
    return r;
}
// one end of a conversion: the encoding above, or UTF of the unit's size
template <class C, int V> struct Mine { using unit = C; static const char* nm() { return name<V>(); } static std::vector<Item> decode(const C* p, size_t n, bool lax) { return dec<V>(p, n, lax); }
    static bool encode(char32_t c, std::basic_string<C>& o) { if (!Lay<V>::can(c)) return false; put<V>(o, c); return true; } static void repl(std::basic_string<C>& o) { put<V>(o, Lay<V>::repl); } };
template <class C> struct Utf { using unit = C; static const char* nm() { return utf_name<C>(); } static std::vector<Item> decode(const C* p, size_t n, bool lax) { return gen::decode(p, n, lax); }
    static bool encode(char32_t c, std::basic_string<C>& o) { gen::enc(o, c); return true; } static void repl(std::basic_string<C>& o) { gen::enc(o, U'\uFFFD'); } };
template <class From, class To> struct Conv {
    using S = typename From::unit; using D = typename To::unit;
    static strf::transcode_result<S, D> run(const S* b, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, strf::transcode_flags fl) {
        using R = strf::transcode_stop_reason;
        for (auto& it : From::decode(b, b < e ? (size_t)(e - b) : 0, strf::with_lax_surrogate_policy(fl))) { std::basic_string<D> u;
            if (!it.ok) { if (n) n->invalid_sequence((int)sizeof(S), From::nm(), b + it.pos, (std::ptrdiff_t)it.len); if (strf::with_stop_on_invalid_sequence(fl)) return {b + it.pos, d, R::invalid_sequence}; To::repl(u); }
            else if (!To::encode(it.cp, u)) { if (it.cp != 0xFFFD) { if (n) n->unsupported_codepoint(To::nm(), it.cp); if (strf::with_stop_on_unsupported_codepoint(fl)) return {b + it.pos, d, R::unsupported_codepoint}; } To::repl(u); }
            if (de - d < (std::ptrdiff_t)u.size()) return {b + it.pos, d, R::insufficient_output_space};
            for (auto c : u) *d++ = c; }
        return {b < e ? e : b, d, R::completed};
    }
    static strf::transcode_size_result<S> size(const S* b, const S* e, std::ptrdiff_t lim, strf::transcode_flags fl) {
        using R = strf::transcode_stop_reason; std::ptrdiff_t t = 0;
        for (auto& it : From::decode(b, b < e ? (size_t)(e - b) : 0, strf::with_lax_surrogate_policy(fl))) { std::basic_string<D> u;
            if (!it.ok) { if (strf::with_stop_on_invalid_sequence(fl)) return {t, b + it.pos, R::invalid_sequence}; To::repl(u); }
            else if (!To::encode(it.cp, u)) { if (it.cp != 0xFFFD && strf::with_stop_on_unsupported_codepoint(fl)) return {t, b + it.pos, R::unsupported_codepoint}; To::repl(u); }
            if (lim - t < (std::ptrdiff_t)u.size()) return {t, b + it.pos, R::insufficient_output_space};
            t += (std::ptrdiff_t)u.size(); }
        return {t, b < e ? e : b, R::completed};
    }
};
// a _Transcoder_ made of it
template <class From, class To> struct Trans {
    using src_code_unit = typename From::unit; using dst_code_unit = typename To::unit; using S = src_code_unit; using D = dst_code_unit; using X = Conv<From, To>;
    static strf::transcode_result<S, D> transcode(const S* b, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, strf::transcode_flags f) { return X::run(b, e, d, de, n, f); }
    static strf::transcode_result<S, D> unsafe_transcode(const S* b, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, strf::transcode_flags f) { return X::run(b, e, d, de, n, f); }
    static strf::transcode_size_result<S> transcode_size(const S* b, const S* e, std::ptrdiff_t l, strf::transcode_flags f) { return X::size(b, e, l, f); }
    static strf::transcode_size_result<S> unsafe_transcode_size(const S* b, const S* e, std::ptrdiff_t l, strf::transcode_flags f) { return X::size(b, e, l, f); }
    static constexpr strf::transcode_f<S, D> transcode_func() noexcept { return X::run; }
    static constexpr strf::transcode_f<S, D> unsafe_transcode_func() noexcept { return X::run; }
    static constexpr strf::transcode_size_f<S> transcode_size_func() noexcept { return X::size; }
    static constexpr strf::transcode_size_f<S> unsafe_transcode_size_func() noexcept { return X::size; }
};
constexpr strf::charset_id any1 = (strf::charset_id)0x51AFFF01, any2 = (strf::charset_id)0x51AFFF02; // used only to make dynamic transcoders
template <class C, int V> struct Charset;
}
namespace p34 {
template <class C, int V, bool> struct FindTo {};
template <class C, int V> struct FindTo<C, V, true> {
    template <class D> static strf::dynamic_transcoder<C, D> to(strf::charset_id i) { if (i == strf::get_csid_utf<D>()) return strf::dynamic_transcoder<C, D>{strf::static_transcoder<C, D, id<C, V>(), any1>{}}; return {}; }
    template <class D> static strf::dynamic_transcoder<C, D> find_transcoder_to(strf::tag<D>, strf::charset_id i) { return to<D>(i); }
};
template <class C, int V, bool> struct FindFrom {};
template <class C, int V> struct FindFrom<C, V, true> {
    template <class S> static strf::dynamic_transcoder<S, C> from(strf::charset_id i) { if (i == strf::get_csid_utf<S>()) return strf::dynamic_transcoder<S, C>{strf::static_transcoder<S, C, any2, id<C, V>()>{}}; return {}; }
    template <class S> static strf::dynamic_transcoder<S, C> find_transcoder_from(strf::tag<S>, strf::charset_id i) { return from<S>(i); }
};
template <class C, int V> struct Charset : FindTo<C, V, Lay<V>::has_to>, FindFrom<C, V, Lay<V>::has_from> {
    using code_unit = C; using L = Lay<V>;
    static constexpr const char* name() noexcept { return p34::name<V>(); }
    static constexpr strf::charset_id id() noexcept { return p34::id<C, V>(); }
    static constexpr char32_t replacement_char() noexcept { return L::repl; }
    static constexpr int replacement_char_size() noexcept { return V & 1 ? 5 : 1; }
    static int validate(char32_t c) noexcept { return L::can(c) && c <= 0x10FFFF ? (int)one<V, C>(c).size() : -1; }
    static int encoded_char_size(char32_t c) noexcept { return (int)one<V, C>(c).size(); }
    static C* encode_char(C* d, char32_t c) noexcept { for (auto u : one<V, C>(c)) *d++ = u; return d; }
    static void encode_fill(strf::transcode_dst<C>& d, std::ptrdiff_t n, char32_t c) { auto u = one<V, C>(c); for (; n > 0; --n) for (auto x : u) strf::put(static_cast<strf::output_buffer<C, 0>&>(d), x); }
    static strf::count_codepoints_result<C> count_codepoints(const C* b, const C* e, std::ptrdiff_t max) noexcept { std::ptrdiff_t k = 0; for (auto& it : dec<V>(b, b < e ? (size_t)(e - b) : 0, false)) { if (k == max) return {k, b + it.pos}; ++k; } return {k, b < e ? e : b}; }
    static strf::count_codepoints_result<C> count_codepoints_fast(const C* b, const C* e, std::ptrdiff_t max) noexcept { return count_codepoints(b, e, max); }
    static void write_replacement_char(strf::transcode_dst<C>& d) { encode_fill(d, 1, L::repl); }
    static char32_t decode_unit(C c) noexcept { return unit(c) < 0x80 ? (char32_t)unit(c) : U'\xFFFD'; }
    static constexpr strf::encode_char_f<C> encode_char_func() noexcept { return encode_char; }
    static constexpr strf::encode_fill_f<C> encode_fill_func() noexcept { return encode_fill; }
    static constexpr strf::validate_f validate_func() noexcept { return validate; }
    static constexpr strf::write_replacement_char_f<C> write_replacement_char_func() noexcept { return write_replacement_char; }
    static constexpr strf::static_transcoder<C, C, p34::id<C, V>(), p34::id<C, V>()> sanitizer() noexcept { return {}; }
    static constexpr strf::static_transcoder<char32_t, C, strf::csid_utf32, p34::id<C, V>()> from_u32() noexcept { return {}; }
    static constexpr strf::static_transcoder<C, char32_t, p34::id<C, V>(), strf::csid_utf32> to_u32() noexcept { return {}; }
    static strf::dynamic_charset<C> to_dynamic() {
        static const strf::dynamic_charset_data<C> data = make(); return strf::dynamic_charset<C>{data};
    }
    static strf::dynamic_charset_data<C> make() {
        strf::dynamic_charset_data<C> d{name(), id(), replacement_char(), replacement_char_size(), validate, encoded_char_size, encode_char, encode_fill, count_codepoints_fast, count_codepoints, write_replacement_char, decode_unit,
            strf::dynamic_transcoder<C, C>{sanitizer()}, strf::dynamic_transcoder<char32_t, C>{from_u32()}, strf::dynamic_transcoder<C, char32_t>{to_u32()}};
        if constexpr (L::has_to) { using F = FindTo<C, V, true>; d.find_transcoder_to_wchar = F::template to<wchar_t>; d.find_transcoder_to_char16 = F::template to<char16_t>; d.find_transcoder_to_char = F::template to<char>; d.find_transcoder_to_char8 = F::template to<char8_t>; }
        if constexpr (L::has_from) { using F = FindFrom<C, V, true>; d.find_transcoder_from_wchar = F::template from<wchar_t>; d.find_transcoder_from_char16 = F::template from<char16_t>; d.find_transcoder_from_char = F::template from<char>; d.find_transcoder_from_char8 = F::template from<char8_t>; }
        return d;
    }
};
}
#define P34_CV(C, V) \
    namespace strf { template <> class static_charset<C, p34::id<C, V>()> : public p34::Charset<C, V> {}; \
    template <> class static_transcoder<C, C, p34::id<C, V>(), p34::id<C, V>()> : public p34::Trans<p34::Mine<C, V>, p34::Mine<C, V>> {}; \
    template <> class static_transcoder<C, char32_t, p34::id<C, V>(), strf::csid_utf32> : public p34::Trans<p34::Mine<C, V>, p34::Utf<char32_t>> {}; \
    template <> class static_transcoder<char32_t, C, strf::csid_utf32, p34::id<C, V>()> : public p34::Trans<p34::Utf<char32_t>, p34::Mine<C, V>> {}; \
    /* conversions that only the lookups of the charset find */ \
    template <class D> class static_transcoder<C, D, p34::id<C, V>(), p34::any1> : public p34::Trans<p34::Mine<C, V>, p34::Utf<D>> {}; \
    template <class S> class static_transcoder<S, C, p34::any2, p34::id<C, V>()> : public p34::Trans<p34::Utf<S>, p34::Mine<C, V>> {}; }
#define P34_C(C) namespace strf { template <> class static_charset<C, p34::id<C, 0>()>; template <> class static_charset<C, p34::id<C, 1>()>; template <> class static_charset<C, p34::id<C, 2>()>; template <> class static_charset<C, p34::id<C, 3>()>; \
    /* variant 3 also has a static conversion to UTF-16 */ template <> class static_transcoder<C, char16_t, p34::id<C, 3>(), strf::csid_utf16> : public p34::Trans<p34::Mine<C, 3>, p34::Utf<char16_t>> {}; } \
    P34_CV(C, 0) P34_CV(C, 1) P34_CV(C, 2) P34_CV(C, 3)
P34_C(char) P34_C(char8_t) P34_C(char16_t) P34_C(wchar_t)
namespace p34 {
template <class C, int V> using Static = strf::static_charset<C, id<C, V>()>;
// f(charset, variant): one of the four, static or dynamic
template <class C, class F> void visit_cs(Src& s, Ctx& cx, F&& f) {
    auto go = [&](auto v) { constexpr int V = decltype(v)::value; Static<C, V> c; if (s.coin()) { cx.label("dynamic charset"); if (cx.want_text) cx.text << " dynamic " << name<V>(); f(c.to_dynamic(), v); } else { cx.label("static charset"); if (cx.want_text) cx.text << " static " << name<V>(); f(c, v); } };
    switch (s.draw(4)) { case 0: go(std::integral_constant<int, 0>{}); break; case 1: go(std::integral_constant<int, 1>{}); break; case 2: go(std::integral_constant<int, 2>{}); break; default: go(std::integral_constant<int, 3>{}); }
}
template <int V> std::u32string some_text(Src& s, size_t max, bool encodable) {
    auto t = gen::scalars(s, max);
    for (auto& c : t) { if (s.chance(1, 12)) c = (char32_t)((V & 1 ? 0x400 : 0x2500) + s.draw(0x80)); else if (s.chance(1, 20)) c = U'\uFFFD'; if (encodable && !Lay<V>::can(c)) c = (char32_t)(0x80 + s.draw(0x200)); }
    return t;
}
// text in the encoding, possibly malformed
template <int V, class C> std::basic_string<C> own_text(Src& s, size_t max, bool valid) {
    auto r = all<V, C>(some_text<V>(s, max, true)); if (valid || s.coin()) return r;
    for (size_t n = 1 + s.draw(4); n && !r.empty(); --n) { size_t p = s.draw(r.size()); switch (s.draw(4)) { case 0: r.erase(p, 1); break; case 1: r.insert(p, 1, (C)(Lay<V>::digit + s.draw(16))); break; case 2: r.insert(p, 1, (C)(Lay<V>::lead + s.draw(9))); break; default: r[p] = (C)s.draw(256); } }
    return r;
}
template <class C> Chunked<C> sink(Src& s) { return Chunked<C>(chunk_sizes(s)); }
template <class C, class Cs, class P, class... A> std::basic_string<C> print(Src& s, const Cs& cs, const P& pk, const A&... a) { Chunked<C> d(chunk_sizes(s)); size_t n = s.draw(80); for (size_t i = 0; i < n; ++i) strf::put(static_cast<strf::output_buffer<C, 0>&>(d), (C)'p'); strf::to(static_cast<strf::destination<C>&>(d)).with(pk, cs)(a...); return d.finish().substr(n); }
// what is printed in the user's charset is what is printed in UTF-32, encoded
template <int V, class C, class Cs, class P, class A> void same(Src& s, Ctx& cx, const Cs& cs, const P& pk, const A& a, bool sized = true) {
    Chunked<char32_t> d({size_t(1) << 14}); strf::to(static_cast<strf::destination<char32_t>&>(d)).with(pk, cs)(a); auto want = all<V, C>(d.finish()); auto got = print<C>(s, cs, pk, a);
    if (cx.want_text) cx.text << " -> " << show(want).substr(0, 200); check_eq("what is printed", got, want);
    if (sized) { strf::full_premeasurements pre; strf::measure<C>(&pre, strf::pack(pk, cs), a); check_num("the computed size", pre.accumulated_ssize(), (std::ptrdiff_t)got.size());
        strf::full_premeasurements p32; strf::measure<char32_t>(&p32, strf::pack(pk, cs), a); check_num("the computed width", pre.accumulated_width().underlying_value(), p32.accumulated_width().underlying_value()); }
    cx.nt(got.size() > 1);
}
template <class C> void args(Src& s, Ctx& cx) { visit_cs<C>(s, cx, [&](auto cs, auto v) { constexpr int V = decltype(v)::value; zoo::Opt o; o.maxw = 60; auto f = zoo::facets(s); auto aw = any_width(s, cx);
    // a separator that cannot be encoded is left out (see P02)
    auto fix = [&](auto& np) { auto ok = [](char32_t c) { return gen::is_scalar(c) && Lay<V>::can(c); }; if (!ok(np.thousands_sep())) np.thousands_sep(U'\u00B7'); if (!ok(np.decimal_point())) np.decimal_point(U'\u066B'); }; fix(f.p10); fix(f.p16); fix(f.p8);
    auto pk = strf::pack(f.p10, f.p16, f.p8, f.lc, aw); auto al = zoo::af(s, o, cx); if (s.chance(1, 6)) al.fill = (char32_t)((V & 1 ? 0x400 : 0x2500) + s.draw(0x80)); auto w = zoo::width(s, 60);
    auto go = [&](const auto& a, bool sized = true) { same<V, C>(s, cx, cs, pk, a, sized); };
    switch (s.draw(16)) {
        case 0: { auto x = gen::integer<long long>(s); cx.label("integer"); switch (s.draw(4)) { case 0: go(!strf::dec(x)); break; case 1: go((!strf::hex(x)).p((int)s.draw(30)).set_alignment_format(al)); break; case 2: go((+strf::punct(x)).pad0((int)s.draw(40)).set_alignment_format(al)); break; default: go(*strf::oct(x).set_alignment_format(al)); } break; }
        case 1: { auto x = gen::f64(s); cx.label("float"); switch (s.draw(4)) { case 0: go(!strf::fixed(x)); break; case 1: go((!strf::fixed(x, (int)s.draw(20))).set_alignment_format(al)); break; case 2: go(strf::sci(x, (int)s.draw(20)).pad0((int)s.draw(60)).set_alignment_format(al)); break; default: go(strf::hex(x).set_alignment_format(al)); } break; }
        case 2: cx.label("bool"); go(strf::fmt(s.coin()).set_alignment_format(al)); break;
        case 3: cx.label("pointer"); go(strf::fmt((const void*)(uintptr_t)gen::u64(s)).set_alignment_format(al)); break;
        case 4: { char32_t c = gen::scalar(s); if (s.chance(1, 4)) c = (char32_t)((V & 1 ? 0x400 : 0x2500) + s.draw(0x80)); cx.label("character"); if (s.coin()) go(c); else go(strf::multi(c, (int)s.draw(40)).set_alignment_format(al)); break; }
        case 5: { auto t = gen::any_text<char16_t>(s, 40); cx.label("UTF-16"); if constexpr (!std::is_same<C, char16_t>::value) { switch (s.draw(3)) { case 0: go(strf::transcode(t)); break; case 1: go(strf::transcode(t).set_alignment_format(al)); break; default: go(strf::transcode(t).p(w).set_alignment_format(al)); } break; } } // fallthrough
        case 6: { auto t = s.coin() ? gen::any_text<char>(s, 40) : gen::encode<char>(some_text<V>(s, 20, false)); cx.label("UTF-8"); switch (s.draw(4)) { case 0: go(strf::transcode(t, strf::utf<char>)); break; case 1: go(strf::transcode(t, strf::utf<char>).set_alignment_format(al)); break; case 2: go(strf::sani(t, strf::utf<char>.to_dynamic()).p(w)); break; default: go(strf::transcode(t, strf::utf<char>).p(w).set_alignment_format(al)); } break; }
        case 7: { auto t = some_text<V>(s, 40, false); cx.label("UTF-32"); if (s.coin()) go(strf::transcode(t)); else go(strf::transcode(t).p(w).set_alignment_format(al)); break; }
        case 8: { auto t = own_text<V, C>(s, 30, false); cx.label("own text, sanitised"); switch (s.draw(3)) { case 0: go(strf::sani(t)); break; case 1: go(strf::sani(t, cs).set_alignment_format(al)); break; default: go(strf::sani(t).p(w).set_alignment_format(al)); } break; }
        case 9: { bool units = aw.k == 1 || aw.k == 4; /* a cut by units may fall inside a character */ auto t = own_text<V, C>(s, 30, true); cx.label("own text"); switch (s.draw(3)) { case 0: go(strf::transcode(t)); break; case 1: go(strf::transcode(t, cs).set_alignment_format(al)); break; default: if (!units) go(strf::unsafe_transcode(t).p(w).set_alignment_format(al)); } break; }
        case 10: { auto t = gen::any_text<wchar_t>(s, 40); cx.label("wide"); if constexpr (!std::is_same<C, wchar_t>::value) { if (s.coin()) go(strf::sani(t)); else go(strf::sani(t).p(w).set_alignment_format(al)); break; } } // fallthrough
        case 11: { auto t = own_text<V, char>(s, 30, false); cx.label("text of the same charset in char"); if constexpr (!std::is_same<C, char>::value) { if (s.coin()) go(strf::sani(t, Static<char, V>{})); else go(strf::sani(t, Static<char, V>{}.to_dynamic()).p(w).set_alignment_format(al)); break; } } // fallthrough
        case 12: { auto t = own_text<(V + 1) % 4, C>(s, 30, false); cx.label("text of another such charset"); using X = Static<C, (V + 1) % 4>; if (s.coin()) go(strf::transcode(t, X{}).set_alignment_format(al)); else go(strf::transcode(t, X{}.to_dynamic()).p(w).set_alignment_format(al)); break; }
        case 13: { std::vector<int> r(s.draw(12)); for (auto& x : r) x = gen::integer<int>(s); cx.label("range"); go(!strf::fmt_range(r).set_alignment_format(al)); break; }
        case 14: { auto t = some_text<V>(s, 20, false); cx.label("join"); auto al2 = zoo::af(s, o, cx); go(strf::join(strf::transcode(t).set_alignment_format(al2), !strf::dec(gen::integer<int>(s)), U'\u20AC', strf::sani(t)).set_alignment_format(al)); break; }
        default: { auto t = gen::any_text<char8_t>(s, 30); cx.label("char8_t"); auto q = some_text<V>(s, 10, false); if constexpr (!std::is_same<C, char8_t>::value) go(strf::join(strf::transcode(t).p(w), strf::transcode(q).set_alignment_format(al))); else go(strf::join(strf::transcode(q).set_alignment_format(al))); }
    } }); }
// templates written in the charset
template <class C> void tmpl(Src& s, Ctx& cx) { visit_cs<C>(s, cx, [&](auto cs, auto v) { constexpr int V = decltype(v)::value; std::u32string t, e; auto pk = strf::pack(any_width(s, cx)); int x = gen::integer<int>(s); auto q = some_text<V>(s, 12, false);
    auto num = strf::to_u32string(x); std::u32string qq; for (auto c : q) qq += c; 
    for (size_t n = 1 + s.draw(6); n; --n) switch (s.draw(6)) { case 0: t += U"{0}"; e += num; break; case 1: t += U"{1}"; e += qq; break; case 2: { auto l = some_text<V>(s, 10, true); for (auto& c : l) if (c == U'{') c = U'}'; t += l; e += l; break; } case 3: t += U"{{"; e += U"{"; break; case 4: t += U"{-"; { auto l = some_text<V>(s, 6, true); for (auto& c : l) if (c == U'}') c = U'{'; t += l; } t += U"}"; break; default: t += U"{7}"; e += U"\xFFFD"; }
    auto tt = all<V, C>(t); if (cx.want_text) cx.text << show(tt); 
    Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk, cs).tr(tt, x, strf::transcode(q)); check_eq("a template", d.finish(), all<V, C>(e)); cx.nt(t.size() > 3);
    auto j = print<C>(s, cs, pk, strf::tr(tt, x, strf::transcode(q))); check_eq("a nested template", j, all<V, C>(e)); strf::full_premeasurements pre; strf::measure<C>(&pre, strf::pack(pk, cs), strf::tr(tt, x, strf::transcode(q))); check_num("size of a template", pre.accumulated_ssize(), (std::ptrdiff_t)j.size()); }); }
// what is notified
template <class C> void notes(Src& s, Ctx& cx) { visit_cs<C>(s, cx, [&](auto cs, auto v) { constexpr int V = decltype(v)::value; 
    if (s.coin()) { // into the charset
        auto t = some_text<V>(s, 40, false); for (auto& c : t) if (s.chance(1, 8)) c = gen::any_cp(s); Exact<char32_t> x(t); std::basic_string<C> want; std::vector<Note> n; Recorder<char32_t> r32(x.b(), x.n);
        for (size_t i = 0; i < t.size(); ++i) { if (!gen::is_scalar(t[i])) { n.push_back({false, "UTF-32", i, 1, 0, 4}); want += one<V, C>(Lay<V>::repl); continue; } if (!Lay<V>::can(t[i]) && t[i] != 0xFFFD) n.push_back({true, name<V>(), 0, 0, (unsigned)t[i], 0}); want += one<V, C>(t[i]); }
        Chunked<C> d({size_t(1) << 14}); strf::to(static_cast<strf::destination<C>&>(d)).with(cs, strf::transcoding_error_notifier_ptr{&r32})(strf::transcode(std::u32string_view(x.b(), x.n))); check_eq("into the charset", d.finish(), want); if (!same_notes(r32.notes, n, false)) fail("notified " + show_notes(r32.notes) + " instead of " + show_notes(n)); cx.nt(!n.empty());
    } else { auto t = own_text<V, C>(s, 30, false); Exact<C> x(t); Recorder<C> rc(x.b(), x.n); std::u32string want; std::vector<Note> n; for (auto& it : dec<V>(x.b(), x.n, false)) { if (!it.ok) n.push_back({false, name<V>(), it.pos, it.len, 0, (int)sizeof(C)}); want += it.cp; }
        if (cx.want_text) cx.text << show(t); Chunked<char32_t> d({size_t(1) << 14}); strf::to(static_cast<strf::destination<char32_t>&>(d)).with(cs, strf::transcoding_error_notifier_ptr{&rc})(strf::transcode(std::basic_string_view<C>(x.b(), x.n), cs)); check_eq("out of the charset", d.finish(), want); if (!same_notes(rc.notes, n, false)) fail("notified " + show_notes(rc.notes) + " instead of " + show_notes(n)); cx.nt(!n.empty()); } }); }
}
