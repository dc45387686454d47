// Reference model of transcoding + generators of charset pairs and inputs.
#ifndef VERIF_TC_HPP
#define VERIF_TC_HPP
#include "gen.hpp"
#include "sbc_tables.hpp"
#include <strf.hpp>
#include <memory>
#include <string_view>
namespace tc {
using pbt::Src; using pbt::Ctx; using pbt::fail; using pbt::check; using pbt::check_eq; using pbt::check_num; using pbt::show;
using gen::Item;

// charset ids of the model: -1: the UTF of the code unit's size; k>=0: sbc::table[k]
constexpr int UTF = -1;
template <class C> const char* utf_name() { return sizeof(C) == 1 ? "UTF-8" : sizeof(C) == 2 ? "UTF-16" : "UTF-32"; }
template <class C> std::string cs_name(int cs) { return cs == UTF ? utf_name<C>() : sbc::names[cs]; }

template <class C> std::vector<Item> decode(int cs, const C* p, size_t n, bool lax) {
    if (cs == UTF) return gen::decode(p, n, lax);
    std::vector<Item> r;
    for (size_t i = 0; i < n; ++i) { unsigned v = sbc::table[cs][(unsigned char)p[i]]; r.push_back({v == sbc::invalid ? 0xFFFD : (char32_t)v, v != sbc::invalid, i, 1}); }
    return r;
}
inline int sbc_encode(int cs, char32_t cp) { // -1: unsupported
    if (cp >= 0xFFFF) return -1;
    for (int b = 0; b < 256; ++b) if (sbc::table[cs][b] == cp) return b;
    return -1;
}
template <class D> bool encode(int cs, char32_t cp, std::basic_string<D>& out) { // false: unsupported (nothing appended)
    if (cs == UTF) { gen::enc(out, cp); return true; }
    int b = sbc_encode(cs, cp); if (b < 0) return false; out.push_back((D)b); return true;
}
template <class D> void repl(int cs, std::basic_string<D>& out) { if (cs == UTF) gen::enc(out, U'\uFFFD'); else out.push_back((D)'?'); }

struct Note { bool unsupported; std::string charset; size_t pos, len; unsigned cp; int unit;
    bool operator==(const Note& o) const { return unsupported == o.unsupported && charset == o.charset && pos == o.pos && len == o.len && cp == o.cp && unit == o.unit; } };
inline std::string show_notes(const std::vector<Note>& v) {
    std::string r = "[";
    for (auto& n : v) { char t[128]; if (n.unsupported) snprintf(t, sizeof t, " unsupported(%s,%x)", n.charset.c_str(), n.cp); else snprintf(t, sizeof t, " invalid(%s,unit %d,at %zu,len %zu)", n.charset.c_str(), n.unit, n.pos, n.len); r += t; if (r.size() > 600) { r += "..."; break; } }
    return r + " ]";
}
template <class S> struct Recorder : strf::transcoding_error_notifier {
    const S* base; size_t n; std::vector<Note> notes; bool tolerant = false;
    Recorder(const S* b, size_t n_) : base(b), n(n_) {}
    void invalid_sequence(int u, const char* name, const void* p, std::ptrdiff_t c) override {
        std::ptrdiff_t off = (const S*)p - base;
        if (tolerant && (off < 0 || (size_t)(off + c) > n)) { notes.push_back({false, name, (size_t)-1, (size_t)c, 0, u}); return; }
        if (c <= 0 || off < 0 || (size_t)(off + c) > n) fail("invalid_sequence() reported units outside of the source: offset " + std::to_string(off) + " count " + std::to_string(c));
        notes.push_back({false, name, (size_t)off, (size_t)c, 0, u});
    }
    void unsupported_codepoint(const char* name, unsigned cp) override { notes.push_back({true, name, 0, 0, cp, 0}); }
};

template <class D> struct Ref { std::basic_string<D> out; size_t src_pos; size_t items; strf::transcode_stop_reason reason; std::vector<Note> notes; bool has_pending = false; Note pending; }; // pending: error at the point where the output space ended (may or may not be notified)
constexpr size_t nocap = (size_t)-1;
// KNOWN FINDING (P12): the UTF-32 -> single-byte transcoders treat U+E000..U+FFFF (but U+FFFD) as
// surrogates, i.e. as invalid sequences; tests/single_byte_charsets.cpp relies on it for U+FFFF.
// `quirk` makes the model do the same; a case whose outcome it decides is counted as the known finding.
inline bool quirk_char(char32_t c) { return c >= 0xE000 && c <= 0xFFFF && c != 0xFFFD; }
template <class S> bool has_quirk_char(int scs, int dcs, const std::basic_string<S>& in, strf::transcode_flags fl) {
    if (dcs == UTF || strf::with_lax_surrogate_policy(fl)) return false;
    for (auto& it : decode(scs, in.data(), in.size(), false)) if (it.ok && quirk_char(it.cp)) return true;
    return false;
}

template <class S, class D>
Ref<D> reference(int scs, int dcs, const S* p, size_t n, size_t cap, strf::transcode_flags fl, bool quirk = false) {
    bool lax = strf::with_lax_surrogate_policy(fl);
    Ref<D> r; size_t k = 0;
    for (auto& it : decode(scs, p, n, lax)) {
        if (quirk && dcs != UTF && !lax && it.ok && quirk_char(it.cp)) it.ok = false;
        std::basic_string<D> u; bool note = false; Note nt{};
        if (!it.ok) {
            nt = {false, cs_name<S>(scs), it.pos, it.len, 0, (int)sizeof(S)}; note = true;
            if (strf::with_stop_on_invalid_sequence(fl)) { r.notes.push_back(nt); r.src_pos = it.pos; r.items = k; r.reason = strf::transcode_stop_reason::invalid_sequence; return r; }
            repl(dcs, u);
        } else if (!encode(dcs, it.cp, u)) {
            if (it.cp != 0xFFFD) {
                nt = {true, cs_name<D>(dcs), 0, 0, (unsigned)it.cp, 0}; note = true;
                if (strf::with_stop_on_unsupported_codepoint(fl)) { r.notes.push_back(nt); r.src_pos = it.pos; r.items = k; r.reason = strf::transcode_stop_reason::unsupported_codepoint; return r; }
            }
            repl(dcs, u);
        }
        if (cap != nocap && r.out.size() + u.size() > cap) { r.src_pos = it.pos; r.items = k; r.reason = strf::transcode_stop_reason::insufficient_output_space; r.has_pending = note; r.pending = nt; return r; }
        if (note) r.notes.push_back(nt);
        r.out += u; ++k;
    }
    r.src_pos = n; r.items = k; r.reason = strf::transcode_stop_reason::completed; return r;
}

// Notifications as expected. An error where an output buffer ends may be notified once more
// when the conversion resumes (tests/utf16_to_utf8.cpp fixes the order notify-then-check-space).
inline bool same_notes(const std::vector<Note>& got, const std::vector<Note>& want, bool resumed, bool has_pending = false, const Note* pending = nullptr) {
    size_t j = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        if (j < want.size() && got[i] == want[j]) { ++j; continue; }
        if (resumed && i > 0 && got[i] == got[i - 1]) continue;
        if (has_pending && i + 1 == got.size() && j == want.size() && got[i] == *pending) continue;
        return false;
    }
    return j == want.size();
}
inline strf::transcode_flags flags(Src& s, Ctx& cx) {
    auto f = (strf::transcode_flags)(s.coin() ? 0 : s.draw(8));
    if (cx.want_text) cx.text << " flags=" << (int)f;
    return f;
}
inline const char* reason_name(strf::transcode_stop_reason r) { switch (r) { case strf::transcode_stop_reason::completed: return "completed"; case strf::transcode_stop_reason::insufficient_output_space: return "insufficient_output_space"; case strf::transcode_stop_reason::unsupported_codepoint: return "unsupported_codepoint"; case strf::transcode_stop_reason::invalid_sequence: return "invalid_sequence"; } return "?!"; }

// text that is interesting for a source charset
template <class S> std::basic_string<S> source_text(Src& s, int cs, size_t maxlen, bool only_valid = false) {
    if (cs == UTF) return only_valid ? gen::valid_text<S>(s, maxlen) : gen::any_text<S>(s, maxlen);
    std::basic_string<S> r; size_t n = s.size(maxlen);
    unsigned style = (unsigned)s.draw(3);
    for (size_t i = 0; i < n; ++i) {
        unsigned b = style == 0 ? 'a' + (unsigned)s.draw(26) : style == 1 ? 0x80 + (unsigned)s.draw(128) : (unsigned)s.draw(256);
        if (only_valid && sbc::table[cs][b] == sbc::invalid) b = 'x';
        r.push_back((S)b);
    }
    return r;
}
// code points likely to be in a single-byte charset, or near
inline char32_t sbc_cp(Src& s, int cs) {
    switch (s.draw(4)) { case 0: return (char32_t)s.draw(0x80); case 1: { unsigned v = sbc::table[cs][128 + s.draw(128)]; return v == sbc::invalid ? 0xFFFD : (char32_t)v; }
        case 2: { unsigned v = sbc::table[s.draw(sbc::count)][128 + s.draw(128)]; return v == sbc::invalid ? 0xE000 : (char32_t)((int)v + (int)s.draw(3) - 1); } default: return gen::scalar(s); }
}
// UTF text aimed at a single-byte destination
template <class S> std::basic_string<S> text_for(Src& s, int scs, int dcs, size_t maxlen, bool only_valid = false) {
    if (scs == UTF && dcs != UTF && s.chance(3, 4)) {
        std::basic_string<S> r; size_t n = s.size(maxlen);
        for (size_t i = 0; i < n; ++i) { char32_t c = sbc_cp(s, dcs); if (c >= 0xD800 && c < 0xE000 && only_valid) c = 'q'; gen::enc(r, c); }
        return r;
    }
    return source_text<S>(s, scs, maxlen, only_valid);
}

// exact-size heap copies: reads/writes outside are ASan reports
template <class C> struct Exact {
    std::unique_ptr<C[]> m; size_t n;
    explicit Exact(const std::basic_string<C>& t) : m(new C[t.size() ? t.size() : 1]), n(t.size()) { std::copy(t.begin(), t.end(), m.get()); off = t.empty() ? 1 : 0; }
    explicit Exact(size_t k) : m(new C[k ? k : 1]), n(k) { for (size_t i = 0; i < (k ? k : 1); ++i) m[i] = (C)0x5A; off = k ? 0 : 1; }
    size_t off; // an empty range sits at the end of its block
    C* b() { return m.get() + off; } C* e() { return b() + n; }
};

// a destination that offers `sizes[i]`-unit exact buffers, one after the other; optionally turns bad
template <class D> struct Chunked : strf::destination<D> {
    std::basic_string<D> got; std::vector<size_t> sizes; size_t i = 0; std::unique_ptr<D[]> cur; size_t cur_n = 0; long bad_after; // number of recycles before turning bad, -1: never
    long recycles = 0; bool finished = false;
    Chunked(std::vector<size_t> sz, long bad = -1) : strf::destination<D>(nullptr, (D*)nullptr), sizes(std::move(sz)), bad_after(bad) { next(); }
    void next() {
        cur_n = sizes[i % sizes.size()]; ++i;
        cur.reset(new D[cur_n]);
        this->set_buffer_ptr(cur.get()); this->set_buffer_end(cur.get() + cur_n);
    }
    void take() { if (this->good()) { if (this->buffer_ptr() < cur.get() || this->buffer_ptr() > cur.get() + cur_n) fail("buffer_ptr out of the buffer"); got.append(cur.get(), (size_t)(this->buffer_ptr() - cur.get())); } }
    void recycle() override {
        take(); ++recycles;
        if (bad_after >= 0 && recycles > bad_after) { this->set_good(false); }
        next();
    }
    void set_good_(bool g) { this->set_good(g); }
    const std::basic_string<D>& finish() { if (!finished) { take(); finished = true; this->set_good(false); } return got; }
};
inline std::vector<size_t> chunk_sizes(Src& s) { std::vector<size_t> r; size_t n = 1 + s.draw(4); for (size_t i = 0; i < n; ++i) r.push_back(64 + (s.coin() ? 0 : s.draw(40))); return r; }

// ---- pairs ------------------------------------------------------------------
template <class S, class D> struct Pair { int scs, dcs; strf::dynamic_transcoder<S, D> t; };
template <class S, class D> Pair<S, D> utf_pair() { return {UTF, UTF, strf::dynamic_transcoder<S, D>{strf::utf_to_utf<S, D>{}}}; }

template <class F> void visit_unit(Src& s, F&& f) {
    switch (s.draw(5)) { case 0: f((char*)0); break; case 1: f((char16_t*)0); break; case 2: f((char32_t*)0); break; case 3: f((char8_t*)0); break; default: f((wchar_t*)0); }
}
template <class C> struct uname; 
template <> struct uname<char> { static constexpr const char* v = "char"; }; template <> struct uname<char8_t> { static constexpr const char* v = "char8_t"; };
template <> struct uname<char16_t> { static constexpr const char* v = "char16_t"; }; template <> struct uname<char32_t> { static constexpr const char* v = "char32_t"; };
template <> struct uname<wchar_t> { static constexpr const char* v = "wchar_t"; };

template <class S, class F> void visit_utf_dst(Src& s, Ctx& cx, F&& f) {
    visit_unit(s, [&](auto* d) { using D = std::remove_pointer_t<decltype(d)>; if (cx.want_text) cx.text << uname<S>::v << "->" << uname<D>::v; f(utf_pair<S, D>()); });
}
template <class F> void visit_utf(Src& s, Ctx& cx, F&& f) {
    visit_unit(s, [&](auto* q) { using S = std::remove_pointer_t<decltype(q)>; visit_utf_dst<S>(s, cx, f); });
}
// single-byte charset number k (char code units)
template <class F> void visit_sbc(int k, F&& f) {
    int i = 0;
#define VX(n) if (i++ == k) { f(strf::static_charset<char, strf::csid_##n>{}); return; }
    SBC_LIST(VX)
#undef VX
}
struct SbcFuncs { strf::dynamic_transcoder<char, char> self; strf::dynamic_transcoder<char, char32_t> to; strf::dynamic_transcoder<char32_t, char> from;
    strf::dynamic_transcoder<wchar_t, char> fromw; strf::dynamic_transcoder<char, wchar_t> tow; };
inline const std::vector<SbcFuncs>& sbc_funcs() {
    static const std::vector<SbcFuncs> v = [] { std::vector<SbcFuncs> r;
#define VX(n) r.push_back({strf::dynamic_transcoder<char, char>{strf::static_transcoder<char, char, strf::csid_##n, strf::csid_##n>{}}, \
        strf::dynamic_transcoder<char, char32_t>{strf::static_transcoder<char, char32_t, strf::csid_##n, strf::csid_utf32>{}}, \
        strf::dynamic_transcoder<char32_t, char>{strf::static_transcoder<char32_t, char, strf::csid_utf32, strf::csid_##n>{}}, \
        strf::dynamic_transcoder<wchar_t, char>{strf::static_transcoder<wchar_t, char, strf::csid_utf32, strf::csid_##n>{}}, \
        strf::dynamic_transcoder<char, wchar_t>{strf::static_transcoder<char, wchar_t, strf::csid_##n, strf::csid_utf32>{}}});
        SBC_LIST(VX)
#undef VX
        return r; }();
    return v;
}
inline const std::vector<strf::dynamic_charset<char>>& sbc_dyn() {
    static const std::vector<strf::dynamic_charset<char>> v = [] { std::vector<strf::dynamic_charset<char>> r;
#define VX(n) r.push_back(strf::static_charset<char, strf::csid_##n>::to_dynamic());
        SBC_LIST(VX)
#undef VX
        return r; }();
    return v;
}
// single-byte pairs that have a direct transcoder
template <class F> void visit_sbc_pair(Src& s, Ctx& cx, F&& f) {
    int k = (int)s.draw(sbc::count); auto& t = sbc_funcs()[k];
    size_t w = s.draw(5); if (cx.want_text) cx.text << (w == 0 ? "itself " : w == 1 ? "to char32_t " : w == 2 ? "from char32_t " : w == 3 ? "from wchar_t " : "to wchar_t ") << sbc::names[k];
    switch (w) { case 0: f(Pair<char, char>{k, k, t.self}); break; case 1: f(Pair<char, char32_t>{k, UTF, t.to}); break; case 2: f(Pair<char32_t, char>{UTF, k, t.from}); break;
        case 3: f(Pair<wchar_t, char>{UTF, k, t.fromw}); break; default: f(Pair<char, wchar_t>{k, UTF, t.tow}); }
}
// text without the characters of the known finding
template <class S> std::basic_string<S> text_avoiding(Src& s, int scs, int dcs, size_t maxlen, bool only_valid = false) {
    auto in = text_for<S>(s, scs, dcs, maxlen, only_valid);
    if (dcs == UTF || scs != UTF) return in;
    std::basic_string<S> r;
    for (auto& it : decode(scs, in.data(), in.size(), false)) { if (it.ok && quirk_char(it.cp)) r.push_back((S)'~'); else r.append(in, it.pos, it.len); }
    return r;
}
template <class F> void visit_direct(Src& s, Ctx& cx, F&& f) { if (s.chance(1, 4)) visit_sbc_pair(s, cx, f); else visit_utf(s, cx, f); }
// any two charsets, type-erased
template <class S, class D> struct DynPair { int scs, dcs; strf::dynamic_charset<S> a; strf::dynamic_charset<D> b; };
template <class F> void visit_dyn(Src& s, Ctx& cx, F&& f) {
    auto src = [&](auto g) { if (s.coin()) { int k = (int)s.draw(sbc::count); if (cx.want_text) cx.text << sbc::names[k]; g(k, sbc_dyn()[k]); }
        else visit_unit(s, [&](auto* q) { using S = std::remove_pointer_t<decltype(q)>; if (cx.want_text) cx.text << utf_name<S>() << "/" << uname<S>::v; g(UTF, strf::utf<S>.to_dynamic()); }); };
    src([&](int i, auto a) { if (cx.want_text) cx.text << " -> "; src([&](int j, auto b) {
        f(DynPair<typename decltype(a)::code_unit, typename decltype(b)::code_unit>{i, j, a, b}); }); });
}
template <class S, class D>
void compare(const char* what, const std::basic_string<D>& got, size_t src_pos, strf::transcode_stop_reason rs, const std::vector<Note>& notes, const Ref<D>& ref, bool resumed = false) {
    check_eq(what, got, ref.out);
    if (rs != ref.reason) fail(std::string(what) + ": stop reason " + reason_name(rs) + ", expected " + reason_name(ref.reason));
    if (src_pos != ref.src_pos) fail(std::string(what) + ": src_ptr at " + std::to_string(src_pos) + ", expected " + std::to_string(ref.src_pos));
    if (!same_notes(notes, ref.notes, resumed, ref.has_pending, &ref.pending)) fail(std::string(what) + ": notified " + show_notes(notes) + " expected " + show_notes(ref.notes));
}
// position after `n` code points of the model's decoding
template <class S> size_t advance(int scs, const S* p, size_t n, size_t from, long cps, bool lax) {
    for (auto& it : decode(scs, p, n, lax)) { if (it.pos < from) continue; if (cps-- == 0) return it.pos; }
    return n;
}
// notifications of a conversion through a pivot: those of decoding come in blocks ahead of those of encoding
inline void split_notes(const std::vector<Note>& v, std::vector<Note>& inv, std::vector<Note>& uns) { for (auto& n : v) (n.unsupported ? uns : inv).push_back(n); }
// got is all of `all` (with stutter) up to some point not before `atleast` elements
inline bool notes_between(const std::vector<Note>& got, size_t atleast, const std::vector<Note>& all) {
    size_t j = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        if (j < all.size() && got[i] == all[j]) { ++j; continue; }
        if (i > 0 && got[i] == got[i - 1]) continue;
        return false;
    }
    return j >= atleast;
}
inline void pivot_notes(const char* what, const std::vector<Note>& got, const std::vector<Note>& atleast, const std::vector<Note>& all) {
    std::vector<Note> gi, gu, li, lu, ai, au; split_notes(got, gi, gu); split_notes(atleast, li, lu); split_notes(all, ai, au);
    if (!notes_between(gi, li.size(), ai) || !notes_between(gu, lu.size(), au))
        fail(std::string(what) + ": notified " + show_notes(got) + " expected at least " + show_notes(atleast) + " of " + show_notes(all));
}
inline size_t capacity(Src& s, size_t total) {
    switch (s.draw(4)) { case 0: return total; case 1: return total - std::min<size_t>(total, s.draw(6)); case 2: return total + s.draw(5); default: return s.draw(total + 1); }
}
// how the model encodes one code point, unsanitised
template <class C> std::basic_string<C> raw_encode(int cs, char32_t c) {
    std::basic_string<C> r;
    if (cs == UTF) { if (sizeof(C) == 4) r.push_back((C)c); else gen::enc(r, c < 0x110000 ? c : U'\uFFFD'); }
    else if (!tc::encode<C>(cs, c, r)) r.push_back((C)'?');
    return r;
}
template <class S, class D> bool direct_exists(int i, int j) { // the specialisations the documentation lists
    if (i == UTF && j == UTF) return true;
    if (i != UTF && j != UTF) return i == j;
    return i == UTF ? sizeof(S) == 4 : sizeof(D) == 4;
}
} // namespace tc
#endif
