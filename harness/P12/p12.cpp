// P12: single-byte charsets against the published mapping tables.
#include "common/tc.hpp"
#include <strf/to_string.hpp>
using namespace pbt; using namespace tc;
namespace {
using flg = strf::transcode_flags;
// runs `attempt(ref)` against the model; if that fails and the input has characters of the known finding, against the model with the finding
template <class D, class A> void against(Ctx& cx, bool quirky, const Ref<D>& plain, const Ref<D>& quirk, A&& attempt) {
    if (!quirky) { attempt(plain); return; }
    try { attempt(plain); return; } catch (const Fail&) {}
    attempt(quirk); cx.known = true; cx.known_id = "sbc-u-e000-ffff";
}
template <class S, class D> void strings_(Src& s, Ctx& cx, const Pair<S, D>& p) {
    auto in = text_for<S>(s, p.scs, p.dcs, s.chance(1, 6) ? 300 : 20);
    auto fl = flags(s, cx);
    if (cx.want_text) cx.text << " " << show(in);
    bool q = has_quirk_char(p.scs, p.dcs, in, fl);
    auto A = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl), B = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl, true);
    cx.nt(!A.notes.empty() || (D)A.out[0] >= (D)0x80 || (D)A.out[0] < 0);
    if (!A.notes.empty()) cx.label("errors");
    Exact<S> src(in); Exact<D> dst(std::max(A.out.size(), B.out.size())); Recorder<S> rec(src.b(), in.size());
    auto r = p.t.transcode(src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
    auto z = p.t.transcode_size(src.b(), src.e(), (std::ptrdiff_t)in.size() + 3, fl);
    against(cx, q, A, B, [&](const Ref<D>& ref) {
        compare<S, D>("transcode", std::basic_string<D>(dst.b(), r.dst_ptr), r.src_ptr - src.b(), r.stop_reason, rec.notes, ref);
        check_num("transcode_size", z.ssize, ref.out.size()); check_num("transcode_size: src_ptr", z.src_ptr - src.b(), ref.src_pos);
        check(z.stop_reason == ref.reason, "transcode_size: stop reason"); });
}
template <class S, class D> void any_pair_(Src& s, Ctx& cx, const DynPair<S, D>& p) {
    if (p.scs == UTF && p.dcs == UTF) return;
    auto in = text_for<S>(s, p.scs, p.dcs, s.chance(1, 6) ? 200 : 20);
    auto fl = flags(s, cx);
    int op = (int)s.draw(4); static const char* ops[] = {"transcode(pointers)", "transcode(destination)", "decode_encode(pointers)", "decode_encode(destination)"}; cx.label(ops[op]);
    if (cx.want_text) cx.text << " " << show(in) << " " << ops[op];
    bool q = has_quirk_char(p.scs, p.dcs, in, fl);
    auto A = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl), B = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl, true);
    cx.nt(in.size() > 0 && (!A.notes.empty() || p.scs != p.dcs));
    Exact<S> src(in); Recorder<S> rec(src.b(), in.size()); rec.tolerant = q;
    std::basic_string<D> got; strf::transcode_stop_reason rs; const S* stale; long dist;
    if (op % 2 == 0) {
        Exact<D> dst(std::max(A.out.size(), B.out.size()));
        auto r = op == 0 ? strf::transcode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), &rec, fl) : strf::decode_encode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
        got.assign(dst.b(), r.dst_ptr); rs = r.stop_reason; stale = r.stale_src_ptr; dist = r.u32dist;
    } else {
        Chunked<D> d(chunk_sizes(s));
        auto r = op == 1 ? strf::transcode(p.a, p.b, src.b(), src.e(), d, &rec, fl) : strf::decode_encode(p.a, p.b, src.b(), src.e(), d, &rec, fl);
        got = d.finish(); check_num("returned count", r.ssize, got.size()); rs = r.stop_reason; stale = r.stale_src_ptr; dist = r.u32dist;
    }
    bool lax = strf::with_lax_surrogate_policy(fl);
    auto nostop = [&](bool qk) { return reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, lax ? flg::lax_surrogate_policy : flg::none, qk); };
    auto An = nostop(false), Bn = nostop(true);
    against(cx, q, A, B, [&](const Ref<D>& ref) {
        check_eq(ops[op], got, ref.out);
        if (rs != ref.reason) fail(std::string(ops[op]) + ": stop reason " + reason_name(rs) + " expected " + reason_name(ref.reason));
        check_num("source position", advance(p.scs, src.b(), in.size(), (size_t)(stale - src.b()), dist, lax), ref.src_pos);
        // errors met while decoding are notified ahead of those met while encoding the same pivot block
        if (&ref == &A) pivot_notes(ops[op], rec.notes, ref.notes, ref.reason == strf::transcode_stop_reason::unsupported_codepoint ? An.notes : ref.notes); });
}
// every byte / code point, in slices
PBT_PROP(bytes, 1) {
    visit_sbc(0, [](auto) {});
    int k = (int)s.draw(sbc::count);
    if (cx.want_text) cx.text << "all bytes of " << sbc::names[k];
    cx.nt();
    visit_sbc(k, [&](auto cs) {
        auto& t = sbc_funcs()[k];
        for (unsigned b = 0; b < 256; ++b) {
            unsigned v = sbc::table[k][b]; char32_t want = v == sbc::invalid ? 0xFFFD : (char32_t)v; char in = (char)b; char32_t o = 0x5A; char back = 0; Recorder<char> rec(&in, 1);
            std::string w = std::string(sbc::names[k]) + " byte " + std::to_string(b);
            auto r = t.to.transcode(&in, &in + 1, &o, &o + 1, &rec, flg::none);
            check(r.dst_ptr == &o + 1 && o == want, w + " decodes as " + std::to_string((unsigned)o) + " instead of " + std::to_string((unsigned)want));
            check(rec.notes.size() == (v == sbc::invalid), w + ": wrong notifications");
            check(cs.decode_unit(in) == want, w + ": decode_unit");
            auto q = t.self.transcode(&in, &in + 1, &back, &back + 1, nullptr, flg::none);
            check(q.dst_ptr == &back + 1 && back == (v == sbc::invalid ? '?' : in), w + ": conversion to itself");
            if (v != sbc::invalid) { char e = 0; check(cs.encode_char(&e, want) == &e + 1 && e == in, w + ": encode_char(decoded) is another byte");
                Recorder<char32_t> r2(&o, 1); auto x = t.from.transcode(&o, &o + 1, &back, &back + 1, &r2, flg::none); check(x.dst_ptr == &back + 1 && back == in && r2.notes.empty(), w + ": does not survive a round trip"); }
        }
    });
}
PBT_PROP(code_points, 5) {
    int k = (int)s.draw(sbc::count);
    char32_t first = (char32_t)((s.chance(1, 4) ? s.draw(0x1100) : s.coin() ? s.draw(0x30) : s.draw(0x100)) << 8);
    if (cx.want_text) cx.text << sbc::names[k] << " U+" << std::hex << (unsigned)first << "..+ff";
    cx.nt();
    visit_sbc(k, [&](auto cs) {
        auto& t = sbc_funcs()[k];
        for (char32_t c = first; c < first + 256; ++c) {
            int b = sbc_encode(k, c); bool sur = c >= 0xD800 && c <= 0xDFFF; char o = 0x5A; Recorder<char32_t> rec(&c, 1);
            char want = b >= 0 ? (char)b : '?'; char tx[64]; snprintf(tx, sizeof tx, "%s U+%04X", sbc::names[k], (unsigned)c); std::string w = tx;
            auto r = t.from.transcode(&c, &c + 1, &o, &o + 1, &rec, flg::none);
            check(r.dst_ptr == &o + 1 && o == want, w + " encodes as byte " + std::to_string((unsigned char)o) + " instead of " + std::to_string((unsigned char)want));
            bool known = quirk_char(c);
            std::vector<Note> exp; if (b < 0 && c != 0xFFFD) { if (sur || known) exp.push_back({false, "UTF-32", 0, 1, 0, 4}); else exp.push_back({true, sbc::names[k], 0, 0, (unsigned)c, 0}); }
            if (known) cx.known_id = "sbc-u-e000-ffff", cx.known = true;
            check(rec.notes == exp, w + ": notified " + show_notes(rec.notes) + " expected " + show_notes(exp));
            char e = 0; check(cs.encode_char(&e, c) == &e + 1 && e == want, w + ": encode_char");
            check_num((w + " encoded_char_size").c_str(), cs.encoded_char_size(c), 1);
            check_num((w + " validate").c_str(), cs.validate(c), b >= 0 || c == 0xFFFD ? 1 : -1);
        }
    });
    if (cx.known && first < 0xE000) cx.known = false;
}
PBT_PROP(strings, 8) { visit_sbc_pair(s, cx, [&](auto p) { strings_(s, cx, p); }); }
PBT_PROP(any_pair, 8) { visit_dyn(s, cx, [&](auto p) { any_pair_(s, cx, p); }); }
}
