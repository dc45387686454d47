// P14: unchecked conversions on valid input against the model and against the checked ones.
#include "common/tc.hpp"
#include <limits>
using namespace pbt; using namespace tc;
namespace {
constexpr std::ptrdiff_t big = std::numeric_limits<std::ptrdiff_t>::max();
// valid in the source charset (surrogates included when they are tolerated), with characters of
// `dcs` and around
template <class S> std::basic_string<S> good_text(Src& s, int scs, int dcs, size_t maxlen, bool lax) {
    auto in = text_avoiding<S>(s, scs, dcs, maxlen, true);
    if (scs == UTF && lax && s.coin()) {
        std::basic_string<S> r; for (auto& it : gen::decode(in.data(), in.size(), true)) { if (s.chance(1, 6)) gen::enc(r, (char32_t)s.range(0xD800, 0xDFFF)); r.append(in, it.pos, it.len); }
        in = r;
    }
    std::basic_string<S> r; // whatever is not valid is dropped
    for (auto& it : tc::decode(scs, in.data(), in.size(), lax)) if (it.ok) r.append(in, it.pos, it.len);
    for (auto& it : tc::decode(scs, r.data(), r.size(), lax)) if (!it.ok) return {};
    return r;
}
// notifications of unsupported code points around the end of the space may differ (see P10)
template <class S, class D> void bounded_(Src& s, Ctx& cx, const Pair<S, D>& p) {
    auto fl = flags(s, cx); bool lax = strf::with_lax_surrogate_policy(fl);
    auto in = good_text<S>(s, p.scs, p.dcs, s.chance(1, 8) ? 200 : 16, lax);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl);
    size_t cap = capacity(s, full.out.size());
    if (cx.want_text) cx.text << " " << show(in) << " capacity " << cap << " of " << full.out.size();
    auto ref = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), cap, fl);
    cx.nt(in.size() > 1 && (cap < full.out.size() || !ref.notes.empty() || ref.out.size() != in.size()));
    if (ref.reason == strf::transcode_stop_reason::insufficient_output_space) cx.label("ran out of space"); else if (ref.reason != strf::transcode_stop_reason::completed) cx.label("stopped on error");
    Exact<S> src(in); Exact<D> dst(cap), dst2(cap); Recorder<S> rec(src.b(), in.size()), rec2(src.b(), in.size());
    auto c = p.t.transcode(src.b(), src.e(), dst2.b(), dst2.e(), &rec2, fl);
    auto r = s.coin() ? p.t.unsafe_transcode(src.b(), src.e(), dst.b(), dst.e(), &rec, fl) : p.t.unsafe_transcode_func()(src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
    check(r.dst_ptr >= dst.b() && r.dst_ptr <= dst.e(), "dst_ptr outside of the destination range");
    compare<S, D>("unsafe_transcode", std::basic_string<D>(dst.b(), r.dst_ptr), r.src_ptr - src.b(), r.stop_reason, rec.notes, ref);
    if (c.src_ptr != r.src_ptr || c.dst_ptr - dst2.b() != r.dst_ptr - dst.b() || c.stop_reason != r.stop_reason || !std::equal(dst.b(), r.dst_ptr, dst2.b())) fail("unsafe_transcode differs from transcode");
    auto lim = (std::ptrdiff_t)cap; auto z = p.t.unsafe_transcode_size(src.b(), src.e(), lim, fl);
    check_num("unsafe_transcode_size(limit): ssize", z.ssize, ref.out.size());
    check_num("unsafe_transcode_size(limit): src_ptr", z.src_ptr - src.b(), ref.src_pos);
    if (z.stop_reason != ref.reason) fail(std::string("unsafe_transcode_size(limit): stop reason ") + reason_name(z.stop_reason) + " expected " + reason_name(ref.reason));
    auto zb = p.t.unsafe_transcode_size_func()(src.b(), src.e(), big, fl);
    check_num("unsafe_transcode_size: ssize", zb.ssize, full.out.size());
    check_num("unsafe_transcode_size: src_ptr", zb.src_ptr - src.b(), full.src_pos);
    if (zb.stop_reason != full.reason) fail(std::string("unsafe_transcode_size: stop reason ") + reason_name(zb.stop_reason) + " expected " + reason_name(full.reason));
}
template <class S, class D> void resumed_(Src& s, Ctx& cx, const Pair<S, D>& p) {
    auto fl = flags(s, cx); bool lax = strf::with_lax_surrogate_policy(fl);
    auto in = good_text<S>(s, p.scs, p.dcs, s.chance(1, 8) ? 120 : 20, lax);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl);
    if (cx.want_text) cx.text << " " << show(in) << " in steps of";
    Exact<S> src(in); Recorder<S> rec(src.b(), in.size());
    std::basic_string<D> got; const S* at = src.b(); size_t steps = 0; strf::transcode_stop_reason rs;
    for (;;) {
        if (++steps > in.size() * 8 + 50) fail("no end of the conversion");
        size_t cap = s.draw(7); if (cx.want_text) cx.text << " " << cap;
        Exact<D> dst(cap); auto r = p.t.unsafe_transcode(at, src.e(), dst.b(), dst.e(), &rec, fl);
        check(r.dst_ptr >= dst.b() && r.dst_ptr <= dst.e(), "dst_ptr outside of the destination range");
        check(r.src_ptr >= at && r.src_ptr <= src.e(), "src_ptr outside of the source range");
        got.append(dst.b(), r.dst_ptr); at = r.src_ptr; rs = r.stop_reason;
        if (rs != strf::transcode_stop_reason::insufficient_output_space) break;
        check(at != src.e(), "insufficient_output_space reported although nothing remained");
    }
    cx.nt(steps > 2); if (steps > 2) cx.label("resumed");
    compare<S, D>("resumed unchecked conversion", got, at - src.b(), rs, rec.notes, full, true);
}
// any two charsets, through the free functions, unchecked or by way of UTF-32
template <class S, class D> void any_(Src& s, Ctx& cx, const DynPair<S, D>& p) {
    auto fl = flags(s, cx); bool lax = strf::with_lax_surrogate_policy(fl);
    auto in = good_text<S>(s, p.scs, p.dcs, s.chance(1, 3) ? 140 : 20, lax);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl);
    size_t cap = capacity(s, full.out.size());
    int op = (int)s.draw(8); static const char* ops[] = {"unsafe_decode_encode", "unsafe_transcode", "unsafe_decode_encode_size", "unsafe_transcode_size", "unsafe_transcode to destination", "unsafe to u32 then from u32", "decode_encode vs unsafe_decode_encode", "direct vs decode_encode"}; cx.label(ops[op]);
    if (cx.want_text) cx.text << " " << show(in) << " capacity " << cap << " of " << full.out.size() << " by " << ops[op];
    auto ref = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), cap, fl);
    cx.nt(in.size() > 1 && (cap < full.out.size() || ref.out.size() != in.size() || p.scs != UTF || p.dcs != UTF));
    Exact<S> src(in); Exact<D> dst(cap); Recorder<S> rec(src.b(), in.size());
    auto position = [&](const S* stale, long dist) -> size_t { check(stale >= src.b() && stale <= src.e(), "stale_src_ptr outside of the source range"); check(dist >= 0, "negative u32dist");
        auto z = p.a.to_u32().unsafe_transcode_size(stale, src.e(), dist, lax ? strf::transcode_flags::lax_surrogate_policy : strf::transcode_flags::none);
        size_t pos = advance(p.scs, src.b(), in.size(), (size_t)(stale - src.b()), dist, lax); check_num("unsafe_transcode_size to UTF-32 from stale_src_ptr", z.src_ptr - src.b(), pos); return pos; };
    auto reason_ok = [&](strf::transcode_stop_reason got, const Ref<D>& rf) { if (got != rf.reason) fail(std::string(ops[op]) + ": stop reason " + reason_name(got) + " expected " + reason_name(rf.reason)); };
    using R = std::basic_string<D>;
    switch (op) {
        case 0: case 1: { auto r = op == 0 ? strf::unsafe_decode_encode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), &rec, fl) : strf::unsafe_transcode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
            check(r.dst_ptr >= dst.b() && r.dst_ptr <= dst.e(), "dst_ptr outside of the destination range");
            check_eq(ops[op], R(dst.b(), r.dst_ptr), ref.out); reason_ok(r.stop_reason, ref); check_num("source position", position(r.stale_src_ptr, r.u32dist), ref.src_pos);
            pivot_notes(ops[op], rec.notes, ref.notes, full.notes); break; }
        case 2: case 3: { bool unlimited = s.coin(); auto& rf = unlimited ? full : ref; auto lim = unlimited ? big : (std::ptrdiff_t)cap;
            auto r = op == 2 ? strf::unsafe_decode_encode_size(p.a, p.b, src.b(), src.e(), lim, fl) : strf::unsafe_transcode_size(p.a, p.b, src.b(), src.e(), lim, fl);
            check_num("ssize", r.ssize, rf.out.size()); reason_ok(r.stop_reason, rf); check_num("source position", position(r.stale_src_ptr, r.u32dist), rf.src_pos); break; }
        case 4: { Chunked<D> d(chunk_sizes(s)); auto r = strf::unsafe_transcode(p.a, p.b, src.b(), src.e(), d, &rec, fl); auto& g = d.finish();
            check_eq(ops[op], g, full.out); check_num("returned count", r.ssize, g.size()); reason_ok(r.stop_reason, full); check_num("source position", position(r.stale_src_ptr, r.u32dist), full.src_pos);
            std::vector<Note> gi, gu; split_notes(rec.notes, gi, gu); check(gi.empty(), "valid input notified as invalid"); break; }
        case 5: { // composition of the two halves
            Exact<char32_t> mid(in.size()); auto r = p.a.to_u32().unsafe_transcode(src.b(), src.e(), mid.b(), mid.e(), nullptr, fl); check(r.stop_reason == strf::transcode_stop_reason::completed, "to_u32 did not complete on valid input");
            Exact<D> o(full.out.size()); auto q = p.b.from_u32().unsafe_transcode(mid.b(), r.dst_ptr, o.b(), o.e(), nullptr, fl); check_eq(ops[op], R(o.b(), q.dst_ptr), full.out); reason_ok(q.stop_reason, full); break; }
        case 6: { Exact<D> d2(cap); auto r = strf::decode_encode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), nullptr, fl); auto q = strf::unsafe_decode_encode(p.a, p.b, src.b(), src.e(), d2.b(), d2.e(), nullptr, fl);
            check_eq(ops[op], R(d2.b(), q.dst_ptr), R(dst.b(), r.dst_ptr)); check(r.stop_reason == q.stop_reason && position(r.stale_src_ptr, r.u32dist) == position(q.stale_src_ptr, q.u32dist), "decode_encode and unsafe_decode_encode stop differently"); break; }
        default: { strf::dynamic_transcoder<S, D> t{strf::find_transcoder(p.a, p.b)}; auto q = strf::decode_encode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), nullptr, fl);
            check_eq(ops[op], R(dst.b(), q.dst_ptr), ref.out);
            if (t.transcode_func()) { Exact<D> d2(cap); auto r = t.transcode(src.b(), src.e(), d2.b(), d2.e(), nullptr, fl); check_eq("direct conversion", R(d2.b(), r.dst_ptr), R(dst.b(), q.dst_ptr)); check(r.stop_reason == q.stop_reason && (size_t)(r.src_ptr - src.b()) == position(q.stale_src_ptr, q.u32dist), "the direct conversion and the one by way of UTF-32 stop differently"); }
            break; }
    }
}
}
