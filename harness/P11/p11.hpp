// P11: bounded, resumable conversions and size queries.
#include "common/tc.hpp"
#include <limits>
using namespace pbt; using namespace tc;
namespace {
constexpr std::ptrdiff_t big = std::numeric_limits<std::ptrdiff_t>::max();
template <class S, class D> void bounded_(Src& s, Ctx& cx, const Pair<S, D>& p) {
    auto in = text_avoiding<S>(s, p.scs, p.dcs, s.chance(1, 8) ? 200 : 16);
    auto fl = flags(s, cx);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl);
    size_t cap = capacity(s, full.out.size());
    if (cx.want_text) cx.text << " " << show(in) << " capacity " << cap << " of " << full.out.size();
    auto ref = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), cap, fl);
    cx.nt(cap < full.out.size() || !ref.notes.empty() || ref.out.size() != in.size());
    if (ref.reason == strf::transcode_stop_reason::insufficient_output_space) cx.label("ran out of space"); else if (ref.reason != strf::transcode_stop_reason::completed) cx.label("stopped on error");
    Exact<S> src(in); Exact<D> dst(cap); Recorder<S> rec(src.b(), in.size());
    auto r = p.t.transcode(src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
    check(r.dst_ptr >= dst.b() && r.dst_ptr <= dst.e(), "dst_ptr outside of the destination range");
    compare<S, D>("transcode", std::basic_string<D>(dst.b(), r.dst_ptr), r.src_ptr - src.b(), r.stop_reason, rec.notes, ref);
    for (D* q = r.dst_ptr; q != dst.e(); ++q) if (*q != (D)0x5A) { if (ref.reason == strf::transcode_stop_reason::insufficient_output_space) break; fail("wrote beyond dst_ptr"); }
    auto z = p.t.transcode_size(src.b(), src.e(), (std::ptrdiff_t)cap, fl);
    check_num("transcode_size(limit): ssize", z.ssize, ref.out.size());
    check_num("transcode_size(limit): src_ptr", z.src_ptr - src.b(), ref.src_pos);
    if (z.stop_reason != ref.reason) fail(std::string("transcode_size(limit): stop reason ") + reason_name(z.stop_reason) + " expected " + reason_name(ref.reason));
    auto zb = p.t.transcode_size(src.b(), src.e(), big, fl);
    check_num("transcode_size: ssize", zb.ssize, full.out.size());
    check_num("transcode_size: src_ptr", zb.src_ptr - src.b(), full.src_pos);
    if (zb.stop_reason != full.reason) fail(std::string("transcode_size: stop reason ") + reason_name(zb.stop_reason) + " expected " + reason_name(full.reason));
}
template <class S, class D> void resumed_(Src& s, Ctx& cx, const Pair<S, D>& p) {
    auto in = text_avoiding<S>(s, p.scs, p.dcs, s.chance(1, 8) ? 120 : 20);
    auto fl = flags(s, cx);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl);
    if (cx.want_text) cx.text << " " << show(in) << " in steps of";
    Exact<S> src(in); Recorder<S> rec(src.b(), in.size());
    std::basic_string<D> got; const S* at = src.b(); size_t steps = 0; strf::transcode_stop_reason rs;
    for (;;) {
        if (++steps > in.size() * 8 + 50) fail("no end of the conversion");
        size_t cap = s.draw(7); size_t need = 4;
        if (cx.want_text) cx.text << " " << cap;
        Exact<D> dst(cap);
        auto r = p.t.transcode(at, src.e(), dst.b(), dst.e(), &rec, fl);
        check(r.dst_ptr >= dst.b() && r.dst_ptr <= dst.e(), "dst_ptr outside of the destination range");
        check(r.src_ptr >= at && r.src_ptr <= src.e(), "src_ptr outside of the source range");
        got.append(dst.b(), r.dst_ptr);
        check((r.src_ptr != at) == (r.dst_ptr != dst.b()), "something consumed but nothing written, or the contrary");
        at = r.src_ptr; rs = r.stop_reason;
        if (rs != strf::transcode_stop_reason::insufficient_output_space) break;
        check(at != src.e(), "insufficient_output_space reported although nothing remained");
        check((size_t)(dst.e() - r.dst_ptr) < need, "insufficient_output_space reported although any character would fit");
    }
    cx.nt(steps > 2); if (steps > 2) cx.label("resumed");
    compare<S, D>("resumed conversion", got, at - src.b(), rs, rec.notes, full, true);
}
template <class S, class D> void pivot_(Src& s, Ctx& cx, const DynPair<S, D>& p) {
    auto in = text_avoiding<S>(s, p.scs, p.dcs, s.chance(1, 3) ? 120 : 20);
    auto fl = flags(s, cx); bool lax = strf::with_lax_surrogate_policy(fl);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl);
    auto nostop = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, lax ? strf::transcode_flags::lax_surrogate_policy : strf::transcode_flags::none);
    size_t cap = capacity(s, full.out.size());
    int op = (int)s.draw(5); static const char* ops[] = {"decode_encode", "transcode", "decode_encode_size", "transcode_size", "decode_encode resumed"}; cx.label(ops[op]);
    if (cx.want_text) cx.text << " " << show(in) << " capacity " << cap << " of " << full.out.size() << " by " << ops[op];
    auto ref = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), cap, fl);
    cx.nt(in.size() > 1 && (cap < full.out.size() || !ref.notes.empty()));
    Exact<S> src(in); Exact<D> dst(cap); Recorder<S> rec(src.b(), in.size());
    auto position = [&](const S* stale, long dist) -> size_t { check(stale >= src.b() && stale <= src.e(), "stale_src_ptr outside of the source range"); check(dist >= 0, "negative u32dist");
        auto z = p.a.to_u32().transcode_size(stale, src.e(), dist, lax ? strf::transcode_flags::lax_surrogate_policy : strf::transcode_flags::none); // the way documented
        size_t pos = advance(p.scs, src.b(), in.size(), (size_t)(stale - src.b()), dist, lax); check_num("transcode_size to UTF-32 from stale_src_ptr", z.src_ptr - src.b(), pos); return pos; };
    auto reason_ok = [&](strf::transcode_stop_reason got) { if (got != ref.reason) fail(std::string(ops[op]) + ": stop reason " + reason_name(got) + " expected " + reason_name(ref.reason)); };
    if (op <= 1) {
        auto r = op == 0 ? strf::decode_encode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), &rec, fl) : strf::transcode(p.a, p.b, src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
        check(r.dst_ptr >= dst.b() && r.dst_ptr <= dst.e(), "dst_ptr outside of the destination range");
        check_eq(ops[op], std::basic_string<D>(dst.b(), r.dst_ptr), ref.out); reason_ok(r.stop_reason);
        check_num("source position", position(r.stale_src_ptr, r.u32dist), ref.src_pos);
        pivot_notes(ops[op], rec.notes, ref.notes, nostop.notes);
    } else if (op <= 3) {
        bool unlimited = s.coin(); if (unlimited) ref = full;
        auto lim = unlimited ? big : (std::ptrdiff_t)cap;
        auto r = op == 2 ? strf::decode_encode_size(p.a, p.b, src.b(), src.e(), lim, fl) : strf::transcode_size(p.a, p.b, src.b(), src.e(), lim, fl);
        check_num("ssize", r.ssize, ref.out.size()); reason_ok(r.stop_reason);
        check_num("source position", position(r.stale_src_ptr, r.u32dist), ref.src_pos);
    } else {
        std::basic_string<D> got; size_t at = 0, steps = 0; strf::transcode_stop_reason rs;
        for (;;) {
            if (++steps > in.size() * 8 + 50) fail("no end of the conversion");
            Exact<D> d(s.draw(9)); Exact<S> rest(in.substr(at)); 
            auto r = strf::transcode(p.a, p.b, rest.b(), rest.e(), d.b(), d.e(), nullptr, fl);
            got.append(d.b(), r.dst_ptr); rs = r.stop_reason;
            at += advance(p.scs, rest.b(), rest.n, (size_t)(r.stale_src_ptr - rest.b()), r.u32dist, lax);
            if (rs != strf::transcode_stop_reason::insufficient_output_space) break;
        }
        check_eq("resumed conversion", got, full.out); check_num("source position", at, full.src_pos); if (rs != full.reason) fail(std::string("resumed: stop reason ") + reason_name(rs) + " expected " + reason_name(full.reason));
    }
}
// conversions to a destination that fails at some point: all that was written is counted, and what the result points to is the rest
template <class S, class D> void failing_(Src& s, Ctx& cx, const DynPair<S, D>& p) {
    auto in = text_avoiding<S>(s, p.scs, p.dcs, s.chance(2, 3) ? 160 : 30); auto fl = flags(s, cx); const bool lax = strf::with_lax_surrogate_policy(fl);
    auto full = reference<S, D>(p.scs, p.dcs, in.data(), in.size(), nocap, fl); const auto func = strf::find_transcoder(p.a, p.b).transcode_func();
    int op = (int)s.draw(3); if (op == 2 && ! func) op = 1; static const char* ops[] = {"decode_encode", "transcode", "transcode by function"}; cx.label(ops[op]);
    long bad = s.draw(12) == 0 ? -2 : (long)s.draw(6); Exact<S> src(in); Chunked<D> d(chunk_sizes(s), bad < 0 ? -1 : bad); if (bad < 0) d.set_good_(false);
    if (cx.want_text) cx.text << " " << show(in) << " " << ops[op] << " bad after " << bad;
    std::ptrdiff_t n, dist = 0; const S* at; strf::transcode_stop_reason rs;
    if (op == 2) { auto r = strf::transcode(func, src.b(), src.e(), d, nullptr, fl); n = r.ssize; at = r.src_ptr; rs = r.stop_reason; }
    else { auto r = op == 0 ? strf::decode_encode(p.a, p.b, src.b(), src.e(), d, nullptr, fl) : strf::transcode(p.a, p.b, src.b(), src.e(), d, nullptr, fl); n = r.ssize; at = r.stale_src_ptr; dist = r.u32dist; rs = r.stop_reason; }
    check(at >= src.b() && at <= src.e() && dist >= 0, "source position out of range"); const size_t pos = advance(p.scs, src.b(), in.size(), (size_t)(at - src.b()), dist, lax);
    const bool failed = ! d.good(); d.take(); cx.nt(failed && ! d.got.empty()); cx.label(failed ? bad < 0 ? "bad from the start" : "failed" : "not failed");
    check_num("units written", n, d.got.size());
    if (! failed) { check_eq(ops[op], d.got, full.out); check_num("source position", pos, full.src_pos); if (rs != full.reason) fail(std::string("stop reason ") + reason_name(rs) + " expected " + reason_name(full.reason)); return; }
    if (rs != strf::transcode_stop_reason::insufficient_output_space) fail(std::string("stop reason of a failed destination: ") + reason_name(rs));
    auto rest = reference<S, D>(p.scs, p.dcs, in.data() + pos, in.size() - pos, nocap, fl);
    check_eq("what was written and the rest", d.got + rest.out, full.out); check_num("source position and the rest", pos + rest.src_pos, full.src_pos);
}
}
