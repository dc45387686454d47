// P10: UTF -> UTF conversions against the reference decoder/encoder.
#include "common/tc.hpp"
using namespace pbt; using namespace tc;
namespace {
template <class S, class D> void one(Src& s, Ctx& cx, const Pair<S, D>& p) {
    auto in = source_text<S>(s, UTF, s.chance(1, 8) ? 300 : 24);
    auto fl = flags(s, cx);
    if (cx.want_text) cx.text << " " << show(in);
    auto ref = reference<S, D>(UTF, UTF, in.data(), in.size(), nocap, fl);
    cx.nt(!in.empty() && (!ref.notes.empty() || ref.out.size() != in.size()));
    if (!ref.notes.empty()) cx.label("ill-formed input"); if (strf::with_lax_surrogate_policy(fl)) cx.label("lax surrogates");
    Exact<S> src(in); Exact<D> dst(ref.out.size() + s.draw(3)); Recorder<S> rec(src.b(), in.size());
    bool quiet = s.chance(1, 8);
    auto* np = quiet ? nullptr : &rec; if (quiet) ref.notes.clear();
    using R = std::basic_string<D>;
    // once lax, an output of surrogates may only come from surrogates in the input
    if (!strf::with_lax_surrogate_policy(fl)) check(gen::valid(ref.out), "reference is broken: ill-formed output");
    switch (s.draw(7)) {
        case 0: case 1: { cx.label("transcoder"); auto r = p.t.transcode(src.b(), src.e(), dst.b(), dst.e(), np, fl);
            compare<S, D>("transcode", R(dst.b(), r.dst_ptr), r.src_ptr - src.b(), r.stop_reason, rec.notes, ref); break; }
        case 2: { cx.label("strf::transcode(pointers)"); auto r = s.coin() ? strf::transcode(strf::utf<S>, strf::utf<D>, src.b(), src.e(), dst.b(), dst.e(), np, fl) : strf::transcode<strf::utf_t, strf::utf_t>(src.b(), src.e(), dst.b(), dst.e(), np, fl);
            check(r.u32dist == 0, "u32dist of a direct conversion");
            compare<S, D>("strf::transcode", R(dst.b(), r.dst_ptr), r.stale_src_ptr - src.b(), r.stop_reason, rec.notes, ref); break; }
        case 3: { cx.label("strf::transcode(destination)"); Chunked<D> d(chunk_sizes(s));
            auto r = s.coin() ? strf::transcode(strf::utf<S>, strf::utf<D>, src.b(), src.e(), d, np, fl) : strf::transcode<strf::utf_t, strf::utf_t>(src.b(), src.e(), d, np, fl);
            check(r.u32dist == 0, "u32dist of a direct conversion"); auto& g = d.finish(); check_num("returned count", r.ssize, g.size());
            compare<S, D>("strf::transcode to destination", g, r.stale_src_ptr - src.b(), r.stop_reason, rec.notes, ref, true); break; }
        case 4: { cx.label("decode_encode(pointers)"); auto r = s.coin() ? strf::decode_encode(strf::utf<S>, strf::utf<D>, src.b(), src.e(), dst.b(), dst.e(), np, fl) : strf::decode_encode<strf::utf_t, strf::utf_t>(src.b(), src.e(), dst.b(), dst.e(), np, fl);
            check(r.u32dist == 0, "u32dist although it did not stop while encoding");
            compare<S, D>("decode_encode", R(dst.b(), r.dst_ptr), r.stale_src_ptr - src.b(), r.stop_reason, rec.notes, ref, true); break; }
        case 5: { cx.label("decode_encode(destination)"); Chunked<D> d(chunk_sizes(s));
            auto r = s.coin() ? strf::decode_encode(strf::utf<S>, strf::utf<D>, src.b(), src.e(), d, np, fl) : strf::decode_encode<strf::utf_t, strf::utf_t>(src.b(), src.e(), d, np, fl);
            auto& g = d.finish(); check_num("returned count", r.ssize, g.size()); check(r.u32dist == 0, "u32dist although it did not stop while encoding");
            compare<S, D>("decode_encode to destination", g, r.stale_src_ptr - src.b(), r.stop_reason, rec.notes, ref, true); break; }
        default: { cx.label("dynamic charsets"); auto a = strf::utf<S>.to_dynamic(); auto b = strf::utf<D>.to_dynamic();
            auto r = strf::transcode(a, b, src.b(), src.e(), dst.b(), dst.e(), np, fl);
            compare<S, D>("strf::transcode with dynamic charsets", R(dst.b(), r.dst_ptr), r.stale_src_ptr - src.b(), r.stop_reason, rec.notes, ref); break; }
    }
}
// every code point, every pair of encodings: exhaustive walk in slices
template <class S, class D> void slice(Src& s, Ctx& cx, const Pair<S, D>& p) {
    char32_t first = (char32_t)(s.draw(0x110) << 12 | s.draw(32) << 7); bool lax = s.coin();
    if (cx.want_text) cx.text << " U+" << std::hex << (unsigned)first << "..+7f lax=" << lax;
    std::basic_string<S> in; std::basic_string<D> want; cx.nt();
    bool sur = first >= 0xD800 && first < 0xE000;
    for (char32_t c = first; c < first + 128; ++c) { if (sur && sizeof(S) == 2 && c >= 0xDC00) { gen::enc(in, U'.'); gen::enc(want, U'.'); } gen::enc(in, c); }
    auto fl = lax ? strf::transcode_flags::lax_surrogate_policy : strf::transcode_flags::none;
    auto ref = reference<S, D>(UTF, UTF, in.data(), in.size(), nocap, fl);
    if (!sur) check(ref.notes.empty(), "reference is broken");
    Exact<S> src(in); Exact<D> dst(ref.out.size()); Recorder<S> rec(src.b(), in.size());
    auto r = p.t.transcode(src.b(), src.e(), dst.b(), dst.e(), &rec, fl);
    compare<S, D>("transcode of 128 code points", std::basic_string<D>(dst.b(), r.dst_ptr), r.src_ptr - src.b(), r.stop_reason, rec.notes, ref);
}
PBT_PROP(utf_conversion, 8) { visit_utf(s, cx, [&](auto p) { one(s, cx, p); }); }
PBT_PROP(code_point_slices, 2) { visit_utf(s, cx, [&](auto p) { slice(s, cx, p); }); }
}
