// P13: every charset's metadata and character operations.
#include "common/tc.hpp"
#include <limits>
namespace p13 {
using namespace pbt; using namespace tc;
template <class CS> void ops(Src& s, Ctx& cx, int k, CS cs, const char* what) {
    using C = typename CS::code_unit; using Str = std::basic_string<C>;
    std::string w = std::string(what) + " " + cs_name<C>(k) + "/" + uname<C>::v + ": ";
    auto need = [&](bool c, const char* m) { if (!c) fail(w + m); };
    Str rep; repl(k, rep);
    char32_t c = k == UTF ? gen::any_cp(s) : s.chance(1, 3) ? gen::any_cp(s) : sbc_cp(s, k);
    if (k == UTF && s.coin()) c = s.coin() ? (char32_t)s.range(0xD700, 0xE100) : (char32_t)s.range(0x10FF00, 0x110100);
    if (cx.want_text) cx.text << w << "U+" << std::hex << (unsigned)c << std::dec;
    auto enc = raw_encode<C>(k, c);
    switch (s.draw(7)) {
        case 0: { cx.label("metadata"); cx.nt();
            need(cs_name<C>(k) == cs.name(), "name()"); need(cs.replacement_char() == (k == UTF ? U'\uFFFD' : U'?'), "replacement_char()");
            check_num((w + "replacement_char_size()").c_str(), cs.replacement_char_size(), rep.size());
            Chunked<C> d(chunk_sizes(s)); if (s.coin()) cs.write_replacement_char(d); else cs.write_replacement_char_func()(d); check_eq((w + "write_replacement_char").c_str(), d.finish(), rep);
            auto dy = cs.to_dynamic(); need(dy.id() == cs.id(), "id of to_dynamic()"); need(std::string(dy.name()) == cs.name(), "name of to_dynamic()");
            for (int j = 0; j < sbc::count; ++j) need((sbc_dyn()[j].id() == cs.id()) == (j == k), "id shared with another charset");
            break; }
        case 1: { cx.label("encode_char"); cx.nt(c >= 0x80);
            check_num((w + "encoded_char_size").c_str(), cs.encoded_char_size(c), enc.size());
            Exact<C> o(enc.size()); C* e = s.coin() ? cs.encode_char(o.b(), c) : cs.encode_char_func()(o.b(), c);
            need(e == o.e(), "encode_char does not return the position after the encoded_char_size() units"); check_eq((w + "encode_char").c_str(), Str(o.b(), e), enc);
            bool ok = gen::is_scalar(c) && (k == UTF || sbc_encode(k, c) >= 0 || c == 0xFFFD);
            check_num((w + "validate").c_str(), cs.validate(c), ok ? (long)enc.size() : -1L);
            check_num((w + "validate_func").c_str(), cs.validate_func()(c), ok ? (long)enc.size() : -1L);
            // the transcoder from UTF-32 writes the same
            if (ok) { Exact<C> p(enc.size()); char32_t in = c; Recorder<char32_t> rec(&in, 1); auto r = cs.from_u32().transcode(&in, &in + 1, p.b(), p.e(), &rec, strf::transcode_flags::none);
                need(rec.notes.empty() && r.stop_reason == strf::transcode_stop_reason::completed, "a validated code point is refused by from_u32()"); check_eq((w + "from_u32").c_str(), Str(p.b(), r.dst_ptr), enc); }
            break; }
        case 2: { cx.label("encode_fill"); long n = s.coin() ? (long)s.draw(9) : (long)s.draw(400); if (cx.want_text) cx.text << " x " << n; cx.nt(n > 0);
            Chunked<C> d(chunk_sizes(s)); C pre[] = {(C)'p', (C)'q', (C)'r'}; long m = (long)s.draw(64); for (long i = 0; i < m; ++i) d.write(pre, 1);
            if (s.coin()) cs.encode_fill(d, n, c); else cs.encode_fill_func()(d, n, c);
            Str want((size_t)m, (C)'p'); for (long i = 0; i < n; ++i) want += enc; check_eq((w + "encode_fill").c_str(), d.finish(), want); break; }
        case 3: { cx.label("decode_unit"); C u = sizeof(C) == 1 ? (C)s.draw(256) : sizeof(C) == 2 ? (C)s.draw(65536) : (C)gen::any_cp(s); if (cx.want_text) cx.text << " unit " << (uint32_t)u; cx.nt();
            char32_t want; if (k != UTF) { unsigned v = sbc::table[k][(unsigned char)u]; want = v == sbc::invalid ? 0xFFFD : (char32_t)v; }
            else if (sizeof(C) == 1) want = (unsigned char)u < 0x80 ? (char32_t)u : U'\uFFFD'; else if (sizeof(C) == 2) want = (char16_t)u; else want = (char32_t)u < 0x110000 ? (char32_t)u : U'\uFFFD';
            need(cs.decode_unit(u) == want, "decode_unit"); break; }
        case 4: case 5: { auto in = source_text<C>(s, k, 40); auto items = tc::decode(k, in.data(), in.size(), false); bool valid = true; for (auto& i : items) valid &= i.ok;
            if (cx.want_text) cx.text << " " << show(in); Exact<C> x(in); cx.label("count_codepoints"); cx.nt(items.size() > 1);
            std::ptrdiff_t lim = s.coin() ? std::numeric_limits<std::ptrdiff_t>::max() : (std::ptrdiff_t)s.draw(items.size() + 2);
            size_t cnt = (size_t)std::min<std::ptrdiff_t>(lim, (std::ptrdiff_t)items.size()); size_t pos = cnt == items.size() ? in.size() : items[cnt].pos;
            auto r = cs.count_codepoints(x.b(), x.e(), lim); check_num((w + "count_codepoints: count").c_str(), r.count, cnt); check_num((w + "count_codepoints: ptr").c_str(), r.ptr - x.b(), pos);
            auto z = cs.to_u32().transcode_size(x.b(), x.e(), (std::ptrdiff_t)in.size() + 1, strf::transcode_flags::none); check_num((w + "count against to_u32()").c_str(), z.ssize, items.size());
            auto f = cs.count_codepoints_fast(x.b(), x.e(), lim);
            if (valid) { check_num((w + "count_codepoints_fast: count").c_str(), f.count, cnt); check_num((w + "count_codepoints_fast: ptr").c_str(), f.ptr - x.b(), pos); }
            else { need(f.count >= 0 && f.count <= lim, "count_codepoints_fast out of range"); need(f.ptr >= x.b() && f.ptr <= x.e(), "count_codepoints_fast: ptr out of range"); }
            break; }
        default: { cx.label("sanitizer"); auto in = source_text<C>(s, k, 60); auto fl = flags(s, cx); if (cx.want_text) cx.text << " " << show(in);
            auto ref = reference<C, C>(k, k, in.data(), in.size(), nocap, fl); cx.nt(!ref.notes.empty()); Exact<C> x(in), o(ref.out.size()); Recorder<C> rec(x.b(), in.size());
            auto r = cs.sanitizer().transcode(x.b(), x.e(), o.b(), o.e(), &rec, fl); compare<C, C>((w + "sanitizer").c_str(), Str(o.b(), r.dst_ptr), r.src_ptr - x.b(), r.stop_reason, rec.notes, ref); break; }
    }
}
template <class S, class D> void found(Src& s, Ctx& cx, int i, int j, const strf::dynamic_transcoder<S, D>& t, bool must, const std::string& w) {
    auto in = text_avoiding<S>(s, i, j, 30); auto fl = flags(s, cx);
    if (cx.want_text) cx.text << w << " " << show(in);
    if (!t.transcode_func()) { if (must) fail(w + ": find_transcoder finds none although the library has a direct one"); cx.label("none found"); return; }
    cx.label("found"); cx.nt(!in.empty());
    check(t.transcode_size_func() && t.unsafe_transcode_func() && t.unsafe_transcode_size_func(), w + ": half a transcoder");
    auto ref = reference<S, D>(i, j, in.data(), in.size(), nocap, fl); Exact<S> x(in); Exact<D> o(ref.out.size()); Recorder<S> rec(x.b(), in.size());
    auto r = t.transcode(x.b(), x.e(), o.b(), o.e(), &rec, fl); compare<S, D>((w + ": the transcoder found").c_str(), std::basic_string<D>(o.b(), r.dst_ptr), r.src_ptr - x.b(), r.stop_reason, rec.notes, ref);
    check_num("its transcode_size", t.transcode_size(x.b(), x.e(), (std::ptrdiff_t)ref.out.size() + 1, fl).ssize, ref.out.size());
}
template <class F> void visit_static(Src& s, F&& f) {
    if (s.coin()) visit_unit(s, [&](auto* q) { using C = std::remove_pointer_t<decltype(q)>; f(UTF, strf::utf<C>); });
    else { int k = (int)s.draw(sbc::count); visit_sbc(k, [&](auto cs) { f(k, cs); }); }
}
}
