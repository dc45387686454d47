// P28: a C++14 scenario, compiled once per build configuration; its transcript must be the same in all.
#include "common/gen.hpp"
#include "P28/abi.hpp"
#include <strf.hpp>
#ifndef STRF_FREESTANDING
#include <strf/to_string.hpp>
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <sstream>
#endif
#include <memory>
namespace scen {
using pbt::Src;
struct Log {
    std::string t;
    void n(long long v) { t += ' '; t += std::to_string(v); }
    void s(const char* p) { t += ' '; t += p; }
    template <class C> void u(const C* p, size_t k) { t += " \""; char b[16]; for (size_t i = 0; i < k; ++i) { auto v = (unsigned long)(typename std::make_unsigned<typename std::conditional<sizeof(C) == 1, char, typename std::conditional<sizeof(C) == 2, short, int>::type>::type>::type)p[i];
        if (v >= 0x20 && v < 0x7f && v != '"' && v != '\\') t += (char)v; else { snprintf(b, sizeof b, "\\%lx;", v); t += b; } } t += '"'; }
};
template <class C> std::basic_string<C> cs(Src& s, size_t max, bool valid = false) { auto r = valid ? gen::valid_text<C>(s, max) : gen::any_text<C>(s, max); for (auto& c : r) if (c == 0) c = (C)'0'; return r; }
// destination of exact chunks
template <class C> struct Dst : strf::destination<C> {
    Log& l; std::unique_ptr<C[]> m; size_t n, first; Src* dummy = nullptr;
    Dst(Log& lg, size_t sz) : strf::destination<C>(nullptr, (C*)nullptr), l(lg), n(sz) { next(); }
    void next() { m.reset(new C[n]); this->set_buffer_ptr(m.get()); this->set_buffer_end(m.get() + n); }
    void recycle() override { l.u(m.get(), (size_t)(this->buffer_ptr() - m.get())); n = 64 + (n * 7 + 3) % 50; next(); }
    void finish() { l.u(m.get(), (size_t)(this->buffer_ptr() - m.get())); this->set_good(false); }
};
struct Notes : strf::transcoding_error_notifier { Log& l; const char* b; Notes(Log& lg, const void* p) : l(lg), b((const char*)p) {}
    void invalid_sequence(int u, const char* name, const void* p, std::ptrdiff_t c) override { l.s("inv"); l.n(u); l.s(name); if (b) l.n((const char*)p - b); l.n(c); }
    void unsupported_codepoint(const char* name, unsigned cp) override { l.s("uns"); l.s(name); l.n(cp); } };
struct TrErr { using category = strf::tr_error_notifier_c; Log* l;
    template <class Cs> void handle(const typename Cs::code_unit*, std::ptrdiff_t len, Cs c, std::ptrdiff_t pos) const { l->s("tre"); l->n(len); l->n(pos); l->s(c.name()); } };
inline strf::width_t width(Src& s) { switch (s.draw(3)) { case 0: return strf::width_t((int)s.draw(40)); case 1: return strf::width_t::from_underlying((int32_t)s.range(-0x20000, 0x500000)); default: return strf::width_t((int)s.range(-2, 90)); } }
inline strf::alignment_format af(Src& s) { char32_t f = gen::fill_char(s); auto w = width(s); return strf::alignment_format{f, w, s.pick<strf::text_alignment>({strf::text_alignment::right, strf::text_alignment::left, strf::text_alignment::center})}; }
inline strf::showsign sign(Src& s) { return s.pick<strf::showsign>({strf::showsign::negative_only, strf::showsign::positive_also, strf::showsign::fill_instead_of_positive}); }
inline strf::int_format intf(Src& s) { strf::int_format r; r.base = s.pick<int>({10, 16, 8, 2}); r.precision = (int)s.draw(30); r.pad0width = (int)s.draw(40); r.sign = sign(s); r.showbase = s.coin(); r.punctuate = s.coin(); return r; }
inline strf::float_format fltf(Src& s) { strf::float_format r; r.notation = s.pick<strf::float_notation>({strf::float_notation::general, strf::float_notation::fixed, strf::float_notation::scientific, strf::float_notation::hex});
    r.precision = s.coin() ? -1 : (int)s.draw(30); r.pad0width = s.coin() ? 0 : (int)s.draw(40); r.sign = sign(s); r.showpoint = s.coin(); r.punctuate = s.coin(); return r; }
template <int B> strf::numpunct<B> punct(Src& s) {
    strf::numpunct<B> r; int a = (int)(1 + s.draw(5)), b = (int)(1 + s.draw(4));
    switch (s.draw(4)) { case 0: return r; case 1: r = strf::numpunct<B>(a); break; case 2: r = strf::numpunct<B>(a, b); break; default: r = strf::numpunct<B>(a, b, -1); }
    if (s.coin()) r.thousands_sep(gen::fill_char(s));
    if (s.coin()) r.decimal_point(gen::fill_char(s));
    return r;
}
// how something is delivered
template <class C, class Pk, class... A> void deliver(Src& s, Log& l, const Pk& pk, const A&... a) {
    switch (s.draw(4)) {
        case 0: { size_t n = 1 + s.size(200); std::unique_ptr<C[]> m(new C[n]); auto r = strf::to(m.get(), n).with(pk)(a...); l.n(r.ptr - m.get()); l.n(r.truncated); l.u(m.get(), (size_t)(r.ptr - m.get())); l.n(*r.ptr == 0); break; }
        case 1: { Dst<C> d(l, 64 + s.draw(30)); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a...); d.finish(); break; }
        case 2: { strf::full_premeasurements m; strf::measure<C>(&m, pk, a...); l.n(m.accumulated_ssize()); l.n(m.accumulated_width().underlying_value());
            strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> w(width(s)); strf::measure<C>(&w, pk, a...); l.n(w.accumulated_width().underlying_value()); l.n(w.has_remaining_width()); break; }
        default: { size_t n = 1 + s.size(300); std::unique_ptr<C[]> m(new C[n]); strf::array_destination<C> d(m.get(), m.get() + n); strf::to(static_cast<strf::destination<C>&>(d)).with(pk)(a...); auto r = d.finish(); l.n(r.ptr - m.get()); l.n(r.truncated); l.u(m.get(), (size_t)(r.ptr - m.get())); }
    }
}
template <class C> struct other { using a = char; using b = char16_t; };
template <> struct other<char> { using a = char16_t; using b = char32_t; };
template <> struct other<char16_t> { using a = char; using b = char32_t; };
template <class C, class Pk> void args(Src& s, Log& l, const Pk& pk) {
    auto t = cs<C>(s, 60), u = cs<C>(s, 20); const C *p = t.c_str(), *q = u.c_str();
    // every draw ahead of the calls: the order of evaluation of arguments is not the library's business
    auto A1 = af(s), A2 = af(s); auto W1 = width(s), W2 = width(s); auto I = gen::integer<int>(s); auto F = gen::f64(s);
    switch (s.draw(21)) {
        case 0: l.s("str"); deliver<C>(s, l, pk, p, strf::fmt(q).set_alignment_format(A1)); break;
        case 1: { l.s("str.p"); deliver<C>(s, l, pk, strf::fmt(p).p(W1), strf::fmt(q).p(W2).set_alignment_format(A1)); break; }
        case 2: l.s("sani"); deliver<C>(s, l, pk, strf::sani(p), strf::sani(q).p(W1).set_alignment_format(A1)); break;
        case 3: { l.s("transcode"); auto o = cs<typename other<C>::a>(s, 60); deliver<C>(s, l, pk, strf::transcode(o.c_str()), strf::transcode(o.c_str()).p(W1).set_alignment_format(A1)); break; }
        case 4: { l.s("transcode b"); auto o = cs<typename other<C>::b>(s, 60); deliver<C>(s, l, pk, strf::transcode(o.c_str()).set_alignment_format(A1), q); break; }
        case 5: { l.s("int"); auto i = gen::integer<int>(s); auto x = gen::integer<uint64_t>(s); deliver<C>(s, l, pk, i, x, strf::fmt((int16_t)I).set_alignment_format(A1)); break; }
        case 6: { l.s("int fmt"); auto x = gen::integer<int64_t>(s); auto f = intf(s); deliver<C>(s, l, pk, strf::fmt(x).set_int_format(f), strf::fmt(x).set_int_format(f).set_alignment_format(A1)); break; }
        case 7: { l.s("int static fmt"); auto x = gen::integer<int64_t>(s); auto a = A1; int n = (int)s.draw(30); deliver<C>(s, l, pk, *strf::hex(x).p(n), +!strf::dec(x).pad0(n), *strf::bin(x).set_alignment_format(a), *strf::oct(x).p(n).set_alignment_format(a), !strf::hex(x)); break; }
        case 8: { l.s("float"); auto d = gen::f64(s); auto f = gen::f32(s); deliver<C>(s, l, pk, d, (C)' ', f); break; }
        case 9: { l.s("float fmt"); auto d = gen::f64(s); auto f = fltf(s); deliver<C>(s, l, pk, strf::fmt(d).set_float_format(f), (C)' ', strf::fmt(d).set_float_format(f).set_alignment_format(A1)); break; }
        case 10: { l.s("float static"); auto d = gen::f64(s); auto g = gen::f32(s); int n = (int)s.draw(25); auto a = A1; deliver<C>(s, l, pk, strf::fixed(d, n), (C)' ', strf::sci(g, n), (C)' ', strf::hex(d), (C)' ', +!strf::gen(d).p(n).set_alignment_format(a), *strf::fixed(g)); break; }
        case 11: { l.s("char"); C c = (C)('!' + s.draw(90)); int n = (int)s.draw(90), m = (int)s.draw(70); auto c1 = gen::any_cp(s), c2 = gen::any_cp(s); deliver<C>(s, l, pk, c, strf::multi(c, n).set_alignment_format(A1), c1, strf::multi(c2, m)); break; }
        case 12: { l.s("bool ptr"); bool b = s.coin(); auto v = (const void*)(uintptr_t)gen::u64(s); deliver<C>(s, l, pk, b, v, strf::fmt(b).set_alignment_format(A1), strf::fmt(v).set_alignment_format(A1)); break; }
        case 13: { l.s("range"); int v[6]; for (auto& i : v) i = gen::integer<int>(s); auto b = v; auto e = v + s.draw(7); auto f = intf(s); if (s.coin()) deliver<C>(s, l, pk, strf::range(b, e), strf::fmt_range(b, e).set_int_format(f)); else deliver<C>(s, l, pk, strf::separated_range(b, e, q), strf::fmt_separated_range(b, e, q).set_int_format(f).set_alignment_format(A1)); break; }
        case 14: { l.s("range str"); const C* v[4] = {p, q, q, p}; deliver<C>(s, l, pk, strf::separated_range(v, q), strf::fmt_range(v).set_alignment_format(A1).p(W1)); break; }
        case 15: { l.s("join"); auto x = gen::integer<int>(s); deliver<C>(s, l, pk, strf::join(p, x, F, strf::join(q, (C)'|') > 9).set_alignment_format(A1)); break; }
        case 16: { l.s("with"); auto x = I; auto pu = punct<10>(s); deliver<C>(s, l, pk, strf::with(pu, strf::uppercase)(!strf::dec(x), strf::hex(x), q), strf::hex(x)); break; }
        default: { l.s("tr"); std::basic_string<C> x; size_t n = s.draw(5); for (size_t i = 0; i < n; ++i) { auto y = cs<C>(s, 8); x += y; const char* f = s.pick<const char*>({"{}", "{0}", "{{", "{-c}", "{1 a}", "{", "{7}", "}", "{99999999999}"}); while (*f) x.push_back((C)*f++); }
            TrErr te{&l}; auto pk2 = strf::pack(pk, te); auto i = gen::integer<int>(s); deliver<C>(s, l, pk2, strf::tr(x.c_str(), i, q, F), (C)'.'); break; }
    }
}
template <class C, class X, class Pk> void with_width(Src& s, Log& l, const X& more, const Pk& pk) {
    switch (s.draw(4)) { case 0: args<C>(s, l, strf::pack(pk, more, strf::std_width_calc)); break; case 1: args<C>(s, l, strf::pack(pk, more, strf::fast_width)); break; default: args<C>(s, l, strf::pack(pk, more)); }
}
template <class C> void printing(Src& s, Log& l) {
    Notes nt(l, nullptr); strf::transcoding_error_notifier_ptr np{&nt}; 
    auto lc = s.pick<strf::lettercase>({strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper});
    auto a = punct<10>(s); auto b = punct<16>(s); auto c = punct<8>(s); with_width<C>(s, l, strf::pack(a, b, c), strf::pack(np, lc));
}
template <class S, class D> void transcoding(Src& s, Log& l, strf::dynamic_transcoder<S, D> t, const char* name, bool only_valid) {
    l.s(name); auto in = cs<S>(s, 50, only_valid); size_t cap = s.size(200); std::unique_ptr<D[]> o(new D[cap + 1]); auto fl = (strf::transcode_flags)s.draw(8); Notes nt(l, in.data());
    auto b = in.data(), e = b + in.size(); auto r = only_valid ? t.unsafe_transcode(b, e, o.get(), o.get() + cap, &nt, fl) : t.transcode(b, e, o.get(), o.get() + cap, &nt, fl);
    l.u(o.get(), (size_t)(r.dst_ptr - o.get())); l.n(r.src_ptr - b); l.n((int)r.stop_reason);
    auto z = only_valid ? t.unsafe_transcode_size(b, e, (std::ptrdiff_t)s.draw(100), fl) : t.transcode_size(b, e, (std::ptrdiff_t)s.draw(100), fl); l.n(z.ssize); l.n(z.src_ptr - b); l.n((int)z.stop_reason);
}
template <class S> void transcode_from(Src& s, Log& l) {
    bool v = s.chance(1, 3);
    switch (s.draw(4)) {
        case 0: transcoding<S, char>(s, l, strf::dynamic_transcoder<S, char>{strf::utf_to_utf<S, char>{}}, "to8", v); break;
        case 1: transcoding<S, char16_t>(s, l, strf::dynamic_transcoder<S, char16_t>{strf::utf_to_utf<S, char16_t>{}}, "to16", v); break;
        case 2: transcoding<S, char32_t>(s, l, strf::dynamic_transcoder<S, char32_t>{strf::utf_to_utf<S, char32_t>{}}, "to32", v); break;
        default: transcoding<S, wchar_t>(s, l, strf::dynamic_transcoder<S, wchar_t>{strf::utf_to_utf<S, wchar_t>{}}, "tow", v); }
}
template <class Cs> void charset(Src& s, Log& l, Cs cs0) {
    using C = typename Cs::code_unit; char32_t c = gen::any_cp(s); l.s("charset"); l.s(cs0.name()); l.n((int)cs0.id()); l.n((long long)cs0.replacement_char()); l.n((long long)cs0.replacement_char_size());
    l.n((long long)cs0.validate(c)); l.n((long long)cs0.encoded_char_size(c)); C b[8] = {}; auto e = cs0.encode_char(b, c); l.u(b, (size_t)(e - b)); C un = sizeof(C) == 1 ? (C)s.draw(256) : (C)gen::any_cp(s); l.n((long long)cs0.decode_unit(un));
    auto t = cs<C>(s, 40); auto r = cs0.count_codepoints(t.data(), t.data() + t.size(), (std::ptrdiff_t)s.draw(50)); l.n((long long)r.count); l.n(r.ptr - t.data());
    auto f = cs0.count_codepoints_fast(t.data(), t.data() + t.size(), (std::ptrdiff_t)s.draw(50)); l.n((long long)f.count); l.n(f.ptr - t.data());
    auto w = strf::std_width_calc.str_width_and_pos(cs0, width(s), t.data(), t.data() + t.size()); l.n(w.width.underlying_value()); l.n(w.ptr - t.data());
    l.n(strf::width_as_fast_u32len.str_width(cs0, width(s), t.data(), t.data() + t.size()).underlying_value()); l.n(strf::width_as_u32len.str_width(cs0, width(s), t.data(), t.data() + t.size()).underlying_value());
    Dst<C> d(l, 64 + s.draw(20)); cs0.encode_fill(d, (std::ptrdiff_t)s.draw(150), c); cs0.write_replacement_char(d); d.finish();
    Notes nt(l, t.data()); auto fl = (strf::transcode_flags)s.draw(8); char32_t o[100]; auto x = cs0.to_u32().transcode(t.data(), t.data() + t.size(), o, o + s.draw(60), &nt, fl); l.u(o, (size_t)(x.dst_ptr - o)); l.n(x.src_ptr - t.data()); l.n((int)x.stop_reason);
    std::basic_string<char32_t> g = scen::cs<char32_t>(s, 20); Notes n2(l, g.data()); C oc[200]; auto y = cs0.from_u32().transcode(g.data(), g.data() + g.size(), oc, oc + s.draw(90), &n2, fl); l.u(oc, (size_t)(y.dst_ptr - oc)); l.n(y.src_ptr - g.data()); l.n((int)y.stop_reason);
    Notes n3(l, t.data()); auto z = cs0.sanitizer().transcode(t.data(), t.data() + t.size(), oc, oc + s.draw(150), &n3, fl); l.u(oc, (size_t)(z.dst_ptr - oc)); l.n(z.src_ptr - t.data()); l.n((int)z.stop_reason);
}
inline void widths(Src& s, Log& l) {
    using W = strf::width_t; auto g = [&]() { switch (s.draw(4)) { case 0: return W::from_underlying((int32_t)(uint32_t)s.draw(0x100000000ull)); case 1: return W((int)s.range(-5, 5)); case 2: return W::from_underlying((int32_t)s.range(-0x20002, 0x20002)); default: return W::from_underlying((int32_t)s.range(-0x800000, 0x800000)); } };
    auto a = g(), b = g(); l.s("width"); l.n(a.floor()); l.n(a.ceil()); l.n(a.round()); l.n(a < b); l.n(a == b); l.n(a <= b); l.n(a > 7); l.n(a.non_negative_floor()); l.n(a.non_negative_ceil());
    l.n(strf::sat_add(a, b).underlying_value()); l.n(strf::sat_sub(a, b).underlying_value()); l.n(strf::sat_mul(a, (int)s.range(-300, 300)).underlying_value());
    auto small = [&]() { return W::from_underlying((int32_t)s.range(-0x400000, 0x400000)); }; auto x = small(), y = small(); l.n((x * y).underlying_value()); if (y != 0) l.n((x / y).underlying_value()); l.n((x + y).underlying_value()); l.n((x - y).underlying_value()); l.n((x * 3).underlying_value()); l.n((x / 3).underlying_value());
    std::string gs; for (size_t i = s.draw(8); i; --i) gs.push_back((char)s.pick<int>({1, 2, 3, 4, 30, 31, 0x7f, -1, 9})); strf::digits_grouping dg(gs.c_str()); l.s("grouping"); l.n(dg.any_separator(s.draw(20) + 1)); l.n(dg.separators_count((unsigned)s.draw(60) + 1));
}
#ifndef STRF_FREESTANDING
template <class C> void hosted(Src& s, Log& l) {
    auto t = cs<C>(s, 80); auto i = gen::integer<int64_t>(s); auto d = gen::f64(s); auto pk = strf::pack(punct<10>(s)); int k = (int)s.draw(5); l.s("hosted"); l.n(k);
    switch (k) {
        case 0: { auto r = strf::to_basic_string<C>.with(pk)(t, !strf::dec(i), d); l.u(r.data(), r.size()); break; }
        case 1: { std::basic_string<C> r = strf::to_basic_string<C>.with(pk).reserve(s.draw(50))(t, i, strf::fmt(t).p(width(s)).set_alignment_format(af(s))); l.u(r.data(), r.size()); break; }
        case 2: { auto r = t; strf::append(r).with(pk)(d, t, i); strf::append(r).reserve_calc().with(pk)(t, i); l.u(r.data(), r.size()); strf::assign(r)(i); l.u(r.data(), r.size()); break; }
        case 3: { auto r = strf::to_basic_string<C>.reserve_calc().with(pk).tr(t, i, d); l.u(r.data(), r.size()); break; }
        default: { FILE* f = tmpfile(); if (!f) { l.s("no tmpfile"); break; } auto r = strf::to<C>(f).with(pk)(t, i, d, t); l.n((long long)r.count); l.n(r.success); fflush(f); rewind(f); std::string x(20000, 0); x.resize(fread(&x[0], 1, x.size(), f)); fclose(f); l.u(x.data(), x.size()); }
    }
}
#endif
template <class C> std::string run(const uint64_t* v, size_t n, bool hosted_only) {
    std::vector<uint64_t> ch(v, v + n); Src s(ch); Log l;
#ifndef STRF_FREESTANDING
    if (hosted_only) { hosted<C>(s, l); return l.t; }
#else
    if (hosted_only) return "SKIP";
#endif
    switch (s.draw(8)) { case 0: transcode_from<C>(s, l); break; case 1: charset(s, l, strf::utf<C>); break; case 2: if (s.coin()) charset(s, l, strf::utf<C>.to_dynamic()); else widths(s, l); break; default: printing<C>(s, l); }
    return l.t;
}
}
#define SCEN(NAME, C) extern "C" __attribute__((visibility("default"))) size_t scen_##NAME(const uint64_t* v, size_t n, int hosted, char* out, size_t cap) { auto t = scen::run<C>(v, n, hosted != 0); if (t.size() > cap) t.resize(cap); memcpy(out, t.data(), t.size()); return t.size(); }
