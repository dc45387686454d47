#include "p34.hpp"
namespace p34 {
template <class T, class S, class D> void expect(const char* what, const T& t, strf::transcode_f<S, D> f, strf::transcode_size_f<S> z) { if (t.transcode_func() != f) fail(std::string(what) + (f ? t.transcode_func() ? ": another function was found" : ": nothing was found" : ": something was found")); if (t.transcode_size_func() != z) fail(std::string(what) + ": another size function"); }
template <class D> auto utf_of(bool) { return strf::utf<D>; }
// all four combinations of static and dynamic
template <class A, class B, class F> void forms(Src& s, Ctx& cx, A a, B b, F&& f) { switch (s.draw(4)) { case 0: cx.label("static to static"); f(a, b); break; case 1: cx.label("static to dynamic"); f(a, b.to_dynamic()); break; case 2: cx.label("dynamic to static"); f(a.to_dynamic(), b); break; default: cx.label("dynamic to dynamic"); f(a.to_dynamic(), b.to_dynamic()); } }
template <class S, class T, class F> void convert(Src& s, const char* what, const T& t, F conv, const std::basic_string<S>& in) { using D = std::remove_pointer_t<decltype(conv((const S*)0, (const S*)0, nullptr, nullptr, nullptr, strf::transcode_flags::none).dst_ptr)>; std::vector<D> a(400), b(400); auto fl = (strf::transcode_flags)s.draw(8); size_t cap = s.draw(300);
    auto x = t.transcode(in.data(), in.data() + in.size(), a.data(), a.data() + cap, nullptr, fl), y = conv(in.data(), in.data() + in.size(), b.data(), b.data() + cap, nullptr, fl); if (a != b || x.src_ptr != y.src_ptr || x.dst_ptr - a.data() != y.dst_ptr - b.data() || x.stop_reason != y.stop_reason) fail(std::string(what) + ": the transcoder that was found converts differently"); }
template <class C, int V, class D> void with_utf(Src& s, Ctx& cx) { using M = Mine<C, V>; using U = Utf<D>;
    forms(s, cx, Static<C, V>{}, strf::utf<D>, [&](auto a, auto b) { auto t = strf::find_transcoder(a, b); bool has = Lay<V>::has_to; using X = Conv<M, U>; bool st = V == 3 && std::is_same<D, char16_t>::value && !std::is_same<decltype(a), strf::dynamic_charset<C>>::value;
        if (has || st) { expect("from the charset", t, X::run, X::size); auto in = own_text<V, C>(s, 20, false); convert<C>(s, "from the charset", t, X::run, in); } else expect("from the charset", t, strf::transcode_f<C, D>(nullptr), strf::transcode_size_f<C>(nullptr)); cx.nt(has); });
    forms(s, cx, strf::utf<D>, Static<C, V>{}, [&](auto a, auto b) { auto t = strf::find_transcoder(a, b); using X = Conv<U, M>; if (Lay<V>::has_from) { expect("to the charset", t, X::run, X::size); convert<D>(s, "to the charset", t, X::run, gen::any_text<D>(s, 30)); } else expect("to the charset", t, strf::transcode_f<D, C>(nullptr), strf::transcode_size_f<D>(nullptr)); cx.nt(Lay<V>::has_from); });
    forms(s, cx, Static<C, V>{}, strf::utf<char32_t>, [&](auto a, auto b) { auto t = strf::find_transcoder(a, b); using X = Conv<M, Utf<char32_t>>; expect("to UTF-32", t, X::run, X::size); });
    forms(s, cx, strf::utf<char32_t>, Static<C, V>{}, [&](auto a, auto b) { auto t = strf::find_transcoder(a, b); using X = Conv<Utf<char32_t>, M>; expect("from UTF-32", t, X::run, X::size); });
    forms(s, cx, Static<C, V>{}, Static<C, V>{}, [&](auto a, auto b) { auto t = strf::find_transcoder(a, b); using X = Conv<M, M>; expect("to itself", t, X::run, X::size); });
    forms(s, cx, Static<C, V>{}, Static<C, (V + 1) % 4>{}, [&](auto a, auto b) { auto t = strf::find_transcoder(a, b); expect("to a stranger", t, strf::transcode_f<C, C>(nullptr), strf::transcode_size_f<C>(nullptr)); });
    // conversion through UTF-32 is always possible
    auto in = own_text<V, C>(s, 20, false); Static<C, V> a; strf::utf_t<D> b; auto fl = strf::transcode_flags::none; std::vector<D> o(600); std::basic_string<D> want; for (auto& i : dec<V>(in.data(), in.size(), false)) gen::enc(want, i.cp);
    auto z = strf::decode_encode_size<C>(a.to_u32().transcode_func(), b.from_u32().transcode_size_func(), in.data(), in.data() + in.size(), 600, fl); check_num("decode_encode_size", z.ssize, (std::ptrdiff_t)want.size());
    auto r = strf::decode_encode<C, D>(a.to_u32().transcode_func(), b.from_u32().transcode_func(), in.data(), in.data() + in.size(), o.data(), o.data() + o.size(), nullptr, fl); check_eq("decode_encode", std::basic_string<D>(o.data(), r.dst_ptr), want); }
template <class C, int V> void any_utf(Src& s, Ctx& cx) { switch (s.draw(4)) { case 0: with_utf<C, V, char>(s, cx); break; case 1: with_utf<C, V, char8_t>(s, cx); break; case 2: with_utf<C, V, char16_t>(s, cx); break; default: with_utf<C, V, wchar_t>(s, cx); } }
template <class C> void find(Src& s, Ctx& cx) { switch (s.draw(4)) { case 0: any_utf<C, 0>(s, cx); break; case 1: any_utf<C, 1>(s, cx); break; case 2: any_utf<C, 2>(s, cx); break; default: any_utf<C, 3>(s, cx); } }
}
PBT_PROP(lookups, 4) { switch (s.draw(4)) { case 0: p34::find<char>(s, cx); break; case 1: p34::find<char8_t>(s, cx); break; case 2: p34::find<char16_t>(s, cx); break; default: p34::find<wchar_t>(s, cx); } }
