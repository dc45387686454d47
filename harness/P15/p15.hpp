// P15: strings of a foreign encoding, printed.
#include "common/strm.hpp"
namespace p15 {
using namespace strm;
// what was printed against the model
template <class S, class D, class Pack, class A>
void print_it(Src& s, const char* what, const Pack& pk, const Spec& sp, const A& arg, const Ref<D>& ref, Recorder<S>& rec, bool direct) {
    Chunked<D> d(chunk_sizes(s));
    apply(sp, arg, [&](const auto& a) { strf::to(d).with(pk)(a); });
    check_eq(what, d.finish(), ref.out);
    if (direct) { if (!same_notes(rec.notes, ref.notes, true)) fail(std::string(what) + ": notified " + show_notes(rec.notes) + " expected " + show_notes(ref.notes)); }
    else pivot_notes(what, rec.notes, ref.notes, ref.notes);
}
// dyn: the facets are dynamic charsets; dcs/fcs: charset numbers of facets charset_c<D> / charset_c<char>
template <class S, class D, bool Dyn, class Pack>
void with_source(Src& s, Ctx& cx, const AnyWidth& w, const std::function<const Pack&(Recorder<S>&)>& mk, int dcs, int fcs) {
    int pol = (int)s.range(1, 3);
    int src = (int)s.draw(3); // 0: the facet's, 1: explicit static, 2: explicit dynamic
    if (Dyn && src == 1) src = 2;
    if (!Dyn && src == 2 && !std::is_same<S, char>::value && !std::is_same<S, D>::value) src = 1;
    int scs = src == 0 ? (std::is_same<S, char>::value ? fcs : std::is_same<S, D>::value ? dcs : UTF) : src == 2 && std::is_same<S, char>::value && s.coin() ? (int)s.draw(sbc::count) : UTF;
    bool latin3 = false;
    if constexpr (std::is_same<S, char>::value && !Dyn) if (src == 1 && s.coin()) { latin3 = true; for (int i = 0; i < sbc::count; ++i) if (std::string(sbc::names[i]) == "ISO-8859-3") scs = i; }
    bool unsafe = pol == POL_UNSAFE;
    auto in = text_avoiding<S>(s, scs, dcs, s.chance(1, 8) ? 160 : 24, unsafe);
    if (cx.want_text) cx.text << " " << uname<S>::v << " " << cs_name<S>(scs) << (src == 0 ? "(facet)" : src == 1 ? "(static)" : "(dynamic)") << " -> " << uname<D>::v << " " << cs_name<D>(dcs) << (Dyn ? "(dynamic)" : "") << (pol == POL_SANI ? " sani " : pol == POL_UNSAFE ? " unsafe " : " transcode ") << show(in);
    Spec sp = spec(s, cx, 40);
    Exact<S> x(in);
    if (unsafe && sp.p) { // some measures cut inside of a character: then the text to transcode is not valid
        size_t n = cut<S>(w, scs, sp, x.b(), x.e()).first; for (auto& it : tc::decode(scs, x.b(), n, false)) if (!it.ok) { sp.p = false; break; } }
    Recorder<S> rec(x.b(), in.size());
    const Pack& pk = mk(rec);
    auto ref = print<S, D>(w, pol, scs, dcs, sp, x.b(), x.e());
    std::basic_string_view<S> sv(x.b(), in.size());
    bool same = scs == dcs && sizeof(S) == sizeof(D);
    cx.nt(!in.empty() && (!ref.notes.empty() || !same || pol == POL_SANI)); if (!ref.notes.empty()) cx.label("errors"); if (same) cx.label("same charset"); if (!direct_exists<S, D>(scs, dcs)) cx.label("through UTF-32");
    auto go = [&](const auto& a) { print_it<S, D>(s, pol == POL_SANI ? "sani" : unsafe ? "unsafe_transcode" : "transcode", pk, sp, a, ref, rec, direct_exists<S, D>(scs, dcs)); };
    auto with_cs = [&](auto cs) { switch (pol) { case POL_TRANSCODE: go(strf::transcode(sv, cs)); break; case POL_SANI: go(strf::sani(sv, cs)); break; default: go(strf::unsafe_transcode(sv, cs)); } };
    if (src == 0) { switch (pol) { case POL_TRANSCODE: go(strf::transcode(sv)); break; case POL_SANI: go(strf::sani(sv)); break; default: go(strf::unsafe_transcode(sv)); } return; }
    if constexpr (!Dyn) {
        if constexpr (std::is_same<S, char>::value) if (latin3) { with_cs(strf::iso_8859_3<char>); return; }
        if (src == 1) { with_cs(strf::utf<S>); return; }
    }
    if constexpr (Dyn || std::is_same<S, char>::value || std::is_same<S, D>::value) {
        if constexpr (std::is_same<S, char>::value) if (scs != UTF) { with_cs(sbc_dyn()[scs]); return; }
        with_cs(strf::utf<S>.to_dynamic());
    }
}
template <class D> void statics(Src& s, Ctx& cx) {
    AnyWidth w = any_width(s, cx);
    visit_unit(s, [&](auto* q) { using S = std::remove_pointer_t<decltype(q)>;
        auto mk = [&](Recorder<S>& r) { return strf::pack(w, strf::transcoding_error_notifier_ptr{&r}); };
        using Pack = decltype(mk(std::declval<Recorder<S>&>())); std::unique_ptr<Pack> keep;
        with_source<S, D, false, Pack>(s, cx, w, [&](Recorder<S>& r) -> const Pack& { keep.reset(new Pack(mk(r))); return *keep; }, UTF, UTF); });
}
template <class S, class D> void dynamics_from(Src& s, Ctx& cx) {
    AnyWidth w = any_width(s, cx);
    int fcs = s.coin() ? (int)s.draw(sbc::count) : UTF; auto dc = fcs == UTF ? strf::utf<char>.to_dynamic() : sbc_dyn()[fcs];
    if constexpr (std::is_same<D, char>::value) {
        auto mk = [&](Recorder<S>& r) { return strf::pack(w, strf::transcoding_error_notifier_ptr{&r}, dc); };
        using Pack = decltype(mk(std::declval<Recorder<S>&>())); std::unique_ptr<Pack> keep;
        with_source<S, D, true, Pack>(s, cx, w, [&](Recorder<S>& r) -> const Pack& { keep.reset(new Pack(mk(r))); return *keep; }, fcs, fcs);
    } else {
        auto mk = [&](Recorder<S>& r) { return strf::pack(w, strf::transcoding_error_notifier_ptr{&r}, dc, strf::utf<D>.to_dynamic()); };
        using Pack = decltype(mk(std::declval<Recorder<S>&>())); std::unique_ptr<Pack> keep;
        with_source<S, D, true, Pack>(s, cx, w, [&](Recorder<S>& r) -> const Pack& { keep.reset(new Pack(mk(r))); return *keep; }, UTF, fcs);
    }
}
template <class D> void dynamics(Src& s, Ctx& cx) {
    switch (s.draw(3)) { case 0: dynamics_from<char, D>(s, cx); break; case 1: dynamics_from<char32_t, D>(s, cx); break; default: dynamics_from<D, D>(s, cx); }
}
}
#define P15(D) PBT_PROP(statically_known_##D, 3) { p15::statics<D>(s, cx); } PBT_PROP(dynamic_##D, 2) { p15::dynamics<D>(s, cx); }
