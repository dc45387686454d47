// P28: the same generated scenario in every build configuration (shared objects listed in P28_SOS).
#include "pbt.hpp"
#include "P28/abi.hpp"
#include <dlfcn.h>
using namespace pbt;
namespace {
const char* const kinds[] = {"8", "16", "32", "w", "u8", "sbc"};
struct Variant { std::string name; scen_fn f[6]; };
const std::vector<Variant>& variants() {
    static const std::vector<Variant> v = [] {
        std::vector<Variant> r; const char* e = getenv("P28_SOS"); std::stringstream ss(e ? e : ""); std::string item;
        while (std::getline(ss, item, ';')) {
            auto p = item.find('='); Variant x; x.name = item.substr(0, p); void* h = dlopen(item.substr(p + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "%s\n", dlerror()); abort(); }
            for (int i = 0; i < 6; ++i) { x.f[i] = (scen_fn)dlsym(h, (std::string("scen_") + kinds[i]).c_str()); if (!x.f[i]) { fprintf(stderr, "%s\n", dlerror()); abort(); } }
            r.push_back(x);
        }
        if (r.size() < 2) { fprintf(stderr, "P28_SOS lists fewer than two variants\n"); abort(); }
        return r; }();
    return v;
}
struct Init { Init() { if (getenv("P28_SOS")) variants(); } } init;
void scenario(Src& s, Ctx& cx, int kind, bool hosted) {
    std::vector<uint64_t> c(30 + s.size(200)); for (auto& x : c) { switch (s.draw(3)) { case 0: x = s.draw(12); break; case 1: x = s.draw(256); break; default: x = s.draw(0); } }
    static std::vector<char> buf(1 << 18); std::string ref; const char* refname = nullptr; int compared = 0;
    for (auto& v : variants()) {
        size_t n = v.f[kind](c.data(), c.size(), hosted, buf.data(), buf.size()); std::string t(buf.data(), n);
        if (t == "SKIP") continue;
        if (!refname) { ref = t; refname = v.name.c_str(); if (cx.want_text) cx.text << kinds[kind] << " " << ref.substr(0, 300); continue; }
        ++compared;
        if (t != ref) { size_t i = 0; while (i < t.size() && i < ref.size() && t[i] == ref[i]) ++i; size_t b = i > 60 ? i - 60 : 0;
            fail("build '" + v.name + "' gives [" + t.substr(0, 30) + "] ..." + t.substr(b, 200) + "... where build '" + refname + "' gives ..." + ref.substr(b, 200)); }
    }
    cx.nt(compared > 0 && ref.size() > 20); if (compared) cx.label(compared > 6 ? "7+ builds compared" : "fewer builds compared");
}
}
PBT_PROP(units_char, 4) { scenario(s, cx, 0, false); }
PBT_PROP(units_char16, 3) { scenario(s, cx, 1, false); }
PBT_PROP(units_char32, 2) { scenario(s, cx, 2, false); }
PBT_PROP(units_wchar, 2) { scenario(s, cx, 3, false); }
PBT_PROP(units_char8, 2) { scenario(s, cx, 4, false); }
PBT_PROP(single_byte, 3) { scenario(s, cx, 5, false); }
PBT_PROP(hosted_char, 1) { scenario(s, cx, 0, true); }
PBT_PROP(hosted_char16, 1) { scenario(s, cx, 1, true); }
