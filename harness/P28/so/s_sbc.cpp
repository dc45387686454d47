// single-byte charsets: static, and found at run time
#include "P28/so/scen.hpp"
namespace scen {
template <class Cs> void sbc(Src& s, Log& l, Cs c) { switch (s.draw(3)) { case 0: charset(s, l, c); break; case 1: charset(s, l, c.to_dynamic()); break; default: {
    l.s("in"); l.s(c.name()); auto o = cs<char>(s, 40); Notes nt(l, nullptr); strf::transcoding_error_notifier_ptr np{&nt}; auto w = width(s); auto a = af(s); auto ch = gen::any_cp(s); auto i = gen::integer<int>(s); deliver<char>(s, l, strf::pack(c, np), strf::transcode(o.c_str(), strf::utf<char>).p(w).set_alignment_format(a), strf::sani(o.c_str()), ch, !strf::dec(i)); } } }
std::string run_sbc(const uint64_t* v, size_t n) { std::vector<uint64_t> ch(v, v + n); Src s(ch); Log l;
    switch (s.draw(8)) { case 0: sbc(s, l, strf::ascii<char>); break; case 1: sbc(s, l, strf::iso_8859_1<char>); break; case 2: sbc(s, l, strf::iso_8859_3<char>); break; case 3: sbc(s, l, strf::windows_1252<char>); break; case 4: sbc(s, l, strf::iso_8859_8<char>); break; case 5: sbc(s, l, strf::windows_1258<char>); break; case 6: sbc(s, l, strf::iso_8859_7<char>); break; default: sbc(s, l, strf::iso_8859_11<char>); }
    return l.t; }
}
extern "C" __attribute__((visibility("default"))) size_t scen_sbc(const uint64_t* v, size_t n, int, char* out, size_t cap) { auto t = scen::run_sbc(v, n); if (t.size() > cap) t.resize(cap); memcpy(out, t.data(), t.size()); return t.size(); }
