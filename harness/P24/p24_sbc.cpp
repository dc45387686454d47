#include "p24.hpp"
PBT_PROP(measure_single_byte_charset, 2) { auto f = zoo::facets(s); auto aw = any_width(s, cx); struct X { strf::dynamic_charset<char> c; const char* n; }; auto x = s.pick<X>({{strf::iso_8859_3<char>.to_dynamic(), "ISO-8859-3"}, {strf::windows_1252<char>.to_dynamic(), "windows-1252"}, {strf::ascii<char>.to_dynamic(), "ASCII"}}); if (cx.want_text) cx.text << x.n;
    int cs = 0; for (int i = 0; i < (int)sbc::count; ++i) if (std::string(sbc::names[i]) == x.c.name()) cs = i; p24::args<char>(s, cx, strf::pack(f.p10, f.p16, f.p8, f.lc, aw, x.c), cs, aw.k, false); }
