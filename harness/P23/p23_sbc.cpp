#include "p23.hpp"
PBT_PROP(arguments_single_byte_charset, 3) { auto f = zoo::facets(s); strf::dynamic_charset<char> c = s.pick<strf::dynamic_charset<char>>({strf::iso_8859_3<char>.to_dynamic(), strf::windows_1252<char>.to_dynamic(), strf::ascii<char>.to_dynamic()}); cx.label("single-byte charset"); p23::args<char>(s, cx, strf::pack(f.p10, f.p16, f.p8, f.lc, c)); }
