#include "p21.hpp"
PBT_PROP(histories_other_traits, 1) { p21::quota = -1; if (s.coin()) p21::makers<p21::Str2<char>>(s, cx); else p21::makers<p21::Str2<wchar_t>>(s, cx); }
PBT_PROP(policies_other_traits, 1) { p21::quota = -1; p21::policies<p21::Str2<char>>(s, cx); }
PBT_PROP(out_of_memory, 2) { if (s.coin()) p21::out_of_memory<char>(s, cx); else p21::out_of_memory<char16_t>(s, cx); }
