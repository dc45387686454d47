#include "p32.hpp"
PBT_PROP(history_char16_t_6, 2) { p32::history<char16_t, 6>(s, cx); }
PBT_PROP(history_int_2, 2) { p32::history<int, 2>(s, cx); }
PBT_PROP(history_Odd_4, 2) { p32::history<p32::Odd, 4>(s, cx); }
PBT_PROP(discard_char16, 1) { p32::discards<char16_t>(s, cx); }
PBT_PROP(discard_text_char16, 1) { p32::discards_text<char16_t>(s, cx); }
