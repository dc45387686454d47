#include "p32.hpp"
PBT_PROP(history_char_6, 2) { p32::history<char, 6>(s, cx); }
PBT_PROP(history_unsigned_char_1, 2) { p32::history<unsigned char, 1>(s, cx); }
PBT_PROP(history_Pod_3, 2) { p32::history<p32::Pod, 3>(s, cx); }
PBT_PROP(discard_char, 1) { p32::discards<char>(s, cx); }
PBT_PROP(discard_pod, 1) { p32::discards<p32::Pod>(s, cx); }
PBT_PROP(discard_text_char, 1) { p32::discards_text<char>(s, cx); }
