#include "p32.hpp"
PBT_PROP(history_char8_t_6, 2) { p32::history<char8_t, 6>(s, cx); }
PBT_PROP(history_std__byte_2, 2) { p32::history<std::byte, 2>(s, cx); }
PBT_PROP(history_long_8, 2) { p32::history<long, 8>(s, cx); }
PBT_PROP(history_Pod_6, 2) { p32::history<p32::Pod, 6>(s, cx); }
