#include "p32.hpp"
PBT_PROP(history_char32_t_6, 2) { p32::history<char32_t, 6>(s, cx); }
PBT_PROP(history_double_0, 2) { p32::history<double, 0>(s, cx); }
PBT_PROP(history_Pod_0, 2) { p32::history<p32::Pod, 0>(s, cx); }
PBT_PROP(history_Cp_5, 2) { p32::history<const char*, 5>(s, cx); }
