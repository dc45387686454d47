#include "p32.hpp"
PBT_PROP(history_wchar_t_7, 2) { p32::history<wchar_t, 7>(s, cx); }
PBT_PROP(history_bool_3, 2) { p32::history<bool, 3>(s, cx); }
PBT_PROP(history_En_1, 2) { p32::history<p32::En, 1>(s, cx); }
