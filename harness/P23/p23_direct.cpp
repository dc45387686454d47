#include "p23.hpp"
PBT_PROP(direct_char, 1) { p23::direct<char>(s, cx); }
PBT_PROP(direct_char8_t, 1) { p23::direct<char8_t>(s, cx); }
PBT_PROP(direct_char16_t, 1) { p23::direct<char16_t>(s, cx); }
PBT_PROP(direct_char32_t, 1) { p23::direct<char32_t>(s, cx); }
PBT_PROP(direct_wchar_t, 1) { p23::direct<wchar_t>(s, cx); }
