#include "p34.hpp"
PBT_PROP(arguments_char16_t, 6) { p34::args<char16_t>(s, cx); }
PBT_PROP(templates_char16_t, 2) { p34::tmpl<char16_t>(s, cx); }
PBT_PROP(notifications_char16_t, 2) { p34::notes<char16_t>(s, cx); }
