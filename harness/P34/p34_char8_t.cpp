#include "p34.hpp"
PBT_PROP(arguments_char8_t, 6) { p34::args<char8_t>(s, cx); }
PBT_PROP(templates_char8_t, 2) { p34::tmpl<char8_t>(s, cx); }
PBT_PROP(notifications_char8_t, 2) { p34::notes<char8_t>(s, cx); }
