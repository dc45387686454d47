#include "p34.hpp"
PBT_PROP(arguments_char, 6) { p34::args<char>(s, cx); }
PBT_PROP(templates_char, 2) { p34::tmpl<char>(s, cx); }
PBT_PROP(notifications_char, 2) { p34::notes<char>(s, cx); }
