#include "p34.hpp"
PBT_PROP(arguments_wchar_t, 6) { p34::args<wchar_t>(s, cx); }
PBT_PROP(templates_wchar_t, 2) { p34::tmpl<wchar_t>(s, cx); }
PBT_PROP(notifications_wchar_t, 2) { p34::notes<wchar_t>(s, cx); }
