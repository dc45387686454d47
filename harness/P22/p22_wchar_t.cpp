#include "p22.hpp"
PBT_PROP(streambuf_wchar_t, 3) { p22::sb<wchar_t>(s, cx); }
PBT_PROP(streambuf_printing_wchar_t, 2) { p22::sb_print<wchar_t>(s, cx); }
PBT_PROP(file_wchar_t, 2) { p22::cf_any<wchar_t>(s, cx); }
PBT_PROP(file_printing_wchar_t, 1) { p22::cf_print<wchar_t>(s, cx); }
