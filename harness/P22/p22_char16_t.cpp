#include "p22.hpp"
PBT_PROP(streambuf_char16_t, 3) { p22::sb<char16_t>(s, cx); }
PBT_PROP(streambuf_printing_char16_t, 2) { p22::sb_print<char16_t>(s, cx); }
PBT_PROP(file_char16_t, 2) { p22::cf_any<char16_t>(s, cx); }
PBT_PROP(file_printing_char16_t, 1) { p22::cf_print<char16_t>(s, cx); }
