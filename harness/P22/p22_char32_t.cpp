#include "p22.hpp"
PBT_PROP(streambuf_char32_t, 3) { p22::sb<char32_t>(s, cx); }
PBT_PROP(streambuf_printing_char32_t, 2) { p22::sb_print<char32_t>(s, cx); }
PBT_PROP(file_char32_t, 2) { p22::cf_any<char32_t>(s, cx); }
PBT_PROP(file_printing_char32_t, 1) { p22::cf_print<char32_t>(s, cx); }
