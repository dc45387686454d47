#include "p22.hpp"
PBT_PROP(streambuf_char8_t, 3) { p22::sb<char8_t>(s, cx); }
PBT_PROP(streambuf_printing_char8_t, 2) { p22::sb_print<char8_t>(s, cx); }
PBT_PROP(file_char8_t, 2) { p22::cf_any<char8_t>(s, cx); }
PBT_PROP(file_printing_char8_t, 1) { p22::cf_print<char8_t>(s, cx); }
