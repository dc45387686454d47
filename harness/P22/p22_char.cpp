#include "p22.hpp"
PBT_PROP(streambuf_char, 3) { p22::sb<char>(s, cx); }
PBT_PROP(streambuf_printing_char, 2) { p22::sb_print<char>(s, cx); }
PBT_PROP(file_char, 2) { p22::cf_any<char>(s, cx); }
PBT_PROP(file_printing_char, 1) { p22::cf_print<char>(s, cx); }
