#include "P11/p11.hpp"
PBT_PROP(any_two_charsets, 5) { visit_dyn(s, cx, [&](auto p) { pivot_(s, cx, p); }); }
