#include "P11/p11.hpp"
PBT_PROP(resumed, 4) { visit_direct(s, cx, [&](auto p) { resumed_(s, cx, p); }); }
