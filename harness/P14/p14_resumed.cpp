#include "P14/p14.hpp"
PBT_PROP(resumed_unchecked, 2) { visit_direct(s, cx, [&](auto p) { resumed_(s, cx, p); }); }
