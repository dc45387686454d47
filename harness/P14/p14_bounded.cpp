#include "P14/p14.hpp"
PBT_PROP(bounded_unchecked, 5) { visit_direct(s, cx, [&](auto p) { bounded_(s, cx, p); }); }
