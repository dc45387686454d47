#include "P11/p11.hpp"
PBT_PROP(bounded, 5) { visit_direct(s, cx, [&](auto p) { bounded_(s, cx, p); }); }
