#include "P14/p14.hpp"
PBT_PROP(any_pair_unchecked, 4) { visit_dyn(s, cx, [&](auto p) { any_(s, cx, p); }); }
