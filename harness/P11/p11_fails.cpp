#include "P11/p11.hpp"
PBT_PROP(destination_that_fails, 4) { visit_dyn(s, cx, [&](auto p) { failing_(s, cx, p); }); }
