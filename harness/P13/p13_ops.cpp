#include "P13/p13.hpp"
using namespace p13;
PBT_PROP(static_charsets, 5) { visit_static(s, [&](int k, auto cs) { ops(s, cx, k, cs, "static"); }); }
