#include "P29/p29.hpp"
// one generated program, on random operands
PBT_PROP(format_program, 1) {
    auto& v = p29::progs(); auto& p = v[s.draw(v.size())];
    if (cx.want_text) cx.text << p.text << " |";
    p.fn(s, cx);
}
