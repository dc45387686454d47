// A width calculator facet that delegates at run time: one type for all calculators.
#ifndef VERIF_ANYW_HPP
#define VERIF_ANYW_HPP
#include <strf.hpp>
#include "pbt.hpp"
struct AnyWidth {
    using category = strf::width_calculator_c;
    int k = 0; // 0: std_width_calc, 1: fast_width, 2: width_as_fast_u32len, 3: width_as_u32len, 4: odd (see below)
    static const char* name(int k) { static const char* n[] = {"std_width_calc", "fast_width", "width_as_fast_u32len", "width_as_u32len", "1.25 per unit"}; return n[k]; }
    // k == 4: a user-defined measure with fractional widths: every unit is 1.25 wide
    template <class Cs> strf::width_t char_width(Cs cs, typename Cs::code_unit c) const {
        switch (k) { case 1: return strf::fast_width.char_width(cs, c); case 2: return strf::width_as_fast_u32len.char_width(cs, c); case 3: return strf::width_as_u32len.char_width(cs, c);
            case 4: return strf::width_t::from_underlying(0x14000); default: return strf::std_width_calc.char_width(cs, c); }
    }
    template <class Cs> strf::width_t str_width(Cs cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const {
        switch (k) { case 1: return strf::fast_width.str_width(cs, lim, b, e); case 2: return strf::width_as_fast_u32len.str_width(cs, lim, b, e); case 3: return strf::width_as_u32len.str_width(cs, lim, b, e);
            case 4: { int64_t w = (int64_t)(e - b) * 0x14000; return w < lim.underlying_value() ? strf::width_t::from_underlying((int32_t)w) : lim; } default: return strf::std_width_calc.str_width(cs, lim, b, e); }
    }
    template <class Cs> auto str_width_and_pos(Cs cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const -> strf::width_and_ptr<typename Cs::code_unit> {
        switch (k) { case 1: return strf::fast_width.str_width_and_pos(cs, lim, b, e); case 2: return strf::width_as_fast_u32len.str_width_and_pos(cs, lim, b, e); case 3: return strf::width_as_u32len.str_width_and_pos(cs, lim, b, e);
            case 4: { int64_t n = lim.underlying_value() <= 0 ? 0 : lim.underlying_value() / 0x14000; if (n > e - b) n = e - b; return {strf::width_t::from_underlying((int32_t)(n * 0x14000)), b + n}; } default: return strf::std_width_calc.str_width_and_pos(cs, lim, b, e); }
    }
};
inline AnyWidth any_width(pbt::Src& s, pbt::Ctx& cx) { AnyWidth w; w.k = s.coin() ? 0 : (int)s.draw(5); if (cx.want_text) cx.text << " width=" << AnyWidth::name(w.k); return w; }
#endif
