#include "p02.hpp"
PBT_PROP(grouping_in_dynamic_charset, 3) { int k = (int)s.draw(sbc::count + 1) - 1;
    p02::gen_case<char>(s, cx, k, [k](auto p) { return strf::pack(p, k == tc::UTF ? strf::utf<char>.to_dynamic() : tc::sbc_dyn()[k]); }); }
using namespace intm;
namespace {
template <class N> void queries_of(const N& np, const Grp& g, int n) {
    auto gs = g.groups(n); int seps = (int)gs.size() - 1;
    check_num("thousands_sep_count()", np.thousands_sep_count(n), seps);
    check_num("any_group_separation()", np.any_group_separation(n), seps > 0);
    auto d = np.distribute(n);
    // as the documentation says to use it
    std::vector<int> got{d.highest_group};
    if (d.middle_groups_count) { int m = d.low_groups.highest_group(); d.low_groups.pop_high(); check(m > 0, "the middle groups are empty"); do got.push_back(m); while (--d.middle_groups_count && got.size() < 1000); }
    while (!d.low_groups.empty()) { got.push_back(d.low_groups.highest_group()); d.low_groups.pop_high(); }
    std::vector<int> want(gs.rbegin(), gs.rend());
    if (got != want) { std::string a, b; for (int k : got) a += std::to_string(k) + " "; for (int k : want) b += std::to_string(k) + " "; fail("distribute(" + std::to_string(n) + "): " + a + " expected " + b); }
}
}
PBT_PROP(grouping_queries, 3) {
    Grp g = grouping(s); auto dg = p02::make(s, cx, g); int n = (int)s.pick<uint64_t>({1 + s.draw(12), 1 + s.draw(70), 1 + s.draw(400), 1 + s.draw(100000)});
    if (cx.want_text) cx.text << "grouping" << intm::show(g) << " digits " << n;
    cx.nt(!g.g.empty() && n > g.g[0]);
    int seps = (int)g.groups(n).size() - 1;
    check_num("separators_count()", dg.separators_count(n), seps);
    check_num("separators_count(0)", dg.separators_count(0), 0);
    check_num("any_separator()", dg.any_separator(n), seps > 0);
    check_num("empty()", dg.empty(), g.g.empty());
    if (n <= 1000) { queries_of(strf::numpunct<10>(dg), g, n); queries_of(strf::numpunct<16>(dg), g, n); queries_of(strf::default_numpunct<10>{}, Grp{}, n); queries_of(strf::no_grouping<10>{}, Grp{}, n); }
    // walking the groups with the iterator
    auto it = dg.get_iterator(); int left = n; std::vector<int> got;
    if (s.coin()) it = strf::digits_grouping_iterator(dg);
    auto gs = g.groups(n > 1000 ? 1000 : n); left = n > 1000 ? 1000 : n;
    while (left > 0) {
        if (it.ended()) { got.push_back(left); break; }
        int k = it.current(); check_num("is_last()", it.is_last(), it.is_final() || it.shall_repeat_current());
        if (k >= left) { got.push_back(left); break; }
        got.push_back(k); left -= k;
        if (!it.shall_repeat_current()) it.advance();
    }
    if (got != gs) { std::string a, b; for (int k : got) a += std::to_string(k) + " "; for (int k : gs) b += std::to_string(k) + " "; fail("digits_grouping_iterator: " + a + " expected " + b); }
    // other descriptions of the same grouping
    auto other = p02::make(s, cx, g);
    for (int d : {1, 2, n, (int)(1 + s.draw(200))}) check_num("separators_count() of the same grouping, otherwise described", other.separators_count(d), dg.separators_count(d));
}
PBT_PROP(creator_and_accessors, 1) {
    strf::digits_grouping_creator c; bool bad = false; Grp g; size_t n = s.draw(9);
    for (size_t i = 0; i < n; ++i) { long k = s.chance(1, 8) ? s.pick<long>({0, 32, -1, 127, 1000000, -2147483648L}) : (long)(1 + s.draw(31)); if (k < 1 || k > 31 || g.g.size() == 6) bad = true; else g.g.push_back((int)k);
        if (s.coin()) c.push_high((unsigned)k); else c.push_high((int)k); check_num("failed()", c.failed(), bad); if (cx.want_text) cx.text << " " << k; if (bad) break; }
    cx.nt(bad || n > 1); cx.label(bad ? "bad" : "good");
    g.repeat = s.coin(); if (bad || g.g.empty()) { g.g.clear(); g.repeat = false; }
    bool rep = g.repeat || (g.g.empty() && s.coin());
    auto d = rep ? c.finish() : c.finish_no_more_sep();
    check_num("empty()", d.empty(), g.g.empty());
    for (int k : {1, 2, 3, 10, 64, (int)(1 + s.draw(300))}) check_num("separators_count()", d.separators_count(k), (int)g.groups(k).size() - 1);
    if (!bad && !g.g.empty()) { // equality
        bool merged = false; if (g.repeat && g.g.size() > 1 && g.g[g.g.size() - 2] == g.g.back()) merged = true;
        if (!merged) check(d == by_ints(g) && !(d != by_ints(g)), "the groupings made by the creator and the constructor differ");
        Grp h = g; h.g[s.draw(h.g.size())] ^= 1; if (h.g != g.g) { bool pos = true; for (int k : h.g) pos = pos && k > 0; if (pos && !merged) check(by_ints(h) != by_ints(g) && !(by_ints(h) == by_ints(g)), "different groupings are equal"); } }
    char32_t sep = gen::any_cp(s), pt = gen::any_cp(s);
    auto np = strf::numpunct<10>(d).thousands_sep(sep).decimal_point(pt);
    check(np.thousands_sep() == sep && np.decimal_point() == pt && np.grouping() == d, "numpunct accessors");
    check(np == np && !(np != np), "numpunct equality"); auto nq = np; nq.thousands_sep(sep ^ 1); check(np != nq, "numpunct inequality"); auto nr = np; nr.grouping(strf::digits_grouping(7, 7, 7, -1)); check(bad || g.repeat || g.g != std::vector<int>{7, 7, 7} ? !(nr == np) : nr == np, "numpunct inequality (grouping)"); auto no = np; no.decimal_point(pt ^ 1); check(np != no && !(np == no), "numpunct inequality (decimal point)");
    strf::no_grouping<10> ng; check(ng.decimal_point() == U'.', "default decimal point of no_grouping"); check(ng == strf::no_grouping<10>{}, "no_grouping equality");
    ng.decimal_point(pt); check(ng.decimal_point() == pt, "no_grouping::decimal_point() does not return what was set"); check(((strf::numpunct<10>)ng).decimal_point() == pt, "numpunct converted from no_grouping");
    check_eq("no_grouping decimal point", strf::to_u32string.with(strf::no_grouping<10>{}.decimal_point(gen::is_scalar(pt) ? pt : U'x'))(!strf::fixed(1234.5)), std::u32string(U"1234") + (gen::is_scalar(pt) ? pt : U'x') + U"5");
}
