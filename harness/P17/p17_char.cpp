#include "p17.hpp"
PBT_PROP(ranges_in_char, 3) { p17::statics<char>(s, cx); }
// more elements than 16-bit counters and width_t can count, whose width matters
PBT_PROP(long_ranges, 1) {
    size_t n = s.pick<size_t>({200, 32766, 65535, 70000}) + s.draw(4); std::string sep = s.pick<std::string>({"", ",", ", ", "\xC3\xA9"}), want; size_t cols = sep == "\xC3\xA9" ? 1 : sep.size();
    int kind = (int)s.draw(5); // what an element prints: "" or one digit or one letter
    std::vector<int> v(n, (int)s.draw(10)); std::vector<char> c(n, (char)('a' + s.draw(26))); std::string el = kind == 0 || kind == 4 ? "" : kind == 3 ? std::string(1, c[0]) : std::string(1, (char)('0' + v[0]));
    bool with_sep = s.chance(3, 4); if (!with_sep) sep.clear(), cols = 0;
    for (size_t i = 0; i < n; ++i) { if (i) want += sep; want += el; }
    uint64_t total = (uint64_t)cols * (n - 1) + el.size() * n; strf::width_t w = s.coin() ? strf::width_t((int16_t)s.draw(300)) : s.pick<strf::width_t>({strf::width_max, strf::width_t(32767), strf::width_t(20000)});
    int left = (int)s.draw(3); uint64_t fw = (uint64_t)w.underlying_value(), fill = (total << 16) < fw ? ((fw - (total << 16)) + 0x8000) >> 16 : 0; uint64_t lo = left == 0 ? fill : left == 1 ? 0 : fill / 2;
    want = std::string(left == 0 ? 0 : left == 1 ? fill : lo, '*') + want + std::string(left == 0 ? fill : left == 1 ? 0 : fill - lo, '*');
    if (cx.want_text) cx.text << n << " elements " << pbt::show(el) << " kind " << kind << " separator " << pbt::show(sep) << " width " << w.underlying_value() / 65536.0 << " align " << left; cx.nt();
    auto go = [&](const auto& x) {
        auto p = [&](const auto& y) { if (s.coin()) pbt::check_eq("long range in an aligned join", strf::to_string.reserve_calc()(y), want); else pbt::check_eq("long range in an aligned join", strf::to_string.no_reserve()(y), want); };
        if (left == 0) p(strf::join_left(w, U'*')(x)); else if (left == 1) p(strf::join_right(w, U'*')(x)); else p(strf::join_center(w, U'*')(x)); };
    auto none = [](int) { return ""; }; auto same = [](int x) { return x; }; const char* sp = sep.c_str();
    switch (kind) {
        case 0: if (with_sep) go(strf::separated_range(v, sp, none)); else go(strf::range(v, none)); break;
        case 1: if (with_sep) go(strf::separated_range(v, sp)); else go(strf::range(v)); break;
        case 2: if (with_sep) go(strf::separated_range(v, sp, same)); else go(strf::range(v, same)); break;
        case 3: if (s.coin()) { if (with_sep) go(strf::fmt_separated_range(c, sp)); else go(strf::fmt_range(c)); } else if (with_sep) go(strf::separated_range(c, sp)); else go(strf::range(c)); break;
        default: { std::vector<const char*> e(n, ""); if (s.coin()) { if (with_sep) go(strf::fmt_separated_range(e, sp)); else go(strf::fmt_range(e)); } else if (with_sep) go(strf::separated_range(e, sp)); else go(strf::range(e)); }
    }
}
