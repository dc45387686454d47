#include "p33.hpp"
PBT_PROP(printers_single_byte_charset, 3) { auto f = zoo::facets(s); auto aw = any_width(s, cx); int k = (int)s.draw(sbc::count + 1); auto c = k == (int)sbc::count ? strf::utf<char>.to_dynamic() : p33::sbc_dyn()[k]; if (cx.want_text) cx.text << c.name(); cx.label(k == (int)sbc::count ? "the same charset" : "another charset");
    if (s.coin()) p33::args<char>(s, cx, strf::pack(f.p10, f.p16, f.p8, f.lc, aw, c)); else { auto& t = *new std::string(gen::any_text<char>(s, 60)); std::unique_ptr<std::string> keep(&t); if (cx.want_text) cx.text << pbt::show(t); zoo::Opt o; auto pk = strf::pack(f.lc, aw, c);
        // foreign text of a charset known at run time only
        int j = s.coin() ? k : (int)s.draw(sbc::count); auto from = j == (int)sbc::count ? strf::utf<char>.to_dynamic() : p33::sbc_dyn()[j]; auto al = zoo::af(s, o, cx); auto w = zoo::width(s, 80);
        switch (s.draw(6)) { case 0: p33::value<char>(s, cx, pk, strf::transcode(t, from)); break; case 1: p33::value<char>(s, cx, pk, strf::transcode(t, from).set_alignment_format(al)); break; case 2: p33::value<char>(s, cx, pk, strf::transcode(t, from).p(w)); break;
            case 3: p33::value<char>(s, cx, pk, strf::transcode(t, from).p(w).set_alignment_format(al)); break; case 4: p33::value<char>(s, cx, pk, strf::sani(t, from).set_alignment_format(al)); break; default: p33::value<char>(s, cx, pk, strf::join(strf::sani(t, from).p(w), strf::transcode(t, from))); } } }
