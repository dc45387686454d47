#include "p35.hpp"
#include "common/sbc_tables.hpp"
namespace p35 {
using namespace tc;
static void sbc_job(Src& s, Ctx& cx, Case& cs) {
    auto pool = std::make_shared<std::list<std::string>>(); cs.keep.push_back(pool); pool->push_back(gen::any_text<char>(s, 100)); const std::string& t = pool->back();
    auto f = zoo::facets(s); auto aw = any_width(s, cx); int k = (int)s.draw(sbc::count), k2 = (int)s.draw(sbc::count); auto c = sbc_dyn()[k], from = sbc_dyn()[k2]; if (cx.want_text) cx.text << "\n  " << cs.jobs.size() << ": " << from.name() << " to " << c.name() << " " << show(t);
    auto mk = [&] { return strf::pack(f.lc, aw, c, strf::transcoding_error_notifier_ptr{&meanwhile}); }; auto pk = std::make_shared<const decltype(mk())>(mk()); zoo::Opt o; auto al = zoo::af(s, o, cx);
    switch (s.draw(4)) { case 0: add<char>(s, cx, cs, pk, strf::transcode(t, from)); break; case 1: add<char>(s, cx, cs, pk, strf::sani(t, from).set_alignment_format(al)); break; case 2: add<char>(s, cx, cs, pk, strf::transcode(t, strf::utf<char>.to_dynamic()).p(zoo::width(s, 80))); break; default: add<char>(s, cx, cs, pk, strf::join(strf::transcode(t, from), gen::f64(s)).set_alignment_format(al)); }
}
}
P35_JOBS(j_sbc, p35::sbc_job)
