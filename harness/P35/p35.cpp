#include "p35_jobs.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <dlfcn.h>
#include <strf.hpp>
#define DECL(N) void N(pbt::Src&, pbt::Ctx&, p35::Case&);
DECL(j_char) DECL(j_char8_t) DECL(j_char16_t) DECL(j_char32_t) DECL(j_wchar_t) DECL(j_more_char) DECL(j_more_char16_t) DECL(j_sbc)
namespace p35 { thread_local Hook* hook = nullptr; }
// ---- reports of ThreadSanitizer --------------------------------------------------
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define P35_TSAN 1
#endif
#endif
struct Race { void* addr; int size; void* pc[2][12]; };
static Race races[64]; static int nraces = 0; static int ndiscarded = 0;
#if P35_TSAN
extern "C" int __tsan_get_report_mop(void*, uintptr_t, int*, void**, int*, int*, int*, void**, uintptr_t);
extern "C" int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, uintptr_t);
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
extern "C" const char* __tsan_default_options() { return "symbolize=0:log_path=/dev/null:suppress_equal_stacks=0:suppress_equal_addresses=0:halt_on_error=0:exitcode=0:report_signal_unsafe=0"; }
template <class C> static bool discarded(const void* a) { return a >= (const void*)strf::garbage_buff<C>() && a < (const void*)strf::garbage_buff_end<C>(); }
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void* r) {
    const char* d = nullptr; int n = 0, st = 0, mops = 0, locs = 0, mu = 0, th = 0, ut = 0; void* sl[2]; __tsan_get_report_data(r, &d, &n, &st, &mops, &locs, &mu, &th, &ut, sl, 0);
    Race x{}; for (int i = 0; i < mops && i < 2; ++i) { int tid, w, atomic; __tsan_get_report_mop(r, i, &tid, &x.addr, &x.size, &w, &atomic, x.pc[i], 12); }
    // what does not fit is written into a static array that nobody reads
    if (discarded<char>(x.addr) || discarded<char8_t>(x.addr) || discarded<char16_t>(x.addr) || discarded<char32_t>(x.addr) || discarded<wchar_t>(x.addr)) { ++ndiscarded; return; }
    if (nraces < 64) races[nraces] = x;
    ++nraces;
}
static std::string describe(const Race& r) {
    std::string t = "data race (" + std::to_string(r.size) + " bytes)"; for (int i = 0; i < 2; ++i) { t += i ? "; and from" : " from"; for (int k = 0; k < 4 && r.pc[i][k]; ++k) { Dl_info di; char b[32]; snprintf(b, sizeof b, " +0x%zx", dladdr(r.pc[i][k], &di) ? (size_t)((char*)r.pc[i][k] - (char*)di.dli_fbase) : 0); t += b; } } return t;
}
#else
static std::string describe(const Race&) { return ""; }
#endif
namespace p35 {
static void jobs(Src& s, Ctx& cx, Case& c, size_t n) {
    for (size_t i = 0; i < n; ++i) switch (s.draw(11)) { case 0: j_char(s, cx, c); break; case 1: j_char8_t(s, cx, c); break; case 2: j_char16_t(s, cx, c); break; case 3: j_char32_t(s, cx, c); break; case 4: j_wchar_t(s, cx, c); break; case 5: case 6: j_more_char(s, cx, c); break; case 7: j_more_char16_t(s, cx, c); break; case 8: j_sbc(s, cx, c); break; default: j_char(s, cx, c); }
}
static std::string alone(Case& c) { for (auto& j : c.jobs) { size_t n = j.alone(); (void)n; j.len = n; } return ""; }
// ---- inside one another ------------------------------------------------------------
struct Nest : Hook { Case& c; Src& s; int depth = 0; int left; int nested = 0; std::string err;
    Nest(Case& c_, Src& s_, int n) : c(c_), s(s_), left(n) {}
    void one(size_t k) { ++depth; auto e = c.jobs[k].run(); --depth; if (!e.empty() && err.empty()) err = std::string(depth ? "inside another print" : "with other prints inside") + ", job " + std::to_string(k) + ": " + e; }
    void now() override { if (depth < 4 && left > 0 && s.coin()) { --left; ++nested; one(s.draw(c.jobs.size())); } } };
struct Set { Set(Hook* h) { hook = h; } ~Set() { hook = nullptr; } };
PBT_PROP(nested, 3) {
    Case c; jobs(s, cx, c, 1 + s.draw(4)); alone(c); Nest n(c, s, 2 + (int)s.draw(12)); { Set h(&n); for (size_t i = 0; i < c.jobs.size(); ++i) n.one(i); }
    if (!n.err.empty()) fail(n.err); cx.nt(n.nested > 0); cx.label(n.nested > 3 ? "4 or more inside others" : n.nested ? "1 to 3 inside others" : "none inside others");
}
// ---- taking turns -------------------------------------------------------------------
struct Turns { std::mutex m; std::condition_variable cv; size_t cur = 0; std::vector<char> live; Src* s; int switches = 0, budget = 60;
    void pass(size_t me, std::unique_lock<std::mutex>& l, bool done) {
        if (done) live[me] = 0; size_t k = s->draw(live.size()), n = live.size(); if (budget <= 0 && !done) return; for (size_t i = 0; i < n && !live[k]; ++i) k = (k + 1) % n; 
        if (k != me) { ++switches; --budget; cur = k; cv.notify_all(); if (!done) cv.wait(l, [&] { return cur == me; }); } } };
struct Turn : Hook { Turns& t; size_t me; std::unique_lock<std::mutex>& l; Turn(Turns& t_, size_t i, std::unique_lock<std::mutex>& l_) : t(t_), me(i), l(l_) {} void now() override { t.pass(me, l, false); } };
PBT_PROP(taking_turns, 3) {
    Case c; size_t nt = 2 + s.draw(3); jobs(s, cx, c, 1 + s.draw(4)); std::vector<std::vector<size_t>> todo(nt); for (auto& v : todo) for (size_t i = 1 + s.draw(3); i; --i) v.push_back(s.draw(c.jobs.size()));
    alone(c); Turns t; t.live.assign(nt, 1); t.s = &s; t.cur = s.draw(nt); std::vector<std::string> errs(nt); std::vector<std::thread> th;
    for (size_t i = 0; i < nt; ++i) th.emplace_back([&, i] { std::unique_lock<std::mutex> l(t.m); t.cv.wait(l, [&] { return t.cur == i; }); { Turn h(t, i, l); Set set(&h); for (size_t k : todo[i]) { auto e = c.jobs[k].run(); if (!e.empty() && errs[i].empty()) errs[i] = "job " + std::to_string(k) + ": " + e; } } t.pass(i, l, true); });
    for (auto& x : th) x.join();
    for (size_t i = 0; i < nt; ++i) if (!errs[i].empty()) fail("threads taking turns, thread " + std::to_string(i) + ", " + errs[i]);
    if (nraces) fail(describe(races[0])); 
    cx.nt(t.switches >= (int)nt); cx.label(t.switches > 10 ? "more than 10 switches" : "up to 10 switches");
}
// ---- freely -------------------------------------------------------------------------
PBT_PROP(running_freely, 4) {
    Case c; size_t nt = 2 + s.draw(3); jobs(s, cx, c, 1 + s.draw(4)); std::vector<std::vector<size_t>> todo(nt); for (auto& v : todo) for (size_t i = 1 + s.draw(4); i; --i) v.push_back(s.draw(c.jobs.size()));
    int n0 = nraces, d0 = ndiscarded; std::vector<std::vector<std::string>> errs(nt); bool cold = s.chance(2, 3); if (!cold) alone(c);
    // cold: what is set up on the first use is set up by the threads; the outputs are only compared the second time
    for (int phase = cold ? 0 : 1; phase < 2; ++phase) { if (cold && phase) alone(c); for (auto& e : errs) e.clear();
    std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < nt; ++i) th.emplace_back([&, i] { ready.fetch_add(1); while (ready.load() < nt) std::this_thread::yield(); for (int r = 0; r < 2; ++r) for (size_t k : todo[i]) { auto e = c.jobs[k].run(); if (!e.empty()) errs[i].push_back("job " + std::to_string(k) + ": " + e); } });
    for (auto& x : th) x.join(); }
    for (size_t i = 0; i < nt; ++i) if (!errs[i].empty()) fail("threads running freely, thread " + std::to_string(i) + ", " + errs[i][0]);
    if (nraces != n0) { int k = n0 < 63 ? n0 : 63; nraces = n0; fail(describe(races[k])); }
    size_t shared = 0; for (size_t k = 0; k < c.jobs.size(); ++k) { size_t u = 0; for (auto& v : todo) u += std::find(v.begin(), v.end(), k) != v.end(); shared += u > 1 && c.jobs[k].len > 1; }
    cx.nt(shared > 0); cx.label(shared ? "the same arguments in several threads" : "each thread its own arguments");
    if (ndiscarded != d0) { cx.known = true; cx.known_id = "discarded-output-race"; }
}
}
