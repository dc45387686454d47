#include "p36_ev.hpp"
#include <algorithm>
#include <set>
namespace p36 {
Ev E; int live = 0;
void faults(Src& s, Ctx& cx, const std::function<void()>& run, const std::function<std::string()>& compare, const std::function<std::string(size_t)>& partly) {
    const int before = live; auto go = [&](int at, std::string& e) { E.n = 0; E.at = at; E.on = true; e.clear(); 
        try { run(); E.on = false; E.got = nullptr; return 0; } catch (const Boom& b) { E.on = false; E.got = nullptr; if (b.k != at) e = "another exception"; return b.k; } catch (...) { E.on = false; E.got = nullptr; e = "an exception nobody threw"; return -1; } };
    std::string e; E.log.clear(); E.log.reserve(4000); go(-1, e); // warm up and count
    if (!e.empty()) fail("no fault: " + e); if (live != before) fail("no fault: " + std::to_string(live - before) + " objects of the user are not destroyed"); if (auto d = compare(); !d.empty()) fail("no fault: " + d);
    const int n = E.n; auto log = E.log; cx.nt(n > 1); cx.label(n > 20 ? "more than 20 calls of user code" : n > 5 ? "6 to 20 calls of user code" : "up to 5 calls of user code");
    if (n == 0) return; std::set<int> ks; if (n <= 8) for (int k = 1; k <= n; ++k) ks.insert(k); else for (int i = 0; i < 8; ++i) ks.insert(1 + (int)s.draw(n));
    for (int k : ks) {
        std::string at = "exception from call " + std::to_string(k) + " of " + std::to_string(n) + (k <= (int)log.size() ? std::string(" (") + log[k - 1].first + ")" : ""); 
        size_t m0 = __sanitizer_get_current_allocated_bytes(); int r = go(k, e); size_t m1 = __sanitizer_get_current_allocated_bytes();
        if (!e.empty()) fail(at + ": " + e); if (r != k) fail(at + ": is swallowed"); if (live != before) fail(at + ": " + std::to_string(live - before) + " objects of the user are not destroyed (or destroyed twice)");
        if (m1 > m0) fail(at + ": " + std::to_string(m1 - m0) + " bytes are not freed"); if (k <= (int)log.size()) if (auto d = partly(log[k - 1].second); !d.empty()) fail(at + ": the destination " + d);
    }
    int r = go(1 << 30, e); if (r != 0 || !e.empty()) fail("printing again: " + e); if (auto d = compare(); !d.empty()) fail("printing again after the exceptions: " + d);
}
}
