// main() of every harness: run / replay / shrink, or libFuzzer entry with -DPBT_FUZZ
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>

namespace pbt {
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
}
using namespace pbt;

static const Prop* find_prop(const std::string& n) {
    for (auto& p : props()) if (n == p.name) return &p;
    return nullptr;
}
static void sort_props() {
    std::sort(props().begin(), props().end(), [](const Prop& a, const Prop& b) { return std::string(a.name) < b.name; });
}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    static bool once = (sort_props(), true); (void)once;
    if (n == 0) return 0;
    auto& ps = props();
    const Prop& p = ps[d[0] % ps.size()];
    Src s(d + 1, n - 1);
    Ctx cx;
    if (const char* o = getenv("PBT_FUZZ_DUMP")) { // reveal the choices of a case that crashes
        static FILE* f = fopen(o, "w");
        fprintf(f, "prop %s\n", p.name); fflush(f);
        s.dump_to(f);
    }
    try { p.fn(s, cx); }
    catch (const Fail& f) {
        // leave the choice sequence behind as an ordinary replay file
        if (const char* o = getenv("PBT_FUZZ_OUT")) {
            std::ofstream os(o);
            os << "prop " << p.name << "\n";
            for (auto v : s.recorded()) os << v << "\n";
        }
        fprintf(stderr, "PBT-FAIL %s: %s\n", p.name, f.msg.c_str());
        abort();
    }
    return 0;
}
#else

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Shared { // survives a crash of the child
    volatile uint64_t n;
    volatile int prop;
    volatile uint64_t case_seed;
    volatile uint64_t cases;
    char msg[4096];
    uint64_t draws[1 << 16];
};

static void arm(int sec) { struct itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_REAL, &t, nullptr); }
static void on_alarm(int) { static const char m[] = "PBT-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

static int g_case_limit_s = 20;

// outcome of one isolated execution: 0 pass, 1 Fail, 2 crash/abort, 3 hang
static int run_isolated(const Prop& p, const std::vector<uint64_t>* choices, uint64_t seed, Shared* sh, std::string& msg, bool quiet) {
    sh->n = 0; sh->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) { (void)!freopen("/dev/null", "w", stderr); }
        signal(SIGALRM, on_alarm); arm(g_case_limit_s);
        Ctx cx; cx.want_text = true;
        Src s = choices ? Src(*choices) : Src(seed);
        s.set_sink(sh->draws, (uint64_t*)&sh->n, sizeof sh->draws / 8);
        int rc = 0;
        try { p.fn(s, cx); }
        catch (const Fail& f) {
            std::string m = f.msg + "\n  case: " + cx.text.str();
            snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
            rc = 1;
        }
        _exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0) return 0;
        if (c == 1 && sh->msg[0]) { msg = sh->msg; return 1; }
        if (c == 97) { msg = "case did not terminate within the time limit"; return 3; }
        msg = "process exited with status " + std::to_string(c) + " (sanitizer report or assertion)"; return 2;
    }
    msg = "process killed by signal " + std::to_string(WTERMSIG(st)); return 2;
}

static bool load(const std::string& f, std::string& prop, std::vector<uint64_t>& v, bool& has_seed, uint64_t& seed) {
    std::ifstream is(f); std::string w; has_seed = false;
    if (!(is >> w >> prop) || w != "prop") return false;
    std::string t;
    while (is >> t) {
        if (t == "seed") { is >> seed; has_seed = true; }
        else if (t[0] == '#') { std::getline(is, t); }
        else v.push_back(strtoull(t.c_str(), nullptr, 10));
    }
    return true;
}
static void save(const std::string& f, const std::string& prop, const std::vector<uint64_t>& v, const std::string& msg) {
    std::ofstream os(f);
    os << "prop " << prop << "\n";
    std::istringstream ms(msg); std::string l;
    while (std::getline(ms, l)) os << "# " << l << "\n";
    for (auto x : v) os << x << "\n";
}

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
        else r += (char)c;
    }
    return r;
}

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "run";
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { return o.count(k) ? o[k] : std::string(d); };
    sort_props();
    Shared* sh = nullptr;
    auto map_shared = [&](const std::string& file) {
        if (file.empty()) {
            sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        } else {
            FILE* f = fopen(file.c_str(), "w+"); (void)!ftruncate(fileno(f), sizeof(Shared));
            sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0); fclose(f);
        }
    };
    g_case_limit_s = atoi(get("--case-limit", "20").c_str());

    if (mode == "list") { for (auto& p : props()) printf("%s %u\n", p.name, p.weight); return 0; }

    if (mode == "run") {
        map_shared(get("--state", ""));
        uint64_t seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
        uint64_t worker = strtoull(get("--worker", "0").c_str(), nullptr, 10);
        double tlim = atof(get("--time", "5").c_str());
        uint64_t maxn = strtoull(get("--max", "1000000000").c_str(), nullptr, 10);
        std::string only = get("--only", "");
        std::vector<int> sched;
        for (size_t i = 0; i < props().size(); ++i)
            if (only.empty() || only == props()[i].name) for (unsigned k = 0; k < props()[i].weight; ++k) sched.push_back((int)i);
        // deterministic interleaving
        { Rng r(12345); for (size_t i = sched.size(); i > 1; --i) std::swap(sched[i - 1], sched[r.next() % i]); }
        double t0 = now();
        signal(SIGALRM, on_alarm);
        uint64_t evals = 0, nts = 0;
        std::vector<uint64_t> per(props().size()), per_nt(props().size());
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels, knowns;
        std::vector<std::string> samples;
        std::string failmsg; int failprop = -1; uint64_t failseed = 0;
        uint64_t next_sample = 7;
        bool survey = get("--survey", "0") == "1"; // development aid: histogram of distinct failures
        struct Sv { uint64_t n = 0; std::string msg, text; };
        std::map<std::string, Sv> sv;
        auto note_survey = [&](int pi, uint64_t cs, const std::string& msg) {
            std::string text;
            { Src s2(cs); Ctx c2; c2.want_text = true; try { props()[pi].fn(s2, c2); } catch (const Fail&) {} text = c2.text.str(); }
            std::string k = std::string(props()[pi].name) + "|" + text.substr(0, text.find_first_of(" =\"[")) + "|";
            size_t w = (size_t)atoi(get("--key", "60").c_str());
            for (char c : msg.substr(0, w)) if (!(c >= '0' && c <= '9')) k += c;
            auto& e = sv[k]; ++e.n;
            if (e.n == 1 || text.size() < e.text.size()) { e.msg = msg; e.text = text; }
        };
        for (uint64_t i = 0; i < maxn; ++i) {
            if ((i & 15) == 0) { if (now() - t0 > tlim) break; }
            int pi = sched[i % sched.size()];
            uint64_t cs = mix(mix(seed, worker * 1000003ull + 17), i);
            sh->prop = pi; sh->case_seed = cs; sh->cases = i;
            if ((i & 15) == 0) arm(g_case_limit_s);
            Src s(cs); Ctx cx;
            bool sample = samples.size() < 6 && i >= next_sample;
            cx.want_text = sample;
            try { props()[pi].fn(s, cx); }
            catch (const Fail& f) { if (survey) { note_survey(pi, cs, f.msg); continue; } failmsg = f.msg; failprop = pi; failseed = cs; break; }
            ++evals; ++per[pi];
            if (cx.known) { ++knowns[cx.known_id]; continue; }
            if (cx.nontrivial) {
                ++nts; ++per_nt[pi];
                if (distinct.size() < 400000) {
                    uint64_t h = 1469598103934665603ull + pi;
                    for (auto v : s.recorded()) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
                    distinct.insert(h);
                }
                if (sample) { samples.push_back(std::string(props()[pi].name) + ": " + cx.text.str().substr(0, 400)); next_sample = i * 3 + 11; }
            }
            for (auto l : cx.labels) ++labels[l];
        }
        arm(0);
        for (auto& e : sv) printf("%llu x %s\n    %s\n    %s\n", (unsigned long long)e.second.n, e.first.c_str(), e.second.msg.substr(0, 400).c_str(), e.second.text.substr(0, 400).c_str());
        std::string out = get("--out", "");
        if (!out.empty()) {
            std::ofstream os(out);
            os << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nts << ",\"distinct\":" << distinct.size() << ",\"wall\":" << (now() - t0);
            os << ",\"per_prop\":{";
            for (size_t i = 0; i < per.size(); ++i) os << (i ? "," : "") << "\"" << props()[i].name << "\":[" << per[i] << "," << per_nt[i] << "]";
            os << "},\"labels\":{"; bool f = true;
            for (auto& l : labels) { os << (f ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f = false; }
            os << "},\"known\":{"; f = true;
            for (auto& l : knowns) { os << (f ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f = false; }
            os << "},\"samples\":["; f = true;
            for (auto& l : samples) { os << (f ? "" : ",") << "\"" << esc(l) << "\""; f = false; }
            os << "]";
            if (failprop >= 0) os << ",\"fail\":{\"prop\":\"" << props()[failprop].name << "\",\"seed\":" << failseed << ",\"msg\":\"" << esc(failmsg) << "\"}";
            os << "}\n";
            std::ofstream hs(out + ".hashes", std::ios::binary);
            for (auto h : distinct) hs.write((const char*)&h, 8);
        }
        if (failprop >= 0) { fprintf(stderr, "FAIL %s seed %llu: %s\n", props()[failprop].name, (unsigned long long)failseed, failmsg.c_str()); return 3; }
        return 0;
    }

    if (mode == "where") { // print the case a crashed worker was executing
        FILE* f = fopen(get("--state", "").c_str(), "r"); if (!f) return 2;
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ, MAP_SHARED, fileno(f), 0);
        printf("%s %llu\n", props()[sh->prop].name, (unsigned long long)sh->case_seed); return 0;
    }

    std::string pn; std::vector<uint64_t> v; bool has_seed = false; uint64_t seed = 0;
    if (!load(get("--file", ""), pn, v, has_seed, seed)) { fprintf(stderr, "cannot load replay file\n"); return 2; }
    const Prop* p = find_prop(pn);
    if (!p) { fprintf(stderr, "unknown prop %s\n", pn.c_str()); return 2; }
    map_shared("");
    std::string msg;
    if (mode == "replay") {
        int r = run_isolated(*p, has_seed ? nullptr : &v, seed, sh, msg, get("--quiet", "0") == "1");
        printf("replay %s: %s %s\n", pn.c_str(), r == 0 ? "PASS" : r == 1 ? "FAIL" : r == 2 ? "CRASH" : "HANG", msg.c_str());
        return r == 0 ? 0 : 1;
    }
    if (mode == "shrink") {
        double t0 = now(), tl = atof(get("--time", "40").c_str());
        int r = run_isolated(*p, has_seed ? nullptr : &v, seed, sh, msg, true);
        if (r == 0) { fprintf(stderr, "does not reproduce\n"); return 4; }
        std::vector<uint64_t> cur(sh->draws, sh->draws + sh->n);
        std::string curmsg = msg; int kind = r;
        int execs = 0;
        if (r == 3) g_case_limit_s = std::min(g_case_limit_s, 5);
        auto tryit = [&](std::vector<uint64_t> c) {
            if (now() - t0 > tl) return false;
            ++execs;
            std::string m; int q = run_isolated(*p, &c, 0, sh, m, true);
            if (q != kind) return false;
            std::vector<uint64_t> used(sh->draws, sh->draws + sh->n);
            // accept only if simpler (shorter, or lexicographically smaller)
            if (used.size() > cur.size()) return false;
            if (used.size() == cur.size() && !(used < cur)) return false;
            cur = used; curmsg = m; return true;
        };
        bool progress = true;
        while (progress && now() - t0 < tl) {
            progress = false;
            for (size_t blk : {64u, 16u, 8u, 4u, 3u, 2u, 1u})
                for (size_t i = 0; i + blk <= cur.size();) {
                    auto c = cur; c.erase(c.begin() + i, c.begin() + i + blk);
                    if (tryit(c)) progress = true; else i += (blk > 4 ? blk / 2 : 1);
                    if (now() - t0 > tl) break;
                }
            for (size_t blk : {8u, 2u, 1u})
                for (size_t i = 0; i + blk <= cur.size(); i += blk) {
                    auto c = cur; bool any = false;
                    for (size_t k = i; k < i + blk; ++k) { if (c[k]) any = true; c[k] = 0; }
                    if (any && tryit(c)) progress = true;
                    if (now() - t0 > tl) break;
                }
            for (size_t i = 0; i < cur.size(); ++i) {
                uint64_t lo = 0;
                while (i < cur.size() && cur[i] > lo) {
                    uint64_t mid = lo + (cur[i] - lo) / 2;
                    auto c = cur; c[i] = mid;
                    if (tryit(c)) progress = true; else { if (mid + 1 > cur[i]) break; lo = mid + 1; if (lo >= cur[i]) break; }
                    if (now() - t0 > tl) break;
                }
                if (now() - t0 > tl) break;
            }
        }
        save(get("--out", "shrunk.txt"), pn, cur, curmsg);
        printf("shrunk to %zu choices after %d executions: %s\n", cur.size(), execs, curmsg.c_str());
        return 0;
    }
    return 2;
}
#endif
