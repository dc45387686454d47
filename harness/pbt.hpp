// Minimal property-based testing engine: choice-sequence generators, integrated
// shrinking, crash isolation, replay files.  One binary per property.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

struct Rng { // splitmix64 / xorshift mix
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD1B54A32D192ED03ull)); r.next(); return r.next(); }

struct Fail { std::string msg; };

// The source of all nondeterminism of one case.
class Src {
public:
    // generation mode
    explicit Src(uint64_t seed) : rng_(seed) {}
    // replay mode: values beyond the end are 0 (the simplest choice)
    explicit Src(const std::vector<uint64_t>& v) : replay_(&v) {}
    // fuzz mode
    Src(const uint8_t* d, size_t n) : fz_(d), fzn_(n), fuzz_(true) {}

    // uniform in [0,n); n==0 means the full 64-bit range. 0 is the simplest choice.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (replay_) {
            v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
            if (n && v >= n) v = v % n;
        } else if (fuzz_) {
            int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= 0x1000000 ? 3 : n <= 0x100000000ull ? 4 : 8;
            v = 0;
            for (int i = 0; i < nb && fzp_ < fzn_; ++i) v = (v << 8) | fz_[fzp_++];
            if (n) v %= n;
        } else {
            v = rng_.next();
            if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        ++pos_;
        if (dump_) { fprintf(dump_, "%llu\n", (unsigned long long)v); fflush(dump_); }
        if (sink_) { if (*sink_n_ < sink_cap_) sink_[*sink_n_] = v, ++*sink_n_; }
        else if (rec_.size() < 100000) rec_.push_back(v);
        return v;
    }
    // inclusive range, simplest = lo
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    bool coin() { return draw(2) == 1; }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // simplest = false
    // small-biased size in [0,max]
    size_t size(size_t max) {
        if (max == 0) return 0;
        switch (draw(4)) {
            case 0: return draw(max < 4 ? max + 1 : 4);
            case 1: return draw((max < 16 ? max : 16) + 1);
            default: return draw(max + 1);
        }
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return v.begin()[draw(v.size())]; }
    // weighted alternative index
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned t = 0; for (auto x : w) t += x;
        uint64_t r = draw(t); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    const std::vector<uint64_t>& recorded() const { return rec_; }
    void set_sink(uint64_t* p, uint64_t* n, uint64_t cap) { sink_ = p; sink_n_ = n; sink_cap_ = cap; }
    void dump_to(FILE* f) { dump_ = f; }
    bool exhausted() const { return fuzz_ && fzp_ >= fzn_; }
private:
    Rng rng_{1};
    const std::vector<uint64_t>* replay_ = nullptr;
    const uint8_t* fz_ = nullptr; size_t fzn_ = 0, fzp_ = 0; bool fuzz_ = false;
    size_t pos_ = 0;
    std::vector<uint64_t> rec_;
    FILE* dump_ = nullptr;
    uint64_t* sink_ = nullptr; uint64_t* sink_n_ = nullptr; uint64_t sink_cap_ = 0;
};

// Per-case context
struct Ctx {
    bool nontrivial = false;
    bool want_text = false;     // describe only when text will be used
    bool known = false; std::string known_id;
    std::ostringstream text;
    std::vector<const char*> labels;
    void nt(bool c = true) { if (c) nontrivial = true; }
    void label(const char* l) { labels.push_back(l); }
};

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

using PropFn = void (*)(Src&, Ctx&);
struct Prop { const char* name; unsigned weight; PropFn fn; };
std::vector<Prop>& props();
struct Reg { Reg(const char* n, unsigned w, PropFn f) { props().push_back({n, w, f}); } };
#define PBT_PROP(NAME, WEIGHT) \
    static void NAME(::pbt::Src& s, ::pbt::Ctx& cx); \
    static ::pbt::Reg reg_##NAME{#NAME, WEIGHT, &NAME}; \
    static void NAME([[maybe_unused]] ::pbt::Src& s, [[maybe_unused]] ::pbt::Ctx& cx)

// ---- text helpers -------------------------------------------------------
template <class C>
std::string show(const C* b, size_t n) {
    std::string r = "\"";
    size_t shown = n > 300 ? 300 : n;
    for (size_t i = 0; i < shown; ++i) {
        uint64_t u = (uint64_t)(std::make_unsigned_t<std::conditional_t<std::is_same<C, char>::value, char,
            std::conditional_t<sizeof(C) == 1, unsigned char, std::conditional_t<sizeof(C) == 2, uint16_t, uint32_t>>>>)b[i];
        if (u >= 0x20 && u < 0x7f && u != '"' && u != '\\') r += (char)u;
        else { char t[24]; snprintf(t, sizeof t, "\\x{%llx}", (unsigned long long)u); r += t; }
    }
    r += "\"";
    if (shown < n) r += "...";
    r += "(" + std::to_string(n) + ")";
    return r;
}
template <class S> std::string show(const S& s) { return show(s.data(), s.size()); }

template <class S>
void check_eq(const char* what, const S& got, const S& want) {
    if (got == want) return;
    if (got.size() > 200 || want.size() > 200) { // around the first difference
        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        size_t b = i > 40 ? i - 40 : 0;
        fail(std::string(what) + ": got " + std::to_string(got.size()) + " units, want " + std::to_string(want.size()) + "; first difference at " + std::to_string(i) + "; from " + std::to_string(b) + ": got " + show(got.substr(b, 100)) + " want " + show(want.substr(b, 100)));
    }
    fail(std::string(what) + ": got " + show(got) + " want " + show(want));
}
inline void check(bool c, const std::string& m) { if (!c) fail(m); }
template <class A, class B>
void check_num(const char* what, A got, B want) {
    if (!((long long)got == (long long)want))
        fail(std::string(what) + ": got " + std::to_string((long long)got) + " want " + std::to_string((long long)want));
}

} // namespace pbt
#endif
