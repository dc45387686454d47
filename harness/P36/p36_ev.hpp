#ifndef VERIF_P36_EV_HPP
#define VERIF_P36_EV_HPP
#include "pbt.hpp"
#include <functional>
#include <memory>
#include <sanitizer/allocator_interface.h>
namespace p36 {
using pbt::Src; using pbt::Ctx; using pbt::fail;
struct Boom { int k; const char* what; };
struct Ev { int n = 0, at = -1; const size_t* got = nullptr; std::vector<std::pair<const char*, size_t>> log; bool on = false; };
extern Ev E; extern int live;
// a call of the user's code
inline void ev(const char* what) { if (!E.on) return; ++E.n; if (E.at < 0) { if (E.log.size() < E.log.capacity()) E.log.push_back({what, E.got ? *E.got : 0}); } else if (E.n == E.at) throw Boom{E.n, what}; }
struct Live { Live() { ++live; } Live(const Live&) { ++live; } Live& operator=(const Live&) = default; ~Live() { --live; } };
// run(): prints; the text received goes to what `got` names
void faults(Src& s, Ctx& cx, const std::function<void()>& run, const std::function<std::string()>& compare, const std::function<std::string(size_t)>& partly);
}
#endif
