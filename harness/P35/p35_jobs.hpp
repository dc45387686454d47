#ifndef VERIF_P35_JOBS_HPP
#define VERIF_P35_JOBS_HPP
#include "pbt.hpp"
#include <functional>
#include <memory>
namespace p35 {
using pbt::Src; using pbt::Ctx; using pbt::fail;
struct Job { std::string what; std::function<size_t()> alone; std::function<std::string()> run; size_t len = 0; };
struct Case { std::vector<Job> jobs; std::vector<std::shared_ptr<void>> keep; };
// what happens at a recycle() or a notification of the calling thread
struct Hook { virtual void now() = 0; };
extern thread_local Hook* hook;
inline void at() { if (hook) hook->now(); }
using Maker = void (*)(Src&, Ctx&, Case&);
struct Makers { static std::vector<Maker>& all(); };
#define P35_JOBS(N, F) void N(::pbt::Src& s, ::pbt::Ctx& cx, ::p35::Case& cs) { F(s, cx, cs); }
}
#endif
