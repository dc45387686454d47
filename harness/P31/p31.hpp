// P31: targets, policies and facets of the printing syntax. The programs are generated by gen.py; this is what they use.
#include "P30/p30.hpp"
#include <memory>
namespace p31 {
using namespace p30;
// what happened to a user's target since the last reset
template <class C> struct Log { std::vector<size_t> sizes; int plain = 0, sized = 0, finished = 0, gone = 0, id = -1; long size = -1; std::basic_string<C> text; void reset() { plain = sized = finished = gone = 0; id = -1; size = -1; text.clear(); } };
template <class C> struct Ticket { Log<C>* log; long size; };
inline std::vector<size_t> first(long n, std::vector<size_t> z) { if (n >= 0) z.insert(z.begin(), (size_t)n); return z; }
template <class D> void again(D& d, long n) { if (n >= 0) { d.sizes.erase(d.sizes.begin()); d.i = 0; } } // (only the first buffer may be small)
template <class C> struct Dest : Chunked<C> { Log<C>* log; explicit Dest(Ticket<C> t) : Chunked<C>(first(t.size, t.log->sizes)), log(t.log) { again(*this, t.size); } Dest(const Dest&) = delete;
    ~Dest() override { log->text = this->Chunked<C>::finish(); ++log->gone; } const std::basic_string<C>& finish() = delete; const std::basic_string<C>& end() { ++log->finished; return this->Chunked<C>::finish(); } };
struct Receipt { int serial; }; struct SizedReceipt { int serial; };
template <class C> struct PlainDest : Dest<C> { using Dest<C>::Dest; Receipt finish() { this->end(); return {this->log->finished}; } };
template <class C> struct SizedDest : Dest<C> { using Dest<C>::Dest; SizedReceipt finish() { this->end(); return {this->log->finished}; } };
template <class C> struct VoidDest : Dest<C> { using Dest<C>::Dest; void finish() { this->end(); } };
template <class C> struct EndlessDest : Chunked<C> { Log<C>* log; explicit EndlessDest(Ticket<C> t) : Chunked<C>(first(t.size, t.log->sizes)), log(t.log) { again(*this, t.size); } EndlessDest(const EndlessDest&) = delete; ~EndlessDest() override { log->text = this->Chunked<C>::finish(); ++log->gone; ++log->finished; } private: using Chunked<C>::finish; }; // has no finish()
template <class C> struct Maker { using char_type = C; Log<C>* log; int id; Ticket<C> plain() const { ++log->plain; log->id = id; return {log, -1}; } Ticket<C> sized(size_t n) const { ++log->sized; log->id = id; log->size = (long)n; return {log, (long)n}; } constexpr Maker(Log<C>* l, int i) : log(l), id(i) {} };
template <class C> struct Both : Maker<C> { using Maker<C>::Maker; using destination_type = PlainDest<C>; using sized_destination_type = SizedDest<C>; Ticket<C> create() const { return this->plain(); } Ticket<C> create(size_t n) const { return this->sized(n); } };
template <class C> struct Unsized : Maker<C> { using Maker<C>::Maker; using destination_type = EndlessDest<C>; Ticket<C> create() const { return this->plain(); } };
template <class C> struct Sized : Maker<C> { using Maker<C>::Maker; using sized_destination_type = VoidDest<C>; Ticket<C> create(size_t n) const { return this->sized(n); } };
template <class C> Log<C>& global_log() { static thread_local Log<C> l; return l; }
template <class C> struct Default : Both<C> { Default() : Both<C>(&global_log<C>(), 77) {} };
template <class R, class X> void result(const char* text, X&& x, int serial) { static_assert(std::is_same<R, X>::value, "type returned"); if (x.serial != serial) fail(std::string(text) + ": not what finish() returned"); }
// size: -1 not sized, -2 calculated
template <class C> void done(const char* text, Log<C>& log, const Node<C>& want, long size, int id) {
    check_eq(text, log.text, want.t);
    if (log.plain != (size == -1) || log.sized != (size != -1) || log.finished != 1 || log.gone != 1) fail(std::string(text) + ": created " + std::to_string(log.plain) + "+" + std::to_string(log.sized) + " sized, finished " + std::to_string(log.finished) + ", destroyed " + std::to_string(log.gone));
    if (size == -2 ? log.size < (long)want.t.size() : log.size != size) fail(std::string(text) + ": created with size " + std::to_string(log.size) + " instead of " + (size == -2 ? "at least " + std::to_string(want.t.size()) : std::to_string(size)));
    if (log.id != id) fail(std::string(text) + ": another creator");
    log.reset();
}
template <class C, class R> void array(const char* text, const R& r, const C* buf, size_t room, const std::basic_string<C>& want, bool zero) {
    std::basic_string<C> w = want.substr(0, room); size_t n = (size_t)(r.ptr - buf); if (n > room) fail(std::string(text) + ": end past the buffer");
    check_eq(text, std::basic_string<C>(buf, n), want.substr(0, n)); if (r.truncated != (want.size() > room)) fail(std::string(text) + ": truncated = " + std::to_string(r.truncated)); if (!r.truncated && n != want.size()) fail(std::string(text) + ": incomplete"); if (zero && buf[n] != 0) fail(std::string(text) + ": not terminated");
}
}
