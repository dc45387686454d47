#include "p22.hpp"
#include <dlfcn.h>
#include <unistd.h>
// wide-oriented FILE: fputwc() is replaced by one that records and refuses; and the real thing without faults
namespace p22 { thread_local WideSink* wide_sink = nullptr; }
extern "C" wint_t fputwc(wchar_t c, FILE* f) {
    if (p22::wide_sink) { auto& k = *p22::wide_sink; if (c == (wchar_t)WEOF || k.f.accept(k.got.size(), 1) == 0) return WEOF; k.got.push_back(c); return (wint_t)c; }
    static auto real = (wint_t (*)(wchar_t, FILE*))dlsym(RTLD_NEXT, "fputwc"); return real(c, f);
}
namespace p22 {
struct Use { WideSink k; std::FILE* file; explicit Use(Fault f) { k.f = f; file = std::fopen("/dev/null", "w"); wide_sink = &k; wide_file_in_use = true; } ~Use() { wide_sink = nullptr; wide_file_in_use = false; std::fclose(file); } };
void wide(Src& s, Ctx& cx) { if (cx.want_text) cx.text << "wide FILE"; Fault f = fault(s, cx, false); Use u(f); Hist<wchar_t> h; std::unique_ptr<strf::wide_cfile_writer> w(new strf::wide_cfile_writer(u.file)); auto seen = [&] { return u.k.got; }; history<wchar_t>(s, cx, *w, h, seen); closing<wchar_t>(s, cx, std::move(w), h, seen, u.k.f); note(cx, h, u.k.f); }
void wide_print(Src& s, Ctx& cx) { if (cx.want_text) cx.text << "wto(FILE*)"; Fault f = fault(s, cx, false); Use u(f); printing<wchar_t>(s, cx, strf::wto(u.file), [&] { return u.k.got; }, u.k.f); }
// real sinks, all accepting
void real_wide(Src& s, Ctx& cx) { struct W { W() { wide_file_in_use = true; } ~W() { wide_file_in_use = false; } } in_use; if (cx.want_text) cx.text << "open_wmemstream"; wchar_t* p = nullptr; size_t n = 0; std::FILE* f = open_wmemstream(&p, &n); if (!f) fail("open_wmemstream"); Fault no; Hist<wchar_t> h;
    auto seen = [&] { std::fflush(f); return std::wstring(p, n); }; { std::unique_ptr<strf::wide_cfile_writer> w(new strf::wide_cfile_writer(f)); history<wchar_t>(s, cx, *w, h, seen); closing<wchar_t>(s, cx, std::move(w), h, seen, no); } std::fclose(f); if (h.full.find((wchar_t)WEOF) == h.full.npos) check_eq("open_wmemstream", std::wstring(p, n), h.full); free(p); note(cx, h, no); }
void real_narrow(Src& s, Ctx& cx) { if (cx.want_text) cx.text << "open_memstream"; char* p = nullptr; size_t n = 0; std::FILE* f = open_memstream(&p, &n); if (!f) fail("open_memstream"); int mode = s.pick<int>({_IOFBF, _IOLBF}); (void)mode; Fault no; Hist<char> h;
    auto seen = [&] { std::fflush(f); return std::string(p, n); }; { std::unique_ptr<strf::narrow_cfile_writer<char, 64>> w(new strf::narrow_cfile_writer<char, 64>(f)); history<char>(s, cx, *w, h, seen); closing<char>(s, cx, std::move(w), h, seen, no); } std::fclose(f); check_eq("open_memstream", std::string(p, n), h.full); free(p); note(cx, h, no); }
template <class C> void sstream(Src& s, Ctx& cx) { if (cx.want_text) cx.text << uname<C>::v << " stringbuf"; std::basic_ostringstream<C> os; std::basic_string<C> init = piece<C>(s, s.draw(30)); os << init; Fault no; Hist<C> h; h.full = init; using W = strf::basic_streambuf_writer<C>;
    auto seen = [&] { return os.str(); }; std::unique_ptr<W> w(new W(os.rdbuf())); history<C>(s, cx, *w, h, seen); auto r = w->finish(); check(r.success, "success"); check((size_t)r.count + init.size() == h.full.size(), "count"); check_eq("stringbuf", os.str(), h.full); cx.nt(h.full.size() > 64); }
}
PBT_PROP(wide_file, 3) { p22::wide(s, cx); }
PBT_PROP(wide_file_printing, 2) { p22::wide_print(s, cx); }
PBT_PROP(real_wide_file, 1) { p22::real_wide(s, cx); }
PBT_PROP(real_file, 1) { p22::real_narrow(s, cx); }
PBT_PROP(stringbuf, 1) { p22::sstream<char>(s, cx); }
