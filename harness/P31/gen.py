#!/usr/bin/env python3
# Generates programs: targets, reserve policies, facets and printing functions combined in every documented way, with the model of what each prints, where.
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "P30"))
import gen as g30
FILES = 8
class X: # a printing_syntax object: its policy (none, calc, given + value), facets, creator
    def __init__(s, pol, n, st, **k): s.pol, s.n, s.st = pol, n, list(st); s.__dict__.update(k)
    def copy(s): q = X(s.pol, s.n, s.st); q.__dict__.update(s.__dict__); q.st = list(s.st); return q
SIZES = ["v.k[0]", "v.k[1]", "room", "room", "(short)300", "(unsigned char)200", "20u", "(std::size_t)64", "100000L", "0", "(long long)1"]
def chain(g, x, e):
    """e: an expression for x; returns it extended. lv: the variable it refers to as a non-const lvalue"""
    r = g.r; lv = None
    for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])):
        op = r.choice(["with", "with", "with", "with0", "reserve", "reserve", "calc", "none", "hold", "hold", "hold"])
        if op == "hold":
            n = "x%d" % len(g.decl); q = r.choice(["auto", "const auto"]); g.decl.append("%s %s = %s;" % (q, n, e)); v = x.copy(); v.name, v.alive = n, True; g.vars.append(v); lv = None
            k = r.choice([n, n, "std::move(%s)" % n, "std::as_const(%s)" % n, "std::move(std::as_const(%s))" % n]); e = k; x = x.copy()
            if k == n and q == "auto": lv = v
            if k.startswith("std::move(x") and q == "auto": v.alive = False
        elif op == "with": s = g.settings(1); e = "%s.with(%s)" % (e, ", ".join(map(g.cpp, s))); x = x.copy(); x.st += s; lv = None
        elif op == "with0": e += ".with()"
        elif op == "reserve" and x.sized:
            n = r.choice(SIZES); x = x.copy()
            if x.pol == "given":
                if lv: lv.n = n
            else: lv = None
            e += ".reserve(%s)" % n; x.pol, x.n = "given", n
        elif op == "calc" and x.sized:
            if x.pol != "calc": lv = None
            x = x.copy(); x.pol = "calc"; e += ".reserve_calc()"
        elif op == "none" and x.unsized:
            if x.pol != "none": lv = None
            x = x.copy(); x.pol = "none"; e += ".no_reserve()"
    return x, e
def base(g, si):
    """(x, expression, kind, statements)"""
    r = g.r; k = r.choice(["both", "both", "both", "both", "unsized", "sized", "sized", "default", "string", "string", "append", "assign", "dest", "array", "array"]); i = r.randrange(90)
    if k in ("both", "unsized", "sized"):
        T = {"both": "Both<C>", "unsized": "Unsized<C>", "sized": "Sized<C>"}[k]; mk = "%s(&log, %d)" % (T, i)
        if r.random() < 0.4: g.decl.append("const %s maker(&log, %d);" % (T, i)); mk = "maker"
        x = X("none", "", [], sized=k != "unsized", unsized=k != "sized", kind="user", T=T, id=i)
        how = r.randrange(5)
        if k == "sized" or how >= 2:
            pol = r.choice(["none"] if k == "unsized" else ["calc", "given"] if k == "sized" else ["none", "calc", "given"]); x.pol = pol; P = {"none": "no_reserve", "calc": "reserve_calc", "given": "reserve_given_space"}[pol]; a = "{}"
            if pol == "given": x.n = r.choice(["room", "17", "v.k[2]"]); a = "{(std::size_t)(%s)}" % x.n
            fs = [g.facet() for _ in range(r.choice([0, 0, 1, 2]))]; x.st = list(fs); fe = "".join(", " + g.cpp(f) for f in fs)
            if how == 2 and not fs: return x, "strf::printing_syntax<%s, strf::%s>(%s, strf::%s%s)" % (T, P, mk, P, a)
            return x, "strf::make_printing_syntax(%s, strf::%s%s%s)" % (mk, P, a, fe)
        if how == 0: return x, "strf::make_printing_syntax(%s)" % mk
        return x, "strf::printing_syntax<%s>(%s)" % (T, mk)
    if k == "default": return X("none", "", [], sized=True, unsized=True, kind="user", T="Both<C>", id=77, dflt=True), "strf::printing_syntax<Default<C>>()"
    if k == "string": return X("none", "", [], sized=True, unsized=True, kind="string"), r.choice(["strf::to_basic_string<C>", "NAMED_STRING"])
    if k in ("append", "assign"): g.decl.append("S str = v.str[1];"); return X("none", "", [], sized=True, unsized=True, kind=k), "strf::%s(str)" % k
    if k == "dest": g.decl.append("Chunked<C> dst(chunk_sizes(s)); S all;"); return X("none", "", [], sized=False, unsized=True, kind="dest"), "strf::to(static_cast<strf::destination<C>&>(dst))"
    rg = r.random() < 0.5; f = "to_range" if rg else "to"; how = r.randrange(3)
    if how == 0: n = r.choice([1, 2, 30, 200]); g.decl.append("C buf[%d]; const size_t room_ = %d;" % (n, n - (not rg))); e = "strf::%s(buf)" % f
    else: g.decl.append("const size_t cap_ = s.draw(120) + 1; std::unique_ptr<C[]> ex(new C[cap_]); C* const buf = ex.get(); const size_t room_ = cap_ - %d;" % (not rg)); e = "strf::%s(buf, cap_)" % f if how == 1 else "strf::%s(buf, buf + cap_)" % f
    return X("none", "", [], sized=False, unsized=True, kind="array", zero=not rg), e
def show(g, x, e):
    """statements that print through e and check"""
    r = g.r; lead = [g.facet() for _ in range(r.choice([0, 0, 0, 1, 2]))]; st = x.st + lead; meas = x.pol == "calc"
    a = [g.arg(st, 1, meas) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]; fn = r.choice(["", "", "", ".line", ".tr", ".trline"]); lst = [g.cpp(q) for q in lead]; model = "cat(%s)" % ", ".join(q[1] for q in a) if a else "N{}"
    if "tr" in fn:
        if not a: a = [("v.i[0]", "lit(v.i[0])", True)]
        t, model = g.template(a); lst.append(t)
    lst += [q[0] for q in a]
    if "line" in fn: model = "cat(%s, lit('\\n'))" % model
    call = "%s%s(%s)" % (e, fn, ", ".join(lst)); text = 'R"~~(%s)~~"' % call; o = ["{ const N want = %s; if (!want.t.empty()) cx.nt(); if (cx.want_text) cx.text << \" | \" << %s;" % (model, text)]
    size = {"none": "-1", "calc": "-2", "given": "(long)(%s)" % x.n}[x.pol]
    if x.kind == "user":
        L = "global_log<C>()" if getattr(x, "dflt", False) else "log"; o.append("%s.reset(); %s.sizes = chunk_sizes(s);" % (L, L))
        if x.T == "Both<C>": o.append("result<%s>(%s, %s, 1);" % ("Receipt" if x.pol == "none" else "SizedReceipt", text, call))
        else: o.append(("" if "[" in call else "static_assert(std::is_void<decltype(%s)>::value, \"\"); " % call) + "(void)(%s);" % call) # (or it may be a declaration)
        o.append("done(%s, %s, want, %s, %d);" % (text, L, size, x.id))
    elif x.kind == "string": o.append("check_eq(%s, %s, want.t);" % (text, call))
    elif x.kind in ("append", "assign"): o.append("{ const S old = " + ("S()" if "strf::assign(str)" in e else "str") + "; (void)(%s); check_eq(%s, str, S(old + want.t)); }" % (call, text)) # (assign() is: clear, then append)
    elif x.kind == "dest": o.append("(void)(%s); all += want.t;" % call)
    else: o.append("auto r = %s; array(%s, r, buf, room_, want.t, %s);" % (call, text, "true" if x.zero else "false"))
    return " ".join(o) + " }"
def main():
    out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]; shapes = int(sys.argv[4]) if len(sys.argv) > 4 else 45 if tier == "quick" else 160
    for fi in range(FILES):
        C = g30.TYPES[fi]; rnd = random.Random(seed * 1000 + fi + 500); named = {"char": "strf::to_string", "char8_t": "strf::to_u8string", "char16_t": "strf::to_u16string", "char32_t": "strf::to_u32string", "wchar_t": "strf::to_wstring"}[C]
        o = ['#include "P31/p31.hpp"', "namespace { using namespace p31; using C = %s; using S = std::basic_string<C>; std::vector<void (*)(Src&, Ctx&)>& shapes() { static std::vector<void (*)(Src&, Ctx&)> v; return v; } struct Add { Add(void (*f)(Src&, Ctx&)) { shapes().push_back(f); } };" % C] + g30.preamble()
        o.append("template <class X> struct Use : V<C> { using V<C>::V; };")
        for si in range(shapes):
            g = g30.G(rnd); g.vars = []; x, e = base(g, si); e = e.replace("NAMED_STRING", named); x, e = chain(g, x, e); n = len(g.decl)
            states = [v for v in g.vars if v.alive]; body = [show(g, x, e)]; rnd.shuffle(states)
            for v in states[:2]: body.append(show(g, v, rnd.choice([v.name, v.name, "std::as_const(%s)" % v.name])))
            desc = " ".join(q for q in g.decl if "_[]" not in q)
            p = ["namespace { struct P%d : V<C> { using V<C>::V; void run(Src& s, Ctx& cx) { auto& v = *this; const int room = s.coin() ? (int)s.draw(40) : s.pick({0, 1, 15, 16, 64, 500}); Log<C> log; log.sizes = chunk_sizes(s); (void)room; (void)v; if (cx.want_text) cx.text << \" room=\" << room << \" \" << R\"~~(%s)~~\";" % (si, desc)]
            p += g.decl[:n] + g.decl[n:] + body
            if x.kind == "dest": p.append("check_eq(\"everything printed\", dst.finish(), all);")
            p.append("} }; void shape_%d(Src& s, Ctx& cx) { P%d p(s, cx); p.run(s, cx); } const Add add_%d(&shape_%d); }" % (si, si, si, si))
            o.append("/*PROG*/ " + " ".join(q.replace("\n", " ") for q in p))
        o.append("}\nPBT_PROP(targets_%d_%s, 1) { if (!shapes().empty()) shapes()[s.draw(shapes().size())](s, cx); }" % (fi, C))
        open(os.path.join(out, "p31_%d.cpp" % fi), "w").write("\n".join(o) + "\n")
main()
