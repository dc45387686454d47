#!/usr/bin/env python3
# Generates programs: random user-defined printables, formatted, nested and under random facets and overriders, with the model of what each prints.
import sys, os, random
FILES = 8
TYPES = ["char", "char16_t", "char", "char32_t", "char", "char8_t", "wchar_t", "char"]
CPPTAG = {"dbl": "double", "bool": "bool", "int": "int", "col": "Col", "pt": "Pt", "low": "Low", "big": "Big", "base": "Base", "plain": "Plain", "nof": "NoF", "half": "Half", "tpt": "Tpl<Pt>", "tcol": "Tpl<Col>", "tint": "Tpl<int>", "ttpt": "Tpl<Tpl<Pt>>", "tbase": "Tpl<Base>", "tdbl": "Tpl<double>"}
TAGS = sorted(CPPTAG)
FILTERS = {"only_" + t: {t} for t in TAGS}
for t in TAGS: FILTERS["but_" + t] = set(TAGS) - {t}
FILTERS["any_"] = set(TAGS); FILTERS["none_"] = set(); FILTERS["is_tpl"] = {t for t in TAGS if t.startswith("t")}; FILTERS["std::is_class"] = set(TAGS) - {"dbl", "bool", "int", "col"}; FILTERS["std::is_enum"] = {"col"}; FILTERS["std::is_floating_point"] = {"dbl"}
OVER = {"ovcol": ("OvCol", "OvColM"), "ovpt": ("OvPt",), "ovbool": ("OvBool",), "ovdbl": ("OvDbl",), "ovbig": ("OvBig",), "ovplain": ("OvPlain",), "ovtpt": ("OvTpl<Pt>",), "ovtcol": ("OvTpl<Col>",), "ovtint": ("OvTpl<int>",), "ovttpt": ("OvTpl<Tpl<Pt>>",), "ovtbase": ("OvTpl<Base>",), "ovtdbl": ("OvTpl<double>",),
        "ign_int": ("Ign<int>",), "ign_low": ("Ign<Low>",), "ign_base": ("Ign<Base>",), "ign_nof": ("Ign<NoF>",), "ign_half": ("Ign<Half>",)}
CATS = ["brk"] * 10 + ["np"] * 5 + ["ovcol"] * 3 + ["ovpt"] * 2 + ["ovdbl"] * 2 + ["ovbig"] * 2 + sorted(set(OVER))

class G:
    def __init__(g, r): g.r, g.n, g.decl = r, 0, []
    def facet(g):
        r = g.r; k = g.n; g.n += 1; c = r.choice(CATS)
        if c == "brk": e = "v.brk[%d]" % (k % 12)
        elif c == "np": e = "v.np[%d]" % (k % 12)
        else: e = "%s{%d}" % (r.choice(OVER[c]), k)
        return ("f", c, e, k)
    def setting(g, depth):
        r = g.r; x = r.random()
        if depth <= 0 or x < 0.5: return g.facet()
        if x < 0.65: return ("pack", [g.setting(depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))])
        return ("con", r.choice(sorted(FILTERS)), g.setting(depth - 1))
    def settings(g, lo): return [g.setting(g.r.choice([0, 0, 1, 2])) for _ in range(max(lo, g.r.choice([0, 1, 2, 2, 3, 4])))]
    def governing(g, s, c, t):
        if s[0] == "f": return s if s[1] == c else None
        if s[0] == "con": return g.governing(s[2], c, t) if t in FILTERS[s[1]] else None
        return g.find(s[1], c, t)
    def find(g, lst, c, t):
        for s in reversed(lst):
            q = g.governing(s, c, t)
            if q: return q
        return None
    def cpp(g, s):
        if s[0] == "f": return s[2]
        if s[0] == "pack": return "strf::pack(%s)" % ", ".join(map(g.cpp, s[1]))
        return "strf::constrain<%s>(%s)" % (s[1], g.cpp(s[2]))
    # ---- models of the bare values; x is the C++ text of the value
    def brk(g, st, t): q = g.find(st, "brk", t); return q[2] if q else "Brk{}"
    def ov(g, st, t): q = g.find(st, "ov" + t, t); return q
    def dbl(g, st, x, fm="%s"): # fm: the float formats
        o = g.ov(st, "dbl")
        if o: return "cat(lit('d'), lit(%d))" % o[3]
        q = g.find(st, "np", "dbl")
        return "num(%s, %s)" % ("strf::pack(%s)" % (q[2] if q else ""), fm % x)
    def bare(g, st, t, x):
        o = g.ov(st, t) if "ov" + t in OVER else None
        if t == "dbl": return g.dbl(st, x)
        if t == "int": return "lit(%s)" % x
        if t == "bool": return "cat(lit('b'), lit(%d), lit(%s ? \"vero\" : \"falso\"))" % (o[3], x) if o else "lit(%s ? \"true\" : \"false\")" % x
        if t == "col":
            if o: return ("cat(lit('<'), lit(%d), lit(':'), lit(name(%s)), lit('>'))" if o[2].startswith("OvCol{") else "cat(lit('M'), lit(%d), lit(name(%s)))") % (o[3], x)
            return "br(%s, lit(name(%s)))" % (g.brk(st, t), x)
        if t == "pt": return g.point(st, x, False, "%s")
        if t == "low": return "cat(lit('#'), lit(%s.n))" % x
        if t == "big": return "cat(lit('G'), lit(%d), lit(':'), lit(%s.s))" % (o[3], x) if o else "br(%s, lit(%s.s))" % (g.brk(st, t), x)
        if t == "plain" and o: return "cat(lit('L'), lit(%d), lit('/'), lit(%s.n))" % (o[3], x)
        if t in ("base", "plain", "nof", "half"): return "cat(lit('%s'), br(%s, lit(%s.n)))" % ({"base": "B", "plain": "p", "nof": "n", "half": "h"}[t], g.brk(st, t), x)
        inner = g.bare(st, t[1:], "(%s).v" % x)
        if o: return "cat(lit('t'), lit(%d), lit('='), %s)" % (o[3], inner)
        return "cat(lit('T'), br(%s, %s))" % (g.brk(st, t), inner)
    def point(g, st, x, alg, fm):
        o = g.ov(st, "pt")
        if o: return "cat(lit('P'), lit(%d), lit(' '), %s)" % (o[3], g.dbl(st, "(%s).x" % x, fm))
        n1, n2 = g.dbl(st, "(%s).x" % x, fm), g.dbl(st, "(%s).y" % x, fm)
        return "cat(%s, lit(\"+i*\"), %s)" % (n1, n2) if alg else "br(%s, cat(%s, lit(\", \"), %s))" % (g.brk(st, "pt"), n1, n2)
    def printonly(g, st, t): # can it not be measured?
        if t == "col": o = g.ov(st, t); return not (o and o[2].startswith("OvColM"))
        if t == "plain": return not g.ov(st, t)
        if t == "tcol": return g.printonly(st, "col")
        return False
    # ---- formatted values: (cpp text of the formatted value, function of the bare model) for the value x
    def align(g, e):
        r = g.r; k = r.randrange(8); m = "al(v.f[%d], v.w[%d], v.a[%d], %%s)" % (k, k, k); c = r.randrange(9)
        if c < 3: n = ("left", "right", "center")[c]; return "strf::%s(%s, v.w[%d], v.f[%d])" % (n, e, k, k), m.replace("v.a[%d]" % k, "strf::text_alignment::" + n)
        if c < 5: return "(%s).set_alignment_format(strf::alignment_format{v.f[%d], v.w[%d], v.a[%d]})" % (e, k, k, k), m
        op, n = r.choice([("<", "left"), (">", "right"), ("^", "center")]); m = m.replace("v.a[%d]" % k, "strf::text_alignment::" + n)
        if c < 7: return "((%s) %s v.w[%d])" % (e, op, k), m.replace("v.f[%d]" % k, "U' '")
        if c < 8: return "((%s) %s v.w[%d]).fill(v.f[%d])" % (e, op, k, k), m
        return "((%s).fill(v.f[%d]) %s v.w[%d])" % (e, k, op, k), m
    def formatted(g, st, t, x, aligned=True):
        r = g.r; e = "strf::fmt(%s)" % x
        if t == "pt":
            ops = []
            for _ in range(r.randrange(0, 4)):
                ops.append(r.choice([".sci()", ".fixed()", ".gen()", ".hex()", ".p(v.pr[%d])" % r.randrange(4), "+", "*", "!", ".vec()", ".alg()", ".alg()", "~"]))
            alg, fm = False, "strf::fmt(%s)"
            al = r.randrange(len(ops) + 1) if aligned and r.random() < 0.6 else None; am = "%s"
            for i in range(len(ops) + 1):
                if al == i: e, am = g.align(e)
                if i == len(ops): break
                o = ops[i]
                if o in (".vec()", ".alg()"):
                    alg = o == ".alg()"
                    if r.random() < 0.2: n = "c%d" % len(g.decl); q = r.choice(["const auto", "auto"]); g.decl.append("%s %s = %s;" % (q, n, e)); e = n if q != "auto" else "std::move(%s)" % n
                    e = "(%s)%s" % (e, o)
                elif o[0] == ".": e = "(%s)%s" % (e, o); fm = "(%s)%s" % (fm, o)
                else: e = "(%s(%s))" % (o, e); fm = "(%s(%s))" % (o, fm)
            # how a number is printed with all its formats, after the defaults of the copy
            return e, lambda x, st=st: am % g.point(st, x, alg, "strf::fmt(%s).set_float_format((" + fm.replace("%s", "1.0") + ").get_float_format())")
        if t == "low":
            k, q = r.randrange(4), r.randrange(4); e, times, qty = "strf::fmt(%s)" % x, "1", "1"; am = "%s"; seq = [o for o in ("times", "multi", "align") if r.random() < 0.6]; r.shuffle(seq)
            for o in seq:
                if o == "times": e = "%s.times(v.k[%d])" % (e, k); times = "v.k[%d]" % k
                elif o == "multi": e = "%s.multi(v.k[%d])" % (e, q); qty = "v.k[%d]" % q
                elif aligned: e, am = g.align(e)
            return e, lambda x: am % ("low_((%s).n, %s, %s)" % (x, times, qty))
        if t in ("nof", "plain", "half"): return e, lambda x, st=st: g.bare(st, t, x)
        am = "%s"
        if aligned and r.random() < 0.85 and not (t[0] == "t" and g.printonly(st, t)): e, am = g.align(e) # (an aligned join has to be measured)
        return e, lambda x, st=st: am % g.bare(st, t, x)
    def value(g):
        r = g.r; x = r.random()
        t, n = r.choice([("col", 4), ("col", 4), ("pt", 4), ("pt", 4), ("pt", 4), ("low", 3), ("big", 3), ("base", 3), ("der", 3), ("conv", 3), ("plain", 3), ("nof", 3), ("half", 3), ("d", 4), ("b", 2), ("i", 3), ("tpl", 0), ("tpl", 0)])
        if t == "tpl":
            k = r.choice(["tpt", "tcol", "tint", "ttpt", "tbase", "tdbl"]); i = r.randrange(3)
            return k, {"tpt": "tpl(v.pt[%d])", "tcol": "tpl(v.col[%d])", "tint": "tpl(v.i[%d])", "ttpt": "tpl(tpl(v.pt[%d]))", "tbase": "tpl(v.base[%d])", "tdbl": "tpl(v.d[%d])"}[k] % i
        return {"der": "base", "conv": "base", "d": "dbl", "b": "bool", "i": "int"}.get(t, t), "v.%s[%d]" % (t, r.randrange(n))
    # an argument: (cpp, model, measurable)
    def arg(g, st, depth, measurable):
        r = g.r; x = r.random()
        if depth and x < 0.42:
            c = r.choice(["join", "join", "alignedjoin", "alignedjoin", "with", "with", "range", "range", "range", "tr"])
            if c == "join": a = g.args(st, depth - 1, measurable, r.randrange(0, 4)); return "strf::join(%s)" % a[0], a[1], a[2]
            if c == "alignedjoin":
                a = g.args(st, depth - 1, True, r.randrange(1, 4)); k = r.randrange(8)
                if r.random() < 0.4: return "strf::join_align(v.w[%d], v.a[%d], v.f[%d])(%s)" % (k, k, k, a[0]), "al(v.f[%d], v.w[%d], v.a[%d], %s)" % (k, k, k, a[1]), True
                e, am = g.align("strf::join(%s)" % a[0])
                if e.startswith("strf::left") or e.startswith("strf::right") or e.startswith("strf::center"): e = "strf::join(%s).set_alignment_format(strf::alignment_format{v.f[%d], v.w[%d], v.a[%d]})" % (a[0], k, k, k); am = "al(v.f[%d], v.w[%d], v.a[%d], %%s)" % (k, k, k)
                return e, am % a[1], True
            if c == "with":
                s = g.settings(1); a = g.args(st + s, depth - 1, True, r.randrange(1, 4)); return "strf::with(%s)(%s)" % (", ".join(map(g.cpp, s)), a[0]), a[1], a[2]
            if c == "range": return g.range(st, measurable)
            a = [g.arg(st, depth - 1, True) for _ in range(r.randrange(1, 4))]; lit, m = g.template(a)
            return "strf::tr(%s%s)" % (lit, "".join(", " + q[0] for q in a)), m, True
        for _ in range(50):
            t, v = g.value()
            if not (measurable and g.printonly(st, t)): break
        else: t, v = "int", "v.i[0]"
        ok = not g.printonly(st, t)
        if r.random() < 0.1: q = r.randrange(3); return ("v.str[%d]" % q, "own(v.str[%d])" % q, True) if r.random() < 0.5 else ("(C)'~'", "lit('~')", True)
        if t in ("dbl", "int") and r.random() < 0.6 or r.random() < 0.4: return v, g.bare(st, t, v if not v.startswith("v.conv") else "Base(%s)" % v), ok
        if t in ("dbl", "int"):
            e, m = g.align("strf::fmt(%s)" % v); return e, m % g.bare(st, t, v), ok
        e, m = g.formatted(st, t, v); return e, m(v if not v.startswith("v.conv") else "Base(%s)" % v), ok
    def args(g, st, depth, measurable, n):
        a = [g.arg(st, depth, measurable) for _ in range(n)]
        return ", ".join(q[0] for q in a), "cat(%s)" % ", ".join(q[1] for q in a), all(q[2] for q in a)
    def range(g, st, measurable):
        r = g.r
        for _ in range(50):
            t, v = r.choice([("col", "v.vcol"), ("pt", "v.vpt"), ("base", "v.lder"), ("plain", "v.vplain"), ("nof", "v.vnof"), ("low", "v.vlow"), ("tpt", "v.vtpt"), ("tcol", "v.vtcol"), ("big", "v.big"), ("bool", "v.vb"), ("pt", "v.pt")])
            if not (measurable and g.printonly(st, t)): break
        else: t, v = "pt", "v.vpt"
        ok = not g.printonly(st, t); sep = "v.sep[%d]" % r.randrange(2) if r.random() < 0.5 else None; sm = "&" + sep if sep else "nullptr"; se = ", " + sep + ".c_str()" if sep else ""; w = "separated_range" if sep else "range"
        model = lambda m: "range(%s, %s, [&](const auto& e) { return %s; })" % (v, sm, m("e"))
        k = r.randrange(4)
        if k == 0 or t in ("bool",): return "strf::%s(%s%s)" % (w, v, se), model(lambda e: g.bare(st, t, e)), ok
        if k == 1 and t not in ("bool",):
            n = len(g.decl); e, m = g.formatted(st, t, "e"); 
            if len(g.decl) != n: del g.decl[n:]; return "strf::%s(%s%s)" % (w, v, se), model(lambda e: g.bare(st, t, e)), ok
            cap = "&v" if "v." in e else ""
            return "strf::%s(%s%s, [%s](const %s& e) { return %s; })" % (w, v, se, cap, CPPTAG[t] if t != "base" else "Derived", e), model(m), ok
        n = len(g.decl); e, m = g.formatted(st, t, "@"); e = e.replace("strf::fmt(@)", "strf::fmt_%s(%s%s)" % (w, v, se))
        if len(g.decl) != n or "@" in e: del g.decl[n:]; return "strf::fmt_%s(%s%s)" % (w, v, se), model(lambda e: g.bare(st, t, e) if t != "low" else "low_(e.n, 1, 1)"), ok
        return e, model(m), ok
    def template(g, a):
        r = g.r; t, m = "", []; auto = 0
        for _ in range(r.randrange(1, 6)):
            k = r.random()
            if k < 0.3: s = r.choice(["x", "--", "ab", " "]); t += s; m.append("lit(\"%s\")" % s)
            elif k < 0.5 and auto < len(a): t += "{}"; m.append(a[auto][1]); auto += 1
            elif k < 0.55: t += "{{"; m.append("lit('{')")
            else: i = r.randrange(len(a)); t += "{%d}" % i; m.append(a[i][1])
        n = "t%d" % len(g.decl); g.decl.append("static const char %s_[] = \"%s\"; const S %s(%s_, %s_ + sizeof %s_ - 1);" % (n, t, n, n, n, n)); return n, "cat(%s)" % ", ".join(m)

def preamble():
    o = ["template <class T> struct only_%s : std::is_same<T, %s> {}; template <class T> struct but_%s : std::integral_constant<bool, !std::is_same<T, %s>::value> {};" % (t, CPPTAG[t], t, CPPTAG[t]) for t in TAGS]
    return o + ["template <class T> struct any_ : std::true_type {}; template <class T> struct none_ : std::false_type {}; template <class T> struct is_tpl : std::false_type {}; template <class T> struct is_tpl<Tpl<T>> : std::true_type {};"]

def main():
    out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]; SHAPES = int(sys.argv[4]) if len(sys.argv) > 4 else 55 if tier == "quick" else 200
    for fi in range(FILES):
        C = TYPES[fi]; rnd = random.Random(seed * 1000 + fi)
        o = ['#include "P30/p30.hpp"', "namespace { using namespace p30; using C = %s; using S = std::basic_string<C>; std::vector<void (*)(Src&, Ctx&)>& shapes() { static std::vector<void (*)(Src&, Ctx&)> v; return v; } struct Add { Add(void (*f)(Src&, Ctx&)) { shapes().push_back(f); } };" % C]
        o += preamble()
        o.append("template <class X> struct Use : V<C> { using V<C>::V; };")
        for si in range(SHAPES):
            g = G(rnd); call = [g.settings(0)]
            while rnd.random() < 0.3: call.append(g.settings(1))
            st = [x for q in call for x in q]; want_meas = rnd.random() < 0.55; tr = rnd.random() < 0.3
            a = [g.arg(st, 2, want_meas) for _ in range(rnd.randrange(1, 4))]; ok = all(q[2] for q in a)
            model = "cat(%s)" % ", ".join(q[1] for q in a); lst = [q[0] for q in a]; meth = ""
            if tr: lit, model = g.template(a); lst = [lit] + lst; meth = ".tr"
            elif rnd.random() < 0.15: meth = ".line"; model = "cat(%s, lit('\\n'))" % model
            calls = [", ".join(map(g.cpp, q)) for q in call]
            if not tr and calls[-1] and rnd.random() < 0.3: lst = [calls.pop()] + lst
            ws = "".join(".with(%s)" % c for c in calls); al = ", ".join(lst); desc = ws + meth + "(" + al + ")"
            p = ["namespace { struct P%d : V<C> { using V<C>::V; void run(Src& s, Ctx& cx) { auto& v = *this; static const char text[] = R\"~~(%s   where %s)~~\"; if (cx.want_text) cx.text << text;" % (si, desc, " ".join(g.decl))]
            p += g.decl
            p.append("const N want = %s; cx.nt(!want.t.empty());" % model)
            k = rnd.randrange(4) if ok else rnd.choice([0, 3])
            if k == 0: p.append("{ Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d))%s; check_eq(text, d.finish(), want.t); }" % desc)
            elif k == 1: p.append("{ S got = strf::to_basic_string<C>%s.reserve_calc()%s(%s); check_eq(text, got, want.t); }" % (ws, meth, al))
            elif k == 2 and not tr: lead = [x for x in lst if x not in [q[0] for q in a]]; p.append("{ measured<C>(text, want, strf::pack(%s)%s); }" % (", ".join(g.cpp(x) for x in st), "".join(", " + q[0] for q in a)) if meth == "" else "{ S got = strf::to_basic_string<C>%s; check_eq(text, got, want.t); }" % desc)
            else: p.append("{ S got = strf::to_basic_string<C>%s%s%s(%s); check_eq(text, got, want.t); }" % (ws, rnd.choice(["", ".reserve(25)", ".no_reserve()"]), meth, al))
            p.append("} }; void shape_%d(Src& s, Ctx& cx) { P%d p(s, cx); p.run(s, cx); } const Add add_%d(&shape_%d); }" % (si, si, si, si))
            o.append("/*PROG*/ " + " ".join(x.replace("\n", " ") for x in p))
        o.append("}\nPBT_PROP(programs_%d_%s, 1) { if (!shapes().empty()) shapes()[s.draw(shapes().size())](s, cx); }" % (fi, C))
        open(os.path.join(out, "p30_%d.cpp" % fi), "w").write("\n".join(o) + "\n")
if __name__ == "__main__": main()
