#!/usr/bin/env python3
# Generates programs: random stacks of facet settings around random arguments, and which setting governs each argument.
import sys, os, random
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
FILES, SHAPES = 8, (int(sys.argv[4]) if len(sys.argv) > 4 else 48 if tier == "quick" else 150)
TYPES = ["char", "char16_t", "char", "char32_t", "char", "char8_t", "wchar_t", "char"]
TAGS = ["bool", "int", "ull", "short", "dbl", "flt", "ptr", "ch", "c32", "str", "str2", "tr", "void", "pr0", "pr1"]
CPPTAG = {"bool": "bool", "int": "int", "ull": "unsigned long long", "short": "short", "dbl": "double", "flt": "float", "ptr": "const void*", "ch": "C", "c32": "char32_t",
          "str": "strf::string_input_tag<C>", "str2": "strf::string_input_tag<X>", "tr": "strf::tr_string_tag<C>", "void": "void", "pr0": "Probe<0>", "pr1": "Probe<1>"}
FILTERS = {"std::is_floating_point": {"dbl", "flt"}, "std::is_integral": {"bool", "int", "ull", "short", "ch", "c32"}, "std::is_pointer": {"ptr"}, "std::is_class": {"str", "str2", "tr", "pr0", "pr1"}, "std::is_signed": {"int", "short", "dbl", "flt"}}
SIGNED_CH = {"char", "wchar_t"}  # whether these are signed is the platform's choice (they are here)
for t in TAGS: FILTERS["only_" + t] = {t}
for t in ("bool", "int", "dbl", "str", "tr", "pr0", "ch"): FILTERS["but_" + t] = set(TAGS) - {t}
FILTERS["any_"] = set(TAGS); FILTERS["none_"] = set()
FNAMES = sorted(FILTERS)

class G:
    def __init__(g, rnd, C):
        g.r, g.C, g.n = rnd, C, 0
        # most programs have a theme: one tag, the categories looked up with it, constraints that are about it
        g.theme = rnd.choice([t for t in TAGS if t != "void"]) if rnd.random() < 0.75 else None
        if g.theme:
            t = g.theme; g.tleaves = [l for l in LEAVES if "." + t in l[1]]; g.tcats = sorted({d.split(".")[0] for l in g.tleaves for d in l[1].split() if d.endswith("." + t) and d.split(".")[0] != "cs"} | ({OVER[t]} if t in OVER else set())) or ["u0", "u1"]
            g.tfilters = [f for f in FNAMES if f in ("only_" + t, "but_" + t, "any_", "none_")] + [f for f in FNAMES if f.startswith("std::")] + ["only_" + rnd.choice(TAGS), "but_dbl"]
    def accept(g, f, t):
        if g.C == "char32_t" and t == "c32": t = "ch"
        if g.C == "char32_t" and t == "ch":
            if f in ("only_c32", "only_ch"): return True
            if f == "but_ch": return False
        if f == "std::is_signed" and t == "ch": return g.C in SIGNED_CH
        return t in FILTERS[f]
    # setting := ("f", cat, cpp, id) | ("pack", [settings]) | ("con", filter, setting)
    def leaf_facet(g, con, cats=None):
        r = g.r; k = g.n; g.n += 1
        if g.theme and not cats and r.random() < 0.6: cats = g.tcats
        cat = r.choice(cats) if cats else r.choice(["lc"] * 5 + ["np10"] * 4 + ["np16"] * 3 + ["wc"] * 4 + ["en"] * 2 + ["ovb", "ovd", "ovf", "ovp"] + ["u0"] * 5 + ["u1"] * 4 + ([] if con else ["n"] + (["cs"] * 2 if g.C == "char" else [])))
        i = k % 24
        if cat == "lc": e = r.choice(["v.lc[%d]" % i] * 4 + ["strf::uppercase", "strf::mixedcase", "strf::lowercase"])
        elif cat == "np10": e = r.choice(["v.p10[%d]" % i] * 5 + ["strf::default_numpunct<10>()", "strf::no_grouping<10>().decimal_point(U',')"])
        elif cat == "np16": e = r.choice(["v.p16[%d]" % i] * 5 + ["strf::default_numpunct<16>()"])
        elif cat == "wc": e = r.choice(["v.wc[%d]" % i] * 5 + ["strf::fast_width", "strf::width_as_u32len", "strf::std_width_calc"])
        elif cat == "en": e = "v.note(%d)" % k
        elif cat == "cs": e = r.choice(["strf::utf<char>", "strf::iso_8859_1<char>", "strf::windows_1252<char>", "strf::ascii<char>"])
        elif cat == "n": e = "Nf{%d}" % k
        elif cat[0] == "u": t = r.randrange(2); return ("f", cat, "Fc<%s, %d>{%d}" % (cat[1], t, k), k * 2 + t)
        else: e = "Ov<%s>{%d}" % ({"ovb": "bool", "ovd": "double", "ovf": "float", "ovp": "const void*"}[cat], k)
        return ("f", cat, e, k)
    def setting(g, con, depth, cats=None):
        r = g.r; x = r.random()
        if depth <= 0 or x < 0.45: return g.leaf_facet(con, cats)
        if x < 0.65: return ("pack", [g.setting(con, depth - 1, cats) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))])
        return ("con", r.choice(g.tfilters if g.theme and r.random() < 0.8 else FNAMES), g.setting(True, depth - 1, cats))
    def settings(g, con, lo=1):
        r = g.r; cats = r.choice([None, None, None, ["lc"], ["lc", "np10"], ["u0", "u1"], ["wc"], ["np10", "np16"], ["ovb", "ovd", "lc", "ovp"], ["en", "wc"]])
        if g.theme and r.random() < 0.7: cats = g.tcats
        n = max(lo, r.choice([0, 1, 1, 2, 2, 3, 4]))
        if r.random() < 0.06: n = 9
        return [g.setting(con, r.choice([0, 1, 2, 3, 4]), cats) for _ in range(n)]
    def governing(g, s, cat, tag):
        if s[0] == "f": return s if s[1] == cat else None
        if s[0] == "con": return g.governing(s[2], cat, tag) if g.accept(s[1], tag) else None
        return g.find(s[1], cat, tag)
    def find(g, lst, cat, tag):
        for s in reversed(lst):
            q = g.governing(s, cat, tag)
            if q: return q
        return None
    def has_unconstrainable(g, s):
        return s[1] in ("n", "cs") if s[0] == "f" else g.has_unconstrainable(s[2]) if s[0] == "con" else any(map(g.has_unconstrainable, s[1]))
    # the C++ text of a setting; some become named variables
    def cpp(g, s, decl):
        r = g.r
        if s[0] == "f": e = s[2]
        elif s[0] == "pack": e = "strf::pack(%s)" % ", ".join(g.cpp(x, decl) for x in s[1])
        else: e = "strf::constrain<%s>(%s)" % (s[1], g.cpp(s[2], decl))
        if s[0] != "f" and r.random() < 0.3:
            n = "k%d" % len(decl); c = r.choice(["const auto", "auto", "auto"]); decl.append("%s %s = %s;" % (c, n, e))
            if r.random() < 0.3: m = "k%d" % len(decl); decl.append("auto %s = %s;" % (m, n)); n = m; c = "auto"
            e = n if c != "auto" or r.random() < 0.7 else "std::move(%s)" % n
        return e

LEAVES = [  # expression, categories and tags it looks up
    ("v.b", "lc.bool"), ("strf::right(v.b, 8)", "lc.bool"), ("strf::join(v.b)", "lc.bool"), ("*strf::hex(v.i)", "lc.int"), ("!strf::dec(v.i)", "np10.int"), ("!*strf::hex(v.i)", "lc.int np16.int"), ("!*strf::hex(v.i) > v.w", "lc.int np16.int cs.int"),
    ("*strf::hex(v.u)", "lc.ull"), ("!strf::dec(v.u)", "np10.ull"), ("strf::fmt(v.u).set_int_format(v.ifmt)", "lc.ull np10.ull np16.ull cs.ull"), ("!strf::dec(v.sh)", "np10.short"), ("*strf::hex(v.sh).p(6)", "lc.short"), ("*strf::hex(v.sh) > 12", "lc.short"), ("strf::pad0(*strf::hex(v.i), 12)", "lc.int"), ("strf::pad0(!strf::dec(v.i), 14)", "np10.int"),
    ("*strf::hex(v.i).fill(U'\\u00e9') > 15", "lc.int cs.int"), ("*strf::bin(v.u)", "lc.ull"),
    ("v.d", "lc.dbl"), ("v.d", "lc.dbl"), ("!strf::fixed(v.d, 2)", "lc.dbl np10.dbl"), ("*strf::hex(v.d)", "lc.dbl"), ("!strf::hex(v.d)", "lc.dbl np16.dbl"), ("strf::sci(v.d)", "lc.dbl"), ("!strf::gen(v.d, 12) > 20", "lc.dbl np10.dbl"), ("strf::fmt(v.d)", "lc.dbl"), ("strf::left(v.d, 9)", "lc.dbl"),
    ("v.f", "lc.flt"), ("strf::right(v.f, 14)", "lc.flt"), ("!*strf::gen(v.f)", "lc.flt np10.flt"), ("+!strf::hex(v.f)", "lc.flt np16.flt"), ("v.p", "lc.ptr"), ("strf::right(v.p, 30)", "lc.ptr"),
    ("strf::right(v.ch, 4)", "wc.ch cs.ch"), ("strf::multi(v.ch, 4) > 9", "wc.ch cs.ch"), ("strf::right(v.c32, 4)", "wc.c32 cs.c32"), ("strf::multi(v.c32, 3) ^ 9", "wc.c32 cs.c32"), ("v.c32", "cs.c32"),
    ("strf::right(v.sv, 12)", "wc.str cs.str"), ("strf::fmt(v.sv).p(3)", "wc.str cs.str"), ("strf::fmt(v.sv).p(4) > v.w", "wc.str cs.str"), ("strf::sani(v.sv) > 9", "wc.str cs.str"), ("strf::join(v.sv) > v.w", "wc.str cs.str"), ("strf::center(v.str, v.w, U'*')", "wc.str cs.str"),
    ("strf::transcode(v.sx) > 12", "wc.str2 cs.str2"), ("strf::transcode(v.sx)", "cs.str2"), ("strf::transcode(v.sx).p(3)", "wc.str2 cs.str2"), ("strf::join(strf::transcode(v.sx)) > 9", "wc.str2 cs.str2"),
    ("strf::tr(v.trs, v.i)", "en.tr cs.tr"), ("strf::tr(v.trs, !strf::dec(v.i))", "en.tr np10.int cs.tr"), ("strf::join(strf::tr(v.trs, v.i)) > 15", "en.tr wc.tr cs.tr"),
    ("strf::join_left(18)(strf::separated_range(v.vi, v.sep.c_str()))", "wc.str cs.str"), ("strf::range(v.vi, [](int x) { return *strf::hex(x); })", "lc.int"), ("*strf::fmt_range(v.vi).hex()", "lc.int"), ("!strf::fmt_separated_range(v.vi, v.sep.c_str()) > 5", "np10.int"), ("strf::separated_range(v.vi, v.sep.c_str(), [](int x) { return !strf::dec(x); })", "np10.int"),
]
OVER = {"bool": "ovb", "dbl": "ovd", "flt": "ovf", "ptr": "ovp"}

LEAVES = [(e, " ".join(d for d in deps.split() if not d.startswith("cs."))  or deps) for e, deps in LEAVES]
def main():
    for fi in range(FILES):
        C = TYPES[fi]; rnd = random.Random(seed * 1000 + fi)
        o = ['#include "P19/p19.hpp"', "namespace { using namespace p19; using C = %s; using X = V<C>::X; using S = std::basic_string<C>; std::vector<void (*)(Src&, Ctx&)>& shapes() { static std::vector<void (*)(Src&, Ctx&)> v; return v; } struct Add { Add(void (*f)(Src&, Ctx&)) { shapes().push_back(f); } };" % C]
        for t in TAGS: o.append("template <class T> struct only_%s : std::is_same<T, %s> {}; template <class T> struct but_%s : std::integral_constant<bool, !std::is_same<T, %s>::value> {};" % (t, CPPTAG[t], t, CPPTAG[t]))
        o.append("template <class T> struct any_ : std::true_type {}; template <class T> struct none_ : std::false_type {};")
        names = []
        for si in range(SHAPES):
            g = G(rnd, C); decl, want, alt = [], [], [False]
            call = [g.settings(False, 0)]
            while rnd.random() < 0.4: call.append(g.settings(False))
            flat = [x for grp in call for x in grp]
            def args(stack, depth, n):
                r = []
                for _ in range(n):
                    x = rnd.random()
                    if depth and x < 0.25:
                        st = g.settings(True); inner = args(stack + st, depth - 1, rnd.randrange(1, 4)); fac = ", ".join(g.cpp(q, decl) for q in st)
                        r.append("strf::with(%s)(%s)" % (fac, ", ".join(inner)))
                    elif depth and x < 0.35: r.append("strf::join(%s)" % ", ".join(args(stack, depth - 1, rnd.randrange(1, 4))))
                    elif x < 0.5:
                        k = rnd.randrange(2); t = "pr%d" % k; ids = [g.find(stack, c, t) for c in ("u0", "u1", "n")]
                        want.append("{ static const char w[] = \"[%s]\"; for (const char* q = w; *q; ++q) { want += (C)*q; want2 += (C)*q; } }" % ",".join(str(q[3]) if q else "-1" for q in ids)); r.append("Probe<%d>{}" % k)
                    else:
                        e, deps = rnd.choice(g.tleaves if g.theme and g.tleaves and rnd.random() < 0.6 else LEAVES); pairs = [d.split(".") for d in deps.split()]; pairs += [["cs", t] for t in sorted({t for _, t in pairs}) if ["cs", t] not in pairs]; fs = [g.find(stack, c, t) for c, t in pairs]; ov = None
                        for c, t in pairs:
                            if t in OVER: ov = g.find(stack, OVER[t], t)
                        if ov:
                            val = e in ("v.b", "strf::join(v.b)", "v.d", "v.f", "v.p")
                            want.append("{ static const char w[] = \"<%d%s>\"; for (const char* q = w; *q; ++q) { want += (C)*q; want2 += (C)*q; } }" % (ov[3], ""))
                        else:
                            one = "(S)strf::to_basic_string<C>.with(%s)(" + e + ");"; w = one % ", ".join(dict.fromkeys(q[2] for q in fs if q))
                            lf = g.find(stack, "lc", "flt")
                            if e in ("v.d", "strf::fmt(v.d)") and lf != fs[0]: # known finding: these look the letter case of float up
                                alt[0] = True; want.append("{ S w = %s want += w; w = %s want2 += w; }" % (w, one % (lf[2] if lf else ""))); r.append(e); continue
                            want.append("{ S w = %s want += w; want2 += w; }" % w)
                        r.append(e)
                return r
            a = args(flat, 3, rnd.randrange(1, 6))
            calls = [", ".join(g.cpp(q, decl) for q in grp) for grp in call]
            if rnd.random() < 0.3: # one pack for the whole
                decl.append("const auto all = strf::pack(%s);" % ", ".join("strf::pack(%s)" % c for c in calls)); calls = ["all"]
            lead = calls[-1] if calls[-1] and rnd.random() < 0.35 else ""
            if lead: calls = calls[:-1]
            meth = ".tr" if g.theme == "tr" and rnd.random() < 0.7 else rnd.choice(["", "", "", "", ".tr", ".tr", ".line"]); ws = "".join(".with(%s)" % c for c in calls)
            lst = ([lead] if lead else []) + (["tmpl"] if meth == ".tr" else []) + a; al = ", ".join(lst)
            desc = ws + meth + "(" + al + ")"
            start = len(o)
            o.append("void shape_%d(Src& s, Ctx& cx) { static const char text[] = R\"~~(%s   where %s)~~\"; if (cx.want_text) cx.text << text; V<C> v(s, cx); S want, want2; std::set<int> wlog;" % (si, desc, " ".join(decl)))
            o += want
            o += decl
            if meth == ".tr": o.append("S tmpl; for (int q = 0; q < %d; ++q) { tmpl += (C)'{'; tmpl += (C)'}'; }" % len(a))
            if meth == ".tr" and rnd.random() < 0.5:
                # ends with a reference to an argument that does not exist
                fs = [g.find(flat, "en", "tr"), g.find(flat, "cs", "tr")]
                o.append("{ S bad; for (char q : {'{', '9', '9', '}'}) bad += (C)q; tmpl += bad; S w = (S)strf::to_basic_string<C>.with(%s)(strf::tr(bad)); want += w; want2 += w; }" % ", ".join(q[2] for q in fs if q))
            if meth == ".line": o.append("want += (C)'\\n'; want2 += (C)'\\n';")
            # direct look-ups in a pack
            pk = [g.settings(False, 0) for _ in range(1)][0]; pd = []; pe = ", ".join(g.cpp(q, pd) for q in pk)
            pd = [x.replace("k", "pk_") if False else x for x in pd]
            o.append("wlog.swap(v.log);")
            o.append("cx.nt(%s);" % ("true" if sum(map(len, call)) and want else "!want.empty()"))
            ret = rnd.randrange(4); cmp = "check_eq(text, got, want);" if not alt[0] else "if (got != want && got == want2) { cx.known = true; cx.known_id = \"lettercase-of-plain-double\"; } else check_eq(text, got, want);"
            if ret == 0: o.append("{ Chunked<C> d(chunk_sizes(s)); strf::to(static_cast<strf::destination<C>&>(d))%s%s(%s); %s }" % (ws, meth, al, cmp.replace("got", "d.finish()")))
            elif ret == 1: o.append("{ S got = strf::to_basic_string<C>%s.reserve_calc()%s(%s); %s }" % (ws, meth, al, cmp))
            elif ret == 2 and calls: o.append("{ S got = strf::to_basic_string<C>%s.reserve(30)%s%s(%s); %s }" % ("".join(".with(%s)" % c for c in calls[:1]), "".join(".with(%s)" % c for c in calls[1:]), meth, al, cmp))
            else: o.append("{ S got = strf::to_basic_string<C>%s%s(%s); %s }" % (ws, meth, al, cmp))
            o.append("check(v.log == wlog, \"the tr error notifier that was called\");")
            if pk:
                pd2 = []; g.r = random.Random(seed * 77 + fi * 1000 + si); pe = ", ".join(g.cpp(q, pd2) for q in pk)
                o.append("{ %s auto pk = strf::pack(%s); const auto& ck = pk; static const char ptext[] = R\"~~(%s strf::pack(%s))~~\"; if (cx.want_text) cx.text << \" and \" << ptext; (void)ck;" % (" ".join(pd2), pe, " ".join(pd2), pe))
                for t in rnd.sample(TAGS, 6):
                    for c, cat in (("u0", "UC<0>"), ("u1", "UC<1>")):
                        q = g.find(pk, c, t); f = rnd.choice(["strf::get_facet<%s, %s>(ck)", "strf::get_facet<%s, %s>(pk)", "ck.template get_facet<%s, %s>()", "pk.template use_facet<%s, %s>()"])
                        o.append("eqi(ptext, ident(%s), %d);" % (f % (cat, CPPTAG[t]), q[3] if q else -1))
                    for c, cat, proj, dflt in (("lc", "strf::lettercase_c", "(int)%s", "strf::lowercase"), ("np10", "strf::numpunct_c<10>", "%s.thousands_sep()", "strf::default_numpunct<10>()"), ("wc", "strf::width_calculator_c", "AnyWidth()", "")):
                        if c == "wc" or rnd.random() < 0.6: continue
                        q = g.find(pk, c, t); o.append("eqi(ptext, %s, %s);" % (proj % ("strf::get_facet<%s, %s>(pk)" % (cat, CPPTAG[t])), proj % (q[2] if q else dflt)))
                o.append("eqi(\"is_constrainable\", strf::is_constrainable<decltype(pk)>(), %s); }" % ("false" if any(map(g.has_unconstrainable, pk)) else "true"))
            o.append("} const Add add_%d(&shape_%d);" % (si, si)); names.append("shape_%d" % si)
            o[start:] = ["/*PROG*/ " + " ".join(x.replace("\n", " ") for x in o[start:])]
        o.append("}\nPBT_PROP(stacks_%d_%s, 1) { if (!shapes().empty()) shapes()[s.draw(shapes().size())](s, cx); }" % (fi, C))
        open(os.path.join(out, "p19_%d.cpp" % fi), "w").write("\n".join(o) + "\n")
main()
