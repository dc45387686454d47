#!/usr/bin/env python3
# Generates programs: random chains of documented format functions, and the formatting they amount to.
import sys, os, random
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
FILES = 8 if tier == "quick" else 16
PROGS = int(sys.argv[4]) if len(sys.argv) > 4 else 72 if tier == "quick" else 160
TYPES = ["char", "char16_t", "char", "char32_t", "char", "char8_t", "wchar_t", "char"]
NOTATIONS = ["general", "fixed", "scientific", "hex"]
SIGN = "strf::showsign::"

class Rec(dict):
    def copy(r): return Rec(r)
INT0 = Rec(base="10", precision="0", pad0width="0", sign="negative_only", showbase="false", punctuate="false")
FLT0 = Rec(precision="(decltype(strf::float_format::precision))-1", pad0width="0", notation="general", sign="negative_only", showpoint="false", punctuate="false")
AL0 = Rec(fill="U' '", width="0", alignment="right", touched=False)
STR0 = Rec(p=None, pol=None, cs="")

class Chain:
    """an expression under construction, and its formatting"""
    def __init__(c, r, kind, start, C, X=None, other=None):
        c.r, c.kind, c.e, c.C, c.X = r, kind, start, C, X
        c.al = AL0.copy(); c.other = other
        c.i = INT0.copy(); c.f = FLT0.copy(); c.s = STR0.copy(); c.m = "1"
        c.fmted = False; c.pre = []; c.csmode = r.choice([0, 1])
    def n(c): return "o.n[%d]" % c.r.randrange(6)
    def w(c): return "o.w[%d]" % c.r.randrange(6)
    def ch(c): return "o.ch[%d]" % c.r.randrange(6)
    def base(c):  # the operand of a member function
        if not c.fmted: c.fmted = True; return "strf::fmt(%s)" % c.e
        if c.r.random() < 0.08: return "strf::fmt(%s)" % c.e
        return c.e
    def mem(c, call): c.e = "%s.%s" % (c.base(), call)
    def pfx(c, op): c.e = "(%s%s)" % (op, c.base())
    def bin(c, op, w): c.e = "(%s %s %s)" % (c.base(), op, w)
    def fn(c, name, *args):  # a global format function takes the value or a formatted value
        c.fmted = True; c.e = "strf::%s(%s)" % (name, ", ".join((c.e,) + args))
    def either(c, name, *args):
        if c.r.random() < 0.5: c.fn(name, *args)
        else: c.mem("%s(%s)" % (name, ", ".join(args)))
    def maybe_name(c):
        if c.fmted and c.r.random() < 0.15:
            t = "t%d" % len(c.pre); c.pre.append("auto %s = %s;" % (t, c.e)); c.e = c.r.choice(["std::move(%s)", "strf::fmt(std::move(%s))"]) % t
    # --- alignment
    def align_op(c):
        r, a = c.r, c.al; x = r.random()
        if x < 0.45:
            k, op, h = r.choice([("left", "<", "left"), ("right", ">", "right"), ("center", "^", "center")]); w = c.w()
            a["width"], a["alignment"], a["touched"] = w, k, True
            y = r.random()
            if y < 0.5: c.bin(op, w)
            elif y < 0.75: c.fn(h, w)
            else: f = c.ch(); a["fill"] = f; c.fn(h, w, f)
        elif x < 0.7: f = c.ch(); a["fill"] = f; a["touched"] = True; c.mem("fill(%s)" % f)
        elif x < 0.82:
            f, w, k = c.ch(), c.w(), r.choice(["left", "right", "center"]); c.al = Rec(fill=f, width=w, alignment=k, touched=True)
            c.mem("set_alignment_format(p29::al(%s, %s, strf::text_alignment::%s))" % (f, w, k))
        elif x < 0.88: c.al = AL0.copy(); c.mem("set_alignment_format(strf::default_alignment_format{})")
        elif x < 0.94: c.al = AL0.copy(); c.mem("clear_alignment_format()")
        else:
            q = Chain(r, "bool", "true", c.C)
            for _ in range(r.choice([0, 1, 1, 2])): q.align_op()
            c.mem("set_alignment_format(%s.get_alignment_format())" % q.base()); c.al = q.al
    # --- integers
    def int_op(c):
        r, i = c.r, c.i; x = r.random(); dec = i["base"] == "10"
        if x < 0.24:
            h, b = r.choice([("hex", "16"), ("dec", "10"), ("oct", "8"), ("bin", "2")]); i["base"] = b
            if r.random() < 0.3: c.mem("base(%s)" % b)
            else: c.either(h)
        elif x < 0.36: n = c.n(); i["precision"] = n; c.mem("p(%s)" % n)
        elif x < 0.48: n = c.n(); i["pad0width"] = n; c.either("pad0", n)
        elif x < 0.68:
            if dec:
                k, f = r.choice([("positive_also", lambda: c.pfx("+")), ("fill_instead_of_positive", lambda: c.pfx("~")), ("fill_instead_of_positive", lambda: c.mem("fill_sign()"))]); i["sign"] = k; f()
            else: i["showbase"] = "true"; c.pfx("*")
        elif x < 0.80:
            i["punctuate"] = "true"; y = r.random()
            if y < 0.4: c.pfx("!")
            else: c.either("punct")
        elif x < 0.87:
            i.update(base=r.choice(["10", "16", "8", "2"]), precision=c.n(), pad0width=c.n(), sign=r.choice(["negative_only", "positive_also", "fill_instead_of_positive"]), showbase=r.choice(["true", "false"]), punctuate=r.choice(["true", "false"]))
            c.mem("set_int_format(p29::ifmt(%s, %s, %s, strf::showsign::%s, %s, %s))" % tuple(i[k] for k in ("base", "precision", "pad0width", "sign", "showbase", "punctuate")))
        elif x < 0.92: c.i = INT0.copy(); c.mem("set_int_format(strf::default_int_format{})")
        else:
            q = Chain(r, "int", "1234u", c.C)
            for _ in range(r.choice([0, 1, 2, 2, 3])): q.int_op()
            c.mem("set_int_format(%s.get_int_format())" % q.base()); c.i = q.i
    # --- floating point
    def flt_op(c):
        r, i = c.r, c.f; x = r.random()
        if x < 0.26:
            h, b = r.choice([("hex", "hex"), ("fixed", "fixed"), ("sci", "scientific"), ("gen", "general")]); i["notation"] = b
            if h != "hex" and r.random() < 0.3: n = c.n(); i["precision"] = n; c.fn(h, n)
            else: c.either(h)
        elif x < 0.32: b = r.choice(NOTATIONS); i["notation"] = b; c.mem("set_float_notation(strf::float_notation::%s)" % b)
        elif x < 0.42: n = c.n(); i["precision"] = n; c.mem("p(%s)" % n)
        elif x < 0.52: n = c.n(); i["pad0width"] = n; c.either("pad0", n)
        elif x < 0.68:
            k, f = r.choice([("positive_also", lambda: c.pfx("+")), ("fill_instead_of_positive", lambda: c.pfx("~")), ("fill_instead_of_positive", lambda: c.mem("fill_sign()"))]); i["sign"] = k; f()
        elif x < 0.75: i["showpoint"] = "true"; c.pfx("*")
        elif x < 0.82:
            i["punctuate"] = "true"
            if r.random() < 0.4: c.pfx("!")
            else: c.either("punct")
        elif x < 0.89:
            i.update(precision=r.choice([c.n(), FLT0["precision"]]), pad0width=c.n(), notation=r.choice(NOTATIONS), sign=r.choice(["negative_only", "positive_also", "fill_instead_of_positive"]), showpoint=r.choice(["true", "false"]), punctuate=r.choice(["true", "false"]))
            c.mem("set_float_format(p29::ffmt(%s, %s, strf::float_notation::%s, strf::showsign::%s, %s, %s))" % tuple(i[k] for k in ("precision", "pad0width", "notation", "sign", "showpoint", "punctuate")))
        elif x < 0.93: c.f = FLT0.copy(); c.mem("set_float_format(strf::default_float_format{})")
        else:
            q = Chain(r, "flt", r.choice(["1.5", "1.5f"]), c.C)
            for _ in range(r.choice([0, 1, 2, 2, 3])): q.flt_op()
            c.mem("set_float_format(%s.get_float_format())" % q.base()); c.f = q.f
    # --- strings: precision and transcoding policy (with a charset in all of them, or in none)
    def str_op(c):
        r, i = c.r, c.s; x = r.random()
        if x < 0.45: w = c.w(); i["p"] = w; c.mem("p(%s)" % w); return
        pol = r.choice(["transcode", "sani", "sanitize", "unsafe_transcode"])
        args = ()
        if c.csmode:
            cs = r.choice(["strf::windows_1252<char>", "strf::utf<char>", "strf::iso_8859_3<char>"]) if c.X == "char" else "strf::utf<%s>" % c.X
            if c.X == "char" and c.C == "char" and r.random() < 0.2: cs = "p29::dyn()"
            i["cs"] = cs; args = (cs,)
        i["pol"] = "sani" if pol == "sanitize" else pol
        if pol == "sanitize": c.mem("sanitize(%s)" % ", ".join(args))
        else: c.either(pol, *args)
    def op(c):
        x = c.r.random()
        if c.kind in ("int", "flt", "str") and x < 0.68: {"int": c.int_op, "flt": c.flt_op, "str": c.str_op}[c.kind]()
        elif c.kind == "char" and x < 0.4: n = c.n(); c.m = n; c.either("multi", n)
        else: c.align_op()
        c.maybe_name()
    def records(c):
        o = []
        if c.kind == "int": o.append("auto F = p29::ifmt(%s, %s, %s, strf::showsign::%s, %s, %s);" % tuple(c.i[k] for k in ("base", "precision", "pad0width", "sign", "showbase", "punctuate")))
        if c.kind == "flt": o.append("auto F = p29::ffmt(%s, %s, strf::float_notation::%s, strf::showsign::%s, %s, %s);" % tuple(c.f[k] for k in ("precision", "pad0width", "notation", "sign", "showpoint", "punctuate")))
        o.append("auto A = p29::al(%s, %s, strf::text_alignment::%s);" % (c.al["fill"], c.al["width"], c.al["alignment"]))
        return " ".join(o)
    def canon(c, v):
        if c.kind == "int": return "strf::fmt(%s).set_int_format(F).set_alignment_format(A)" % v
        if c.kind == "flt": return "strf::fmt(%s).set_float_format(F).set_alignment_format(A)" % v
        if c.kind == "char": return "strf::fmt(%s).multi(%s).set_alignment_format(A)" % (v, c.m)
        if c.kind == "str":
            e = "strf::fmt(%s)" % v
            if c.s["p"]: e += ".p(%s)" % c.s["p"]
            if c.s["pol"]: e += ".%s(%s)" % (c.s["pol"], c.s["cs"] if c.csmode else "")
            return e + ".set_alignment_format(A)"
        return "strf::fmt(%s).set_alignment_format(A)" % v

def q(t): return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'

def program(r, C, name):
    X = C; v2 = None; rng = False
    k = r.choice(["int"] * 34 + ["flt"] * 28 + ["str"] * 16 + ["char"] * 5 + ["bool", "bool", "ptr", "ptr"] + ["join"] * 5 + ["rint"] * 5 + ["rflt"] * 3 + ["rstr"] * 3)
    kind = {"rint": "int", "rflt": "flt", "rstr": "str", "ptr": "bool", "join": "bool"}.get(k, k)
    decl = ""
    if k == "int": T = r.choice(["int", "int", "unsigned", "long long", "unsigned long long", "short", "unsigned short", "long", "unsigned long"]); decl = "%s v = o.integer<%s>(s, cx), v2 = o.integer<%s>(s, cx);" % (T, T, T); start = "v"; v2 = "v2"
    elif k == "flt": T = r.choice(["double", "double", "float"]); decl = "%s v = o.floating<%s>(s, cx), v2 = o.floating<%s>(s, cx);" % (T, T, T); start = "v"; v2 = "v2"
    elif k == "char":
        if r.random() < 0.5: decl = "C v = (C)('!' + s.draw(90));"
        else: decl = "char32_t v = o.ch[5];"
        start = "v"
    elif k == "bool": decl = "bool v = s.coin(), v2 = s.coin();"; start = "v"; v2 = "v2"
    elif k == "ptr": decl = "const void* v = (const void*)(std::uintptr_t)gen::u64(s);"; start = "v"
    elif k == "join": decl = "C v = (C)('!' + s.draw(90));"; start = r.choice(["strf::join(v, 10, 2.5)", "strf::join(v)", "strf::join(v, strf::hex(255) > o.w[4], true)", "strf::join(strf::join(v, 1) > o.w[3], v)"])
    elif k == "rint": decl = "std::vector<int> v; for (size_t k = s.draw(5); k; --k) v.push_back(o.integer<int>(s, cx));"; rng = True
    elif k == "rflt": decl = "std::vector<double> v; for (size_t k = s.draw(5); k; --k) v.push_back(o.floating<double>(s, cx));"; rng = True
    elif k in ("str", "rstr"):
        X = r.choice([C, C, "char16_t" if C in ("char", "char8_t") else "char", "char32_t", "char"])
        start = r.choice(["v", "std::basic_string_view<X>(v)", "v.c_str()"]); rng = k == "rstr"
    if rng:
        sep = r.random() < 0.6; start = "strf::fmt_separated_range(v, sep.c_str())" if sep else "strf::fmt_range(v)"
    c = Chain(r, kind, start, C, X)
    if rng or k == "join": c.fmted = True
    if k == "join" and r.random() < 0.5:  # the helpers that align joins
        a = "v, 10, 2.5"; w = c.w(); h, al = r.choice([("left", "left"), ("right", "right"), ("center", "center"), ("align", None)])
        f = c.ch() if r.random() < 0.6 else None
        if h == "align": al = r.choice(["left", "right", "center"]); c.e = "strf::join_align(%s, strf::text_alignment::%s%s)(%s)" % (w, al, ", " + f if f else "", a)
        else: c.e = "strf::join_%s(%s%s)(%s)" % (h, w, ", " + f if f else "", a)
        start = "strf::join(%s)" % a; c.al.update(width=w, alignment=al, touched=True, fill=f or "U' '")
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])): c.op()
    if not c.fmted: c.e = "strf::fmt(%s)" % c.e
    if kind == "str" and X != C and not c.s["pol"]:
        args = ()
        if c.csmode: c.s["cs"] = "strf::utf<%s>" % X; args = (c.s["cs"],)
        c.s["pol"] = "transcode"; c.mem("transcode(%s)" % ", ".join(args))
    if k in ("str", "rstr"):
        valid = "true" if c.s["pol"] == "unsafe_transcode" else "false"
        ascii_only = "true" if c.csmode and c.s["pol"] == "unsafe_transcode" and c.s["cs"][6:9] != "utf" else "false"
        decl = "using X = %s; " % X + ("std::basic_string<X> v = o.text<X>(s, cx, %s, %s);" % (valid, ascii_only) if k == "str" else "std::vector<std::basic_string<X>> v; for (size_t k = s.draw(4); k; --k) v.push_back(o.text<X>(s, cx, %s, %s));" % (valid, ascii_only))
    pre = " ".join(c.pre); pol = c.s["pol"]
    b = ['cx.label("%s"); p29::Ops o(s, cx); %s' % (k, decl)]
    if rng: b.append("std::basic_string<C> sep = o.sep<C>(s);")
    b.append("%s auto e = %s; %s p29::Out<C> P(o, s, cx);" % (pre, c.e, c.records()))
    if rng:
        el = "x.c_str()" if False else "x"
        b.append("std::basic_string<C> want; bool first = true; for (auto& x : v) { if (!first) want += %s; first = false; want += P.text(%s); }" % ("sep" if sep else "std::basic_string<C>()", c.canon(el)))
        b.append("P.same(s, want, e);")
    else:
        b.append("P.same(s, P.text(%s), e);" % c.canon(start if kind not in ("int", "flt") else "v"))
    if kind == "int": b.append("p29::same_int(e.get_int_format(), F);")
    if kind == "flt": b.append("p29::same_flt(e.get_float_format(), F);")
    if k == "char": b.append('p29::eq("count()", e.count(), (std::size_t)%s); p29::eq("scount()", e.scount(), (std::ptrdiff_t)%s);' % (c.m, c.m))
    b.append("p29::same_al(e, A);")
    if k in ("int", "flt", "bool"): b.append('p29::bits("value()", e.value(), v);')
    if v2:
        y = r.random()
        if y < 0.3: b.append("decltype(e) e2(v2, e); P.same(s, P.text(%s), e2);" % c.canon("v2"))
        elif y < 0.4: b.append("decltype(e) e2(v2, std::move(e)); P.same(s, P.text(%s), e2);" % c.canon("v2"))
        elif y < 0.5 and k == "int": b.append("auto e2 = strf::fmt(v2).set_int_format(e.get_int_format()).set_alignment_format(e.get_alignment_format()); P.same(s, P.text(%s), e2);" % c.canon("v2"))
        elif y < 0.5 and k == "flt": b.append("auto e2 = strf::fmt(v2).set_float_format(e.get_float_format()).set_alignment_format(e.get_alignment_format()); P.same(s, P.text(%s), e2);" % c.canon("v2"))
        elif y < 0.6: b.append("decltype(e) e2(std::as_const(e)); decltype(e) e3(std::move(e)); P.same(s, P.text(%s), e2); P.same(s, P.text(%s), e3);" % (c.canon("v"), c.canon("v")))
    text = (pre + " " if pre else "") + c.e
    return "/*PROG*/ static void %s([[maybe_unused]] Src& s, [[maybe_unused]] Ctx& cx) { %s } static p29::Reg reg_%s(%s, %s, &%s);" % (name, " ".join(b), name, q(C + ": " + text), q(k), name)

def main():
    for fi in range(FILES):
        C = TYPES[fi % 8]; r = random.Random(seed * 7919 + fi)
        o = ['#include "P29/p29.hpp"', "namespace { using namespace p29; using C = %s;" % C]
        for i in range(PROGS): o.append(program(r, C, "f%d_%d" % (fi, i)))
        o.append("}")
        open(os.path.join(out, "p29_%d.cpp" % fi), "w").write("\n".join(o) + "\n")
main()
