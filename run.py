#!/usr/bin/env python3
"""Driver of every check:  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the property's harness against /repo's current tree, runs it on 8 worker
processes, turns a failing case into a shrunk replay file, writes evidence.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself broke.
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NW = int(os.environ.get("VERIF_WORKERS", "8"))
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0:exitcode=98"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["LC_ALL"] = "C"

BASE = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=object-size", "-fno-sanitize-recover=all", "-Wno-deprecated-declarations"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if root.endswith("harness") and f.endswith(".cpp"):
                    continue
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_one(args):
    cxx, src, flags, key, extra = args
    h = hashlib.sha256((key + cxx + src + " ".join(flags) + " ".join(extra)).encode())
    h.update(open(src, "rb").read())
    obj = os.path.join(BUILD, h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([cxx] + flags + extra + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return None, src + "\n" + r.stderr[-6000:]
    os.rename(tmp, obj)
    return obj, None


def prune(job):
    """a generated file that does not compile: leave out the programs (one per line) the compiler objects to.
    -> (object, [program lines left out], None), or (None, [], error) when it is not the programs' fault"""
    cxx, src, flags, key, extra = job
    first, out, cur = None, [], src
    lines = open(src).read().split("\n")
    base = os.path.basename(src)
    nprog = sum(l.startswith("/*PROG*/") for l in lines)
    for _ in range(5):
        r = subprocess.run([cxx] + flags + extra + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fsyntax-only", cur], capture_output=True, text=True, errors="replace")
        first = first or r.stderr[-6000:]
        bad = set()
        for l in r.stderr.split("\n"):
            if base in l and ":" in l:
                n = l[l.index(base) + len(base) + 1:].split(":")[0]
                if n.isdigit() and int(n) <= len(lines) and lines[int(n) - 1].startswith("/*PROG*/"):
                    bad.add(int(n) - 1)
        if r.returncode == 0 or not bad:
            break
        for n in bad:
            out.append((lines[n], r.stderr))
            lines[n] = ""
        base = "pruned_" + os.path.basename(src)
        cur = os.path.join(os.path.dirname(src), base)
        open(cur, "w").write("\n".join(lines))
    if not out or len(out) == nprog:
        return None, [], first
    obj, err = compile_one((cxx, cur, flags, key, extra))
    return obj, out if obj else [], err and first


def program_broken(job, prog, n=3):
    """does the file with only that program fail to compile n times?"""
    cxx, src, flags, key, extra = job
    f = os.path.join(BUILD, "prog_%d.cpp" % os.getpid())
    try:
        open(f, "w").write("\n".join(l for l in open(src).read().split("\n") if not l.startswith("/*PROG*/") or l == prog) + "\n")
        for _ in range(n):
            r = subprocess.run([cxx] + flags + extra + ["-fsyntax-only", f], capture_output=True, text=True, errors="replace")
            if r.returncode == 0:
                return None
        return r.stderr
    finally:
        os.unlink(f)


def variant_jobs(pid, v, key):
    """compilations of one build configuration of harness/<pid>/so into a shared object"""
    common = ["-fPIC", "-g0", "-w", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    uniq = lambda cxx: ["-fno-gnu-unique"] if cxx == "g++" else []
    flags = v["flags"] + common
    js = []
    if v.get("static"):
        lf = v.get("libflags", v["flags"]) + common + ["-DSTRF_SEPARATE_COMPILATION"]
        lc = v.get("libcxx", v["cxx"])
        js.append((lc, os.path.join(REPO, "src", "strf.cpp"), lf + uniq(lc), key, ["-DSTRF_SOURCE"]))
        flags = flags + ["-DSTRF_SEPARATE_COMPILATION"]
    for s in sorted(glob.glob(os.path.join(VERIF, "harness", pid, "so", "*.cpp"))):
        js.append((v["cxx"], s, flags + uniq(v["cxx"]), key, []))
    return js


def broken_build(pid, cfg, seed):
    """a supported build configuration that does not build, although others do: a violation if it is so 3 times"""
    for job, prog, err in (cfg.get("_progs") or [])[:12]:
        e = program_broken(job, prog)
        if e:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, "%s-s%d-program.txt" % (pid, seed))
            with open(f, "w") as o:
                o.write("# program: %s\n%s\n%s\n" % (os.path.basename(job[1]), prog, "\n".join("// " + l for l in e.split("\n")[:60])))
            return f, "a generated program that the documentation allows does not compile:\n%s\n%s" % (prog[:1500], e[:1500])
    for name, job, err in cfg.get("_broken") or []:
        n = 0
        for _ in range(3):
            r = compile_one(job)
            n += r[1] is not None
        if err.startswith("link: "):
            n = 3
        if n == 3:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, "%s-build-%s.txt" % (pid, name))
            with open(f, "w") as o:
                o.write("# build: %s\n%s\n%s\n" % (name, " ".join([job[0]] + job[2] + job[4] + ["-c", job[1]]), err))
            return f, "the build configuration '%s' does not build, although others do:\n%s" % (name, err[:1500])
    return None


def build(pid, cfg, fuzz=False):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    cxx = cfg.get("cxx", "clang++")
    flags = cfg.get("flags_base", BASE) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    flags += cfg.get("flags", [])
    if fuzz:
        flags += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    srcs = sorted(glob.glob(os.path.join(VERIF, "harness", pid, "*.cpp")))
    if cfg.get("gen"):
        gdir = os.path.join(BUILD, "gen_" + pid)
        shutil.rmtree(gdir, ignore_errors=True)
        os.makedirs(gdir)
        subprocess.run([sys.executable, os.path.join(VERIF, "harness", cfg["gen"]), gdir, str(cfg["_seed"]), cfg["_tier"]],
                       check=True, env=ENV)
        srcs += sorted(glob.glob(os.path.join(gdir, "*.cpp")))
    srcs += [os.path.join(VERIF, "harness", s) for s in cfg.get("extra_src", [])]
    vjobs = []
    if not fuzz:
        for v in cfg.get("variants", []):
            if v.get("tier", cfg["_tier"]) == cfg["_tier"]:
                vjobs.append((v, variant_jobs(pid, v, key)))
    jobs = []
    if cfg.get("mode", "static") == "static":
        flags = flags + ["-DSTRF_SEPARATE_COMPILATION"]
        jobs.append((cxx, os.path.join(REPO, "src", "strf.cpp"), flags, key, ["-DSTRF_SOURCE"]))
    for s in srcs:
        jobs.append((cxx, s, flags, key, []))
    jobs.append((cxx, os.path.join(VERIF, "harness", "pbt_main.cpp"), flags, key, []))
    cfg["_job"] = jobs[-1]
    alljobs = jobs + [j for _, js in vjobs for j in js]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, alljobs))
    vres, res = res[len(jobs):], res[:len(jobs)]
    errs = [e for _, e in res if e]
    sos, broken = [], []
    for v, js in vjobs:
        rs, vres = vres[:len(js)], vres[len(js):]
        e = [x for _, x in rs if x]
        so = os.path.join(BUILD, "%s_%s.%d" % (pid, v["name"], os.getpid()))
        if not e:
            r = subprocess.run([v["cxx"], "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"] + [o for o, _ in rs] + ["-o", so], capture_output=True, text=True)
            if r.returncode != 0:
                e = ["link: " + r.stderr[-4000:]]
        if e:
            j = [j for j, (_, x) in zip(js, rs) if x] or js[:1]
            broken.append((v["name"], j[0], e[0]))
        else:
            sos.append("%s=%s" % (v["name"], so))
    cfg["_progs"] = []
    if cfg.get("gen") and not vjobs:
        todo = [i for i, (o, e) in enumerate(res) if e and "gen_" + pid in jobs[i][1]]
        if todo and len(todo) == len(errs):
            with cf.ThreadPoolExecutor(8) as ex:
                pr = list(ex.map(prune, [jobs[i] for i in todo]))
            errs = []
            for i, (obj, out, err) in zip(todo, pr):
                if obj:
                    res[i] = (obj, None)
                    cfg["_progs"] += [(jobs[i], prog, e) for prog, e in out]
                else:
                    errs.append(err)
    if vjobs:
        ENV["P28_SOS"] = ";".join(sos)
        cfg["_broken"] = broken
        if len(sos) < 2 or (broken and broken[0][0] == vjobs[0][0]["name"]):
            errs += [b[2] for b in broken]
    if errs:
        log("BUILD-ERROR", "\n".join(errs))
        return None
    exe = os.path.join(BUILD, pid + ("_fuzz" if fuzz else "") + ".%d" % os.getpid())
    link = [f for f in flags if f.startswith("-fsanitize=") and "no-link" not in f]
    if fuzz:
        link.append("-fsanitize=fuzzer")
    r = subprocess.run([cxx] + link + [o for o, _ in res] + ["-o", exe] + cfg.get("libs", []), capture_output=True, text=True)
    if r.returncode != 0:
        log("LINK-ERROR", r.stderr[-4000:])
        return None
    return exe


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: "):])
    return out


def replays(exe, f, n=3, limit=20):
    """all n replays fail?"""
    for _ in range(n):
        try:
            r = subprocess.run([exe, "replay", "--file", f, "--quiet", "1", "--case-limit", str(limit)], env=ENV,
                               capture_output=True, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode != 1:
            return None
    return r.stdout


def handle_failure(pid, exe, prop, case_seed, seed, worker, cases, tag):
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    seedf = os.path.join(rd, "%s-%s-seed.txt" % (pid, tag))
    with open(seedf, "w") as f:
        f.write("prop %s\nseed %s\n" % (prop, case_seed))
    if replays(exe, seedf, 1):
        outf = os.path.join(rd, "%s-%s.txt" % (pid, tag))
        try:
            r = subprocess.run([exe, "shrink", "--file", seedf, "--out", outf, "--time", "40"], env=ENV,
                               capture_output=True, text=True, errors="replace", timeout=240)
            log(r.stdout[-3000:])
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if ok:
            m = replays(exe, outf, 3)
            if m:
                os.unlink(seedf)
                return outf, m
        m = replays(exe, seedf, 3)
        if m:
            return seedf, m
    # depends on what the process did before: replay the worker's whole history
    histf = os.path.join(rd, "%s-%s-history.txt" % (pid, tag))
    n = 0
    for _ in range(3):
        try:
            r = subprocess.run([exe, "run", "--seed", str(seed), "--worker", str(worker), "--max", str(cases + 1), "--time", "100"],
                               env=ENV, capture_output=True, text=True, errors="replace", timeout=150)
            n += r.returncode != 0
        except subprocess.TimeoutExpired:
            pass
    if n == 3:
        with open(histf, "w") as f:
            f.write("prop %s\n# history: run --seed %s --worker %s --max %s\n" % (prop, seed, worker, cases + 1))
        return histf, "history-dependent failure in " + prop + ": " + r.stderr[-1500:]
    return None, None


def run_workers(pid, exe, seed, tlim, cfg, extra=[]):
    wd = os.path.join(BUILD, "run_%s_%d" % (pid, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    ps = []
    for w in range(NW):
        out, st = os.path.join(wd, "o%d" % w), os.path.join(wd, "s%d" % w)
        cmd = [exe, "run", "--seed", str(seed), "--worker", str(w), "--time", str(tlim), "--out", out, "--state", st] + extra
        ef = open(os.path.join(wd, "e%d" % w), "wb")
        ps.append((w, subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=ef, cwd=wd), out, st))
    stats, fails = [], []
    for w, p, out, st in ps:
        try:
            p.wait(timeout=tlim + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
        if p.returncode in (0, 3) and os.path.exists(out):
            j = json.load(open(out)); j["_hash"] = open(out + ".hashes", "rb").read()
            stats.append(j)
            if p.returncode == 3:
                f = j["fail"]
                fails.append((f["prop"], f["seed"], w, j["evaluations"], f["msg"]))
        else:
            wh = subprocess.run([exe, "where", "--state", st], capture_output=True, text=True, env=ENV).stdout.split()
            n = int.from_bytes(open(st, "rb").read(32)[24:32], "little") if os.path.exists(st) else 0
            e = open(os.path.join(wd, "e%d" % w), errors="replace").read()
            if len(wh) == 2:
                fails.append((wh[0], int(wh[1]), w, n, "crash rc=%s " % p.returncode + e[:1500]))
            else:
                log("worker produced nothing", p.returncode, e[:800])
    shutil.rmtree(wd, ignore_errors=True)
    return stats, fails


def main():
    a = sys.argv[1:]
    if a[:1] == ["--selfcheck"]:
        # the toolchain is there and the engine compiles
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-I" + os.path.join(VERIF, "harness"),
                            os.path.join(VERIF, "harness", "pbt_main.cpp")])
        return r.returncode
    pid = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    cfg = dict(CHECKS[pid])
    cfg["_seed"], cfg["_tier"] = seed, tier
    t0 = time.time()
    if "-fsanitize=thread" in cfg.get("flags_base", []):
        ENV.pop("UBSAN_OPTIONS")  # ThreadSanitizer reads it too; the harness collects the reports itself
    exe = build(pid, cfg)
    if not exe:
        return 2
    try:
        if "--replay" in opt:
            f = opt["--replay"]
            if open(f).readline().startswith("# build: "):
                return 1 if broken_build(pid, cfg, seed) else 0
            if open(f).readline().startswith("# program: "):
                base = open(f).readline().split(": ", 1)[1].strip()
                prog = open(f).read().split("\n")[1]
                e = program_broken((cfg["_job"][0], os.path.join(BUILD, "gen_" + pid, base)) + cfg["_job"][2:], prog, 1)
                print(e or "compiles")
                return 1 if e else 0
            h = [l for l in open(f) if l.startswith("# history: ")]
            if h:
                return subprocess.run([exe] + h[0].split(": ", 1)[1].split() + ["--time", "100"], env=ENV).returncode and 1
            return subprocess.run([exe, "replay", "--file", f], env=ENV).returncode
        if "--survey" in opt:
            return subprocess.run([exe, "run", "--survey", "1", "--seed", str(seed), "--time", opt["--survey"], "--key", opt.get("--key", "60"), "--only", opt.get("--only", "")], env=ENV).returncode
        return check(pid, cfg, exe, tier, seed, opt, t0)
    finally:
        for f in glob.glob(os.path.join(BUILD, "*.%d" % os.getpid())):
            os.unlink(f)


def check(pid, cfg, exe, tier, seed, opt, t0):
    tb = time.time() - t0
    tlim = float(opt.get("--time", cfg.get("quick_s", 12) if tier == "quick" else cfg.get("thorough_s", 240)))
    stats, fails = run_workers(pid, exe, seed, tlim, cfg)
    fuzzed = 0
    violation = None
    fails.sort(key=lambda f: f[3])
    tried = set()
    for prop, cs, w, n, msg in fails:
        if violation or (prop in tried and len(tried) > 3):
            break
        tried.add(prop)
        log("failure in", prop, "case seed", cs, "worker", w, "case", n, ":", msg[:600])
        f, m = handle_failure(pid, exe, prop, cs, seed, w, n, "s%d-%s" % (seed, prop))
        if f:
            violation = (f, m)
        else:
            log("NOT REPRODUCIBLE:", prop, cs, msg[:500])
    if not violation:
        violation = broken_build(pid, cfg, seed)
    if not violation and tier == "thorough" and cfg.get("fuzz", True):
        violation, fuzzed = fuzz(pid, cfg, exe, seed, float(opt.get("--fuzz-time", cfg.get("fuzz_s", 180))))
    seen = set()
    for j in stats:
        b = j.pop("_hash")
        seen.update(b[i:i + 8] for i in range(0, len(b), 8))
    ev = sum(j["evaluations"] for j in stats)
    per, labels, known = {}, {}, {}
    for j in stats:
        for k, v in j["per_prop"].items():
            x = per.setdefault(k, [0, 0]); x[0] += v[0]; x[1] += v[1]
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in j["known"].items():
            known[k] = known.get(k, 0) + v
    samples, bykind = [], {}
    for j in stats:
        for sm in j["samples"]:
            bykind.setdefault(sm.split(":")[0], []).append(sm)
    while bykind and len(samples) < 14:
        for k in sorted(bykind):
            samples.append(bykind[k].pop(0))
            if not bykind[k]:
                del bykind[k]
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(seen), "rule": cfg["rule"], "samples": samples[:14],
            "per_relation": {k: {"cases": v[0], "nontrivial": v[1]} for k, v in sorted(per.items())},
            "labels": labels, "known_finding_cases": known, "workers": len(stats), "fuzzer_executions": fuzzed,
            "build_s": round(tb, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    log("%s %s: build %.1fs, %d cases, %d distinct non-trivial, wall %.1fs" % (pid, tier, tb, ev, len(seen), time.time() - t0))
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    if violation:
        print(violation[1].strip()[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    if ev == 0 or len(stats) < NW:
        log("no cases were evaluated by some worker: the check gives no answer", ev, len(stats), len(fails))
        if fails and ev == 0:
            return 2
        if not stats:
            return 2
    lack = [k for k, v in per.items() if v[1] == 0]
    if lack:
        log("WARNING: relations with no non-trivial case:", lack)
    return 0


def fuzz(pid, cfg, exe, seed, tlim):
    fexe = build(pid, cfg, fuzz=True)
    if not fexe:
        return None, 0
    wd = os.path.join(BUILD, "fuzz_%s_%d" % (pid, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd + "/corpus")
    ps = []
    for w in range(NW):
        env = dict(ENV); env["PBT_FUZZ_OUT"] = wd + "/fail%d.txt" % w
        ef = open(wd + "/log%d" % w, "wb")
        ps.append(subprocess.Popen([fexe, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % int(tlim), "-max_len=600",
                                    "-len_control=20", "-rss_limit_mb=3000", "-timeout=20", "-print_final_stats=1", "-reload=1",
                                    "-artifact_prefix=%s/art%d-" % (wd, w), wd + "/corpus"], env=env, stdout=ef, stderr=ef, cwd=wd))
    for p in ps:
        try:
            p.wait(timeout=tlim + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
    n = 0
    for w in range(NW):
        for l in open(wd + "/log%d" % w, errors="replace"):
            if l.startswith("stat::number_of_executed_units:"):
                n += int(l.split()[-1])
    viol = None
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    for w in range(NW):
        if viol:
            break
        ff = wd + "/fail%d.txt" % w
        arts = [x for x in glob.glob(wd + "/art%d-*" % w) if "crash" in x or "timeout" in x or "oom" in x]
        if not os.path.exists(ff) and arts:
            # sanitizer crash: decode the artifact into choices with the fuzz binary's own reader
            r = subprocess.run([fexe, arts[0]], env=dict(ENV, PBT_FUZZ_DUMP=ff), capture_output=True, text=True, errors="replace", timeout=100)
            log(r.stderr[:1500])
        if os.path.exists(ff):
            outf = os.path.join(rd, "%s-fuzz-s%d-%d.txt" % (pid, seed, w))
            r = subprocess.run([exe, "shrink", "--file", ff, "--out", outf, "--time", "40"], env=ENV, capture_output=True,
                               text=True, errors="replace", timeout=240)
            if r.returncode == 0:
                m = replays(exe, outf, 3)
                if m:
                    viol = (outf, m)
            else:
                log("fuzz finding does not reproduce", r.stderr[-300:])
    shutil.rmtree(wd, ignore_errors=True)
    return viol, n


if __name__ == "__main__":
    sys.exit(main())
