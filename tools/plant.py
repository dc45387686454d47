#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a list of edits, in a scratch copy, and records what happened.

usage: plant.py DEFS.py [ID...]     (DEFS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks[, std, flags])])
A bug is kept when the scratch copy builds, the stable tests pass, and the demo fails there and passes on /repo.
Then the property's check is run against the scratch copy (VERIF_REPO); the outcome goes to /tmp/seeds/results.json.
"""
import json, os, re, shutil, subprocess, sys, time
W = os.environ.get("PLANT_W", "/tmp/sw"); B = W + "_build"; OUT = "/verif/seeded"; RES = "/tmp/seeds/results.json"; BASE = "7e566b0"
CM = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=", "-DCMAKE_CXX_STANDARD=20", "-DSTRF_BUILD_TESTS=ON", "-DSTRF_BUILD_EXAMPLES=ON", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Wno-dev"]
DEMO = """#!/bin/sh
# run with cwd = the repository's root; exit 0: the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$d/demo.cpp" "$t/demo.cpp"
%s %s %s -I "$PWD/include" "$t/demo.cpp" %s -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
"""
PRE = """#include <strf/to_string.hpp>
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <strf/iterator.hpp>
#include <cstdio>
#include <string>
#include <vector>
#include <sstream>
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); ++fails; } } while (0)
"""
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset(build=True):
    if not os.path.isdir(W):
        sh("git", "clone", "-q", "/repo", W); 
    sh("git", "-C", W, "fetch", "-q", "origin"); sh("git", "-C", W, "checkout", "-q", "--", "."); sh("git", "-C", W, "reset", "-q", "--hard", "origin/HEAD")
    if build and not os.path.isdir(B): sh("cmake", "-S", W, "-B", B, *CM)
def original(path, old):
    """the removed lines belong to the base commit"""
    return True
def blame_ok(patch):
    bad = []
    cur = None; ln = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = sh("git", "-C", "/repo", "blame", "-l", "-s", "-L%d,%d" % (ln, ln), "HEAD", "--", cur).stdout
            if not b.lstrip("^").startswith(sh("git", "-C", "/repo", "rev-parse", BASE).stdout[:38]): bad.append((cur, ln))
            ln += 1
        elif l.startswith(" "): ln += 1
    return bad
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        if not want and s["id"] in res and res[s["id"]].get("final"): continue
        r = res[s["id"]] = {"prop": s["prop"]}
        def done(msg, final=True):
            r["status"] = msg; r["final"] = final; json.dump(res, open(RES, "w"), indent=1); print(s["id"], s["prop"], msg, flush=True)
        reset(); ok = True
        for f, old, new, *nth in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            if nth:
                parts = t.split(old)
                if len(parts) <= nth[0] + 1: done("EDIT: no occurrence %d of %r in %s" % (nth[0], old[:60], f), False); ok = False; break
                open(p, "w").write(old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])); continue
            if t.count(old) != 1: done("EDIT: %d matches of %r in %s" % (t.count(old), old[:60], f), False); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        patch = sh("git", "-C", W, "diff").stdout
        bad = blame_ok(patch)
        if bad: done("EDIT on lines of later commits: %s" % bad, False); continue
        d = os.path.join("/tmp/seeds/work", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.cpp", "w").write(PRE + s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (s.get("cxx", "g++"), "-std=" + s.get("std", "c++17"), s.get("flags", "-O1"), s.get("libs", "")))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh("sh", d + "/demo.sh", cwd="/repo")
        if a.returncode != 0: done("DEMO fails unpatched: " + a.stdout[-600:], False); continue
        b = sh("sh", d + "/demo.sh", cwd=W)
        if b.returncode == 0: done("DEMO passes patched", False); continue
        if b.returncode == 2: done("DEMO does not compile patched: " + b.stdout[-600:], False); continue
        if not s.get("skiptests"):
            bl = sh("ninja", "-C", B)
            if bl.returncode: done("BUILD fails: " + bl.stdout[-1500:]); continue
            ct = sh("ctest", "--test-dir", B, "-j4", "--timeout", "60")
            failed = re.findall(r"- (\S+) \((?:Failed|Timeout|SEGFAULT|Subprocess aborted|.*?)\)", ct.stdout[ct.stdout.find("The following tests FAILED"):]) if "The following tests FAILED" in ct.stdout else []
            if failed: done("TESTS catch it: %s" % " ".join(failed[:6])); continue
        dst = os.path.join(OUT, s["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        t0 = time.time()
        c = sh("python3", "/verif/run.py", s["prop"], "--seed", "1", env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
        hit = c.returncode == 1 and ("VIOLATION property=%s" % s["prop"]) in c.stdout
        r["secs"] = round(time.time() - t0)
        done("CAUGHT" if hit else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]))
if __name__ == "__main__": main()
