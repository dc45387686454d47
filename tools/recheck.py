#!/usr/bin/env python3
"""recheck.py [ID...]: runs each planted bug's property check against a scratch copy with the bug applied (default: all of seeded/)."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__)); import plant
plant.W = os.environ.get("PLANT_W", "/tmp/swr")
ids = sys.argv[1:] or sorted(os.listdir(plant.OUT))
for i in ids:
    plant.reset(False); d = os.path.join(plant.OUT, i); p = json.load(open(d + "/meta.json"))["property"]
    a = plant.sh("git", "-C", plant.W, "apply", d + "/patch.diff")
    if a.returncode: print(i, p, "PATCH DOES NOT APPLY", a.stdout[:200], flush=True); continue
    t = time.time(); c = plant.sh("python3", "/verif/run.py", p, env=dict(os.environ, VERIF_REPO=plant.W, VERIF_SEED="1", VERIF_TIER="quick"), cwd="/verif")
    print(i, p, "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s " % p in c.stdout else "MISSED rc=%d" % c.returncode, "%.0fs" % (time.time() - t), flush=True)
plant.reset(False)
