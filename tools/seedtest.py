#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo (bind-mounted over /repo in a private mount namespace).
   seedtest.py [--nocheck] [--notest] ID...   ('all': every folder of /verif/seeded)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def ns(d, cmd, log, timeout=900):
    with open(log, "w") as f:
        try:
            return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)],
                                  stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return "timeout"
def one(i, opts):
    sd = os.path.join(ROOT, "seeded", i)
    d, t = "/tmp/seed-" + i, "/tmp/seedout-" + i
    for x in (d, t):
        shutil.rmtree(x, ignore_errors=True)
    os.makedirs(t)
    subprocess.check_call(["cp", "-a", "/repo", d])
    meta = json.load(open(sd + "/meta.json"))
    res = [i, meta["property"]]
    demo = "%s/demo" % t
    shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r0 = ns(d, "bash %s/demo.sh" % demo, t + "/demo0.log", 300)
    ok = subprocess.run(["git", "-C", d, "apply", sd + "/patch.diff"]).returncode
    if ok: return res + ["DOES NOT APPLY"]
    b = ns(d, "bash /opt/vp/build.sh", t + "/build.log")
    r1 = ns(d, "bash %s/demo.sh" % demo, t + "/demo1.log", 300)
    res += ["demo %s->%s" % (r0, r1), "build %s" % b]
    if "--notest" not in opts:
        ns(d, "bash /opt/vp/test.sh %s/out.json" % t, t + "/test.log")
        p = set(json.load(open(t + "/out.json"))["passed"])
        res.append("stable %s" % ("ok" if BASE <= p else "MISSING %s" % sorted(BASE - p)[:3]))
    if "--nocheck" not in opts:
        for p in [meta["property"]] + [o[2:] for o in opts if o.startswith("+C")]:
            c = ns(d, "cd %s && VERIF_SEED=1 VERIF_TIER=quick bin/check %s" % (ROOT, p), t + "/check.log")
            cl = [l.strip() for l in open(t + "/check.log") if l.startswith("  clauses")]
            res.append("%s rc=%s %s" % (p, c, cl[0] if cl else ""))
    good = r0 == 0 and r1 not in (0, "timeout") and b == 0
    shutil.rmtree(d, ignore_errors=True)
    return res + ["" if good else "BAD (see %s)" % t]
opts = [a for a in sys.argv[1:] if a.startswith("-") or a.startswith("+")]
ids = [a for a in sys.argv[1:] if a not in opts]
if ids == ["all"]:
    ids = sorted(os.listdir(ROOT + "/seeded"))
with ThreadPoolExecutor(1 if "--serial" in opts else 2) as ex:
    for r in ex.map(lambda i: one(i, opts), ids):
        print(*r, sep=" | ", flush=True)
