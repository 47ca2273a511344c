#!/usr/bin/env python3
"""Self-test: apply one textual mutation to a scratch copy of /repo and run checks on it.
   mutate.py NAME...   (mutants are listed in tools/mutants.py); 'all' runs everything."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutants import M
def run(name):
    f, old, new, props = M[name]
    d = "/tmp/mut-" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    p = os.path.join(d, f)
    s = open(p).read()
    if old not in s:
        return name, "STALE"
    open(p, "w").write(s.replace(old, new, 1))
    res = []
    for pr in props:
        e = dict(os.environ, PMV_REPO=d, PMV_CACHE="/tmp/mutcache-" + name)
        r = subprocess.run([os.path.join(ROOT, "bin/check"), pr], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        cl = [l.strip() for l in r.stdout.splitlines() if l.startswith("  clauses")]
        res.append("%s rc=%d %s" % (pr, r.returncode, "; ".join(cl[:3]) if r.returncode == 1 else r.stdout[-300:] if r.returncode == 2 else ""))
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree("/tmp/mutcache-" + name, ignore_errors=True)
    return name, " | ".join(res)
names = sys.argv[1:]
if names == ["all"]:
    names = list(M)
elif len(names) == 1 and names[0] not in M:
    names = [n for n in M if names[0] in M[n][3]]
for n in names:
    print(*run(n), flush=True)
