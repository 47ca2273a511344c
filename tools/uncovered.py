"""uncovered.py DIR: executable lines of pmesh that no driver reached (see PMV_COV in harness/boot.py)"""
import glob, sys, os
seen = {}
for f in glob.glob(sys.argv[1] + "/*"):
    for l in open(f):
        a, b = l.rsplit(":", 1)
        seen.setdefault(a, set()).add(int(b))
def lines(co):
    for _, _, l in co.co_lines():
        if l: yield l
    for k in co.co_consts:
        if hasattr(k, "co_lines"):
            yield from lines(k)
for f in sorted(glob.glob("/repo/pmesh/*.py")):
    n = os.path.relpath(f, "/repo")
    src = open(f).read()
    miss = sorted(set(lines(compile(src, f, "exec"))) - seen.get(n, set()))
    t = src.split("\n")
    print("==", n, len(miss))
    for l in miss:
        print("%5d %s" % (l, t[l - 1]))
