#!/usr/bin/env python3
"""Small mutations of the compiled modules (C, headers, Cython), judged by their checks (light runs).
   automutc.py list FILE | run FILE [-j N] [-s K/M]      log: /tmp/automut/FILE.log"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.argv_save = sys.argv
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = "/tmp/automut"
CH = {"_domain.pyx": "C01 C04", "_invariant.pyx": "C10", "_invariant_imp.c": "C10",
      "_whitenoise": "C08 C09 C10", "_window": "C05 C06 C07 C13 C18"}
def checks(f):
    return next(v for k, v in CH.items() if f.startswith(k)).split()
OPS = [(r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"(?<![<\-=])<(?![<=])", "<="), (r"(?<![>\-=])>(?![>=])", ">="),
       (r"\+=", "="), (r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)\]]) - (?=[\w\(])", " + "),
       (r"(?<=[\w\)\]]) \* (?=[\w\(])", " + "), (r"(?<=[\w\)\]]) / (?=[\w\(])", " * "), (r"(?<=[\w\)\]]) % (?=[\w\(])", " / "),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\band\b", "or"), (r"\bor\b", "and"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"),
       (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])(\d+\.\d*)", r"(\1 + 0.5)"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bnot ", "")]
def mutants(f):
    src = open("/repo/pmesh/" + f).read()
    res = []
    blank = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
    if f.endswith("x"):
        blank = re.sub(r'""".*?"""', lambda m: re.sub(r"[^\n]", " ", m.group()), blank, flags=re.S)
    pos = 0
    for n, line in enumerate(blank.split("\n"), 1):
        code = line.split("//")[0] if not f.endswith("x") else line.split("#")[0]
        s = code.strip()
        if s and not s.startswith(("#include", "import", "cimport", "from", "#if", "#endif", "static inline", "raise")) and '"' not in s:
            for a, b in OPS:
                for m in re.finditer(a, code):
                    res.append((pos + m.start(), pos + m.end(), m.expand(b), n, s[:70]))
            if not f.endswith("x") and re.match(r"^[\w\[\]\->.+* ]+ [-+*]?= .*;$", s) and not re.match(r"^(int|double|const|static|ptrdiff_t|FLOAT|char|float|long|npy)", s):
                res.append((pos + code.index(s[0]), pos + len(code.rstrip()), ";", n, s[:70]))
        pos += len(line) + 1
    return src, res
def run(f, jobs, part):
    src, ms = mutants(f)
    log = open(W + "/" + f + ".log", "a")
    def one(km):
        k, (a, b, new, n, s) = km
        d = "%s/m-%s-%d" % (W, f, k)
        tag = "%d: %s | %r -> %r" % (n, s, src[a:b], new)
        subprocess.check_call(["cp", "-a", "/repo", d])
        open("%s/pmesh/%s" % (d, f), "w").write(src[:a] + new + src[b:])
        res = []
        rc = 0
        for c in checks(f):
            e = dict(os.environ, PMV_REPO=d, PMV_LIGHT="0.2", PMV_CACHE=d + "/.cache")
            r = subprocess.run([os.path.join(ROOT, "bin/check"), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rc = r.returncode
            if rc == 2 and "does not build" in r.stdout:
                res = None
                break
            res.append("%s=%d" % (c, rc))
            if rc == 1:
                break
        shutil.rmtree(d, ignore_errors=True)
        return None if res is None else ("killed " if rc == 1 else "SURVIVED ") + tag + "   " + " ".join(res)
    ms = [(k, m) for k, m in enumerate(ms) if k % part[1] == part[0]]
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, ms):
            if r:
                print(r, file=log, flush=True)
a = sys.argv[1:]
jobs, part = 3, (0, 1)
if "-j" in a:
    i = a.index("-j"); jobs = int(a[i + 1]); del a[i:i + 2]
if "-s" in a:
    i = a.index("-s"); part = tuple(map(int, a[i + 1].split("/"))); del a[i:i + 2]
if a[0] == "list":
    for m in mutants(a[1])[1]:
        print(m[3], m[4], m[2])
    print(len(mutants(a[1])[1]))
else:
    run(a[1], jobs, part)
