#!/usr/bin/env python3
"""Systematic small mutations of pmesh's Python modules, judged by the checks that reach the line.

   automut.py cov                          which check reaches which line (light runs) -> /tmp/automut/cov.json
   automut.py list FILE [A B]              mutants of /repo/pmesh/FILE (lines A-B)
   automut.py run FILE [A B] [-j N] [-s K/M]   run them on scratch copies; survivors -> /tmp/automut/FILE.log
"""
import ast, copy, glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/automut"
os.makedirs(W, exist_ok=True)
ALL = ["C%02d" % k for k in range(1, 25)]

def light(prop, repo, extra=None):
    e = dict(os.environ, PMV_REPO=repo, PMV_LIGHT=os.environ.get("L", "0.15"), **(extra or {}))
    r = subprocess.run([os.path.join(ROOT, "bin/check"), prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def cov():
    out = {}
    for c in ALL:
        d = os.path.join(W, "cov-" + c)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        rc, o = light(c, "/repo", dict(PMV_COV=d))
        print(c, rc, o.strip().split("\n")[-1], flush=True)
        for f in glob.glob(d + "/*"):
            for l in open(f):
                out.setdefault(l.strip(), set()).add(c)
    json.dump({k: sorted(v) for k, v in out.items()}, open(W + "/cov.json", "w"))

SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv],
        ast.And: [ast.Or], ast.Or: [ast.And], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Pow: [ast.Mult]}

def mutants(src):
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
    res = []
    def emit(n, new, what):
        res.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, what))
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for s in SWAP.get(type(o), []):
                    m = copy.deepcopy(n); m.ops[k] = s()
                    emit(n, "(" + ast.unparse(m) + ")", "cmp")
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for s in SWAP.get(type(n.op), []):
                m = copy.deepcopy(n); m.op = s()
                emit(n, "(" + ast.unparse(m) + ")", "bin")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = SWAP[type(n.op)][0]()
            emit(n, "(" + ast.unparse(m) + ")", "bool")
        elif isinstance(n, ast.UnaryOp):
            emit(n, "(" + ast.unparse(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                emit(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                emit(n, "(%d)" % (n.value + 1), "const")
            elif isinstance(n.value, float):
                emit(n, "(%r)" % (n.value * 2 if n.value else 1.0), "const")
        elif isinstance(n, (ast.AugAssign,)):
            emit(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            emit(n, "pass", "del")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            emit(n, "pass", "del")
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split(".")[-1] in ("ValueError", "TypeError", "IndexError", "warn"):
                continue
            for k, a in enumerate(n.keywords):
                if a.arg:
                    m = copy.deepcopy(n); del m.keywords[k]
                    emit(n, ast.unparse(m), "kw-" + a.arg)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "conj", "ravel", "astype"):
                emit(n, ast.unparse(n.func.value), "drop-" + n.func.attr)
            if f in ("abs", "int", "tuple", "list", "reversed", "sorted") and len(n.args) == 1:
                emit(n, "(" + ast.unparse(n.args[0]) + ")", "drop-" + f)
            if len(n.args) == 2 and not n.keywords:
                m = copy.deepcopy(n); m.args.reverse()
                emit(n, ast.unparse(m), "swapargs")
        elif isinstance(n, ast.If):
            emit(n.test, "(not (%s))" % ast.unparse(n.test), "ifnot")
    return sorted(set(res))

def apply(src, m):
    a, b, c, d, new, _ = m
    L = src.split("\n")
    def pos(l, col):
        return sum(len(x) + 1 for x in L[:l - 1]) + len(L[l - 1].encode()[:col].decode())
    return src[:pos(a, b)] + new + src[pos(c, d):]

def old(src, m):
    a, b, c, d = m[:4]
    L = src.split("\n")
    return L[a - 1].encode()[b:].decode() if a != c else L[a - 1].encode()[b:d].decode()

def run(file, lo, hi, jobs, part):
    src = open("/repo/pmesh/" + file).read()
    C = json.load(open(W + "/cov.json"))
    ms = [m for m in mutants(src) if lo <= m[0] <= hi]
    ms = [m for k, m in enumerate(ms) if k % part[1] == part[0]]
    log = sys.stdout if "L" in os.environ else open(W + "/" + file + ".log", "a")
    def one(km):
        k, m = km
        order = "C12 C14 C16 C17 C15 C08 C13 C11 C02 C03 C24 C20 C22 C18 C01 C19 C09 C10 C07 C05 C06 C04 C21 C23".split()
        checks = sorted(C.get("pmesh/%s:%d" % (file, m[0]), []), key=order.index)
        tag = "%d:%d %s | %s -> %s" % (m[0], m[1], m[5], old(src, m).strip()[:60], m[4][:70])
        if not checks:
            return "NOCOV " + tag
        t = apply(src, m)
        try:
            compile(t, file, "exec")
        except SyntaxError:
            return None
        d = "%s/m%d-%s-%d-%d" % (W, os.getpid(), file, part[0], k)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
        open("%s/pmesh/%s" % (d, file), "w").write(t)
        res = []
        for c in checks:
            rc, o = light(c, d)
            res.append("%s=%d" % (c, rc))
            if rc == 1:
                break
        shutil.rmtree(d, ignore_errors=True)
        return ("killed " if rc == 1 else "SURVIVED ") + tag + "   " + " ".join(res)
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, enumerate(ms)):
            if r:
                print(r, file=log, flush=True)

a = sys.argv[1:]
if a[0] == "cov":
    cov()
else:
    jobs, part = 3, (0, 1)
    if "-j" in a:
        i = a.index("-j"); jobs = int(a[i + 1]); del a[i:i + 2]
    if "-s" in a:
        i = a.index("-s"); part = tuple(map(int, a[i + 1].split("/"))); del a[i:i + 2]
    lo, hi = (int(a[2]), int(a[3])) if len(a) > 3 else (1, 10**9)
    if a[0] == "list":
        s = open("/repo/pmesh/" + a[1]).read()
        ms = [m for m in mutants(s) if lo <= m[0] <= hi]
        for m in ms: print(m[0], m[1], m[5], old(s, m)[:60], "->", m[4][:60])
        print(len(ms))
    else:
        run(a[1], lo, hi, jobs, part)
