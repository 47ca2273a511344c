"""Records collective element access (cgetitem, csetitem)."""
from pcase import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))

def num(z):
    """[re, im] as exact integers"""
    z = complex(z)
    return [fixd(z.real, 1)[0] if z.real == int(z.real) else BADINT, fixd(z.imag, 1)[0] if z.imag == int(z.imag) else BADINT]
def num0(z):
    try:
        return num(z)
    except Exception:
        return [BADINT, BADINT]

def record(key, c, t, ops, R, exact=True):
    case(key + ":" + str(c).replace(" ", "") + t)
    herm = t != 'r'
    g = numpy.random.RandomState(R.randrange(2**31))
    idxok = [True]
    def go():
        pm = c.make()
        f = pm.create(TYPES[t])
        sh = [int(x) for x in f.cshape]
        a = g.randint(-50, 50, size=sh).astype('c16')
        if numpy.iscomplexobj(f.value):
            a = a + 1j * g.randint(-50, 50, size=sh)
        put(f, a if numpy.iscomplexobj(f.value) else a.real)
        if any(numpy.isnan(numpy.asarray(f.value)).ravel()):
            raise RuntimeError("not filled")
        out = []
        for o in ops:
            idx = list(o["idx"]) + ([] if o["part"] == -1 else [o["part"]])
            arg = dict(list=list, tuple=tuple, array=numpy.array, i4=lambda x: numpy.array(x, 'i4'))[o["ty"]](idx)
            if o["op"] == "get":
                ret = f.cgetitem(arg)
            else:
                re, im = o["y"]
                y = re if o["part"] != -1 or not numpy.iscomplexobj(f.value) or (im == 0 and o["yt"] in ("int", "float")) else re + 1j * im
                y = dict(int=lambda y: y if isinstance(y, complex) else int(y), float=lambda y: y if isinstance(y, complex) else float(y),
                         np=lambda y: f.dtype.type(y) if o["part"] == -1 else numpy.float64(y), arr=lambda y: numpy.array(y))[o["yt"]](y)
                ret = f.csetitem(arg, y)
            if list(arg) != idx:
                idxok[0] = False
            out.append(num0(ret))
        return a, glob(f), out
    st, v = attempt(go)
    al = gather((st, v[2] if v else None, idxok[0]))
    bad = [s for s, _, _ in al if s != "ok"]
    r = dict(k="items", key=key, st=bad[0] if bad else "ok", n=c.n, half=herm and c.dtype[0] != 'c', herm=herm, index=all(x for _, _, x in al), cfg=str(c), t=t)
    r["ops"] = [dict(op=o["op"], idx=o["idx"], part=o["part"], y=o["y"], ret=[x[1][k] for x in al] if not bad else []) for k, o in enumerate(ops)]
    if not bad:
        a, b, _ = v
        for nm, x in (("re0", a.real), ("im0", a.imag), ("re", b.real), ("im", b.imag)):
            r[nm] = fixd(x, 1)
    emit(r)

def draw(R, c, t, op, idx=None, part=None):
    cplx = t != 'r'
    part = R.choice([-1, -1, 0, 1]) if part is None and cplx else (-1 if part is None else part)
    idx = idx or [R.randint(-N, N - 1) for N in c.n]
    if R.random() < 0.35:
        # on or next to a self-conjugate element
        idx = [R.choice([0, N // 2, -(N // 2) if N > 1 else 0, 0]) % N for N in c.n]
    if op == "get" and cplx and c.dtype[0] != 'c':
        # only what is stored can be read
        N = c.n[-1]
        if (idx[-1] % N) > N // 2:
            idx[-1] = R.randint(0, N // 2)
    y = [R.randint(-40, 40), R.randint(-40, 40)]
    if part != -1 or (not cplx and c.dtype[0] != 'c'):
        y[1] = 0
    elif R.random() < 0.2:
        y[1] = 0
    return dict(op=op, idx=idx, part=part, y=y, ty=R.choice(["list", "list", "tuple", "array", "i4"]), yt=R.choice(["int", "float", "np", "arr"]))

def main():
    for k in range(COUNT):
        R = rng("items", PART, P, k)
        c = Cfg(R, maxn=5, maxcells=100)
        t = R.choice("rttuu")
        ops = [draw(R, c, t, R.choice(["set", "set", "get"])) for _ in range(R.choice([1, 1, 2, 6]))]
        if R.random() < 0.5 and ops[-1]["op"] == "set":
            o = dict(ops[-1], op="get")
            if t == 'r' or c.dtype[0] == 'c' or o["idx"][-1] % c.n[-1] <= c.n[-1] // 2:
                ops.append(o)
        record("items:%d:%s:%d" % (P, PART, k), c, t, ops, R)
    done()
main()
