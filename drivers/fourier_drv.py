"""Records transforms and conversions of fields."""
from pcase import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
FAMILY = os.environ["PMV_FAMILY"]
U2 = 2 * 16384.0
NAME = dict(r=["real"], t=["complex", "transposedcomplex"], u=["untransposedcomplex"])
PADDED = [os.environ.get("PMV_PAD", "")]

def mirror(a):
    for d in range(a.ndim):
        a = numpy.roll(numpy.flip(a, d), 1, d)
    return a

def config(R, any_side=False):
    for _ in range(1000):
        c = Cfg(R, maxn=7 if any_side else 6, maxcells=90 if any_side else 48)
        if not any_side:
            c.n = [R.choice([1, 2, 2, 3, 4, 4, 6]) if x > 1 else 1 for x in c.n]
            if c.nd == 1 and R.random() < 0.3:
                c.n = [12]
            c.box = [a * x / 4.0 for a, x in zip(c.n, c.cell)]
        if numpy.prod(c.n) <= (90 if any_side else 48) and (c.n[-1] > 1 or R.random() < 0.3):
            return c

def values(g, c, t):
    """a random whole mesh of integers"""
    cplx = c.dtype[0] == 'c'
    a = g.randint(-9, 10, size=c.n)
    if t == 'r':
        return a + 1j * g.randint(-9, 10, size=c.n) if cplx else a.astype('f8')
    a = a + 1j * g.randint(-9, 10, size=c.n)
    if not cplx:
        a = g.randint(-4, 5, size=c.n) + 1j * g.randint(-4, 5, size=c.n)
        a = a + mirror(a).conj()
        a = a[..., :c.n[-1] // 2 + 1]
    return a

def kindof(f):
    return [k for k, v in TYPES.items() if type(f) is v][0]

def rec(key, c, t0, a0, t1, a1, kept, kind, st):
    cplx = c.dtype[0] == 'c'
    N = int(numpy.prod(c.n))
    f4 = c.dtype in ('f4', 'c8')
    r = dict(k="transform", key=key, n=c.n, half=not cplx, st=st, kept=bool(kept), kind=bool(kind), cfg="%s %s>%s" % (c, t0, t1),
             re=fixd(a0.real, 1), im=fixd(a0.imag, 1) if numpy.iscomplexobj(a0) else [], ore=[], oim=[])
    r["from"], r["to"] = ["field" if t == 'r' else "spectrum" for t in (t0, t1)]
    mag = 18.0 * N
    r["tol"] = int(mag * U2 * (1.5e-6 if f4 else 2e-14)) + 1
    if a1 is not None:
        w = U2 * (N if t0 == 'r' and t1 != 'r' else 1)
        r["ore"] = fixd(a1.real, w)
        r["oim"] = fixd(a1.imag, w) if numpy.iscomplexobj(a1) else []
    emit(r)

def expect(pm, f, t):
    return kindof(f) == t and f.pm is pm and tuple(f.cshape) == tuple(pm.create(TYPES[t]).cshape) and f.value.dtype == pm.create(TYPES[t]).value.dtype

def step(R, pm, f, t1, how):
    """one conversion to type t1; how: new, ellipsis, given, base.  Returns result, in place?"""
    t0 = kindof(f)
    methods = ["cast", "cast"]
    if t0 == 'r' and t1 != 'r':
        methods = ["cast", "r2c", "r2c"]
    if t0 != 'r' and t1 == 'r':
        methods = ["cast", "c2r", "c2r"]
    m = R.choice(methods)
    if m == "r2c" and t1 == 'u' and how in ("new", "ellipsis"):
        how = "given"
    out, inplace = None, False
    if how == "given":
        out = pm.create(TYPES[t1])
        out.value[...] = 3e20
        if m == "cast" and R.random() < 0.3:
            # only the memory of out matters here
            out = pm.create(TYPES[R.choice("rtu")], base=out._base)
    elif how == "base":
        out, inplace = pm.create(TYPES[t1], base=f._base), True
    elif how == "ellipsis":
        out, inplace = (Ellipsis if m != "cast" else f), True
        if m != "cast" and R.random() < 0.3:
            out = f
    if m == "cast":
        g = f.cast(R.choice([TYPES[t1], TYPES[t1]] + NAME[t1]), **({} if out is None else dict(out=out)))
    else:
        g = getattr(f, m)(*([] if out is None else [out])) if R.random() < 0.5 else getattr(f, m)(**({} if out is None else dict(out=out)))
    if out is not None and out is not Ellipsis and type(out) is TYPES[t1] and m != "cast" and g is not out:
        raise RuntimeError("not the given field")
    if out is not None and out is not Ellipsis and not (g._base in out._base):
        raise RuntimeError("not the given memory")
    return g, inplace

def make(R, c):
    return c.make()

def finish(st):
    bad = [s for s in gather(st) if s != "ok"]
    return bad[0] if bad else "ok"

def fam_op():
    for k in range(COUNT):
        R = rng("op", PART, P, k)
        c = config(R)
        t0, t1 = R.choice("rrtu"), R.choice("rtu")
        how = R.choice(["new", "new", "given", "base", "ellipsis"])
        key = "op:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t0 + t1 + how)
        g = numpy.random.RandomState(R.randrange(2**31))
        a0 = values(g, c, t0)
        chain = R.random() < 0.4
        steps = R.randint(2, 4) if chain else 1
        pm, fs, cur, held = None, None, None, []
        st, v = attempt(lambda: put((lambda pm: pm.create(TYPES[t0]))(make(R, c)), a0))
        st = finish(st)
        if st != "ok":
            rec(key, c, t0, a0, t0, None, True, True, st)
            continue
        f, pm, base = v, v.pm, a0
        tprev = t0
        for s in range(steps):
            def go():
                other = [(h, h.value.copy()) for h in held if not (h._base in f._base)]
                k0 = numpy.array(f.value)
                g, inplace = step(R, pm, f, t1, how)
                kept = inplace or k0.tobytes() == numpy.array(f.value).tobytes()
                kept = kept and all(h.value.tobytes() == x.tobytes() for h, x in other)
                # f and the results do not share memory unless asked to
                if not inplace and f._base in g._base:
                    kept = False
                return g, kept, expect(pm, g, t1), glob(g)
            st, v = attempt(go)
            st = finish(st)
            ok = [all(gather(bool(v[i]))) for i in (1, 2)] if st == "ok" else [True, True]
            rec(key + ":%d:%s" % (s, how), c, t0, a0, t1, v[3] if st == "ok" else None, ok[0], ok[1], st)
            if st != "ok":
                break
            held.append(f)
            held = [h for h in held if not (h._base in v[0]._base)] + ([] if f._base in v[0]._base else [])
            f = v[0]
            t1, how = R.choice("rtu"), R.choice(["new", "given", "base", "ellipsis"])

def fam_delta():
    """a point source on any mesh"""
    for k in range(COUNT):
        R = rng("delta", PART, P, k)
        c = config(R, True)
        key = "delta:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", ""))
        x = [R.randrange(m) for m in c.n]
        t1 = R.choice("tu")
        N = int(numpy.prod(c.n))
        L = 1
        for m in c.n:
            L = lcm(L, m)
        def go():
            pm = make(R, c)
            f = pm.create(RealField, value=0)
            a = numpy.zeros(c.n)
            a[tuple(x)] = 1
            put(f, a)
            h = f.cast(TYPES[t1])
            b = h.cast(RealField)
            return glob(h) * N, glob(b) - a
        st, v = attempt(go)
        st = finish(st)
        r = dict(k="delta", key=key, n=c.n, half=c.dtype[0] != 'c', x=x, L=L, st=st, ph=[], off=0, back=0, tol=2000 if c.dtype in ('f4', 'c8') else 1, cfg=str(c))
        if st == "ok":
            z, d = v
            with numpy.errstate(all='ignore'):
                ph = numpy.rint(numpy.angle(z) * L / (2 * numpy.pi))
                off = abs(z - numpy.exp(2j * numpy.pi * ph / L)).max()
                r["ph"] = fixd(ph, 1)
                r["off"], r["back"] = fixd([off], 1e9 if r["tol"] == 1 else 1e9)[0], fixd([abs(d).max()], 1e9)[0]
        emit(r)

dict(op=fam_op, delta=fam_delta)[FAMILY]()
done()
