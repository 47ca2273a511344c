"""Records resamplings between meshes of different sizes."""
from pcase import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
U2 = 2 * 16384.0

def mirror(a):
    for d in range(a.ndim):
        a = numpy.roll(numpy.flip(a, d), 1, d)
    return a

def finish(st):
    bad = [s for s in gather(st) if s != "ok"]
    return bad[0] if bad else "ok"

def sides(R, nd, fit, cells):
    while True:
        n = [R.choice([1, 2, 3, 4, 4, 6, 6]) if fit else R.choice([1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(nd)]
        if R.random() < 0.3:
            n = [n[0]] * nd
        if nd == 1 and R.random() < 0.5:
            n = [R.choice([12, 6, 4, 3])] if fit else [R.randint(5, 13)]
        if numpy.prod(n) <= cells:
            return n

for k in range(COUNT):
    R = rng("resample", PART, P, k)
    c = Cfg(R, maxcells=64)
    t0, t1 = R.choice("rtu"), R.choice("rtu")
    both = t0 == 'r' and t1 == 'r'
    c.n = sides(R, c.nd, t0 == 'r', 36 if t0 == 'r' else 80)
    m = sides(R, c.nd, t1 == 'r', 36 if t1 == 'r' else 80)
    if R.random() < 0.15 and (t1 != 'r' or t0 == 'r'):
        m = list(c.n)
    c.box = [1.0 * x for x in c.n]
    same_pm = m == c.n and R.random() < 0.5
    np2 = c.np if R.random() < 0.7 else R.choice([x for x in procmeshes(c.nd)])
    how = R.choice(["reshape", "new"])
    dt2 = c.dtype if how == "reshape" or R.random() < 0.6 else R.choice(dict(f4=['f8'], f8=['f4'], c8=['c16'], c16=['c8'])[c.dtype])
    key = "resample:%d:%s:%d" % (P, PART, k)
    cplx = c.dtype[0] == 'c'
    case(key + (":" + str(c) + str(m)).replace(" ", "") + t0 + t1)
    g = numpy.random.RandomState(R.randrange(2**31))
    A = 3
    if t0 == 'r':
        a = g.randint(-A, A + 1, size=c.n) + (1j * g.randint(-A, A + 1, size=c.n) if cplx else 0)
    else:
        a = g.randint(-99, 100, size=c.n) + 1j * g.randint(-99, 100, size=c.n) if t1 != 'r' else g.randint(-4, 5, size=c.n) + 1j * g.randint(-4, 5, size=c.n)
        if not cplx:
            a = a + mirror(a).conj()
            a = a[..., :c.n[-1] // 2 + 1]
    def go():
        pm = c.make()
        f = put(pm.create(TYPES[t0]), a)
        if same_pm:
            pm2 = pm
        elif how == "reshape":
            pm2 = pm.reshape(Nmesh=m)
        else:
            pm2 = ParticleMesh(Nmesh=m, BoxSize=[1.0] * c.nd, comm=world, np=np2, dtype=dt2)
        h = pm2.create(TYPES[t1])
        h.value[...] = 3e20
        k0 = f.value.tobytes()
        r = f.resample(h)
        kind = type(h) is TYPES[t1] and h.pm is pm2 and (r is None or r is h)
        return glob(h), f.value.tobytes() == k0, kind
    st, v = attempt(go)
    st = finish(st)
    ok = [all(gather(bool(v[i]))) for i in (1, 2)] if st == "ok" else [True, True]
    N = int(numpy.prod(c.n))
    w = U2 * (N if t0 == 'r' else 1)
    mag = float(abs(a).sum()) * (1 if t0 == 'r' else 2)
    if t0 != 'r' and t1 != 'r':
        w = 1024.0 * 2 * 16
        mag = float(abs(a).max())
    f4 = 'f4' in (c.dtype, dt2) or 'c8' in (c.dtype, dt2)
    M = int(numpy.prod(m)) if t1 == 'r' else 1
    r = dict(k="resample", key=key, n=c.n, m=m, half=not cplx, st=st, kept=ok[0], kind=ok[1], cfg="%s %s>%s %s" % (c, t0, t1, dt2),
             re=fixd(numpy.real(a), 1), im=fixd(numpy.imag(a), 1) if numpy.iscomplexobj(a) else [], ore=[], oim=[])
    r["from"], r["to"] = ["field" if t == 'r' else "spectrum" for t in (t0, t1)]
    r["tol"] = int(mag * U2 * M * (1e-6 if f4 else 1e-14)) + 1
    if st == "ok":
        r["ore"] = fixd(v[0].real, w)
        r["oim"] = fixd(v[0].imag, w) if numpy.iscomplexobj(v[0]) else []
    emit(r)
done()
