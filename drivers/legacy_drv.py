"""Records the older transfer functions, mesh coordinates and quadratic painter."""
from rank import *
import warnings
warnings.simplefilter("ignore")
import pfft
from pmesh import tsc
from pmesh.particlemesh import ParticleMesh
from pmesh.transfer import TransferFunction as TF
P = world.size
FAM = os.environ["PMV_FAM"].split(",")
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))

def fixd(a, D):
    with numpy.errstate(all='ignore'):
        x = numpy.rint(numpy.asarray(a).astype('f8').ravel() * D)
        return numpy.where(numpy.abs(x) < 2**31 - 2, x, BADINT).astype('i8').tolist()
def glob(v, start, shape):
    a = numpy.full(shape, numpy.nan, v.dtype)
    for s, x in gather((list(map(int, start)), numpy.array(v))):
        a[tuple(slice(b, b + n) for b, n in zip(s, x.shape))] = x
    return a
def fits(N, q):
    # the installed library misplaces ranks without cells
    z = q if q is not None else [int(x) for x in pfft.split_size_2d(P)]
    f = lambda n, p: (-(-n // p)) * (p - 1) < n
    return all(f(N, p) for p in z) and f(N // 2 + 1, z[1])
def draw(R, sides):
    while True:
        N = R.choice(sides)
        np_ = R.choice([None] + [[a, P // a] for a in range(1, P + 1) if P % a == 0])
        if fits(N, np_):
            return N, np_
def finish(st, kept=True):
    al = gather((st, bool(kept)))
    bad = [s for s, _ in al if s != "ok"]
    return (bad[0] if bad else "ok"), all(x for _, x in al)
def slices(start, a):
    return tuple(slice(int(s), int(s) + int(m)) for s, m in zip(start, a.shape))

NAMES = ["RemoveDC", "NormalizeDC", "Constant", "Laplace", "Poisson", "Gaussian", "order0", "SuperLanzcos", "Trilinear"]
def tf(k):
    R = rng("tf", PART, P, k)
    fn = R.choice(NAMES)
    N, np_ = draw(R, [2, 3, 4, 6] if fn in ("SuperLanzcos", "Trilinear") else [2, 3, 4, 5, 6, 7, 8])
    dtype = R.choice(['f8', 'f8', 'f4'])
    L = R.choice([1.0, N * 1.0, [2.0, 4.0, 8.0]])
    key = "tf:%d:%s:%d" % (P, PART, k)
    case(key + fn)
    g = numpy.random.RandomState(R.randrange(2**31))
    sh = (N, N, N // 2 + 1)
    a = g.randint(-9, 10, size=sh) + 1j * g.randint(-9, 10, size=sh)
    if fn == "NormalizeDC":
        a[0, 0, 0] = R.choice([1, 2, 4, 5])
    d, C = R.randrange(3), R.choice([-2, 0, 3])
    w0 = 2 * numpy.pi / N
    f = dict(RemoveDC=lambda: TF.RemoveDC, NormalizeDC=lambda: TF.NormalizeDC, Constant=lambda: TF.Constant(C), Laplace=lambda: TF.Laplace,
             Poisson=lambda: TF.Poisson, Gaussian=lambda: TF.Gaussian((2 * numpy.log(2)) ** 0.5 / w0), order0=lambda: TF.SuperLanzcos(d, order=0),
             SuperLanzcos=lambda: TF.SuperLanzcos(R1 and d or d), Trilinear=lambda: TF.Trilinear)[fn]
    R1 = True
    unit = dict(SuperLanzcos=1000, Trilinear=1000, Gaussian=4096).get(fn, 100000)
    scale = dict(Laplace=w0 ** -2, Poisson=w0 ** 2, order0=1 / w0).get(fn, 1.0)
    def go():
        pm = ParticleMesh(BoxSize=L, Nmesh=N, comm=world, np=np_, dtype=dtype)
        pt = pm.partition
        osl = slices(pt.local_o_start, pm.complex)
        pm.complex[...] = a[osl]
        pm.transfer([f()])
        out = glob(pm.complex, pt.local_o_start, sh)
        # a chain of transfer functions is one after the other
        b, c = TF.Constant(2), TF.SuperLanzcos((d + 1) % 3)
        pm.complex[...] = a[osl]
        pm.transfer([b, c, f()])
        x = pm.complex.copy()
        pm.complex[...] = a[osl]
        for t in (b, c, f()):
            t(pm, pm.complex)
        chain = x.tobytes() == pm.complex.copy().tobytes()
        return out, chain
    with numpy.errstate(all='ignore'):
        st, v = attempt(go)
        st, chain = finish(st, v and v[1])
        f4 = dtype == 'f4'
        out = v[0].astype('c16') * scale if st == "ok" else None
    emit(dict(k="tf", key=key, st=st, fn=fn, N=N, dir=d + 1, C=C, re=fixd(a.real, 1), im=fixd(a.imag, 1), unit=unit, chain=chain,
              tol=dict(SuperLanzcos=4, Trilinear=40).get(fn, int(9 * unit * 30 * 2e-6) + 2), cfg="%s %s %s" % (N, np_, dtype),
              ore=fixd(out.real, unit) if st == "ok" else [], oim=fixd(out.imag, unit) if st == "ok" else []))

def ps(k):
    R = rng("ps", PART, P, k)
    N, np_ = draw(R, [2, 3, 4, 5, 7, 8])
    while True:
        nb = R.randint(1, 6)
        if all((4 * m * nb * nb != b * b * N * N) for m in range(1, N * N // 4 + 1) if 4 * m < N * N for b in range(1, nb + 1)):
            break
    dtype = R.choice(['f8', 'f8', 'f4'])
    key = "ps:%d:%s:%d" % (P, PART, k)
    case(key)
    g = numpy.random.RandomState(R.randrange(2**31))
    sh = (N, N, N // 2 + 1)
    a = g.randint(-4, 5, size=sh) + 1j * g.randint(-4, 5, size=sh)
    def go():
        pm = ParticleMesh(BoxSize=1.0 * N, Nmesh=N, comm=world, np=np_, dtype=dtype)
        osl = slices(pm.partition.local_o_start, pm.complex)
        pm.complex[...] = a[osl]
        wo, p = numpy.full(nb, -1.0), numpy.full(nb, -1.0)
        pm.transfer([TF.PowerSpectrum(wo, p)])
        kept = (pm.complex == a[osl]).all() and len(set(x.tobytes() for x in gather(wo))) == 1 and len(set(x.tobytes() for x in gather(p))) == 1
        return wo / (2 * numpy.pi / N), p, kept
    with numpy.errstate(all='ignore'):
        st, v = attempt(go)
        st, kept = finish(st, v and v[2])
        emit(dict(k="ps", key=key, st=st, N=N, nb=nb, re=fixd(a.real, 1), im=fixd(a.imag, 1), kept=kept, tol=2,
                  ps=fixd(v[1], 1000) if st == "ok" else [], wo=fixd(v[0], 1000) if st == "ok" else []))

def coords(k):
    R = rng("coords", PART, P, k)
    N, np_ = draw(R, list(range(2, 12)) + [16, 17])
    L = [N * R.choice([0.5, 1.0, 2.0, 3.0]) for _ in range(3)]
    key = "coords:%d:%s:%d" % (P, PART, k)
    case(key)
    def go():
        pm = ParticleMesh(BoxSize=L, Nmesh=N, comm=world, np=np_, dtype=R1)
        pt = pm.partition
        ax = []
        for d in range(3):
            for name, start, arr, u in (("w", pt.local_o_start, pm.complex, 2 * numpy.pi / N), ("k", pt.local_o_start, pm.complex, 2 * numpy.pi / L[d]),
                                        ("r", pt.local_i_start, pm.real, 1.0), ("x", pt.local_i_start, pm.real, L[d] / N)):
                v = getattr(pm, name)[d]
                ok = v.ndim == 3 and all(v.shape[e] == 1 for e in range(3) if e != d)
                x = v.ravel() / u
                x = numpy.where(abs(x - numpy.rint(x)) < 1e-4, numpy.rint(x), numpy.inf)
                ax.append(dict(name=name, start=int(start[d]), len=int(arr.shape[d]) if ok else -1, v=fixd(x, 1)))
        return ax
    R1 = R.choice(['f8', 'f4'])
    st, v = attempt(go)
    st, _ = finish(st)
    ax = gather(v)
    emit(dict(k="coords", key=key, st=st, N=N, axes=sum(ax, []) if st == "ok" else []))

# ------------------------------------------------------------ the quadratic painter
def tscrec(k):
    R = rng("tsc", PART, k)
    nd = R.choice([1, 2, 2, 3])
    size = [R.randint(1, 5)] * nd if R.random() < 0.3 else [R.randint(1, 5) for _ in range(nd)]
    Q = R.choice([1, 2, 4] if nd == 3 else [1, 2, 4, 8])
    n = R.choice([0, 1, 1, 2, 5])
    what = R.choice(["paint", "paint", "read", "raise"])
    per = R.choice([None, None, size[0], size[0], R.randint(1, 6)]) if what != "raise" else None
    lo, hi = (-2, 3) if what == "raise" else (-5, 9)
    g = [[R.randint(lo * Q, (size[d] + hi) * Q) if R.random() < 0.5 else R.randint(0, size[d] * Q) for d in range(nd)] for _ in range(n)]
    if what == "raise" and R.random() < 0.6:
        size = [x + 4 for x in size]
        g = [[min(max(x, 0), (s + 1) * Q) if R.random() < 0.1 else min(max(x, 2 * Q), (s - 3) * Q) for x, s in zip(y, size)] for y in g]
    ms = [R.choice([1, 2, 3, -1]) for _ in range(n)]
    one = R.random() < 0.3
    if one:
        ms = [R.choice([1, 1, 2])] * n
    tr = R.random() < 0.4
    sc, sf = R.choice([0.5, 1, 2]), R.choice([0, 1, -2, 0.5])
    pos = numpy.array(g, 'f8').reshape(-1, nd) / Q
    transform = None
    if tr:
        pos = (pos - sf) / sc
        transform = lambda x: x * sc + sf
    pos = pos.astype(R.choice(['f8', 'f8', 'f4']))
    mt = R.choice(['f8', 'f8', 'f4'])
    gg = numpy.random.RandomState(R.randrange(2**31))
    init = gg.randint(-9, 10, size=size)
    mesh = init.astype(mt)
    key = "tsc:%s:%d" % (PART, k)
    case(key)
    kp = pos.copy()
    mode = "raise" if what == "raise" else R.choice(["ignore", "ignore", "x"])
    w = numpy.array(ms, 'f8') if not one else (None if ms and ms[0] == 1 and R.random() < 0.5 else float(ms[0] if ms else 1))
    kw = dict(period=per, transform=transform)
    if not (mode == "raise" and R.random() < 0.5):
        kw["mode"] = mode
    read = what == "read"
    if read:
        out = numpy.full(n, 77.0) if R.random() < 0.4 else None
        if out is not None:
            kw["out"] = out
        st, v = attempt(lambda: tsc.readout(mesh, pos, **kw))
        if st == "ok" and out is not None and v is not out:
            v = None
    else:
        st, v = attempt(lambda: tsc.paint(pos, mesh, weights=w, **kw))
    D = 8 * Q * Q
    if what == "raise":
        emit(dict(k="raises", key=key, st=st, size=size, Q=Q, g=g))
        if st != "ok":
            return
    inputs = numpy.array_equal(pos, kp) and (not read or numpy.array_equal(mesh, init))
    f4 = mt == 'f4'
    # (the table of the specification has denominator 8 Q^2 per axis)
    emit(dict(k="read" if read else "paint", key=key, st=st, p=2, Q=Q, P=[6] * n, diff=0, size=size, period=[per or 0] * nd, sn=[4] * nd, g=g, mass=ms,
              D=[D] * nd, init=[int(x) for x in init.ravel()], inputs=bool(inputs), outside=True,
              tol=int(D ** nd * 60 * (3e-6 if f4 else 3e-12)) + 1, out=fixd(v if read else mesh, float(D) ** nd) if st == "ok" and v is not None else []))

def bulk(k):
    """more particles than one chunk"""
    R = rng("tscbulk", PART, k)
    nd = R.choice([1, 2])
    size = [R.randint(3, 5)] * nd
    Q, m = R.choice([1, 2]), 7
    D = 8 * Q * Q
    N = 1048576 + [1, 2, 0, -1][k % 4]
    gs = [[R.randint(-9 * Q, (s + 9) * Q) for s in size] for _ in range(m)]
    g = numpy.random.RandomState(R.randrange(2**31))
    pick = g.randint(0, m, size=N)
    pick[pick == 0] = R.choice([0, 1])
    w = numpy.where(g.uniform(size=N) < 0.00001, 1, 0)
    w[-2:], w[0], w[1048575 if N > 1048575 else 0] = 11, 5, 3
    key = "tscbulk:%s:%d" % (PART, k)
    case(key)
    pos = numpy.array(gs, 'f8')[pick] / Q
    tot = [int(w[pick == j].sum()) for j in range(m)]
    common = dict(key=key, p=2, Q=Q, P=[6] * m, diff=0, size=size, period=size, sn=[4] * nd, g=gs, D=[D] * nd, inputs=True, outside=True, tol=1)
    mesh = numpy.zeros(size)
    st, v = attempt(lambda: tsc.paint(pos, mesh, weights=w.astype('f8'), mode="ignore", period=size[0]))
    emit(dict(common, k="paint", st=st, mass=tot, init=[0] * size[0] ** nd, out=fixd(mesh, float(D) ** nd) if st == "ok" else []))
    init = g.randint(-9, 10, size=size)
    st, v = attempt(lambda: tsc.readout(init.astype('f8'), pos, mode="ignore", period=size[0]))
    ok = st == "ok" and len(v) == N and all((v[pick == j] == v[pick == j][0]).all() for j in range(m) if (pick == j).any())
    one = tsc.readout(init.astype('f8'), numpy.array(gs, 'f8') / Q, mode="ignore", period=size[0]) if ok else None
    emit(dict(common, k="read", st=st, mass=[1] * m, init=[int(x) for x in init.ravel()],
              out=fixd([v[pick == j][0] if (pick == j).any() else one[j] for j in range(m)], float(D) ** nd) if ok else []))

def tscpm(k):
    """the older mesh class with the quadratic painter"""
    R = rng("tscpm", PART, P, k)
    N, np_ = draw(R, [2, 3, 4, 4, 5, 6])
    key = "tscpm:%d:%s:%d" % (P, PART, k)
    case(key)
    Q = R.choice([1, 2, 4])
    n = R.choice([0, 1, 3, 9])
    gs = [[R.randint(0, N * Q) if R.random() < 0.7 else R.randint(-5 * Q, (N + 5) * Q) for _ in range(3)] for _ in range(n)]
    ms = [R.choice([1, 2, 3]) for _ in range(n)]
    owner = [R.randrange(P) for _ in range(n)]
    cell = R.choice([0.5, 1.0])
    dtype = R.choice(['f8', 'f8', 'f4'])
    brush = R.choice(['tsc', 'tsc', 'TSC'])
    def go():
        pm = ParticleMesh(BoxSize=N * cell, Nmesh=N, comm=world, np=np_, dtype=dtype, paintbrush=brush)
        mine = [q for q in range(n) if owner[q] == world.rank]
        pos = numpy.array([gs[q] for q in mine], 'f8').reshape(-1, 3) / Q * cell
        mass = numpy.array([ms[q] for q in mine], 'f8')
        pm.clear()
        l = pm.decompose(pos)
        pm.paint(l.exchange(pos), mass=l.exchange(mass))
        return glob(pm.real, pm.partition.local_i_start, (N,) * 3)
    st, v = attempt(go)
    st, _ = finish(st)
    D = 8 * Q * Q
    fac = int(round(cell ** -3))
    emit(dict(k="paint", key=key, st=st, p=2, Q=Q, P=[6] * n, diff=0, size=[N] * 3, period=[N] * 3, sn=[4] * 3, g=gs, mass=[m * fac for m in ms], D=[D] * 3,
              init=[0] * N ** 3, inputs=True, outside=True, tol=int(D ** 3 * 300 * (3e-6 if dtype == 'f4' else 3e-12)) + 1, ranks=P, np=str(np_),
              out=fixd(v, float(D) ** 3) if st == "ok" else []))

for f in FAM:
    for k in range(dict(tsc=4 * COUNT, bulk=COUNT // 50).get(f, COUNT)):
        dict(tf=tf, ps=ps, coords=coords, tsc=tscrec, tscpm=tscpm, bulk=bulk)[f](k)
done()
