"""Records the older cloud-in-cell routines and the older mesh class."""
from rank import *
import warnings
warnings.simplefilter("ignore")
from pmesh import cic, lanczos
P = world.size
FAM = os.environ["PMV_FAM"].split(",")
PART = os.environ.get("PMV_PART", "0")
NDS = [int(x) for x in os.environ.get("PMV_NDS", "1,2,3").split(",")]
COUNT = int(os.environ.get("PMV_COUNT", "20"))

def fixd(a, D):
    with numpy.errstate(all='ignore'):
        x = numpy.rint(numpy.asarray(a).astype('f8').ravel() * D)
        return numpy.where(numpy.abs(x) < 2**31 - 2, x, BADINT).astype('i8').tolist()

def base(R, nd, n, np_, Q, lo, hi):
    g = []
    for _ in range(np_):
        g.append([R.randint(lo[d] * Q, hi[d] * Q) // (Q if R.random() < 0.15 else 1) * 1 for d in range(nd)])
    return g

def record(k):
    R = rng("cic", PART, k)
    nd = R.choice(NDS)
    size = [R.randint(1, 5) for _ in range(nd)]
    Q = R.choice([1, 2, 4, 8, 16])
    np_ = R.choice([0, 1, 1, 2, 5, 9])
    what = R.choice(["paint", "read"])
    which = R.choice(["new", "old"])
    if what == "paint" and R.random() < 0.4:
        which = R.choice(["windowed", "convolution", "convolution"])
        if which == "convolution":
            Q = R.choice([1, 2, 4, 8, 16][:{1: 5, 2: 4, 3: 3}[nd]])
    mode = R.choice(["ignore", "ignore", "raise"])
    period = None
    if R.random() < 0.7:
        period = R.choice([size, size, [x + R.randint(0, 3) for x in size], [R.randint(1, x) for x in size]])
        if R.random() < 0.3:
            period = [R.randint(1, 6)] * nd
    inside = mode == "raise" and R.random() < 0.7
    g = []
    for _ in range(np_):
        x = []
        for d in range(nd):
            per = period[d] if period else 0
            if inside and (per == 0 or per > size[d]):
                v = R.randint(0, max(0, (size[d] - 1) * Q - R.choice([0, 1])))
            else:
                v = R.randint(-3 * Q, (size[d] + 4) * Q) if R.random() < 0.7 else R.randint(-15 * Q, 15 * Q)
            if R.random() < 0.2:
                v = v // Q * Q
            x.append(v)
        g.append(x)
    sc = [R.choice([0.5, 1, 2]) for _ in range(nd)]
    sh = [R.choice([0, 1, -2, 0.5]) for _ in range(nd)]
    tr = R.random() < 0.5
    pos = numpy.array(g, 'f8').reshape(-1, nd) / Q
    transform = None
    if tr:
        pos = (pos - sh) / sc
        transform = lambda x: x * sc + sh
    ptype = R.choice(['f8', 'f8', 'f4'])
    pos = pos.astype(ptype)
    if Q == 1 and not tr and R.random() < 0.3:
        pos = pos.astype('i8')
    if R.random() < 0.2:
        pos = pos.tolist() if np_ else pos
    mt = R.choice(['f8', 'f8', 'f4'])
    lay = R.choice(["C", "C", "F", "stride", "sub"])
    gg = numpy.random.RandomState(R.randrange(2**31))
    init = gg.randint(-9, 10, size=size)
    if lay == "stride":
        buf = numpy.full([2 * x for x in size], 77.0, mt)
        mesh = buf[tuple(slice(None, None, 2) for _ in size)]
    elif lay == "sub":
        buf = numpy.full([x + 2 for x in size], 77.0, mt)
        mesh = buf[tuple(slice(1, -1) for _ in size)]
    else:
        buf = mesh = numpy.zeros(size, mt, order=lay)
    mesh[...] = init
    outer = numpy.ones(buf.shape, '?')
    if lay == "stride":
        outer[tuple(slice(None, None, 2) for _ in size)] = False
    elif lay == "sub":
        outer[tuple(slice(1, -1) for _ in size)] = False
    else:
        outer[...] = False
    ms = [R.choice([1, 2, 3, -1]) for _ in range(np_)]
    one = R.random() < 0.3
    if one:
        ms = [R.choice([1, 2])] * np_
        w = float(ms[0]) if ms else 1.0
    else:
        w = numpy.array(ms, R.choice(['f8', 'f8', 'f4', 'i4']))
    if what == "paint" and one and (not ms or ms[0] == 1) and R.random() < 0.5:
        w = "default"
    pv = None if period is None else (period[0] if len(set(period)) == 1 and R.random() < 0.5 else R.choice([list, tuple, numpy.array])(period))
    if which in ("windowed", "convolution"):
        win = R.choice([dict(), dict(window=lanczos.linear)]) if which == "windowed" else dict(window=lanczos.cubic)
        fp = lambda *a, **k: lanczos.paint(*a, **k, **win)
    else:
        fp, fr = (cic.paint, cic.readout) if which == "new" else (cic.paint_old, cic.readout_old)
    keep = [numpy.array(pos), numpy.array(mesh), numpy.array(w) if not isinstance(w, str) else 0]
    out = numpy.full(np_, -77.0, R.choice(['f8', 'f8', 'f4'])) if R.random() < 0.4 else None
    outb = out
    kw = dict(mode=mode, period=pv, transform=transform)
    if mode == "raise" and R.random() < 0.3:
        del kw["mode"]
    if what == "paint":
        if not isinstance(w, str):
            kw["weights"] = w
        st, v = attempt(lambda: fp(pos, mesh, **kw))
        res = mesh
    else:
        if outb is not None:
            kw["out"] = outb
        st, v = attempt(lambda: fr(mesh, pos, **kw))
        res = v
        if st == "ok" and outb is not None and v is not outb:
            res = outb
    inputs = numpy.array_equal(numpy.array(pos), keep[0]) and (isinstance(w, str) or numpy.array_equal(numpy.array(w), keep[2])) \
        and (what == "paint" or numpy.array_equal(mesh, keep[1]))
    D = 2 * Q ** 3 if which == "convolution" else Q
    DT = D ** nd
    prec = 3e-6 if mt == 'f4' or (out is not None and out.dtype == 'f4') else 3e-12
    r = dict(k="cic", key="cic:%s:%d" % (PART, k), st=st, what=what, mode=mode, p=33 if which == "convolution" else 1, Q=Q, P=[4] * np_, diff=0, size=size, period=period or [0] * nd,
             sn=[4] * nd, g=g, mass=ms, D=[D] * nd, init=[int(x) for x in init.ravel()], which=which, lay=lay, ptype=str(numpy.array(pos).dtype),
             inputs=bool(inputs), outside=bool((buf[outer] == 77.0).all()), tol=int(DT * 300 * prec) + (1 if DT * 300 > 2e7 else 0))
    r["out"] = fixd(res, DT) if st == "ok" else []
    emit(r)

def chunk(k):
    """more particles than fit in one chunk; the positions come from a small set"""
    R = rng("chunk", PART, k)
    nd = R.choice([1, 2])
    size = [R.randint(2, 4) for _ in range(nd)]
    Q = 2
    m = 7
    gs = [[R.randint(-Q, (s + 1) * Q) for s in size] for _ in range(m)]
    # one chunk of the array version, or of the compiled one
    N = (65536 * R.choice([1, 2]) if k % 2 == 0 else 1048576) + R.choice([1, 2, 3] if k < 2 else [-1, 0, 1, 3])
    g = numpy.random.RandomState(R.randrange(2**31))
    pick = g.randint(0, m, size=N)
    pos = numpy.array(gs, 'f8')[pick] / Q
    w = g.randint(1, 3, size=N)
    w[-3:] = 11
    tot = [int(w[pick == j].sum()) for j in range(m)]
    for which, fp, fr in (("new", cic.paint, cic.readout), ("old", cic.paint_old, cic.readout_old), ("windowed", lanczos.paint, None)):
        for one in (False, True):
            mesh = numpy.zeros(size)
            ww = 1.0 if one else w.astype('f8')
            st, v = attempt(lambda: fp(pos, mesh, weights=ww, mode="ignore", period=size))
            mass = [int((pick == j).sum()) for j in range(m)] if one else tot
            emit(dict(k="cic", key="chunk:%s:%d" % (PART, k), st=st, what="paint", mode="ignore", p=1, Q=Q, P=[4] * m, diff=0, size=size, period=size,
                      sn=[4] * nd, g=gs, mass=mass, D=[Q] * nd, init=[0] * int(numpy.prod(size)), which=which, lay="C", ptype="f8",
                      inputs=True, outside=True, tol=0, out=fixd(mesh, Q ** nd) if st == "ok" else []))
        if fr is None:
            continue
        init = g.randint(-9, 10, size=size)
        st, v = attempt(lambda: fr(init.astype('f8'), pos, mode="ignore", period=size))
        ok = st == "ok" and len(v) == N and all((v[pick == j] == v[pick == j][0]).all() for j in range(m) if (pick == j).any())
        emit(dict(k="cic", key="chunk:%s:%d" % (PART, k), st=st, what="read", mode="ignore", p=1, Q=Q, P=[4] * m, diff=0, size=size, period=size,
                  sn=[4] * nd, g=gs, mass=[1] * m, D=[Q] * nd, init=[int(x) for x in init.ravel()], which=which, lay="C", ptype="f8",
                  inputs=True, outside=True, tol=0, out=fixd([v[pick == j][0] for j in range(m)], Q ** nd) if ok else []))

# ------------------------------------------------------------ the older mesh class
def glob(pm, v, start, shape):
    a = numpy.full(shape, numpy.nan, v.dtype)
    for s, x in gather((list(map(int, start)), numpy.array(v))):
        a[tuple(slice(b, b + n) for b, n in zip(s, x.shape))] = x
    return a
def meshes(R, N):
    nps = [None] + [[a, P // a] for a in range(1, P + 1) if P % a == 0]
    # the installed library misplaces ranks without cells
    ok = []
    for q in nps:
        z = q if q is not None else [int(x) for x in pfft.split_size_2d(P)]
        f = lambda n, p: (-(-n // p)) * (p - 1) < n
        if all(f(N, p) for p in z) and f(N // 2 + 1, z[1]):
            ok.append(q)
    return ok
def legacy(k):
    from pmesh.particlemesh import ParticleMesh
    R = rng("lpm", PART, P, k)
    while True:
        N = R.choice([2, 3, 4, 4, 6])
        ok = meshes(R, N)
        if ok:
            break
        if P > 4:
            return
    np_ = R.choice(ok)
    cell = [R.choice([0.5, 1.0]) for _ in range(3)]
    if R.random() < 0.4:
        cell = [cell[0]] * 3
    dtype = R.choice(['f8', 'f8', 'f4'])
    what = R.choice(["paint", "paint", "read", "r2c", "c2r", "round"])
    key = "lpm:%d:%s:%d" % (P, PART, k)
    case(key)
    g = numpy.random.RandomState(R.randrange(2**31))
    Q = R.choice([1, 2, 4, 8])
    n = R.choice([0, 1, 3, 9])
    gs = [[R.randint(0, N * Q) if R.random() < 0.7 else R.randint(-5 * Q, (N + 5) * Q) for _ in range(3)] for _ in range(n)]
    ms = [R.choice([1, 2, 3]) for _ in range(n)]
    owner = [R.randrange(P) for _ in range(n)]
    init = g.randint(-9, 10, size=(N, N, N))
    re = g.randint(-4, 5, size=(N, N, N)); im = g.randint(-4, 5, size=(N, N, N))
    neg = numpy.ix_(*[(-numpy.arange(N)) % N] * 3)
    re, im = re + re[neg], im - im[neg]
    def go():
        pm = ParticleMesh(BoxSize=[N * c for c in cell] if len(set(cell)) > 1 else N * cell[0], Nmesh=N, comm=world, np=np_, dtype=dtype)
        pt = pm.partition
        isl = tuple(slice(int(s), int(s) + int(m)) for s, m in zip(pt.local_i_start, pm.real.shape))
        osl = tuple(slice(int(s), int(s) + int(m)) for s, m in zip(pt.local_o_start, pm.complex.shape))
        mine = [q for q in range(n) if owner[q] == world.rank]
        pos = numpy.array([gs[q] for q in mine], 'f8').reshape(-1, 3) / Q * cell
        mass = numpy.array([ms[q] for q in mine], 'f8')
        kept = True
        if what == "paint":
            layout = pm.decompose(pos)
            pm.real[...] = init[isl] if acc else 3
            if not acc:
                pm.clear()
            h = len(mine) // 2
            if twice:
                for sl in (slice(0, h), slice(h, None)):
                    l = pm.decompose(pos[sl])
                    pm.paint(l.exchange(pos[sl]), mass=l.exchange(mass[sl]))
            else:
                pm.paint(layout.exchange(pos), mass=layout.exchange(mass))
            return kept, glob(pm, pm.real, pt.local_i_start, (N,) * 3)
        if what == "read":
            pm.real[...] = init[isl]
            layout = pm.decompose(pos)
            v = layout.gather(pm.readout(layout.exchange(pos)), mode='sum')
            kept = bool(numpy.array_equal(pm.real, init[isl]))
            out = [None] * n
            for l in gather(list(zip(mine, v.tolist()))):
                for q, x in l:
                    out[q] = x
            return kept, numpy.array(out, 'f8')
        oshape = (N, N, N // 2 + 1)
        if what == "r2c":
            pm.real[...] = init[isl]
            pm.r2c()
            return kept, glob(pm, pm.complex, pt.local_o_start, oshape)
        if what == "c2r":
            pm.complex[...] = (re + 1j * im)[osl]
            if twice:
                pm.push()
                pm.complex[...] = 5
                pm.push(); pm.complex[...] = 2
                pm.pop(); kept = bool((numpy.asarray(pm.complex) == 5).all())
                pm.pop()
            order = []
            pm.c2r([lambda p, c: order.append(1), lambda p, c: order.append(2)])
            kept = kept and order == [1, 2]
            return kept, glob(pm, pm.real, pt.local_i_start, (N,) * 3)
        pm.real[...] = init[isl]
        pm.r2c(); pm.c2r()
        return kept, glob(pm, pm.real, pt.local_i_start, (N,) * 3)
    acc, twice = R.random() < 0.3, R.random() < 0.3
    st, v = attempt(go)
    al = gather((st, v[0] if v else False))
    bad = [s for s, _ in al if s != "ok"]
    st = bad[0] if bad else "ok"
    out = v[1] if st == "ok" else None
    f4 = dtype == 'f4'
    common = dict(key=key, st=st, ranks=P, np=str(np_), dtype=dtype, N=N)
    kept = all(x for _, x in al)
    if what in ("paint", "read"):
        fac = int(round(1 / numpy.prod(cell)))
        emit(dict(common, k="paint" if what == "paint" else "read", p=1, Q=Q, P=[4] * n, diff=0, size=[N] * 3, period=[N] * 3, sn=[4] * 3, g=gs,
                  mass=[m * fac for m in ms], D=[Q] * 3, init=[int(x) for x in (init if what == "read" or acc else 0 * init).ravel()],
                  inputs=kept, outside=True, tol=int(Q ** 3 * 500 * (3e-6 if f4 else 3e-12)), out=fixd(out, Q ** 3) if st == "ok" else []))
    else:
        U = 2 * 16384 * (N ** 3 if what == "r2c" else 1)
        r = dict(common, k="transform", n=[N] * 3, half=True, im=[], oim=[], kept=kept, kind=True, tol=int(4e4 * 16384 * (2e-7 if f4 else 1e-13)) + 2)
        r["from"] = "spectrum" if what == "c2r" else "field"
        r["to"] = "spectrum" if what == "r2c" else "field"
        if what == "c2r":
            r["re"], r["im"] = [[int(x) for x in a[:, :, :N // 2 + 1].ravel()] for a in (re, im)]
        else:
            r["re"] = [int(x) for x in init.ravel()]
        if st == "ok":
            r["ore"] = fixd(out.real, U)
            if what == "r2c":
                r["oim"] = fixd(out.imag, U)
        emit(r)

for f in FAM:
    if f == "cic":
        for k in range(COUNT):
            case("cic:%s:%d" % (PART, k))
            record(k)
    elif f == "chunk":
        for k in range(COUNT):
            case("chunk:%s:%d" % (PART, k))
            chunk(k)
    else:
        import pfft
        for k in range(COUNT):
            legacy(k)
done()
