"""Records distributed painting, readout and resizing."""
from pcase import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
FAMILY = os.environ["PMV_FAMILY"]

def finishst(st, extra=True):
    al = gather(st)
    bad = [s for s in al if s != "ok"]
    return bad[0] if bad else "ok"

def emitrec(r):
    emit(r)

def restore(vals, owner):
    """per-rank results back in the global particle order"""
    al = gather([float(x) for x in vals])
    it = [iter(a) for a in al]
    return [next(it[o], float('nan')) for o in owner], [len(a) for a in al]

def fam_paint():
    for k in range(COUNT):
        R = rng("dpaint", PART, P, k)
        c = PCase(R, dtypes=('f8', 'f8', 'f4', 'c16', 'c8'), tf=True)
        key = "paint:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c.c).replace(" ", "") + c.name)
        hold = R.random() < 0.4
        pt, mt = R.choice(['f8', 'f8', 'f4']), R.choice(['f8', 'f4', 'i4', 'scalar', 'default'])
        if mt in ('scalar', 'default'):
            c.mass = [c.mass[0] if mt == 'scalar' and c.np else 1] * c.np
        sm = c.smoothing(R)
        how = R.choice(["new", "out", "out", "method"] if not hold else ["out", "out", "method"])
        defres = R.random() < 0.3
        twice = R.random() < 0.2
        R1, R2 = R.random() < 0.5, R.random() < 0.5
        def go():
            pm = c.c.make(resampler=c.name if defres else 'cic')
            pos = c.pos(pt)
            if R.random() < 0.2:
                pos.flags.writeable = False
            mass = c.mine(c.mass, mt) if mt not in ('scalar', 'default') else float(c.mass[0]) if c.np else 1.0
            hs = None if c.hs is None else c.mine(c.hs)
            kp = copies((pos, mass, hs))
            lay = None if P == 1 and R1 else pm.decompose(pos, smoothing=sm, **c.transform(pm, R1))
            kw = dict(c.transform(pm, R1), resampler=None if defres else c.name, gradient=c.diff, layout=lay, hold=hold)
            if hs is not None:
                kw["hsml"] = hs
            if mt != 'default':
                kw["mass"] = mass
            f = pm.create(RealField)
            f.value[...] = 3e20
            if hold or R2:
                put(f, c.init)
            if how == "method":
                kw.pop("hsml", None)
                f.paint(pos, **kw)
                g = f
            elif how == "out":
                g = pm.paint(pos, out=f, **kw)
                if g is not f:
                    raise RuntimeError("not the given field")
            else:
                g = pm.paint(pos, **kw)
            if twice:
                # a second, accumulating call with nothing new
                pm.paint(pos[:0], mass=1.0, resampler=c.name, layout=pm.decompose(pos[:0], smoothing=sm), hold=True, out=g)
            return glob(g), same((pos, mass, hs), kp)
        if how == "method" and c.hs is not None:
            how = "out"
        st, v = attempt(go)
        st = finishst(st)
        inp = all(gather(v[1] if v else False))
        if not hold:
            c.init[...] = 0
        t = c.tol(12)
        emit(c.rec("paint", key, st=st, tol=t, out=fixd(v[0], c.DT) if st == "ok" else [], outside=True, inputs=inp))

def fam_read():
    for k in range(COUNT):
        R = rng("dread", PART, P, k)
        c = PCase(R, read=True, dtypes=('f8', 'f8', 'f4', 'c16'), tf=True)
        key = "read:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c.c).replace(" ", "") + c.name)
        pt = R.choice(['f8', 'f8', 'f4'])
        sm = c.smoothing(R)
        defres = R.random() < 0.3
        od = R.choice([None, None, 'f8', 'f4', 'strided'])
        R1 = R.random() < 0.5
        def go():
            pm = c.c.make(resampler=c.name if defres else 'cic')
            pos = c.pos(pt)
            hs = None if c.hs is None else c.mine(c.hs)
            kp = copies((pos, hs))
            f = put(pm.create(RealField), c.init)
            k0 = numpy.array(f.value)
            lay = None if P == 1 and R1 else pm.decompose(pos, smoothing=sm, **c.transform(pm, R1))
            out = None
            if od == 'strided':
                b = numpy.full((len(pos), 3), -5.0)
                out = b[:, 1]
            elif od:
                out = numpy.full(len(pos), numpy.nan, od)
            kw = dict(c.transform(pm, R1), resampler=None if defres else c.name, gradient=c.diff, layout=lay)
            if hs is not None:
                kw["hsml"] = hs
            v = f.readout(pos, out=out, **kw)
            if out is not None and not numpy.array_equal(v, out, equal_nan=True):
                raise RuntimeError("out not filled")
            if od == 'strided' and not ((b[:, 0] == -5).all() and (b[:, 2] == -5).all()):
                raise RuntimeError("wrote outside out")
            if numpy.shape(v) != (len(pos),):
                raise RuntimeError("shape")
            return v, same((pos, hs), kp), (numpy.asarray(f.value) == k0).all()
        st, v = attempt(go)
        st = finishst(st)
        out, _ = restore(v[0] if st == "ok" else [], c.owner)
        inp = all(gather(v[1] if v else False))
        unch = all(gather(bool(v[2]) if v else False))
        t = c.tol(30)
        if od == 'f4':
            t += int(c.DT * 60 * 1e-6)
        emit(c.rec("read", key, st=st, tol=t, out=fixd(out, c.DT) if st == "ok" else [], outside=unch, inputs=inp))

# windows without a closed form: the same thing on all ranks and on one
TABLES = ["lanczos2", "lanczos3", "lanczos5", "acg2", "acg3", "acg5", "db6", "db12", "sym6", "sym12", "cic", "tsc", "pcs", "nnb"]
def fam_serial():
    for k in range(COUNT):
        R = rng("dserial", PART, P, k)
        c = PCase(R, read=True, dtypes=('f8',), plain=True, maxp=14, orders=(1,))
        key = "serial:%d:%s:%d" % (P, PART, k)
        name = R.choice(TABLES)
        case(key + ":" + str(c.c).replace(" ", "") + name)
        grad = R.choice([None, None] + list(range(c.nd)))
        # off the dyadic points
        pos = numpy.array([[R.uniform(-0.5, 1.5) * L for L in c.c.box] for _ in range(c.np)]).reshape(-1, c.nd)
        mass = numpy.array([R.uniform(-2, 2) for _ in range(c.np)])
        what = R.choice(["paint", "read"])
        sel = [i for i in range(c.np) if c.owner[i] == world.rank]
        def dist(pm, pos, mass):
            lay = pm.decompose(pos, smoothing=name)
            if what == "paint":
                return glob(pm.paint(pos, mass=mass, resampler=name, gradient=grad, layout=lay))
            return put(pm.create(RealField), c.init).readout(pos, resampler=name, gradient=grad, layout=lay)
        def serial():
            w = FindResampler(name)
            from pmesh.window import Affine
            tr = Affine(c.nd, scale=1.0 * numpy.array(c.c.n) / numpy.array(c.c.box), period=c.c.n)
            if what == "paint":
                a = numpy.zeros(c.c.n)
                w.paint(a, pos, mass=mass, diffdir=grad, transform=tr)
                return a
            return w.readout(1.0 * c.init, pos, diffdir=grad, transform=tr)
        st, v = attempt(lambda: dist(c.c.make(), pos[sel], mass[sel]))
        st = finishst(st)
        r = dict(k="agree", key=key, st=st, v=[], tol=8)
        if st == "ok":
            a = serial()
            b = v if what == "paint" else numpy.array(restore(v, c.owner)[0])
            s = 2.0 ** 20 / max(1.0, abs(a).max(initial=0))
            r["v"] = [fixd(a, s), fixd(b, s)]
        else:
            r["v"] = [[0], [1]]
        emit(r)

def ratio_ok(a, b):
    f = Fraction(a, b)
    return f.denominator & (f.denominator - 1) == 0

def fam_resize():
    k = tries = 0
    while k < COUNT:
        tries += 1
        R = rng("dresize", PART, P, tries)
        up = R.random() < 0.5
        c = Cfg(R, maxn=6, dtypes=('f8', 'f8', 'f4'), maxcells=64)
        m = [R.randint(1, 6) for _ in range(c.nd)] if R.random() < 0.6 else list(c.n)
        if numpy.prod(m) > 64:
            continue
        p = R.choice([0, 1, 1, 1, 2, 3])
        # evaluated positions in units of 1/Q cell of the windowed mesh
        a, b = (c.n, m) if up else (m, c.n)          # windowed mesh, point mesh
        fr = [Fraction(x, y) for x, y in zip(a, b)]
        if not all(ratio_ok(x, y) for x, y in zip(a, b)):
            continue
        Q = 1
        for f in fr:
            Q = lcm(Q, f.denominator)
        D = {0: 1, 1: Q, 2: 8 * Q * Q, 3: 6 * Q ** 3}[p]
        DT = D ** c.nd
        if DT * 9 * 64 > 1.5e9:
            continue
        c.cell = [R.choice([1, 2, 4]) for _ in range(c.nd)]
        c.box = [x * y / 4.0 for x, y in zip(c.n, c.cell)]
        samebox = R.random() < 0.6
        box2 = c.box if samebox else [x * R.choice([1, 2]) / 4.0 for x in m]
        # densities: cells per volume of both meshes
        vs, vm = Fraction(1), Fraction(1)
        for x in c.box: vs *= Fraction(x)
        for x in box2: vm *= Fraction(x)
        rho_s = Fraction(int(numpy.prod(c.n))) / vs
        rho_m = Fraction(int(numpy.prod(m))) / vm
        fac = rho_s / rho_m
        # recorded in units of 1 / (DT * unit), the unit being chosen to keep integers
        facd = (fac.denominator if up else fac.numerator)
        if DT * 9 * 64 * max(fac.numerator, fac.denominator) * facd > 1.9e9:
            continue
        key = "%s:%d:%s:%d" % ("up" if up else "down", P, PART, k)
        k += 1
        name = R.choice(NAMES[p])
        case(key + ":" + str(c).replace(" ", "") + name + str(m).replace(" ", ""))
        keep = R.random() < 0.5
        defres = R.random() < 0.3
        vals = numpy.random.RandomState(R.randrange(2**31)).randint(-9, 10, size=c.n)
        pv = samebox and keep and list(m) != list(c.n) and R.random() < 0.5
        how = R.choice([None, "upsample" if up else "downsample"])
        if not pv or up == any(x < y for x, y in zip(m, c.n)):
            how = "upsample" if up else "downsample"
        scalar = len(set(m)) == 1 and R.random() < 0.6
        def go():
            pm = c.make(resampler=name if defres and (up or pv) else 'cic')
            f = put(pm.create(RealField), vals)
            k0 = numpy.array(f.value)
            if pv:
                # the whole resized mesh on every rank
                v = f.preview(Nmesh=m[0] if scalar else list(m) if R1 else numpy.array(m), method=how, resampler=None if defres else name)
                if not all(gather(list(v.shape) == list(m))) or len(set(gather(v.tobytes()))) != 1:
                    raise RuntimeError("preview")
                return v, (numpy.asarray(f.value) == k0).all()
            if samebox and R1:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    t = (pm.resize if R2 else pm.reshape)(Nmesh=m[0] if scalar else m)
                if defres:
                    t.resampler = FindResampler(name)
            else:
                t = ParticleMesh(Nmesh=m, BoxSize=box2, comm=world, np=c.np, dtype=c.dtype, resampler=name if defres else 'nnb')
            g = (t.upsample if up else t.downsample)(f, resampler=None if defres else name, keep_mean=keep)
            if [int(x) for x in g.Nmesh] != list(m):
                raise RuntimeError("mesh")
            return glob(g), (numpy.asarray(f.value) == k0).all()
        R1 = R.random() < 0.5
        R2 = R.random() < 0.2
        st, v = attempt(go)
        st = finishst(st)
        r = dict(k="resize", key=key, st=st, up=up, keep=keep, n=c.n, m=list(m), p=p, Q=Q, D=D, nd=c.nd, win=name, ranks=P,
                 vals=[int(x) for x in vals.ravel()], cs=[rho_s.numerator, rho_s.denominator], cm=[rho_m.numerator, rho_m.denominator], unchanged=all(gather(bool(v[1]) if v else False)))
        r["unit"] = facd
        r["out"] = fixd(v[0], DT * facd) if st == "ok" else []
        r["tol"] = int(DT * facd * 600 * (3e-7 if c.dtype == 'f4' else 0)) + (1 if p > 1 else 0)
        emit(r)

# resizing with any window: the same on all ranks and on one
def fam_resizeserial():
    k = tries = 0
    while k < COUNT:
        tries += 1
        R = rng("dresizeserial", PART, P, tries)
        up = R.random() < 0.7
        c = Cfg(R, maxn=R.choice([6, 16]), dtypes=('f8',), maxcells=220)
        m = [R.choice([x, 2 * x, 4 * x] if up else [x, max(1, x // 2), max(1, x // 4)]) for x in c.n]
        if not all(ratio_ok(x, y) for x, y in (zip(c.n, m) if up else zip(m, c.n))) or numpy.prod(m) > 400:
            continue
        key = "rs-%s:%d:%s:%d" % ("up" if up else "down", P, PART, k)
        k += 1
        name = R.choice(TABLES[:-1] + ["pcs", "pcs"])
        case(key + ":" + str(c).replace(" ", "") + name + str(m).replace(" ", ""))
        keep = R.random() < 0.5
        vals = numpy.random.RandomState(R.randrange(2**31)).randint(-9, 10, size=c.n)
        def go(comm, np):
            pm = ParticleMesh(Nmesh=c.n, BoxSize=c.box, comm=comm, np=np, resampler=name)
            f = pm.create(RealField)
            put(f, vals)
            t = pm.reshape(Nmesh=m)
            return (t.upsample if up else t.downsample)(f, keep_mean=keep)
        st, v = attempt(lambda: glob(go(world, c.np)))
        st = finishst(st)
        r = dict(k="agree", key=key, st=st, tol=8)
        if st == "ok":
            a = numpy.array(go(MPI.COMM_SELF, None).value)
            s = 2.0 ** 20 / max(1.0, abs(a).max(initial=0))
            r["v"] = [fixd(a, s), fixd(v, s)]
        else:
            r["v"] = [[0], [1]]
        emit(r)

dict(resizeserial=fam_resizeserial, paint=fam_paint, read=fam_read, serial=fam_serial, resize=fam_resize)[FAMILY]()
done()
