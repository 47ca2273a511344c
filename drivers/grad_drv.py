"""Records reductions, inner products and gradients."""
from pcase import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
FAMILY = os.environ["PMV_FAMILY"]
U2 = 2 * 16384.0

def finish(st):
    bad = [s for s in gather(st) if s != "ok"]
    return bad[0] if bad else "ok"
def every(x):
    return all(gather(bool(x)))
def restore(vals, owner):
    al = gather([float(x) for x in vals])
    it = [iter(a) for a in al]
    return [next(it[o], float('nan')) for o in owner]
def mirror(a):
    for d in range(a.ndim):
        a = numpy.roll(numpy.flip(a, d), 1, d)
    return a
def ints(g, sh, cplx, A=9):
    a = g.randint(-A, A + 1, size=sh)
    return a + 1j * g.randint(-A, A + 1, size=sh) if cplx else a

METRIC = lambda k: numpy.rint(k ** 2) + 1
NORMS = dict(square=lambda x: x.real ** 2 + x.imag ** 2, abs=lambda x: abs(x.real) + abs(x.imag),
             fourth=lambda x: (x.real ** 2 + x.imag ** 2) ** 2, one=lambda x: numpy.ones(x.shape))

def boxed(R, c):
    """a box whose wavenumbers are integers, up to rounding"""
    c.q = [R.choice([1, 1, 2, 3]) for _ in range(c.nd)]
    if R.random() < 0.3:
        c.q = [c.q[0]] * c.nd
    c.box = [2 * numpy.pi / q for q in c.q]

def fam_reduce():
    for k in range(COUNT):
        R = rng("reduce", PART, P, k)
        c = Cfg(R, maxn=6, maxcells=120)
        boxed(R, c)
        cplx = c.dtype[0] == 'c'
        t = R.choice("rrtu")
        op = R.choice(["sum", "mean", "dot", "norm"] if t == 'r' and not cplx else ["sum", "mean"] if t == 'r' else ["dot", "dot", "norm", "norm"])
        key = "reduce:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t + op)
        g = numpy.random.RandomState(R.randrange(2**31))
        sh = list(c.n)
        if t != 'r' and not cplx:
            sh[-1] = sh[-1] // 2 + 1
        A = 3 if c.dtype in ('f4', 'c8') else 9
        a, b = ints(g, sh, cplx or t != 'r', A), ints(g, sh, cplx or t != 'r', A)
        metric = t != 'r' and R.random() < 0.5
        norm = R.choice(list(NORMS)) if op == "norm" and t != 'r' else "square"
        form = R.choice(["field", "field", "array", "self"])
        dt = R.choice([None, None, 'f8']) if not cplx else R.choice([None, 'c16'])
        wide = op in ("sum", "mean") and dt is not None and R.random() < 0.6
        if wide:
            # summed in the type asked for, not that of the mesh
            a = ints(g, sh, cplx or t != 'r', 3) * 2**22 + 1
        def go():
            pm = c.make()
            f, h = put(pm.create(TYPES[t]), a), put(pm.create(TYPES[t]), b)
            if form == "self":
                h = f
            k0, k1 = f.value.tobytes(), h.value.tobytes()
            kw = dict(metric=METRIC) if metric else {}
            if op in ("sum", "mean"):
                v = getattr(f, "c" + op)(**({} if dt is None else dict(dtype=dt)))
            elif op == "dot":
                v = f.cdot(h.value if form == "array" else h, **kw)
            else:
                if norm != "square" or R1:
                    if t != 'r':
                        kw["norm"] = NORMS[norm]
                v = f.cnorm(**kw)
            if numpy.shape(v) != ():
                raise RuntimeError("not a number")
            return v, f.value.tobytes() == k0 and h.value.tobytes() == k1
        R1 = R.random() < 0.5
        st, v = attempt(go)
        st = finish(st)
        res = gather(complex(v[0]) if v else None)
        bits = gather(numpy.array(v[0]).tobytes().hex() if v else None)
        N = int(numpy.prod(c.n)) if op == "mean" else 1
        mag = float(numpy.abs(a).sum() if op in ("sum", "mean") else (numpy.abs(a) ** 2).sum() + (numpy.abs(b) ** 2).sum()) * (500 if metric else 1) * (A * A if norm == "fourth" else 1) * 2
        emit(dict(k="reduce", key=key, st=st, cfg=str(c) + t + op, n=c.n, half=t != 'r' and not cplx, q=c.q, metric=metric, norm=norm,
                  op="sum" if op == "mean" else "norm" if op == "norm" else op,
                  are=fixd(a.real, 1), aim=fixd(a.imag, 1) if numpy.iscomplexobj(a) else [],
                  bre=fixd(b.real, 1) if op == "dot" and form != "self" else [], bim=fixd(b.imag, 1) if op == "dot" and form != "self" and numpy.iscomplexobj(b) else [],
                  res=[fixd([z.real * N, z.imag * N], 1) for z in res] if st == "ok" else [], bits=bits if st == "ok" else [],
                  tol=int(mag * (3e-6 if c.dtype in ('f4', 'c8') and not wide else 1e-13)), kept=every(v[1] if v else True)))

def fam_elements():
    for k in range(COUNT):
        R = rng("elements", PART, P, k)
        op = R.choice(["cdot", "cdot", "decompress"])
        c = Cfg(R, maxn=6, maxcells=120, dtypes=('f8', 'f8', 'f4') if op == "decompress" else ('f8', 'f4', 'c16', 'c8'))
        boxed(R, c)
        cplx = c.dtype[0] == 'c'
        t = R.choice("tu")
        key = "elements:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t + op)
        g = numpy.random.RandomState(R.randrange(2**31))
        sh = list(c.n)
        if not cplx:
            sh[-1] = sh[-1] // 2 + 1
        a = ints(g, sh, True)
        metric = op == "cdot" and R.random() < 0.5
        scal = R.choice([1, 2, -3])
        how = R.choice(["none", "ellipsis", "given", "same"])
        def go():
            pm = c.make()
            f = put(pm.create(TYPES[t]), a)
            k0 = f.value.tobytes()
            if op == "cdot":
                v = f.cdot_vjp(R1(scal), **(dict(metric=METRIC) if metric else {}))
                return glob(v), f.value.tobytes() == k0, type(v) is TYPES[t] and v is not f and v.value.dtype == f.value.dtype
            out = dict(none=None, ellipsis=Ellipsis, given=pm.create(TYPES[t], value=7), same=f)[how]
            v = f.decompress_vjp() if out is None else f.decompress_vjp(out) if R2 else f.decompress_vjp(out=out)
            inpl = how in ("ellipsis", "same")
            return glob(v), inpl or f.value.tobytes() == k0, type(v) is TYPES[t] and (v is f) == inpl and (how != "given" or v is out)
        R1, R2 = R.choice([int, float, numpy.float64]), R.random() < 0.5
        st, v = attempt(go)
        st = finish(st)
        mx = 3 * 9 * 500 if metric else 30
        emit(dict(k="elements", key=key, st=st, cfg=str(c) + t + op, n=c.n, half=not cplx, q=c.q, metric=metric, op=op, v=scal,
                  are=fixd(a.real, 1), aim=fixd(a.imag, 1), ore=fixd(v[0].real, 1) if st == "ok" else [], oim=fixd(v[0].imag, 1) if st == "ok" else [],
                  tol=int(mx * (1e-6 if c.dtype in ('f4', 'c8') else 1e-13)), kept=every(v[1] if v else True), kind=every(v[2] if v else True)))

def fam_transform():
    """gradients of the transforms are the transforms the other way, rescaled"""
    for k in range(COUNT):
        R = rng("gradtransform", PART, P, k)
        c = Cfg(R, maxcells=48)
        c.n = [R.choice([1, 2, 2, 3, 4, 4, 6]) if x > 1 else 1 for x in c.n]
        while numpy.prod(c.n) > 48:
            c.n[c.n.index(max(c.n))] = 2
        c.box = [1.0 * x for x in c.n]
        cplx = c.dtype[0] == 'c'
        t0 = R.choice("rtu")
        key = "gradtransform:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t0)
        g = numpy.random.RandomState(R.randrange(2**31))
        a = ints(g, c.n, cplx or t0 != 'r', 4)
        if t0 != 'r' and not cplx:
            a = a + mirror(a).conj()
            a = a[..., :c.n[-1] // 2 + 1]
        how = R.choice(["none", "none", "given", "ellipsis", "base"])
        t1 = 'r' if t0 != 'r' else R.choice("tu") if how in ("given", "base") else 't'
        def go():
            pm = c.make()
            f = put(pm.create(TYPES[t0]), a)
            k0 = f.value.tobytes()
            out = None if how == "none" else Ellipsis if how == "ellipsis" else pm.create(TYPES[t1], **(dict(base=f._base) if how == "base" else {}))
            m = f.c2r_vjp if t0 == 'r' else f.r2c_vjp
            v = m() if out is None else m(out) if R1 else m(out=out)
            inpl = how in ("ellipsis", "base")
            return glob(v), inpl or f.value.tobytes() == k0, type(v) is TYPES[t1] and (how not in ("given", "base") or v is out)
        R1 = R.random() < 0.5
        st, v = attempt(go)
        st = finish(st)
        N = int(numpy.prod(c.n))
        w = U2 * (1 if t0 == 'r' else N)
        r = dict(k="transform", key=key, n=c.n, half=not cplx, st=st, kept=every(v[1] if v else True), kind=every(v[2] if v else True), cfg="%s grad %s>%s" % (c, t0, t1),
                 re=fixd(a.real, 1), im=fixd(a.imag, 1) if numpy.iscomplexobj(a) else [], ore=[], oim=[],
                 tol=int(18.0 * N * U2 * (1.5e-6 if c.dtype in ('f4', 'c8') else 2e-14)) + 1)
        r["from"], r["to"] = ("field", "spectrum") if t0 == 'r' else ("spectrum", "field")
        if st == "ok":
            r["ore"] = fixd(v[0].real, w)
            r["oim"] = fixd(v[0].imag, w) if numpy.iscomplexobj(v[0]) else []
        emit(r)

def fam_particles():
    for k in range(COUNT):
        R = rng("gradparticles", PART, P, k)
        c = PCase(R, read=True, dtypes=('f8', 'f8', 'f4'), hsml=False, orders=(0, 1, 1, 2, 2, 3), maxp=6, alldiff=18, tf=True)
        key = "gradparticles:%d:%s:%d" % (P, PART, k)
        op = R.choice(["paint_vjp", "paint_jvp", "readout_vjp", "readout_jvp"])
        case(key + ":" + str(c.c).replace(" ", "") + c.name + op)
        g = numpy.random.RandomState(R.randrange(2**31))
        nd = c.nd
        grad = None
        pt = R.choice(['f8', 'f8', 'f4'])
        sm = c.smoothing(R)
        scalar = R.random() < 0.2
        if scalar:
            c.mass = [R.choice([1, 2])] * c.np
        v = [R.choice([0, 1, 1, -1, 2]) for _ in range(c.np)]
        vpos = [[R.choice([0, 1, -1, 2]) for _ in range(nd)] for _ in range(c.np)]
        mesh2 = g.randint(-9, 10, size=c.c.n)
        parts = R.choice(["both", "both", "first", "second"])
        if op in ("paint_vjp", "readout_vjp", "readout_jvp") and R.random() < 0.4:
            # the derivative window itself, which cannot be differentiated again
            grad, parts = R.randrange(nd), "second" if op == "paint_vjp" else "first"
        hows = [R.choice(["none", "none", "given", "given", "ellipsis"]) for _ in range(2)]
        defres = R.random() < 0.3
        R1 = R.random() < 0.5
        f8 = numpy.float64
        def go():
            pm = c.c.make(resampler=c.name if defres else 'cic')
            pos = c.pos(pt)
            mass = float(c.mass[0]) if scalar and c.np else c.mine(c.mass)
            vm, vp = c.mine(v), c.mine(vpos).reshape(-1, nd)
            f, f2 = put(pm.create(RealField), c.init), put(pm.create(RealField), mesh2)
            lay = None if P == 1 and R1 else pm.decompose(pos, smoothing=sm, **c.transform(pm, R1))
            kw = dict(c.transform(pm, R1), resampler=None if defres else c.name, layout=lay)
            kp = copies((pos, mass, vm, vp))
            k0, k2 = f.value.tobytes(), f2.value.tobytes()
            res = []
            changed = ()
            if op == "paint_vjp":
                if parts != "first" or grad is not None:
                    if hows[1] == "given":
                        kw["out_mass"] = numpy.full(len(pos), 1e20)
                    elif hows[1] == "ellipsis" and not scalar:
                        kw["out_mass"] = Ellipsis
                        changed = (1,)
                else:
                    kw["out_mass"] = False
                if parts == "second":
                    kw["out_pos"] = False
                elif hows[0] == "given":
                    kw["out_pos"] = numpy.full(pos.shape, 1e20)
                elif hows[0] == "ellipsis":
                    kw["out_pos"] = Ellipsis
                    changed += (0,)
                if grad is not None:
                    kw["gradient"] = grad
                a, b = pm.paint_vjp(f, pos, mass=mass, **kw)
                if (parts == "second" and a is not False) or (parts == "first" and b is not False):
                    raise RuntimeError("unwanted gradient")
                if hows[0] == "given" and parts != "second" and a is not kw["out_pos"] or hows[0] == "ellipsis" and parts != "second" and a is not pos:
                    raise RuntimeError("not the given array")
                if hows[1] == "given" and parts != "first" and b is not kw["out_mass"] or 1 in changed and b is not mass:
                    raise RuntimeError("not the given array")
                ones = [1] * c.np
                if parts != "second":
                    res += [("readsum", a[:, d].copy(), [dict(mesh=0, m=c.mass, diff=d + 1)]) for d in range(nd)]
                if parts != "first":
                    res += [("readsum", b.copy(), [dict(mesh=0, m=ones, diff=0 if grad is None else grad + 1)])]
            elif op == "readout_vjp":
                # out_self, out_pos
                if parts == "second":
                    kw["out_self"] = False
                elif hows[0] == "given":
                    kw["out_self"] = f2
                elif hows[0] == "ellipsis":
                    kw["out_self"] = Ellipsis
                if parts == "first":
                    kw["out_pos"] = False
                elif hows[1] == "given":
                    kw["out_pos"] = numpy.full(pos.shape, 1e20)
                elif hows[1] == "ellipsis":
                    kw["out_pos"] = Ellipsis
                    changed = (0,)
                if grad is not None:
                    kw["gradient"] = grad
                a, b = f.readout_vjp(pos, vm, **kw)
                if (parts == "second" and a is not False) or (parts == "first" and b is not False):
                    raise RuntimeError("unwanted gradient")
                if parts != "second":
                    if hows[0] == "given" and a is not f2 or hows[0] == "ellipsis" and a is not f:
                        raise RuntimeError("not the given field")
                    res += [("paintsum", glob(a), [dict(m=v, diff=0 if grad is None else grad + 1)])]
                    if hows[0] == "given":
                        k2 = f2.value.tobytes()
                    elif hows[0] == "ellipsis":
                        k0 = f.value.tobytes()
                if parts != "first":
                    res += [("readsum", b[:, d].copy(), [dict(mesh=0, m=v, diff=d + 1)]) for d in range(nd)]
            elif op == "paint_jvp":
                if hows[0] == "given":
                    kw["out"] = pm.create(RealField, value=3e20)
                a = pm.paint_jvp(pos, mass=mass, **dict(dict(v_pos=vp) if parts != "second" else {}, **(dict(v_mass=vm) if parts != "first" else {})), **kw)
                if hows[0] == "given" and a is not kw["out"]:
                    raise RuntimeError("not the given field")
                terms = []
                if parts != "second":
                    terms += [dict(m=[x * y[d] for x, y in zip(c.mass, vpos)], diff=d + 1) for d in range(nd)]
                if parts != "first":
                    terms += [dict(m=v, diff=0)]
                res += [("paintsum", glob(a), terms)]
            else:
                if grad is not None:
                    kw["gradient"] = grad
                a = f.readout_jvp(pos, **dict(dict(v_pos=vp) if parts != "first" else {}, **(dict(v_self=f2) if parts != "second" else {})), **kw)
                terms = []
                if parts != "first":
                    terms += [dict(mesh=0, m=[y[d] for y in vpos], diff=d + 1) for d in range(nd)]
                if parts != "second":
                    terms += [dict(mesh=1, m=[1] * c.np, diff=0 if grad is None else grad + 1)]
                res += [("readsum", a, terms)]
            inp = all(i in changed or same((x,), (y,)) for i, (x, y) in enumerate(zip((pos, mass, vm, vp), kp)))
            return res, inp, f.value.tobytes() == k0 and f2.value.tobytes() == k2
        st, val = attempt(go)
        st = finish(st)
        if st != "ok":
            r = c.rec("paintsum", key, st=st, terms=[], tol=0, out=[], kept=True, inputs=True)
            emit(r)
            continue
        inp, kept = every(val[1]), every(val[2])
        f4 = c.c.dtype == 'f4' or pt == 'f4'
        for kind, out, terms in val[0]:
            for t in terms:
                if "mesh" in t:
                    t["mesh"] = [int(x) for x in (mesh2 if t["mesh"] else c.init).ravel()]
            if kind == "readsum":
                out = restore(out, c.owner)
            vals = fixd(out, c.DT)
            mag = 36.0 * 2 * 18 * max(1, *[2.0 * s for s in (16 // x for x in c.c.cell)])
            emit(c.rec(kind, key, st=st, terms=terms, out=vals, kept=kept, inputs=inp, how=op,
                       tol=int(c.DT * mag * (3e-6 if f4 else 1e-12)) + (1 if c.DT * mag > 2e7 else 0)))

# the transpose identity for windows without a closed form
TABLES = ["lanczos2", "lanczos3", "acg2", "acg3", "db6", "db12", "sym6", "sym12", "cic", "tsc", "pcs", "nnb"]
def fam_pairing():
    for k in range(COUNT):
        R = rng("pairing", PART, P, k)
        c = PCase(R, read=True, dtypes=('f8',), plain=True, maxp=10, minp=1, orders=(1,))
        key = "pairing:%d:%s:%d" % (P, PART, k)
        name = R.choice(TABLES)
        case(key + ":" + str(c.c).replace(" ", "") + name)
        g = numpy.random.RandomState(R.randrange(2**31))
        nd = c.nd
        pos = numpy.array([[R.uniform(-0.5, 1.5) * L for L in c.c.box] for _ in range(c.np)]).reshape(-1, nd)
        mass, vm, vp = g.uniform(-2, 2, c.np), g.uniform(-1, 1, c.np), g.uniform(-1, 1, (c.np, nd))
        w = g.uniform(-1, 1, c.c.n)
        w2 = g.uniform(-1, 1, c.c.n)
        sel = [i for i in range(c.np) if c.owner[i] == world.rank]
        which = R.choice(["paint", "readout"])
        def go():
            pm = c.c.make()
            p, m, a, b = pos[sel], mass[sel], vm[sel], vp[sel]
            lay = pm.decompose(p, smoothing=name)
            kw = dict(resampler=name, layout=lay)
            W, W2 = put(pm.create(RealField), w), put(pm.create(RealField), w2)
            if which == "paint":
                # <D paint (b, a), W> = <(b, a), paint_vjp W>
                j = pm.paint_jvp(p, mass=m, v_pos=b, v_mass=a, **kw)
                x, y = pm.paint_vjp(W, p, mass=m, **kw)
                l = [float((j.value * W.value).sum())]
                r = list((x * b).sum(axis=-1)) + list(y * a)
            else:
                # <D readout (W2, b), a> = <(W2, b), readout_vjp a>
                j = W.readout_jvp(p, v_self=W2, v_pos=b, **kw)
                x, y = W.readout_vjp(p, a, **kw)
                l = list(j * a)
                r = [float((x.value * W2.value).sum())] + list((y * b).sum(axis=-1))
            return l, r
        st, v = attempt(go)
        st = finish(st)
        L, Rr = sum([list(x) for x in gather(v[0] if v else [])], []), sum([list(x) for x in gather(v[1] if v else [])], [])
        s = 2.0 ** 24 / max([1.0] + [abs(x) for x in L + Rr])
        emit(dict(k="pairing", key=key, st=st, cfg=str(c.c) + name + which, lhs=fixd(L, s), rhs=fixd(Rr, s), tol=len(L) + len(Rr) + 2))

dict(reduce=fam_reduce, elements=fam_elements, transform=fam_transform, particles=fam_particles, pairing=fam_pairing)[FAMILY]()
done()
