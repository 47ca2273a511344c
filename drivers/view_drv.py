"""Records global views: ravel, unravel, preview, ctranspose."""
from pcase import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
FAMILY = os.environ["PMV_FAMILY"]
FILL = 77777

def vals(a):
    """exact pairs or integers"""
    a = numpy.asarray(a)
    if numpy.iscomplexobj(a):
        return [list(p) for p in zip(fixd(a.real, 1), fixd(a.imag, 1))]
    return fixd(a, 1)

def block(f):
    return dict(start=[int(x) for x in f.start], shape=[int(x) for x in f.shape], v=vals(numpy.ascontiguousarray(f.value)))

def distinct(g, f, small=False):
    """random global values of the right kind"""
    sh = [int(x) for x in f.cshape]
    N = int(numpy.prod(sh))
    a = g.randint(-9, 10, size=N) if small else g.permutation(N) - N // 3
    if numpy.iscomplexobj(f.value):
        a = a + 1j * (g.randint(-9, 10, size=N) if small else g.permutation(N))
    return a.reshape(sh)

def finish(st):
    bad = [s for s in gather(st) if s != "ok"]
    return bad[0] if bad else "ok"

def allok(v, i, st):
    return all(gather(bool(v[i]) if v is not None else True)) if st == "ok" else True

def config(R):
    return Cfg(R, maxn=6, maxcells=100)

def fam_ravel():
    for k in range(COUNT):
        R = rng("ravel", PART, P, k)
        c = config(R)
        t = R.choice("rtu")
        how = R.choice(["none", "ellipsis", "value", "flat", "array", "strided", "method", "fortran"])
        key = "ravel:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t + how)
        g = numpy.random.RandomState(R.randrange(2**31))
        bl = [None]
        def go():
            pm = c.make()
            f = pm.create(TYPES[t])
            put(f, distinct(g, f))
            bl[0] = block(f)
            k0 = f.value.tobytes()
            sp = None
            out = None
            if how == "ellipsis":
                out = Ellipsis
            elif how == "value":
                out = f.value if R1 else f.value.flat
            elif how == "flat":
                out = numpy.full(f.size, FILL, f.dtype).flat
            elif how == "array":
                out = numpy.full(f.shape, FILL, f.dtype)
            elif how == "fortran":
                out = numpy.full(f.shape, FILL, f.dtype, order='F')
            elif how == "strided":
                sp = numpy.full((f.size, 2), FILL, f.dtype)
                out = sp[:, 1]
            if how == "method":
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = f.sort()
            else:
                r = f.ravel() if out is None else f.ravel(out) if R1 else f.ravel(out=out)
            v = numpy.array(r[:], f.dtype) if len(r) else numpy.empty(0, f.dtype)
            place = True
            if how in ("ellipsis", "value"):
                place = numpy.array_equal(numpy.array(f.value.flat[:], f.dtype), v)
            elif out is not None:
                o = out if isinstance(out, numpy.flatiter) else out.flat
                place = numpy.array_equal(numpy.array(o[:], f.dtype), v)
            if sp is not None:
                place = place and bool((sp[:, 0] == FILL).all())
            return vals(v), how in ("ellipsis", "value") or f.value.tobytes() == k0, place, [int(x) for x in f.cshape]
        R1 = R.random() < 0.5
        st, v = attempt(go)
        st = finish(st)
        bs = gather(bl[0])
        parts = gather(v[0] if v else None)
        r = dict(k="ravel", key=key, st=st, cfg=str(c) + t + how, s=v[3] if v else c.n, blocks=bs if st == "ok" else [], parts=parts if st == "ok" else [],
                 kept=allok(v, 1, st), place=allok(v, 2, st))
        emit(r)

def fam_unravel():
    for k in range(COUNT):
        R = rng("unravel", PART, P, k)
        c = config(R)
        t = R.choice("rtu")
        how = R.choice(["pm", "pm", "field", "deprecated", "inplace"])
        form = R.choice(["flat", "array", "fortran", "strided", "cast"])
        split = R.choice(["same", "same", "random", "one"])
        if how == "inplace":
            split, form = "same", "flat"
        key = "unravel:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t + how + form + split)
        g = numpy.random.RandomState(R.randrange(2**31))
        rr = [R.random() for _ in range(P)]
        one = R.randrange(P)
        part = [None]
        def go():
            pm = c.make()
            f = pm.create(TYPES[t])
            w = distinct(g, f).ravel()
            sizes = world.allgather(f.size)
            if split == "random":
                x = numpy.floor(numpy.array(rr) / sum(rr) * len(w)).astype(int)
                x[-1] += len(w) - sum(x)
                sizes = list(x)
            elif split == "one":
                sizes = [len(w) if k == one else 0 for k in range(P)]
            a = sum(sizes[:world.rank])
            mine = w[a:a + sizes[world.rank]].astype(f.dtype)
            part[0] = vals(mine)
            f.value[...] = FILL
            if form == "array":
                src = mine
            elif form == "strided":
                b = numpy.full((len(mine), 3), FILL, f.dtype)
                b[:, 1] = mine
                src = b[:, 1] if R1 else b[:, 1].flat
            elif form == "fortran" and split == "same":
                src = mine.reshape(f.shape)
                src = numpy.asfortranarray(src)
            else:
                src = mine.flat
            k0 = numpy.array((src if isinstance(src, numpy.flatiter) else src.flat)[:]).tobytes()
            if how == "inplace":
                f.value.flat[...] = mine
                f.unravel(f.value.flat if R1 else f.flat)
                h = f
            elif how == "pm":
                h = pm.unravel(TYPES[t], src)
            elif how == "deprecated":
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    f.unsort(src)
                h = f
            else:
                f.unravel(src)
                h = f
            kept = how == "inplace" or k0 == numpy.array((src if isinstance(src, numpy.flatiter) else src.flat)[:]).tobytes()
            return block(h), kept, type(h) is TYPES[t] and h.pm is pm, [int(x) for x in f.cshape]
        R1 = R.random() < 0.5
        st, v = attempt(go)
        st = finish(st)
        bs = gather(v[0] if v else None)
        emit(dict(k="unravel", key=key, st=st, cfg=str(c) + t + how + form + split, s=v[3] if v else c.n, blocks=bs if st == "ok" else [],
                  parts=gather(part[0]) if st == "ok" else [], kept=allok(v, 1, st), place=allok(v, 2, st)))

def fam_preview():
    for k in range(COUNT):
        R = rng("preview", PART, P, k)
        c = config(R)
        t = R.choice("rrrtu")
        perm = list(range(c.nd))
        R.shuffle(perm)
        kind = R.choice(["all", "full", "full", "some", "some", "some", "int"])
        axes = list(range(c.nd)) if kind == "all" else perm if kind == "full" else perm[:R.randint(1, c.nd)] if kind == "some" else perm[:1]
        form = R.choice([list, tuple, numpy.array, range])
        nm = R.choice([None, None, "same", "arr", "scalar"])
        grow = [R.choice([1, 2]) for _ in c.n]
        if t == 'r' and c.dtype[0] != 'c' and R.random() < 0.3:
            # projections of the resized mesh, against the whole resized mesh
            nm = "grow"
        m = [x * y for x, y in zip(c.n, grow)] if nm == "grow" else c.n
        key = "preview:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t + kind)
        g = numpy.random.RandomState(R.randrange(2**31))
        bl = [None]
        def go():
            pm = c.make()
            f = pm.create(RealField)
            put(f, distinct(g, f, small=True))
            bl[0] = block(f)
            if t != 'r':
                f = f.cast(TYPES[t])
            k0 = f.value.tobytes()
            ax = axes[0] if kind == "int" else form(axes) if form is not range else axes
            kw = {} if kind == "all" and R1 else dict(axes=None) if kind == "all" else dict(axes=ax)
            if nm == "same":
                kw["Nmesh"] = list(c.n)
            elif nm == "arr":
                kw["Nmesh"] = numpy.array(c.n)
            elif nm == "scalar" and len(set(c.n)) == 1:
                kw["Nmesh"] = c.n[0]
            elif nm == "grow":
                kw["Nmesh"] = numpy.array(m)
                kw["method"] = R2
                kw["resampler"] = "nnb"
                big = f.preview(Nmesh=m, method="upsample", resampler="nnb")
                if list(big.shape) != m:
                    raise RuntimeError("not the shape asked for")
                bl[0] = dict(start=[0] * c.nd, shape=m, v=vals(numpy.ascontiguousarray(big))) if world.rank == 0 else dict(start=[0] * c.nd, shape=[0] * c.nd, v=[])
            v = f.preview(**kw)
            if kind == "full" or kind == "some":
                if list(ax) != axes:
                    raise RuntimeError("axes changed")
            return v, f.value.tobytes() == k0, v.dtype == pm.create(RealField).dtype
        R1, R2 = R.random() < 0.5, R.choice([None, "upsample"])
        st, v = attempt(go)
        st = finish(st)
        bs = gather(bl[0])
        if bs and st == "ok" and c.dtype[0] == 'c':
            bs = [dict(b, v=b["v"]) for b in bs]
        outs = gather(None if v is None else v[0])
        exact = t == 'r'
        sc = 1 if exact else 4096
        for part in (["re", "im"] if c.dtype[0] == 'c' else ["re"]):
            pick = (lambda a: numpy.asarray(a).real) if part == "re" else (lambda a: numpy.asarray(a).imag)
            b2 = [dict(b, v=[x[0 if part == "re" else 1] if isinstance(x, list) else x for x in b["v"]]) for b in bs] if st == "ok" else []
            emit(dict(k="preview", key=key, st=st, cfg=str(c) + t, s=m, axes=[a + 1 for a in axes], blocks=b2,
                      outs=[fixd(pick(o), sc) for o in outs] if st == "ok" else [], shapes=[list(o.shape) for o in outs] if st == "ok" else [],
                      scale=sc, tol=0 if exact else int(4096 * 9 * 100 * (3e-5 if c.dtype in ('f4', 'c8') else 1e-11)) + 1,
                      kept=allok(v, 1, st), place=allok(v, 2, st)))

def fam_transpose():
    for k in range(COUNT):
        R = rng("transpose", PART, P, k)
        c = config(R)
        axes = list(range(c.nd))
        R.shuffle(axes)
        if R.random() < 0.5:
            # lengths that are not binary fractions
            c.box = [R.choice([1.0, 0.7, 3.3, 1000.0 / 3, 1e-3, 12345.678]) * (x + R.random()) for x in c.n]
            if R.random() < 0.3:
                c.box = [c.box[0]] * c.nd
        form = R.choice([list, tuple, numpy.array, lambda a: numpy.array(a, 'i4')])
        key = "transpose:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + "".join(map(str, axes)))
        g = numpy.random.RandomState(R.randrange(2**31))
        bl = [None]
        def go():
            pm = c.make(resampler=R2)
            f = pm.create(RealField)
            put(f, distinct(g, f, small=R1))
            bl[0] = block(f)
            k0 = f.value.tobytes()
            ax = form(axes)
            h = f.ctranspose(ax)
            if list(ax) != axes:
                raise RuntimeError("axes changed")
            box = [float(x) for x in pm.BoxSize]
            ob = [float(x) for x in h.BoxSize]
            ids = sorted(set(box))
            idx = lambda b: [ids.index(x) if x in ids else -1 for x in b]
            return block(h), f.value.tobytes() == k0, type(h) is RealField and h.dtype == f.dtype and list(pm.Nmesh) == c.n and list(h.pm.BoxSize) == ob, [int(x) for x in h.Nmesh], idx(box), idx(ob)
        R1, R2 = R.random() < 0.3, R.choice(['cic', 'nnb', 'tsc'])
        st, v = attempt(go)
        st = finish(st)
        bs = gather(bl[0])
        b2 = gather(v[0] if v else None)
        emit(dict(k="transpose", key=key, st=st, cfg=str(c), s=c.n, axes=[a + 1 for a in axes], blocks=bs if st == "ok" else [], blocksout=b2 if st == "ok" else [],
                  t=v[3] if v else [], boxin=v[4] if v else [], boxout=v[5] if v else [], kept=allok(v, 1, st), place=allok(v, 2, st)))

dict(ravel=fam_ravel, unravel=fam_unravel, preview=fam_preview, transpose=fam_transpose)[FAMILY]()
done()
