"""Records how a mesh is laid out over the ranks (blocks, coordinates, point lists,
domains) and where nearest-cell particles go."""
from meshgen import *
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
SHIM = os.environ.get("PMV_SHIM") == "1"

def split(R, items):
    out = [[] for _ in range(P)]
    how = R.random()
    for x in items:
        out[R.randrange(P) if how < 0.6 else (0 if how < 0.8 else P - 1)].append(x)
    return out

def axes(arrs, shape, f):
    """per axis, the values of a broadcastable coordinate array (checked to be of the sparse shape)"""
    out = []
    for d, a in enumerate(arrs):
        want = [1] * len(shape); want[d] = shape[d]
        out.append(f(a, d) if list(a.shape) == [int(x) for x in want] else [BADINT])
    return out

def main():
    R = rng("mesh", PART, P)
    for k in range(COUNT):
        c = Cfg(R, lib=not SHIM)
        key = "mesh:%d:%s:%d" % (P, PART, k)
        case(key + " " + str(c).replace(" ", ""))
        gd = R.choice([None, 'f8', 'f4'])
        sh = [R.choice([0, 0.5, 0.25, -0.5, 1])] * c.nd if R.random() < 0.5 else [R.choice([0, 0.5, 0.25]) for _ in range(c.nd)]
        sarg = sh[0] if len(set(sh)) == 1 and R.random() < 0.7 else sh
        Q = 4
        pts = [[R.randint(-2 * Q, (N + 2) * Q) if R.random() < 0.8 else R.randint(-3 * N * Q, 3 * N * Q) for N in c.n] for _ in range(R.choice([0, 1, 6, 12]))]
        mine = split(R, list(range(len(pts))))
        how = R.choice(['name', 'window', 'number', 'default'])
        def go():
            r = {}
            pm = c.make(resampler='nnb' if how == 'default' else 'cic')
            if not SHIM:
                # the installed library miscounts the edges where some block is empty
                ps = [pm.plans['partitionT'], pm.plans['partitionU']]
                if any(gather(any(0 in list(p.local_i_shape) + list(p.local_o_shape) for p in ps))):
                    return None
            tk = R_types
            for t in tk:
                ty = TYPES[t]
                x = pm.create_coords(ty)
                # the arrays are ours to spoil
                for a in pm.create_coords(ty) + pm.create_coords(ty, return_indices=True):
                    a[...] = -12345
                x2, i2 = pm.create_coords(ty), pm.create_coords(ty, return_indices=True)
                fresh = all((a == b).all() for a, b in zip(x, x2))
                if SHIM:
                    f = pm.create(ty)
                    start, shape, csh = f.start, f.value.shape, f.cshape
                    fresh = fresh and all((a == b).all() for a, b in zip(f.x, x2)) and all((a == b).all() for a, b in zip(f.i, i2)) \
                        and all(s.start == a and s.stop == a + n for s, a, n in zip(f.slices, start, shape)) and f.shape == shape
                    r["csize"] = int(f.csize)
                else:
                    p = pm.plans['partitionU' if t == 'u' else 'partitionT']
                    start, shape = (p.local_i_start, p.local_i_shape) if t == 'r' else (p.local_o_start, p.local_o_shape)
                    # the installed library reports the padded or compressed length as the last edge
                    csh = c.n if t == 'r' or c.dtype[0] == 'c' else c.n[:-1] + [c.n[-1] // 2 + 1]
                cs = [4.0 / 1.0] * c.nd if t == 'r' else None
                r[t] = dict(start=[int(v) for v in start], shape=[int(v) for v in shape], cshape=[int(v) for v in csh],
                            idx=axes(i2, shape, lambda a, d: fx(a, 1)), fresh=bool(fresh),
                            x=axes(x, shape, lambda a, d: fx(a, 4) if t == 'r' else fx(numpy.asarray(a) * (c.box[d] / (2 * numpy.pi)), 1024)))
            pc = pm.mesh_coordinates(**({} if gd is None else dict(dtype=gd)))
            r["points"] = [fx(v, 1) for v in pc]
            g, ids = pm.generate_uniform_particle_grid(shift=sarg, return_id=True, **({} if gd is None else dict(dtype=gd)))
            g2 = pm.generate_uniform_particle_grid(shift=sarg, **({} if gd is None else dict(dtype=gd)))
            if list(sh) == [0.5] * c.nd:
                # the shift that used to be the default
                g2 = pm.generate_uniform_particle_grid(**({} if gd is None else dict(dtype=gd)))
            r["grid"] = [fx(v, 16) for v in g]
            r["ids"] = fx(ids, 1)
            r["samegrid"] = bool(g.shape == g2.shape and (g == g2).all())
            r["edges"] = [[int(v) for v in e] for e in pm.domain.edges]
            if not SHIM and len(r["edges"][-1]) == 2:
                r["edges"][-1][1] = c.n[-1]
            r["assign"] = [int(v) for v in pm.domain.DomainAssign]
            # particles
            my = mine[world.rank]
            pos = numpy.array([[v / float(Q) * L / N for v, L, N in zip(pts[i], c.box, c.n)] for i in my]).reshape(-1, c.nd)
            sm = dict(name='nnb', window=pm_window('nnb'), number=0.5, default=None)[how]
            lay = pm.decompose(pos, **({} if sm is None else dict(smoothing=sm)))
            lp = lay.exchange(pos)
            li = lay.exchange(numpy.array(my, dtype='i8'))
            got = []
            nnb = pm_window('nnb')
            p = pm.partition
            for q, i in zip(lp, li):
                canvas = numpy.zeros([int(v) for v in p.local_i_shape])
                nnb.paint(canvas, q[None, :], transform=pm.affine)
                cells = [[int(a) + int(s) for a, s in zip(w, p.local_i_start)] for w in numpy.argwhere(canvas)]
                got.append(dict(id=int(i), cells=cells, m=fx(canvas.sum(), 1)[0]))
            r["got"] = got
            return r
        R_types = ['r', 't', 'u']
        st, v = attempt(go)
        al = gather((st, v))
        bad = [s for s, _ in al if s != "ok"]
        rec = dict(k="mesh", key=key, st=bad[0] if bad else "ok", n=c.n, cell=c.cell, nd=c.nd, cplx=c.dtype[0] == 'c',
                   half=c.dtype[0] != 'c', shift=fx(sh, 16), Q=Q, pts=pts, P=P, cfg=str(c), tol=2 if c.dtype in ('f8', 'c16') else 4)
        if not bad and al[0][1] is None:
            continue
        if not bad:
            rec["rk"] = [v for _, v in al]
        emit(rec)
    done()

def pm_window(name):
    from pmesh.window import FindResampler
    return FindResampler(name)
main()
