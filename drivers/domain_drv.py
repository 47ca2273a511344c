import os
from rank import *
from domain_gen import *
from pmesh.domain import GridND
import numpy

comm = world
nr, me = comm.size, comm.rank
FAMILY = os.environ["PMV_FAMILY"]
COUNT = int(os.environ.get("PMV_COUNT", "100"))

def mkgrid(edges, per, assign, u, intedges):
    ee = [numpy.array(e, dtype='i4' if intedges else 'f8') * (1 if intedges else u) for e in edges]
    da = None if assign is None else numpy.array(assign, dtype='int32')
    return GridND(ee, comm=comm, periodic=per, DomainAssign=da)

class Setup:
    """one randomly drawn grid with particles"""
    def __init__(self, R, ndim=None, edges=None, per=None, pts=None, s=None, assign="draw", npart=None, plain=False):
        self.ndim = ndim or R.choice([1, 1, 2, 2, 3])
        self.edges = edges or [axis_edges(R, maxcells=(5 if self.ndim == 1 else 4 if self.ndim == 2 else 3)) for _ in range(self.ndim)]
        self.ndim = len(self.edges)
        self.per = R.random() < 0.6 if per is None else per
        if not self.per and edges is None and R.random() < 0.3:
            sh = R.randint(-3, 3)
            self.edges = [[x + sh for x in e] for e in self.edges]
        self.nd = 1
        for e in self.edges:
            self.nd *= len(e) - 1
        self.assign = assignment(R, self.nd, nr) if assign == "draw" else assign
        self.intedges = R.random() < 0.3
        self.u = 1.0 if self.intedges else R.choice([1.0, 0.125, 0.5, 0.25])
        self.tscale = R.choice([None, None, 2.0, 0.5])
        self.extra = R.choice([0, 0, 1, 2])
        self.ptype = R.choice(['f8', 'f8', 'f8', 'f4'])
        n = npart if npart is not None else R.choice([0, 1, 2, 5, 9, 14, 20])
        self.pts = pts if pts is not None else [point(R, self.edges, self.per) for _ in range(n)]
        self.parts = split(R, self.pts, nr)
        self.s = s or smoothing(R, self.edges)
        # smoothing may be handed over as a scalar
        self.sscalar = len(set(self.s)) == 1 and R.random() < 0.7
        self.grid = mkgrid(self.edges, self.per, self.assign, self.u, self.intedges)

    def lattice(self, parts):
        """real positions of lattice points held by this rank, as the caller's array"""
        p = numpy.array(parts[me], dtype='f8').reshape(-1, self.ndim) * self.u
        if self.tscale:
            p = p / self.tscale
        if self.extra:
            p = numpy.concatenate([p, numpy.full((len(p), self.extra), -777.0)], axis=1)
        return p.astype(self.ptype)

    def transform(self):
        if not self.tscale:
            return None
        t = self.tscale
        return lambda x: x * t

    def smooth(self):
        if self.sscalar:
            return self.s[0] * self.u
        return numpy.array(self.s) * self.u

    def decompose(self, parts=None, s=None):
        pos = self.lattice(parts or self.parts)
        keep = pos.copy()
        lay = self.grid.decompose(pos, smoothing=self.smooth() if s is None else s, transform=self.transform())
        self.posok = bool((pos == keep).all())
        return lay

    def rec(self, kind, key):
        das = gather([int(x) for x in self.grid.DomainAssign])
        return dict(k=kind, key=key, nr=nr, edges=self.edges, per=bool(self.per), assign=das[0],
                    agree=all(d == das[0] for d in das), pos=self.parts, s=self.s)

def ids(parts):
    n = len(parts[me])
    a = numpy.empty((n, 2), dtype='i4')
    a[:, 0] = me
    a[:, 1] = numpy.arange(n)
    return a

# ------------------------------------------------------------------ families
def fam_decomp():
    R = rng("decomp", nr)
    for c in range(COUNT):
        S = Setup(R)
        one("decomp:rand:%d:%d" % (nr, c), S)

def fam_decomp1d():
    """every edge list, owner map class and smoothing over a small lattice"""
    R = rng("decomp1d", nr)
    L = 4
    fam = list(itertools.product(all_edges(L, 4), (True, False), range(0, 2 * L + 2), ("default", "random", "one", "rev")))
    R.shuffle(fam)
    if COUNT < len(fam):
        fam = fam[:COUNT]
    for c, (e, per, s, a) in enumerate(fam):
        pts = [[x] for x in range(-L - 2, 2 * L + 3)]
        S = Setup(R, edges=[e], per=per, s=[s], pts=pts, assign=assignment(R, len(e) - 1, nr, a))
        one("decomp:all1d:%d:%d" % (nr, c), S)

def one(key, S):
    case(key)
    lay = S.decompose()
    i = ids(S.parts)
    got = lay.exchange(i)
    r = S.rec("decomp", key)
    r["got"] = gather([[int(a), int(b)] for a, b in got])
    r["len"] = gather([int(lay.sendlength), int(lay.recvlength)])
    r["posok"] = all(gather(S.posok))
    emit(r)

def fam_bulk():
    """more particles than one internal chunk"""
    R = rng("bulk", nr)
    for c in range(COUNT):
        S = Setup(R, ndim=R.choice([1, 2]), npart=7)
        big = 50000 + 1000 * c
        key = "decomp:bulk:%d:%d" % (nr, c)
        case(key)
        cls = [[R.randrange(7) for _ in range(997)] for r in range(nr)]
        cnt = [big if r == c % nr else R.choice([0, 3]) for r in range(nr)]
        mine = [cls[me][i % 997] for i in range(cnt[me])]
        pp = [None] * nr
        pp[me] = [S.pts[m] for m in mine]
        lay = S.decompose(pp)
        i = numpy.empty((cnt[me], 3), dtype='i4')
        i[:, 0] = me
        i[:, 1] = numpy.arange(cnt[me])
        i[:, 2] = mine
        got = lay.exchange(i)
        S.parts = [[p] for p in S.pts]
        r = S.rec("bulk", key)
        r["pos"] = S.pts
        r["n"] = [[sum(1 for j in range(cnt[q]) if cls[q][j % 997] == m) for m in range(7)] for q in range(nr)]
        obs = []
        for q in range(nr):
            g = got[got[:, 0] == q]
            okid = bool((numpy.diff(g[:, 1]) > 0).all()) and all(cls[q][int(b) % 997] == int(m) for b, m in g[:50, 1:])
            obs.append([okid, [int((g[:, 2] == m).sum()) for m in range(7)]])
        r["obs"] = gather(obs)
        emit(r)

def fam_tiny():
    """positions a rounding error below zero: either neighbour is acceptable, but exactly one"""
    R = rng("tiny", nr)
    for c in range(COUNT):
        S = Setup(R, per=True, npart=0, plain=True)
        S.tscale, S.extra, S.ptype = None, 0, R.choice(['f8', 'f4'])
        S.ndim = len(S.edges)
        n = 4
        base = [point(R, S.edges, True, far=False) for _ in range(n)]
        ax = [R.randrange(S.ndim) for _ in range(n)]
        pos = numpy.array(base, dtype='f8').reshape(-1, S.ndim) * S.u
        for i in range(n):
            pos[i, ax[i]] = -R.choice([1e-20, 1e-18, 1e-30, 1e-10])
        pos = pos.astype(S.ptype)
        key = "owner:tiny:%d:%d" % (nr, c)
        case(key)
        holder = c % nr
        mine = pos if me == holder else pos[:0]
        lay = S.grid.decompose(mine)
        got = lay.exchange(numpy.arange(len(mine)))
        prim = S.grid.isprimary(pos)
        st, ld = attempt(lambda: S.grid.load(mine, gamma=1))
        S.parts = [[] for _ in range(nr)]
        r = S.rec("tiny", key)
        r["base"] = base
        r["ax"] = [a + 1 for a in ax]
        r["got"] = gather([int(x) for x in got])
        r["prim"] = gather([bool(x) for x in prim])
        r["load"] = gather(ints(ld) if st == "ok" else [])
        emit(r)

# ---- exchange
DT = ['i4', 'i8', 'u1', 'f4', 'f8', 'c8', 'c16', '?', 'S5', 'i2', 'struct', 'big']
def mkdata(R, n, nrows_seed, dt, trail, order):
    st = numpy.random.RandomState(nrows_seed)
    raw = st.randint(0, 256, size=(n,) + trail + (64,)).astype('u1')
    if dt == 'struct':
        d = numpy.dtype([('a', 'i4'), ('b', 'f8', (2,)), ('c', 'S3')])
    elif dt == 'big':
        d = numpy.dtype('>i4')
    else:
        d = numpy.dtype(dt)
    a = numpy.empty((n,) + trail, dtype=d)
    if dt == '?':
        a[...] = raw[..., 0] & 1
    elif dt in ('f4', 'f8', 'c8', 'c16'):
        a[...] = raw[..., 0] * 0.37 + raw[..., 1] * 1e-3
    elif dt == 'struct':
        a['a'] = raw[..., 0]
        a['b'][..., 0] = raw[..., 1] * 0.1
        a['b'][..., 1] = raw[..., 2]
        a['c'] = numpy.array([b'xyz', b'', b'q'])[raw[..., 3] % 3]
    elif dt == 'S5':
        a[...] = numpy.array([b'', b'abcde', b'zz', b'p'])[raw[..., 0] % 4]
    else:
        a[...] = raw[..., 0].astype('i8') * 3 + raw[..., 1]
    if order == 'F':
        a = numpy.asfortranarray(a)
    elif order == 'S':
        b = numpy.empty((2 * n + 1,) + trail, dtype=a.dtype)
        b[1::2][:n] = a
        a = b[1::2][:n]
    elif order == 'T' and len(trail):
        b = numpy.empty(trail[::-1] + (n,), dtype=a.dtype)
        b.T[...] = a
        a = b.T
    elif order == 'R':
        a.flags.writeable = False
    return a

def fam_exch():
    R = rng("exch", nr)
    for c in range(COUNT):
        S = Setup(R, ndim=R.choice([1, 2]), npart=R.choice([0, 3, 8, 12, 18]))
        key = "exch:%d:%d" % (nr, c)
        case(key)
        lay = S.decompose()
        n = len(S.parts[me])
        hist = []
        h0 = digest(lay)
        gi = lay.exchange(ids(S.parts))
        r = dict(k="exch", key=key, nr=nr, lens=[len(p) for p in S.parts],
                 ids=gather([[int(a), int(b)] for a, b in gi]))
        T = Tokens()
        calls = []
        costs = gather([int(x) for x in lay.get_exchange_cost()])
        for call in range(R.choice([1, 2, 3])):
            ncol = R.choice([1, 1, 2, 3])
            pack = R.random() < 0.6
            cols = [(R.choice(DT), R.choice([(), (), (3,), (2, 2), (1,)]), R.choice(['C', 'C', 'F', 'S', 'T', 'R'])) for _ in range(ncol)]
            seeds = [R.randrange(10**6) for _ in range(ncol)]
            data = [mkdata(R, n, seeds[j] + me, *cols[j]) for j in range(ncol)]
            # ranks may hold the same column in another type (as empty ones do); that of the root counts
            NT = ['f8', 'f4', 'i8', 'i4']
            for j in range(ncol):
                mix = [R.choice(NT) for _ in range(nr)]
                lists = [R.random() < 0.3 for _ in range(nr)]
                if cols[j][0] in NT and R.random() < 0.2:
                    data[j] = numpy.rint(data[j].astype('f8') * 10).astype(mix[me]) % 100
                    if lists[me] and cols[j][1] == ():
                        data[j] = numpy.array(data[j].tolist())
                        arg = data[j].tolist()
                    else:
                        arg = data[j]
                    data[j] = (data[j], arg)
                else:
                    data[j] = (data[j], data[j])
            args = [a for _, a in data]
            data = [d for d, _ in data]
            keep = [d.copy() for d in data]
            rootdt = world.bcast([d.dtype for d in data])
            st, res = attempt(lambda: lay.exchange(*args, pack=pack))
            sts = gather(st)
            oks = all(keep[j].tobytes() == data[j].tobytes() for j in range(ncol))
            if set(sts) != {"ok"}:
                calls.append(dict(st=sts, unch=all(gather(oks)), cols=[]))
                continue
            if ncol == 1:
                res = (res,)
            cc = []
            for j in range(ncol):
                inp = gather(rows(data[j].astype(rootdt[j])))
                outp = gather(rows(res[j]))
                shp = gather([str(numpy.dtype(res[j].dtype)), list(res[j].shape[1:])])
                tin = [[T(x) for x in q] for q in inp]
                tout = [[T(x) for x in q] for q in outp]
                want = [str(numpy.dtype(rootdt[j])), list(cols[j][1])]
                cc.append(dict(inp=tin, out=tout, form=all(x == want for x in shp)))
            calls.append(dict(st=sts, unch=all(gather(oks)), cols=cc))
        r["calls"] = calls
        r["layok"] = all(gather(h0 == digest(lay)))
        r["cost"] = costs
        emit(r)

def digest(lay):
    # the public effect of a layout: what it delivers (not how it stores it)
    return [numpy.asarray(getattr(lay, a)).tobytes() for a in ("sendcounts", "recvcounts", "indices") if hasattr(lay, a)]

def fam_experr():
    """a mismatch on some ranks must raise on all of them"""
    R = rng("experr", nr)
    for c in range(COUNT):
        S = Setup(R, ndim=1, npart=R.choice([4, 9]))
        key = "exch:err:%d:%d" % (nr, c)
        case(key)
        lay = S.decompose()
        n = len(S.parts[me])
        fault = R.choice(["none", "long", "short", "empty", "shape", "column", "glong", "gshort", "gshape"])
        bad = set(R.sample(range(nr), R.randint(1, nr)))
        if fault in ("shape", "gshape") and len(bad) == nr:
            bad = bad - {0} if nr > 1 else set()
        pack = R.random() < 0.5
        two = R.random() < 0.5 or fault == "column"
        def build(k, seed):
            return numpy.arange(k * 2, dtype='f8').reshape(k, 2)
        k = n
        if me in bad:
            if fault in ("long",): k = n + 1
            if fault in ("short",): k = max(0, n - 1)
            if fault in ("empty",): k = 0
        if fault.startswith("g"):
            k = int(lay.recvlength)
            if me in bad and fault == "glong": k += 1
            if me in bad and fault == "gshort": k = max(0, k - 1)
        a = build(k, 0)
        if me in bad and fault in ("shape", "gshape"):
            a = numpy.zeros((k, 3))
        b = build(k, 1)
        if fault == "column" and me in bad:
            b = build(k + 1, 1)
        isbad = False
        base = n if not fault.startswith("g") else int(lay.recvlength)
        if len(a) != base or (len(b) != base and two) or (a.shape[1:] != (2,)):
            isbad = True
        anybad = any(gather(isbad))
        if fault.startswith("g"):
            gm = R.choice(["any", "all", "sum"])
            st, res = attempt(lambda: lay.gather(a, mode=gm))
        elif two:
            st, res = attempt(lambda: lay.exchange(a, b, pack=pack))
        else:
            st, res = attempt(lambda: lay.exchange(a, pack=pack))
        # the communicator must still be usable: a second, correct exchange
        st2, res2 = attempt(lambda: lay.exchange(ids(S.parts)))
        r = dict(k="experr", key=key + ":" + fault, nr=nr, fault=fault, anybad=bool(anybad), st=gather(st), st2=gather(st2), lens=[len(p) for p in S.parts],
                 ids=gather([[int(x), int(y)] for x, y in res2] if st2 == "ok" else []))
        emit(r)

# ---- gather
def fam_gather():
    R = rng("gather", nr)
    for c in range(COUNT):
        S = Setup(R, ndim=R.choice([1, 2]), npart=R.choice([0, 1, 4, 9, 14]))
        key = "gather:%d:%d" % (nr, c)
        case(key)
        lay = S.decompose()
        n = len(S.parts[me])
        gi = lay.exchange(ids(S.parts))
        rids = gather([[int(a), int(b)] for a, b in gi])
        calls = []
        for call in range(2):
            mode = R.choice(["sum", "mean", "any", "all", "local", "add", "maximum", "minimum", "multiply", "fmax", "logical_or", "default", "round"])
            dt = R.choice(['f8', 'f8', 'f4', 'c16', 'c8'] if mode in ("sum", "add", "any", "all", "local", "default") else ['f8', 'f4'])
            if mode not in ("mean", "round") and R.random() < 0.4:
                dt = R.choice(['i4', 'i8', 'i2'])
            trail = R.choice([(), (), (2,), (3,), (2, 2)])
            order = R.choice(['C', 'C', 'F', 'T', 'S'])
            width = 1
            for t in trail:
                width *= t
            m = len(gi)
            seed = R.randrange(10**6)
            st_ = numpy.random.RandomState(seed + me)
            if mode == "round":
                # values that are a function of the particle: a true round trip
                vals = (gi[:, 0] * 100 + gi[:, 1])[:, None] * 4 + numpy.arange(width)[None, :]
            elif mode in ("multiply", "logical_or"):
                vals = st_.randint(0, 3, size=(m, width))
            else:
                vals = st_.randint(-50, 50, size=(m, width))
            cx = dt in ('c16', 'c8')
            v = vals + (1j * st_.randint(-9, 9, size=(m, width)) if cx else 0)
            d = numpy.empty((m,) + trail, dtype=dt)
            d[...] = v.reshape((m,) + trail)
            if order == 'F':
                d = numpy.asfortranarray(d)
            elif order == 'T' and trail:
                q = numpy.empty(trail[::-1] + (m,), dtype=dt)
                q.T[...] = d
                d = q.T
            elif order == 'S':
                q = numpy.zeros((2 * m + 2,) + trail, dtype=dt)
                q[1::2][:m] = d
                d = q[1::2][:m]
            keep = d.copy()
            useout = R.random() < 0.35
            outdt = 'f8' if (not cx and mode != "local") else dt
            olen = n if mode != "all" else sum(1 for q in rids for a, b in q if a == me)
            out = None
            SENT = -12345
            fill = SENT * (1 + 1j) if cx else SENT
            if useout:
                if R.random() < 0.5:
                    out = numpy.full((olen,) + trail, fill, dtype=outdt)
                else:
                    out = numpy.full((olen + 1, 2) + trail, fill, dtype=outdt)[:olen, 1]
            um = {"add": numpy.add, "maximum": numpy.maximum, "minimum": numpy.minimum, "multiply": numpy.multiply,
                  "fmax": numpy.fmax, "logical_or": numpy.logical_or, "round": "any"}.get(mode, mode)
            if mode == "default":
                st, res = attempt(lambda: lay.gather(d) if out is None else lay.gather(d, out=out))
            else:
                st, res = attempt(lambda: lay.gather(d, mode=um, out=out))
            sts = gather(st)
            okin = bool((keep == d).all())
            rec = dict(mode=mode, st=sts, unch=all(gather(okin)), useout=useout, width=width * (2 if cx else 1), sent=SENT)
            if set(sts) == {"ok"}:
                def flat(x, k):
                    x = numpy.asarray(x)
                    x = x.reshape(len(x), -1) if len(x) else numpy.zeros((0, max(1, width)))
                    if cx:
                        x = numpy.concatenate([x.real, x.imag], axis=1)
                    return ints(x.astype('f8'), k)
                S_ = 2520 if mode == "mean" else 1
                if mode == "mean":
                    rr = numpy.asarray(res, dtype='f8').reshape(n, -1) if n else numpy.zeros((0, 1))
                    rr = numpy.where(numpy.isfinite(rr), rr, 2147480000 / 2520.0) * 2520
                    # float means: record the nearest multiple of 1/2520, within one f4 ulp
                    near = numpy.rint(rr)
                    okm = numpy.abs(rr - near) <= numpy.maximum(1e-12, 4e-7 * numpy.abs(rr)) if dt == 'f8' else numpy.abs(rr - near) <= 0.03
                    rout = numpy.where(okm, near, BADINT).astype('i8').tolist()
                else:
                    rout = flat(res, 1)
                rec["inp"] = gather(flat(d, 1))
                rec["out"] = gather(rout)
                want = (olen,) + trail
                rec["form"] = all(gather(tuple(numpy.shape(res)) == want and
                                         (useout or mode not in ("sum", "default", "mean", "any", "all", "local", "round", "maximum", "minimum", "fmax") or numpy.asarray(res).dtype == numpy.dtype(dt)) and
                                         (not useout or numpy.may_share_memory(res, out) or olen == 0)))
            else:
                rec["inp"], rec["out"], rec["form"] = [], [], True
            calls.append(rec)
        emit(dict(k="gather", key=key, nr=nr, lens=[len(p) for p in S.parts], ids=rids, calls=calls))

# ---- ownership histories
def fam_hist():
    R = rng("hist", nr)
    for c in range(COUNT):
        key = "owner:%d:%d" % (nr, c)
        S = Setup(R, npart=R.choice([3, 10, 25]))
        S.parts = split(R, S.pts, nr)
        case(key)
        g = S.grid
        r = S.rec("hist", key)
        allp = [p for q in S.parts for p in q]
        off = sum(len(q) for q in S.parts[:me])
        ev = []
        for step in range(R.choice([2, 3, 4, 6])):
            op = R.choice(["load", "balance", "balload", "prim", "decomp"]) if step else "prim"
            w = [R.choice([0, 0, 1, 2, 3, 5, 8, 13]) for _ in range(S.nd)]
            gam = R.choice([1, 2, 1, 3])
            ev.append(own_op(S, op, w, gam, gam == 2 and R.random() < 0.5))
        r["ev"] = ev
        emit(r)

def own_op(S, op, w, gam, dflt=False):
    g = S.grid
    allp = [p for q in S.parts for p in q]
    if op == "load":
        # only particles with an owner (elsewhere a load is not defined)
        own = [[p for p in q if inside(S, p)] for q in S.parts]
        kw = {} if dflt else dict(gamma=gam)
        ld = g.load(S.lattice(own), transform=S.transform(), **kw)
        return dict(op="load", gamma=gam, pos=own, res=gather(ints(ld)))
    if op in ("balance", "balload"):
        if op == "balload":
            own = [[p for p in q if inside(S, p)] for q in S.parts]
            ld = g.load(S.lattice(own), transform=S.transform(), gamma=1)
            w = ints(ld)
        else:
            ld = numpy.array(w)
        g.loadbalance(ld)
        return dict(op="balance", w=w, res=gather([int(x) for x in g.DomainAssign]))
    if op == "prim":
        full = [[] for _ in range(nr)]
        full[me] = allp
        pr = g.isprimary(S.lattice(full), transform=S.transform())
        return dict(op="prim", pos=allp, res=gather([bool(x) for x in pr]))
    lay = S.decompose(s=0)
    got = lay.exchange(ids(S.parts))
    return dict(op="decomp", pos=S.parts, res=gather([[int(a), int(b)] for a, b in got]))

def fam_script():
    """replays the operation histories TLC enumerated"""
    R = rng("script", nr)
    hs = [json.loads(l) for l in open(os.environ["PMV_HIST"])]
    R.shuffle(hs)
    for c, h in enumerate(hs[:COUNT]):
        key = "owner:script:%d:%d" % (nr, c)
        nd = max([len(e["w"]) for e in h] + [4])
        edges = R.choice([[[0] + sorted(R.sample(range(1, 9), nd - 1)) + [9]], [[0, 3, 4], [0] + sorted(R.sample(range(1, 7), nd // 2 - 1)) + [7]]])
        S = Setup(R, edges=edges, per=R.random() < 0.7, npart=8, assign=R.choice([None, "draw"]))
        case(key)
        r = S.rec("hist", key)
        r["ev"] = [own_op(S, e["op"], e["w"], 1) for e in [dict(op="prim", w=[])] + h + [dict(op="prim", w=[]), dict(op="decomp", w=[])]]
        emit(r)

def inside(S, p):
    return S.per or all(e[0] <= x < e[-1] for x, e in zip(p, S.edges))

def fam_bighist():
    """load and primary test beyond one internal chunk"""
    R = rng("bighist", nr)
    for c in range(COUNT):
        S = Setup(R, ndim=R.choice([1, 2]), per=True, npart=7)
        key = "owner:bulk:%d:%d" % (nr, c)
        case(key)
        S.parts = split(R, S.pts, nr)
        n = 49152 + 700 * (c + 1)
        cls = numpy.array([(i * 5 + i // 1000) % 7 for i in range(n)])
        full = [None] * nr
        full[me] = [S.pts[m] for m in cls]
        pos = S.lattice(full)
        pr = S.grid.isprimary(pos, transform=S.transform())
        ld = S.grid.load(pos if me == 0 else pos[:0], transform=S.transform(), gamma=1)
        r = S.rec("bulkown", key)
        r["pos"] = S.pts
        r["n"] = [int((cls == m).sum()) for m in range(7)]
        r["prim"] = gather([int(pr[cls == m].sum()) for m in range(7)])
        r["load"] = gather(ints(ld))
        emit(r)

def fam_uniform():
    R = rng("uniform", nr)
    for c in range(COUNT):
        ndim = R.choice([1, 2, 3])
        if R.random() < 0.3:
            # plates and rods
            box = [R.choice([1, 48, 60]) for _ in range(ndim)]
        else:
            box = [R.choice([1, 2, 3, 4, 6, 12]) for _ in range(ndim)]
        per = R.random() < 0.7
        key = "owner:uniform:%d:%d" % (nr, c)
        case(key)
        g = GridND.uniform([b * 1.0 for b in box], comm=comm, **({} if per and R.random() < 0.5 else dict(periodic=per)))
        U = 27720   # divisible by 1..12
        edges = [[int(round(x * U)) for x in e] for e in g.edges]
        close = all(abs(x * U - round(x * U)) < 1e-6 for e in g.edges for x in e)
        pts = [[R.randrange(0, b * U - 1) for b in box] for _ in range(6)]
        parts = split(R, pts, nr)
        def lat(q):
            # keep clear of the edges: edges are only known to rounding
            return (numpy.array(q, dtype='f8').reshape(-1, ndim) + 0.5) / U
        lay = g.decompose(lat(parts[me]))
        got = lay.exchange(ids(parts))
        pr = g.isprimary(lat(pts))
        r = dict(k="uniform", key=key, nr=nr, box=[b * U for b in box], edges=edges, close=bool(close), per=per, pos=parts, all=pts,
                 assign=[int(x) for x in g.DomainAssign],
                 got=gather([[int(a), int(b)] for a, b in got]), prim=gather([bool(x) for x in pr]))
        emit(r)

def fam_wide():
    """many domains along an axis, or many axes"""
    R = rng("wide", nr)
    for c in range(COUNT):
        if R.random() < 0.3:
            n = [R.randint(1, 3) for _ in range(R.choice([4, 5]))]
        else:
            n = [R.choice([130, 200, 256, 300, 1000, 33000, 40000, 70000])]
            for _ in range(R.choice([0, 0, 1, 2])):
                n.insert(R.randrange(len(n) + 1), R.choice([1, 2, 3, 130]) if numpy.prod(n) < 1000 else R.choice([1, 2]))
        h = [R.choice([1, 2, 4]) for _ in n]
        per = R.random() < 0.6
        big = numpy.prod(n) > 5000
        pts = []
        for _ in range(8):
            x = []
            for a, b in zip(n, h):
                x.append(R.choice([0, a * b - 1, R.randrange(a * b), R.randrange(a * b), a // 2 * b, 127 * b, 128 * b, 32767 * b, 32768 * b, 65536 * b, 255 * b, 256 * b, R.randint(-a * b, 2 * a * b)]))
                if not per:
                    x[-1] = min(x[-1], a * b - 1)
            pts.append(x)
        if not per:
            pts = [[max(0, v) for v in x] for x in pts]
        s = [R.choice([0, 0, 1, b, 2 * b]) if a > 3 or len(n) < 4 else R.choice([0, 1, a * b]) for a, b in zip(n, h)]
        if R.random() < 0.3:
            s = [0] * len(n)
        key = "wide:%d:%d" % (nr, c)
        case(key)
        nd = int(numpy.prod(n))
        how = R.choice(["default", "cycle", "runs"])
        da = None
        if how == "cycle" and nd < 400:
            da = (numpy.arange(nd) % nr).astype('i4')
        elif how == "runs":
            cut = sorted(R.randrange(nd + 1) for _ in range(5))
            da = numpy.full(nd, nr - 1, 'i4')
            for a, b in zip(cut, cut[1:]):
                da[a:b] = R.randrange(nr)
        def go():
            g = GridND([numpy.arange(a + 1) * float(b) for a, b in zip(n, h)], comm=comm, periodic=per, DomainAssign=da)
            A = numpy.asarray(g.DomainAssign)
            e = [0] + (numpy.flatnonzero(A[1:] != A[:-1]) + 1).tolist() + [nd]
            runs = [[a, b - 1, int(A[a])] for a, b in zip(e, e[1:])]
            ii = numpy.array([i for i in range(len(pts)) if i % nr == me], dtype='i8')
            pos = numpy.array(pts, 'f8').reshape(-1, len(n))
            lay = g.decompose(pos[ii], smoothing=numpy.array(s, 'f8'))
            got = lay.exchange(ii).tolist()
            ld = g.load(pos[ii], gamma=1)
            nz = numpy.flatnonzero(ld)
            pr = g.isprimary(pos)
            return runs, got, [[int(d), int(ld[d])] for d in nz], [bool(x) for x in pr]
        st, v = attempt(go)
        al = gather((st, v))
        ok = all(x == "ok" for x, _ in al)
        r = dict(k="wide", key=key, nr=nr, n=n, h=h, per=per, s=s, pos=pts, st=[x for x, _ in al], runs=[], got=[], load=[], prim=[], agree=ok)
        if ok:
            r.update(runs=al[0][1][0], agree=all(x[1][0] == al[0][1][0] for x in al), got=[x[1][1] for x in al], load=[x[1][2] for x in al], prim=[x[1][3] for x in al])
        emit(r)

for f in FAMILY.split(","):
    globals()["fam_" + f]()
done()
