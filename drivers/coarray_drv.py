"""Replays histories of co-arrays and records the contents of all images."""
from rank import *
import contextlib, io, warnings
from pmesh.coarray import coarray
P = world.size
PART = int(os.environ.get("PMV_PART", "0"))
COUNT = int(os.environ.get("PMV_COUNT", "100"))
HIST = os.environ.get("PMV_HIST")
EVERY = int(os.environ.get("PMV_EVERY", "1"))

class Shape:
    """index expressions of a small array, grouped by the shape they select"""
    def __init__(self, R, W):
        self.shape = R.choice([(4,), (6,), (2, 3), (4, 3), (3, 4), (2, 2, 3)])
        self.n = 1
        for s in self.shape:
            self.n *= s
        ids = numpy.arange(1, self.n + 1).reshape(self.shape)
        self.by = {}
        for e in self.pool(R):
            v = ids
            if W > 1 and any(isinstance(x, tuple) and any(y is Ellipsis for y in x) for x in e):
                continue
            try:
                for x in e:
                    v = v[x]
            except IndexError:
                continue
            fl = [int(x) for x in numpy.ravel(v)]
            if len(set(fl)) != len(fl):
                continue
            self.by.setdefault(numpy.shape(v), []).append((e, fl))
    def sl(self, R, n):
        return R.choice([R.randrange(-n, n), R.randrange(n), slice(None), slice(R.randrange(n), None), slice(None, R.randint(1, n)), slice(None, None, 2),
                         slice(None, None, -1), slice(1, None, 2), slice(None, -1)])
    def pool(self, R):
        sh = self.shape
        out = [(Ellipsis,), (slice(None),), ()]
        for _ in range(40):
            k = R.randint(1, len(sh))
            e = tuple(self.sl(R, n) for n in sh[:k])
            out.append((e if len(e) > 1 or R.random() < 0.5 else e[0],))
        for _ in range(10):
            n = sh[0]
            m = R.sample(range(n), R.randint(1, n))
            out.append((R.choice([m, numpy.array(m)]),))
            if len(sh) > 1:
                out.append((R.choice([(slice(None), m[:sh[1]]), (Ellipsis, [R.randrange(sh[-1])])]),))
        out.append((numpy.array([R.random() < 0.5 for _ in range(sh[0])]),))
        for _ in range(10):
            out.append((slice(R.randrange(sh[0]), None), 0))
            out.append((Ellipsis, slice(None, None, 2)))
            if len(sh) > 1:
                out.append((R.randrange(sh[0]), R.randrange(sh[1])))
                out.append((slice(None), (slice(None), R.randrange(sh[1]))))
                out.append((R.randrange(sh[0]), slice(None, None, R.choice([1, 2, -1]))))
        return out
    def pair(self, R):
        k = R.choice([k for k in sorted(self.by) if 0 not in k] if R.random() < 0.97 else sorted(self.by))
        return R.choice(self.by[k]), R.choice(self.by[k]), k
    def basic(self, e):
        return not any(isinstance(x, (list, numpy.ndarray)) or (isinstance(x, tuple) and any(isinstance(y, (list, numpy.ndarray)) for y in x)) for x in e)

def follow(a, e):
    for x in e:
        a = a[x]
    return a
def assign(a, e, v):
    if not e:
        e = (Ellipsis,)
    for x in e[:-1]:
        a = a[x]
    a[e[-1]] = v

class Failed(Exception):
    pass

class Run:
    def __init__(self, key, R):
        self.key, self.R = key, R
        self.W = R.choice([1, 1, 1, 1, 1500])
        self.S = Shape(R, self.W)
        self.dtype = R.choice(['f8', 'f8', 'i4', 'f4', 'i8', 'c16', 'i2'])
        # values with all their bits, where the type has them
        self.frac = 1.0 / 3 if self.dtype in ('f8', 'c16') and R.random() < 0.5 else 0
        self.comm = world
        if R.random() < 0.2:
            self.comm = REV
        self.ops, self.steps, self.mem = [], [], []
        self.fresh = [0]
        self.me = self.comm.rank
        self.err = None
    def full(self, a):
        a = numpy.asarray(a)
        if self.frac:
            a = a + self.frac
        return a if self.W == 1 else numpy.repeat(a[..., None], self.W, axis=-1)
    def make(self):
        S, R = self.S, self.R
        vals = [[1 + i * S.n + c for c in range(S.n)] for i in range(P)]
        shape = S.shape + (() if self.W == 1 else (self.W,))
        a = self.full(numpy.array(vals[self.me]).reshape(S.shape)).astype(self.dtype)
        how = R.choice(["zeros", "from", "fromF", "fromstride", "new"])
        if how == "zeros":
            self.coa = coarray.zeros(self.comm, shape, dtype=self.dtype)
            self.coa[...] = a
        elif how == "new":
            self.coa = coarray(self.comm, shape, self.dtype)
            self.coa[...] = a
        elif how == "from":
            self.coa = coarray.fromarray(self.comm, a)
        elif how == "fromF":
            self.coa = coarray.fromarray(self.comm, numpy.asfortranarray(a))
        else:
            b = numpy.zeros((shape[0] * 2,) + shape[1:], self.dtype)[::2]
            b[...] = a
            self.coa = coarray.fromarray(self.comm, b)
        self.num = bool(self.coa.num_images == P and self.coa.thisimage == self.me)
        self.fresh[0] = P * S.n
    def contents(self):
        a = numpy.array(self.coa)
        if self.W > 1:
            c = (a == a[..., :1]).all(axis=-1)
            a = numpy.where(c, a[..., 0], -1)
        if self.frac:
            return [int(x.real) if x == int(x.real) + self.frac else -1 for x in a.ravel()]
        return [int(x.real) if x == int(x.real) else -1 for x in a.ravel()]
    def snap(self, st="ok"):
        # every image says how it went; all go on or none
        al = gather((st, self.contents()), REVH if self.comm is REV else hcomm)
        for s, _ in al:
            if s != "ok":
                raise Failed(s)
        self.mem.append([c for _, c in al])
    def new(self, n):
        v = list(range(self.fresh[0] + 1, self.fresh[0] + n + 1))
        self.fresh[0] += n
        return v
    def queue(self, kind, i, t, pair, how):
        (le, lf), (re, rf), sh = pair
        val = []
        loc = list(lf)
        st = "ok"
        if kind == "pull":
            def put():
                dst = self.coa
                e = le or (Ellipsis,)
                for x in e[:-1]:
                    dst = dst[x]
                dst[e[-1]] = follow(self.coa(t), re)
            if self.me == i:
                st, _ = attempt(put)
        else:
            cur = self.mem[-1][i]
            if how == "ref":
                val = [cur[x - 1] for x in lf]
                if not self.S.basic(le) or self.S.shape and sh == () and self.W == 1:
                    loc = []
                v = lambda: follow(self.coa, le)
            else:
                val = self.new(len(lf))
                loc = []
                def v():
                    a = self.full(numpy.array(val).reshape(sh))
                    if how == "list":
                        return a.tolist()
                    if how == "F":
                        return numpy.asfortranarray(a.astype(self.dtype))
                    if how == "other" and not self.frac:
                        return a.astype('i8')
                    return a.astype(self.dtype)
            def put():
                p = self.coa(t)
                e = re or (Ellipsis,)
                for x in e[:-1]:
                    p = p[x]
                p[e[-1]] = v()
            if self.me == i:
                st, _ = attempt(put)
        self.ops.append(dict(img=i + 1, kind=kind, t=t + 1, loc=loc, rem=list(rf), val=val))
        self.steps.append(dict(op="queue", j=len(self.ops)))
        self.snap(st)
    def local(self, i, one):
        e, f = one
        val = self.new(len(f))
        if self.me == i:
            assign(self.coa, e, self.full(numpy.array(val).reshape(numpy.shape(follow(numpy.zeros(self.S.shape), e)))))
        self.steps.append(dict(op="local", i=i + 1, loc=list(f), val=val))
        self.snap()
    def sync(self, L, how):
        arg = L[self.me]
        def go():
            if how == "none" and sorted(arg) == list(range(P)):
                self.coa.sync()
            else:
                self.coa.sync(dict(list=list, tuple=tuple, set=set, none=list, arr=lambda x: numpy.array(x, dtype='i8'))[how](arg))
        st, _ = attempt(go)
        self.steps.append(dict(op="sync", L=[[x + 1 for x in l] for l in L]))
        self.snap(st)
    def some(self, how=None):
        R = self.R
        return how or R.choice(["ref", "ref", "arr", "list", "F", "other"])

def finish(runs, key, st, extra):
    al = gather(st)
    bad = [s for s in al if s != "ok"]
    for r in runs:
        emit(dict(k="coa", key=key, st=bad[0] if bad else "ok", P=P, num=all(gather(r.num)), ops=r.ops, steps=r.steps, mem=r.mem, W=r.W, dtype=r.dtype, fam=extra))

SINK = io.StringIO()
def quiet(f):
    # the module prints debugging output
    with contextlib.redirect_stdout(SINK):
        st, v = attempt(f)
    SINK.seek(0); SINK.truncate()
    if os.environ.get("PMV_DEBUG") and st != "ok":
        print(st)
    return st

def replay():
    hs = [l for l in open(HIST)]
    for k, l in enumerate(hs):
        if (k + SEED) % EVERY != PART:
            continue
        h = json.loads(l)
        key = "coahist:%d:%d" % (P, k)
        R = rng("coa", P, k)
        case(key)
        im = R.sample(range(P), 2) if P > 1 else [0, 0]
        r = Run(key, R)
        # the abstract cells as index expressions of one shape
        shp = R.choice([s for s in sorted(r.S.by) if 0 not in s])
        cell = {c: (R.choice(r.S.by[shp]), R.choice(r.S.by[shp])) for c in (1, 2)}
        same = R.random() < 0.5
        def go():
            r.make(); r.snap()
            for s in h + [dict(op="sync", L=[[0, 1], [0, 1]])]:
                if s["op"] in ("pull", "push"):
                    a = cell[s["a"]][0]
                    b = cell[s["b"]][0 if same else 1]
                    r.queue(s["op"], im[s["i"]], im[s["t"]], (a, b, shp), r.some())
                elif s["op"] == "local":
                    r.local(im[s["i"]], cell[s["a"]][0])
                else:
                    L = [[] for _ in range(P)]
                    for q in (0, 1):
                        L[im[q]] = sorted({im[x] for x in s["L"][q]} | set(L[im[q]]))
                    if P > 2:
                        for q in range(P):
                            if q not in im and R.random() < 0.5:
                                L[q] = sorted(R.sample(range(P), R.randint(0, P)))
                    if len(s["L"][0]) == 2 and R.random() < 0.5:
                        L = [list(range(P)) for _ in range(P)]
                    r.sync(L, R.choice(["list", "tuple", "set", "none", "arr"]))
        r.num = True
        st = quiet(go)
        finish([r], key, st, "hist")

def randoms():
    for k in range(COUNT):
        key = "coarand:%d:%d:%d" % (P, PART, k)
        R = rng("coar", P, PART, k)
        case(key)
        runs = [Run(key, R) for _ in range(R.choice([1, 1, 2]))]
        for r in runs:
            r.num = True
        def go():
            for r in runs:
                r.make(); r.snap()
            for _ in range(R.randint(2, 10)):
                r = R.choice(runs)
                x = R.random()
                if x < 0.62:
                    i, t = R.randrange(P), R.randrange(P)
                    r.queue(R.choice(["pull", "push"]), i, t, r.S.pair(R), r.some())
                elif x < 0.72:
                    r.local(R.randrange(P), R.choice(r.S.by[R.choice([s for s in sorted(r.S.by) if 0 not in s])]))
                else:
                    kind = R.choice(["all", "same", "rand"])
                    if kind == "all":
                        L = [list(range(P))] * P
                    elif kind == "same":
                        s = R.sample(range(P), R.randint(0, P))
                        L = [s] * P
                    else:
                        L = [R.sample(range(P), R.randint(0, P)) for _ in range(P)]
                    r.sync(L, R.choice(["list", "tuple", "set", "none", "arr"]))
            for r in runs:
                r.sync([list(range(P))] * P, "none")
        st = quiet(go)
        finish(runs, key, st, "rand")

def spmd():
    """all images do the same with their neighbours, as co-array programs do"""
    for k in range(COUNT // 2):
        key = "coaspmd:%d:%d:%d" % (P, PART, k)
        R = rng("coas", P, PART, k)
        case(key)
        r = Run(key, R)
        r.num = True
        def go():
            r.make(); r.snap()
            for _ in range(R.randint(1, 4)):
                off = R.randrange(P)
                kind, pair, how = R.choice(["pull", "push"]), r.S.pair(R), r.some()
                for i in range(P):
                    r.queue(kind, i, (i + off) % P, pair, how)
                if R.random() < 0.6:
                    off2 = R.choice([off, R.randrange(P)])
                    r.sync([[(i + off2) % P] for i in range(P)], R.choice(["list", "tuple", "set", "arr"]))
            r.sync([list(range(P))] * P, "none")
        st = quiet(go)
        finish([r], key, st, "spmd")

warnings.simplefilter("ignore")
REV = world.Split(0, -world.rank)
REVH = REV.Dup()
if HIST:
    replay()
if COUNT:
    randoms()
    spmd()
done()
