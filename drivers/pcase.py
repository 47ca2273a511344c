"""Exactly representable particle problems on a periodic global mesh."""
from meshgen import *
from fractions import Fraction
from pmesh.window import FindResampler, ResampleWindow, Affine
NAMES = {0: ["nearest", "nnb", "NNB"], 1: ["linear", "cic", "CIC"], 2: ["quadratic", "tsc"], 3: ["cubic", "pcs"]}
def lcm(a, b):
    return a * b // int(numpy.gcd(a, b))

class PCase:
    def __init__(self, R, read=False, dtypes=('f8', 'f8', 'f4'), plain=False, orders=(0, 1, 1, 2, 2, 3), maxp=9, minp=0, hsml=True, alldiff=0, tf=False):
        self.read = read
        # tf: sometimes with a transformation of the positions that is not the mesh's own
        self.tfs = self.tff = None
        self.tf = tf
        # alldiff: derivatives along every axis are used, with factors up to that
        self.alldiff = alldiff
        for _ in range(5000):
            if self.draw(R, read, dtypes, plain, orders, maxp, minp, hsml):
                return
        raise RuntimeError("no case")
    def draw(self, R, read, dtypes, plain, orders, maxp, minp, hsml):
        self.c = c = Cfg(R, maxn=5, dtypes=dtypes, maxcells=80)
        c.cell = [R.choice([1, 2, 4, 8])] * c.nd if R.random() < 0.5 else [R.choice([1, 2, 4, 8]) for _ in range(c.nd)]
        c.box = [a * x / 4.0 for a, x in zip(c.n, c.cell)]
        self.nd = nd = c.nd
        self.p = p = R.choice(orders)
        self.name = R.choice(NAMES[p])
        self.Q = Q = R.choice([1, 2, 4, 8] if nd < 3 else [1, 2, 4])
        self.np = R.randint(minp, maxp)
        s0 = p + 1
        self.tfs = self.tff = None
        if self.tf and R.random() < 0.25:
            self.tfs = [R.choice([0, 0, 1, -1, Q, R.randint(-2 * Q, 2 * Q)]) for _ in range(nd)]
            self.tff = [R.choice([1, 1, 2, 0.5]) for _ in range(nd)]
        self.hs = None
        if hsml and not plain and R.random() < 0.3:
            self.hs = [R.choice([0.5, 1, 1.5, 2])] * self.np if R.random() < 0.3 else [R.choice([0.5, 1, 1, 1.5, 2]) for _ in range(self.np)]
        P2 = [2 * s0 * h for h in (self.hs or [1] * self.np)]
        if any(x != int(x) for x in P2):
            return False
        self.P = [int(x) for x in P2]
        self.diff = None if plain or self.alldiff else R.choice([None] * 3 + list(range(nd)))
        self.D = D = []
        for d in range(nd):
            l = 1
            for PP in self.P + [2 * s0]:
                l = lcm(l, self.den(p, PP, d == self.diff))
                if self.alldiff:
                    l = lcm(l, self.den(p, PP, True))
            D.append(l)
        self.DT = int(numpy.prod(D, dtype=object))
        self.mass = [R.choice([1, 1, 2, 3, 5, -1, -2]) for _ in range(self.np)]
        self.g = []
        for q in range(self.np):
            x = []
            for d in range(nd):
                for t in range(50):
                    lo, hi = (0, c.n[d] * Q) if R.random() < 0.6 else (-2 * Q, (c.n[d] + 2) * Q) if R.random() < 0.7 else (-9 * Q, 12 * Q)
                    v = R.randint(lo, hi)
                    if R.random() < 0.2:
                        v = v // Q * Q
                    if (d == self.diff or self.alldiff) and p == 1 and self.kink(v, self.P[q]):
                        continue
                    break
                else:
                    return False
                x.append(v)
            self.g.append(x)
        self.owner = [R.randrange(P) for _ in range(self.np)]
        if R.random() < 0.2:
            self.owner = [R.choice([0, P - 1])] * self.np
        vf = max([2.0 * s0 / x for x in self.P] + [1])
        W1 = vf * (2 * vf * (32 if self.tff else 16) * max(1, self.alldiff) if self.diff is not None or self.alldiff else 1)
        big = self.DT * W1 * vf ** (nd - 1) * (36 if read else max(10, sum(abs(m) for m in self.mass)))
        if big > 1.9e9 or max(D) > 200000:
            return False
        g = numpy.random.RandomState(R.randrange(2**31))
        self.init = g.randint(-9 if read else -2, 10 if read else 3, size=c.n)
        return True
    def den(self, p, P, diff):
        n2 = 2 * (p + 1)
        f = numpy.gcd(n2, P)
        u, v = n2 // f, P // f
        B = self.Q * v
        if diff:
            return int({0: 1, 1: 1, 2: 2 * B, 3: 2 * B * B}[p] * 4 * v * v)
        return int({0: 1, 1: B, 2: 8 * B * B, 3: 6 * B ** 3}[p] * v)
    def kink(self, g, P):
        for c in range(g // self.Q - P, g // self.Q + P + 2):
            dd = abs(Fraction(g, self.Q) - c)
            if dd == 0 or dd == Fraction(P, 4):
                return True
        return False
    def mine(self, a, dtype=None):
        """this rank's part of a per-particle list"""
        v = [x for x, o in zip(a, self.owner) if o == world.rank]
        return numpy.array(v, dtype=dtype or 'f8')
    def pos(self, dtype='f8'):
        cell = numpy.array(self.c.cell) / 4.0
        g = self.mine(self.g).reshape(-1, self.nd)
        if self.tff:
            g = (g - numpy.array(self.tfs)) / numpy.array(self.tff)
        return (g / self.Q * cell).astype(dtype)
    def transform(self, pm, R1=True):
        """the keyword for painting, reading and decomposing"""
        if not self.tff:
            return {}
        s, f = numpy.array(self.tfs) / float(self.Q), numpy.array(self.tff)
        if R1:
            return dict(transform=pm.affine.rescale(f).shift(s))
        return dict(transform=Affine(self.nd, translate=s - [int(x) for x in RealField(pm).start], period=self.c.n, scale=f * 4.0 / numpy.array(self.c.cell)))
    def smoothing(self, R):
        """any smoothing wide enough for the windows"""
        need = (self.p + 1) / 2.0 * max((self.hs or []) + [1])
        how = R.random()
        if self.tfs and any(self.tfs):
            # the shift is not known to the decomposition
            need += max(abs(x) for x in self.tfs) / float(self.Q)
            how = max(how, 0.6)
        if self.hs is None and how < 0.5:
            return self.name
        if self.hs is None and how < 0.6:
            return FindResampler(self.name)
        return need if how < 0.8 else need + R.choice([0.5, 1, 3])
    def rec(self, kind, key, **kw):
        r = dict(k=kind, key=key, p=self.p, Q=self.Q, P=self.P, diff=0 if self.diff is None else self.diff + 1,
                 size=self.c.n, period=self.c.n, sn=[int(16 // x * f) for x, f in zip(self.c.cell, self.tff or [1] * self.nd)], g=self.g, mass=self.mass, D=self.D,
                 init=[int(x) for x in self.init.ravel()], ranks=P, cfg=str(self.c), win=self.name)
        r.update(kw)
        return r
    def tol(self, mag):
        return int(self.DT * mag * (3e-6 if self.c.dtype in ('f4', 'c8') else 3e-12)) + (1 if self.DT * mag > 2e7 else 0)

def glob(f, dtype=None):
    """the whole mesh, put together from the blocks of all ranks; NaN where no block is"""
    a = numpy.full([int(x) for x in f.cshape], numpy.nan, f.dtype)
    for s, v in gather(([int(x) for x in f.start], numpy.array(f.value))):
        a[tuple(slice(b, b + n) for b, n in zip(s, v.shape))] = v
    return a

def put(f, a):
    """gives the field the values of the global array"""
    f.value[...] = numpy.asarray(a)[f.slices]
    return f

def fixd(a, D):
    """fixed point; NaN and overflow become BADINT"""
    a = numpy.asarray(a)
    if numpy.iscomplexobj(a):
        a = numpy.where(a.imag == 0, a.real, numpy.inf)
    with numpy.errstate(all='ignore'):
        x = numpy.rint(a.astype('f8').ravel() * D)
        return numpy.where(numpy.abs(x) < 2**31 - 2, x, BADINT).astype('i8').tolist()

def same(xs, ks):
    return all(x is None or numpy.isscalar(x) or (numpy.asarray(x).tobytes() == numpy.asarray(k).tobytes()) for x, k in zip(xs, ks))
def copies(xs):
    return [numpy.array(x) if isinstance(x, numpy.ndarray) else x for x in xs]
