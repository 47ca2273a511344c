"""Records what paint and readout of pmesh.window do to small meshes."""
import os
from rank import *
import numpy
from fractions import Fraction
import pmesh.window as W
from pmesh.window import ResampleWindow, Affine, FindResampler

PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "100"))
FAMILY = os.environ["PMV_FAMILY"]

SPLINE = {0: [("nearest",), ("nnb",), ("NEAREST",), ("NNB",)], 1: [("linear",), ("cic",), ("CIC",)],
          2: [("quadratic",), ("tsc",)], 3: [("cubic",), ("pcs",)]}
PAIRS = {0: ("nearest", "nnb"), 1: ("linear", "cic"), 2: ("quadratic", "tsc"), 3: ("cubic", "pcs")}
TABLES = ["lanczos2", "lanczos3", "lanczos4", "lanczos5", "lanczos6", "acg2", "acg3", "acg4", "acg5", "acg6",
          "db6", "db12", "db20", "sym6", "sym12", "sym20"]

class Mesh:
    """a mesh view of any memory layout inside a guarded base array"""
    def __init__(self, R, shape, dtype, init=None):
        nd = len(shape)
        how = R.choice(["C", "F", "off", "strided", "neg", "perm", "complex"])
        self.how = how
        cplx = how == "complex"
        dt = ('c8' if dtype == 'f4' else 'c16') if cplx else dtype
        pad = [R.randint(1, 2) for _ in shape]
        if how in ("C", "F", "complex"):
            big, view = list(shape), lambda a: a
        elif how == "off":
            big = [s + 2 * p for s, p in zip(shape, pad)]
            sl = tuple(slice(p, p + s) for s, p in zip(shape, pad))
            view = lambda a: a[sl]
        elif how == "strided":
            st = [R.choice([1, 2, 3]) for _ in shape]
            big = [s * k + p for s, k, p in zip(shape, st, pad)]
            sl = tuple(slice(p, p + s * k - k + 1, k) for s, k, p in zip(shape, st, pad))
            view = lambda a: a[sl]
        elif how == "neg":
            big = [s + 2 for s in shape]
            ng = [R.random() < 0.6 for _ in shape]
            sl = tuple(slice(s, 0, -1) if n else slice(1, s + 1) for s, n in zip(shape, ng))
            view = lambda a: a[sl]
        else:
            p = list(range(nd)); R.shuffle(p)
            big = [shape[q] + 1 for q in p]
            inv = numpy.argsort(p)
            view = lambda a: a.transpose(inv)[tuple(slice(0, s) for s in shape)]
        g = numpy.random.RandomState(R.randrange(2**31))
        self.base = g.randint(-99, 99, size=big).astype(dt)
        if cplx:
            self.base += 1j * g.randint(-99, 99, size=big)
        if how == "F":
            self.base = numpy.asfortranarray(self.base)
        m = numpy.zeros(big, dtype=bool, order='F' if how == "F" else 'C')
        view(m)[...] = True
        self.outmask = ~m
        self.view = view(self.base)
        real = self.view.real if cplx else self.view
        real[...] = 0 if init is None else init
        self.real = real
        self.keep = self.base.copy(order='K')
        self.cplx = cplx
        # the caller may hand over the complex array or its real part
        self.arg = self.view if cplx and R.random() < 0.5 else real
    def outside_ok(self, all=False):
        if all:
            return self.base.tobytes() == self.keep.tobytes()
        ok = (self.base[self.outmask] == self.keep[self.outmask]).all()
        if self.cplx:
            ok = ok and (self.base.imag == self.keep.imag).all()
        return bool(ok)

def affine(R, ndim, scale, translate, period):
    """the same transform, put together in different ways"""
    how = R.choice(["direct", "shift", "rescale", "both"])
    if how == "direct":
        return Affine(ndim, scale=scale, translate=translate, period=period)
    scale = numpy.array(scale, 'f8'); translate = numpy.array(translate, 'f8')
    if how == "shift":
        k = R.choice([1, -2, 0.5])
        return Affine(ndim, scale=scale, translate=translate - k, period=period).shift(k)
    if how == "rescale":
        return Affine(ndim, scale=scale * 2, translate=translate, period=period).rescale(0.5)
    return Affine(ndim, scale=scale * 0.25, translate=translate + 3, period=period).rescale(4).shift(-3)

class Case:
    """an exactly representable painting problem"""
    def __init__(self, R, read=False):
        for attempt_ in range(1000):
            if self.draw(R, read):
                return
        raise RuntimeError

    def draw(self, R, read):
        self.p = p = R.choice([0, 1, 1, 2, 2, 3, 3])
        self.nd = nd = R.choice([1, 2, 2, 3, 3, 3, 4] if p < 2 else [1, 2, 2, 3, 3])
        self.name = R.choice(SPLINE[p])[0]
        n = p + 1
        self.Q = Q = R.choice([1, 2, 4, 8])
        # support of the window object and of each particle
        self.base = R.choice([None, None, None, 2, 3, 4, 5]) if R.random() < 0.45 else None
        s0 = self.base or n
        self.np = R.choice([0, 1, 2, 3, 4])
        usehs = R.random() < 0.4
        self.hs = None
        if usehs:
            if R.random() < 0.3:
                self.hs = R.choice([0.5, 1, 2, 1.5])
                hs = [self.hs] * self.np
            else:
                hs = [R.choice([0.5, 0.75, 1, 1, 1.25, 1.5, 2]) for _ in range(self.np)]
                self.hs = hs
        else:
            hs = [1] * self.np
        P = [2 * s0 * h for h in hs]
        if any(x != int(x) for x in P):
            return False
        self.P = P = [int(x) for x in P]
        self.diff = R.choice([None] * 3 + list(range(nd)))
        self.size = [R.randint(1, 6 if nd == 1 else 5 if nd == 2 else 3 if nd == 4 else 4) for _ in range(nd)]
        self.period = []
        for s in self.size:
            c = R.random()
            self.period.append(s if c < 0.5 else 0 if c < 0.75 else R.randint(1, s + 4))
        self.scale = [R.choice([4, 4, 2, 8, 1]) / 4.0 for _ in range(nd)]
        if R.random() < 0.3:
            self.scale = [self.scale[0]] * nd
        self.translate = [R.randint(-3 * Q, 3 * Q) / float(Q) for _ in range(nd)] if R.random() < 0.6 else [0] * nd
        # denominators
        D = []
        for d in range(nd):
            l = 1
            for PP in P + [2 * n]:
                l = lcm(l, self.den(p, PP, d == self.diff))
            D.append(l)
        self.D = D
        DT = 1
        for x in D:
            DT *= x
        self.mass = [R.choice([1, 1, 2, 3, 5, -1, -2, 0]) for _ in range(self.np)]
        self.mscalar = R.random() < 0.2
        if self.mscalar:
            self.mass = [self.mass[0] if self.np else 1] * self.np
        # positions, away from the kinks of the derivative
        self.g = []
        for q in range(self.np):
            x = []
            for d in range(nd):
                for t in range(50):
                    lo, hi = (-2 * Q, (self.size[d] + 2) * Q)
                    if R.random() < 0.15:
                        lo, hi = -12 * Q, 14 * Q
                    v = R.randint(lo, hi)
                    if R.random() < 0.2:
                        v = v // Q * Q
                    if d == self.diff and p == 1 and self.kink(v, P[q]):
                        continue
                    break
                else:
                    return False
                x.append(v)
            self.g.append(x)
        vf = max([2.0 * n / x for x in P] + [1])
        W1 = vf * (2 * vf * 2 if self.diff is not None else 1)
        big = DT * W1 * vf ** (nd - 1) * max(10, sum(abs(m) for m in self.mass))
        if read:
            big = DT * W1 * 9 * 4
        if big > 1.9e9 or max(D) > 200000:
            return False
        self.DT = DT
        self.init = numpy.random.RandomState(R.randrange(2**31)).randint(-9 if read else -2, 10 if read else 3, size=self.size)
        if R.random() < 0.5 and not read or DT * 9 > 1.5e9:
            self.init[...] = 0
        return True

    def den(self, p, P, diff):
        n2 = 2 * (p + 1)
        f = numpy.gcd(n2, P)
        u, v = n2 // f, P // f
        B = self.Q * v
        if diff:
            return int({0: 1, 1: 1, 2: 2 * B, 3: 2 * B * B}[p] * 4 * v * v)
        return int({0: 1, 1: B, 2: 8 * B * B, 3: 6 * B ** 3}[p] * v)

    def kink(self, g, P):
        # linear: value kinks where the distance is 0 or half the support
        for c in range(g // self.Q - P, g // self.Q + P + 2):
            dd = abs(Fraction(g, self.Q) - c)
            if dd == 0 or dd == Fraction(P, 4):
                return True
        return False

    def window(self):
        w = FindResampler(self.name)
        if self.base is None:
            return w if R0.random() < 0.5 else ResampleWindow(w.kind)
        return w.resize(self.base) if R0.random() < 0.5 else ResampleWindow(w.kind, self.base)

    def rec(self, kind, key):
        return dict(k=kind, key=key, p=self.p, Q=self.Q, P=self.P, diff=0 if self.diff is None else self.diff + 1,
                    size=self.size, period=self.period, sn=[int(4 * s) for s in self.scale], g=self.g, mass=self.mass, D=self.D,
                    init=[int(x) for x in self.init.ravel()])

    def args(self, R, readonly=True):
        """positions, masses and scales in a randomly chosen representation"""
        pos = (numpy.array(self.g, 'f8').reshape(-1, self.nd) / self.Q - numpy.array(self.translate)) / numpy.array(self.scale)
        pt = R.choice(['f8', 'f8', 'f4'])
        pos = pos.astype(pt)
        if (pos == numpy.rint(pos)).all() and R.random() < 0.3:
            pos = pos.astype('i8')
        if R.random() < 0.2:
            b = numpy.full((2 * len(pos) + 1, self.nd + 2), 777.0, dtype=pos.dtype)
            b[1::2, 1:-1][:len(pos)] = pos
            pos = b[1::2, 1:-1][:len(pos)]
        elif R.random() < 0.2:
            pos = numpy.asfortranarray(pos)
        if R.random() < 0.2:
            pos.flags.writeable = False
        if self.mscalar:
            m = float(self.mass[0]) if self.np else 1.0
            mass = None if m == 1 and R.random() < 0.6 else m
        else:
            mass = numpy.array(self.mass, dtype=R.choice(['f8', 'f4', 'i4']))
            if R.random() < 0.2:
                mass = numpy.repeat(mass, 2)[::2]
            if R.random() < 0.2:
                mass.flags.writeable = False
        hs = self.hs
        if isinstance(hs, list):
            hs = numpy.array(hs, dtype=R.choice(['f8', 'f4']))
            if R.random() < 0.2:
                hs.flags.writeable = False
        return pos, mass, hs

def lcm(a, b):
    return a * b // int(numpy.gcd(a, b))

def tol(dt, c, mag):
    """slack in recorded units: none for doubles, a few float32 roundings otherwise"""
    if dt == 'f8':
        return 1 if c.DT * mag > 2e7 else 0
    return int(c.DT * mag * 3e-6) + 1

def tofix(a, D):
    x = numpy.asarray(a, 'f8').ravel() * D
    r = numpy.rint(x)
    bad = ~((numpy.abs(x - r) <= 0.25 + 1e-9 * numpy.abs(x)) & (numpy.abs(r) < 2**31 - 1))
    return numpy.where(bad, BADINT, r).astype('i8').tolist()
def tofixt(a, D):
    x = numpy.asarray(a, 'f8').ravel() * D
    r = numpy.rint(x)
    return numpy.where(~(numpy.abs(r) < 2**31 - 1), BADINT, r).astype('i8').tolist()

def same(xs, ks):
    return all(x is None or numpy.isscalar(x) or (x.tobytes() == k.tobytes()) for x, k in zip(xs, ks))
def copies(xs):
    return [x.copy() if isinstance(x, numpy.ndarray) else x for x in xs]

def fam_paint():
    R = rng("paint", PART)
    for n in range(COUNT):
        key = "paint:%s:%d" % (PART, n)
        case(key)
        c = Case(R)
        dt = R.choice(['f8', 'f8', 'f4'])
        m = Mesh(R, c.size, dt, c.init)
        win = c.window()
        tr = affine(R, c.nd, c.scale, c.translate, c.period)
        if c.translate == [0] * c.nd and c.scale == [1] * c.nd and not any(c.period) and R.random() < 0.7:
            tr = None
        pos, mass, hs = c.args(R)
        kp = copies((pos, mass, hs))
        split = R.random() < 0.3 and c.np > 1
        def go():
            if not split:
                win.paint(m.arg, pos, hsml=hs, mass=mass, diffdir=c.diff, transform=tr)
            else:
                # in groups and in another order
                o = list(range(c.np)); R.shuffle(o)
                k = R.randint(1, c.np - 1)
                for part in (o[:k], o[k:]):
                    win.paint(m.arg, pos[part], hsml=hs[part] if isinstance(hs, numpy.ndarray) else hs,
                              mass=mass[part] if isinstance(mass, numpy.ndarray) else mass, diffdir=c.diff, transform=tr)
        st, _ = attempt(go)
        r = c.rec("paint", key)
        t = tol(dt, c, 12)
        r.update(st=st, tol=t, out=(tofix if t == 0 else tofixt)(m.real, c.DT), outside=m.outside_ok(),
                 inputs=same((pos, mass, hs), kp))
        emit(r)

def fam_read():
    R = rng("read", PART)
    for n in range(COUNT):
        key = "read:%s:%d" % (PART, n)
        case(key)
        c = Case(R, read=True)
        dt = R.choice(['f8', 'f8', 'f4'])
        m = Mesh(R, c.size, dt, c.init)
        win = c.window()
        tr = affine(R, c.nd, c.scale, c.translate, c.period)
        if c.translate == [0] * c.nd and c.scale == [1] * c.nd and not any(c.period) and R.random() < 0.7:
            tr = None
        pos, mass, hs = c.args(R)
        kp = copies((pos, hs))
        od = R.choice([None, 'f8', 'f4'])
        out = None
        if od:
            g = numpy.full((2 * c.np + 2), R.choice([numpy.nan, 1e30, -7.0]), dtype=od)
            out = g[1::2][:c.np] if R.random() < 0.5 else numpy.full(c.np, R.choice([numpy.nan, 5.0]), dtype=od)
        if m.real.flags.writeable and R.random() < 0.1:
            m.arg.flags.writeable = False
        st, res = attempt(lambda: win.readout(m.arg, pos, hsml=hs, out=out, diffdir=c.diff, transform=tr))
        r = c.rec("read", key)
        if st == "ok" and out is not None and res is not out:
            st = "not-out"
        if st == "ok" and numpy.shape(res) != (c.np,):
            st = "shape"
        t = tol('f8' if od != 'f4' else 'f4', c, 30)
        r.update(st=st, tol=t, out=(tofix if t == 0 else tofixt)(res if st == "ok" else [], c.DT), outside=m.outside_ok(all=True),
                 inputs=same((pos, hs), kp))
        emit(r)

# ------------------------------------------------------------------ relations
F = 2.0 ** 24
def fix(a, s=F):
    x = numpy.rint(numpy.asarray(a, 'f8').ravel() * s)
    return numpy.where(numpy.abs(x) < 2**31 - 1, x, BADINT).astype('i8').tolist()

def anywindow(R, tables=True):
    p = R.choice([0, 1, 2, 3])
    name = R.choice(list(PAIRS[p]) + ([R.choice(TABLES)] * 3 if tables else []))
    w = FindResampler(name)
    if R.random() < 0.4:
        w = w.resize(R.randint(2, 9))
    return name, w

def rpos(R, nd, size, n=1, dyadic=None):
    if dyadic:
        return numpy.array([[R.randint(-2 * dyadic, (s + 2) * dyadic) / float(dyadic) for s in size] for _ in range(n)]).reshape(-1, nd)
    return numpy.array([[R.uniform(-2, s + 2) for s in size] for _ in range(n)]).reshape(-1, nd)

def fam_transpose():
    R = rng("transpose", PART)
    for n in range(COUNT):
        key = "transpose:%s:%d" % (PART, n)
        case(key)
        nd = R.choice([1, 1, 2, 2, 3])
        name, w = anywindow(R)
        if nd > 1 and w.support > 7:
            w = w.resize(4)
        size = [R.randint(1, 7 if nd == 1 else 4 if nd == 2 else 3) for _ in range(nd)]
        period = [R.choice([0, s, s + R.randint(0, 3)]) for s in size]
        sc = [R.choice([1.0, 0.7, 2.0, 1.3]) for _ in range(nd)]
        tr = Affine(nd, scale=sc, translate=[R.uniform(-2, 2) for _ in range(nd)], period=period)
        pos = rpos(R, nd, size)
        hs = R.choice([None, None, 0.8, 1.0, 1.7])
        diff = R.choice([None, None] + list(range(nd)))
        dt = R.choice(['f8', 'f8', 'f4'])
        m = Mesh(R, size, dt)
        w.paint(m.arg, pos, hsml=hs, diffdir=diff, transform=tr)
        vals, ok = [], True
        for k in numpy.ndindex(*size):
            d = Mesh(R, size, dt)
            d.real[k] = 1
            d.keep = d.base.copy(order='K')
            vals.append(float(w.readout(d.arg, pos, hsml=hs, diffdir=diff, transform=tr)[0]))
            ok = ok and d.outside_ok(all=True)
        s = F if diff is None else F / 8
        emit(dict(k="transpose", key=key + ":" + name, paint=fix(m.real, s), read=fix(vals, s), tol=2 if dt == 'f8' else 16, inputs=ok))

def fam_agree():
    """tuned against generic implementations, all memory layouts, arbitrary positions"""
    R = rng("agree", PART)
    for n in range(COUNT):
        key = "agree:%s:%d" % (PART, n)
        case(key)
        nd = R.choice([1, 2, 3, 3])
        p = R.choice([0, 1, 2, 3, 3])
        sup = R.choice([None, None, None, 2, 3, 4, 5])
        ws = [FindResampler(x) if sup is None else FindResampler(x).resize(sup) for x in PAIRS[p]]
        ws.append(ResampleWindow(PAIRS[p][0], -1 if sup is None else sup))
        size = [R.randint(1, 6) for _ in range(nd)]
        period = [R.choice([0, s, s + R.randint(0, 3)]) for s in size]
        sc = [R.choice([1.0, 0.7, 2.0, 1.3, 0.5]) for _ in range(nd)]
        tr = Affine(nd, scale=sc, translate=[R.uniform(-2, 2) for _ in range(nd)], period=period)
        pos = rpos(R, nd, size, R.randint(1, 5))
        hs = R.choice([None, None, 1.0, 1.7, 0.9, numpy.array([R.choice([0.6, 0.9, 1, 1.2, 2]) for _ in pos])])
        diff = R.choice([None, None] + list(range(nd)))
        mass = numpy.array([R.choice([1, 2, 0.5]) for _ in pos])
        dt = R.choice(['f8', 'f8', 'f4'])
        v = []
        A = numpy.random.RandomState(n).randint(-3, 4, size=size)
        for w in ws:
            m = Mesh(R, size, dt)
            w.paint(m.arg, pos, hsml=hs, mass=mass, diffdir=diff, transform=tr)
            d = Mesh(R, size, dt, A)
            ro = w.readout(d.arg, pos, hsml=hs, diffdir=diff, transform=tr)
            v.append(fix(m.real, F / 64) + fix(ro, F / 256))
        emit(dict(k="agree", key=key + ":" + PAIRS[p][1], v=v, tol=2 if dt == 'f8' else 12))

def fam_conserve():
    R = rng("conserve", PART)
    for n in range(COUNT):
        key = "conserve:%s:%d" % (PART, n)
        case(key)
        nd = R.choice([1, 2, 3])
        p = R.choice([0, 1, 2, 3])
        name = R.choice(PAIRS[p])
        w = FindResampler(name)
        k = 1
        if R.random() < 0.3:
            k = R.choice([2, 3]) if nd < 3 else 2
            w = w.resize(k * (p + 1))       # whole multiples of the native support conserve too
        size = [R.randint(1, 7 if nd == 1 else 4) for _ in range(nd)]
        sc = [R.choice([1.0, 0.7, 2.0]) for _ in range(nd)]
        tr = Affine(nd, scale=sc, translate=[R.uniform(-2, 2) for _ in range(nd)], period=size)
        pos = rpos(R, nd, size, R.randint(1, 4))
        sg = R.choice([1, 1, -1])
        mass = numpy.array([R.choice([1, 2, 3, 5]) * (sg if R.random() < 0.5 else 1) for _ in pos], 'f8')
        diff = R.choice([None, None] + list(range(nd)))
        m = Mesh(R, size, 'f8')
        w.paint(m.arg, pos, mass=mass, diffdir=diff, transform=tr)
        s = 2.0 ** 20
        emit(dict(k="conserve", key=key + ":" + name, out=fix(m.real, s), total=0 if diff is not None else int(mass.sum() * s),
                  diff=diff is not None, masssign=int(sg), tol=1))

def fam_shift():
    R = rng("shift", PART)
    for n in range(COUNT):
        key = "shift:%s:%d" % (PART, n)
        case(key)
        nd = R.choice([1, 2, 3])
        name, w = anywindow(R)
        if nd == 3 and w.support > 5 or w.support > 12:
            w = w.resize(4)
        size = [R.randint(1, 6 if nd < 3 else 4) for _ in range(nd)]
        dy = 8
        tr = Affine(nd, period=size, translate=[R.choice([0, 0.5, -1.25]) for _ in range(nd)])
        diff = R.choice([None, None] + list(range(nd)))
        a = Mesh(R, size, 'f8'); b = Mesh(R, size, 'f8')
        pos = rpos(R, nd, size, 2, dyadic=dy)
        hs = R.choice([None, 1.5, 0.75])
        if R.random() < 0.5:
            by = [R.randint(-5, 5) for _ in range(nd)]
            w.paint(a.arg, pos, hsml=hs, diffdir=diff, transform=tr)
            w.paint(b.arg, pos + numpy.array(by), hsml=hs, diffdir=diff, transform=tr)
            emit(dict(k="shift", key=key + ":" + name, size=size, by=by, a=fix(a.real, F / 16), b=fix(b.real, F / 16), tol=1))
        else:
            perm = list(range(nd)); R.shuffle(perm)
            sc = numpy.array([R.choice([1, 0.5, 2.0, 0.7]) for _ in range(nd)])
            t0 = numpy.array([R.choice([0, 0.5, -1.25]) for _ in range(nd)])
            w.paint(a.arg, pos, hsml=hs, diffdir=diff, transform=Affine(nd, scale=sc, translate=t0, period=size))
            b = Mesh(R, [size[k] for k in perm], 'f8')
            w.paint(b.arg, pos[:, perm], hsml=hs, diffdir=None if diff is None else perm.index(diff),
                    transform=Affine(nd, scale=sc[perm], translate=t0[perm], period=[size[k] for k in perm]))
            emit(dict(k="swap", key=key + ":" + name, size=size, perm=[k + 1 for k in perm], a=fix(a.real, F / 16), b=fix(b.real, F / 16), tol=2))

def fam_support():
    R = rng("support", PART)
    names = [x for p in range(4) for x in PAIRS[p]] + TABLES
    for n in range(COUNT):
        name = names[n % len(names)]
        key = "support:%s:%d" % (PART, n)
        case(key)
        w0 = FindResampler(name)
        S0 = (w0.support, w0.nativesupport)
        w, meta = w0, True
        if n >= len(names):
            S = R.randint(1, 14)
            w = w0.resize(S)
            meta = w.support == S and w.nativesupport == w0.nativesupport and w.kind == w0.kind and (w0.support, w0.nativesupport) == S0
            w2 = w.resize(w0.nativesupport)
            meta = meta and w2.support == w0.nativesupport
            if R.random() < 0.5:
                w = w.resize(w.support)
        hs = R.choice([1, 1, 0.5, 1.5, 1.25, 2])
        P = 2 * w.support * hs
        if P != int(P):
            hs, P = 1, 2 * w.support
        Q = 8
        g = R.randint(-2 * Q, 2 * Q)
        N = 80
        real = numpy.zeros(N)
        w.paint(real, [[g / float(Q) + 40]], hsml=None if hs == 1 and R.random() < 0.5 else hs,
                diffdir=R.choice([None, 0]))
        out = fix(real, F)
        # a non-zero value below the recording resolution still counts as touched
        out = [o or (1 if v != 0 else 0) for o, v in zip(out, real)]
        emit(dict(k="support", key=key + ":" + name, Q=Q, P=int(P), g=g, first=-40, out=out, meta=bool(meta)))

def fam_product():
    R = rng("product", PART)
    for n in range(COUNT):
        key = "product:%s:%d" % (PART, n)
        case(key)
        nd = R.choice([2, 2, 3])
        name, w = anywindow(R)
        if w.support > (5 if nd == 3 else 8):
            w = w.resize(R.randint(2, 5))
        size = [R.randint(1, 5) for _ in range(nd)]
        period = [R.choice([0, s]) for s in size]
        pos = rpos(R, nd, size)
        sc = [R.choice([1.0, 0.5, 1.4]) for _ in range(nd)]
        t0 = [R.uniform(-1, 1) for _ in range(nd)]
        hs = R.choice([None, 1.3])
        diff = R.choice([None, None] + list(range(nd)))
        m = Mesh(R, size, 'f8')
        w.paint(m.arg, pos, hsml=hs, diffdir=diff, transform=Affine(nd, scale=sc, translate=t0, period=period))
        rows = []
        for d in range(nd):
            r1 = numpy.zeros(size[d])
            w.paint(r1, pos[:, d:d + 1], hsml=hs, diffdir=0 if diff == d else None, transform=Affine(1, scale=[sc[d]], translate=[t0[d]], period=[period[d]]))
            rows.append(r1)
        # the slopes of some wavelets are steep: the unit is as small as the products allow,
        # the tolerance the rounding of the factors
        big = max(1.0, max(abs(r).max() for r in rows))
        unit = 8192
        while unit > 16 and big ** nd * unit * unit > 1.5e9:
            unit //= 2
        emit(dict(k="product", key=key + ":" + name, size=size, unit=unit, rows=[fix(r, unit) for r in rows], out=fix(m.real, unit), tol=int(nd * 0.5 * big ** (nd - 1)) + nd + 3))

def fam_slope():
    """derivative tables belong to the value tables"""
    R = rng("slope", PART)
    for n in range(COUNT):
        name = R.choice(TABLES)
        key = "slope:%s:%d" % (PART, n)
        case(key)
        w = FindResampler(name)
        wav = name[:2] in ("db", "sy")
        # stay inside one piece of the table
        h = 2.0 ** -10 if wav else 2.0 ** -15
        step = 2.0 ** -8 if wav else 2.0 ** -12
        x = R.randint(0, 2**9) * step * 8 + step * (0.25 if wav else 0.4)
        x += 20
        sc = R.choice([1.0, 2.0, 0.5])
        def paint(x, diff):
            a = numpy.zeros(48)
            w.paint(a, [[x / sc]], diffdir=diff, transform=Affine(1, scale=sc))
            return a
        a0, a1, df = paint(x, None), paint(x + h, None), paint(x + h / 2, 0)
        s = 1024.0
        emit(dict(k="slope", key=key + ":" + name, k0=fix(a0 / h * sc, s), k1=fix(a1 / h * sc, s), df=fix(df, s), tol=4 + int(0.002 * s)))

def fam_fwindow():
    """the Fourier window of every spline, at w * support / native = k pi / 2"""
    R = rng("fwindow", PART)
    for n in range(COUNT):
        p = n % 4
        name = R.choice(PAIRS[p])
        key = "fwindow:%s:%d" % (PART, n)
        case(key)
        w = FindResampler(name)
        S = p + 1
        if R.random() < 0.5:
            S = R.randint(1, 9)
            w = w.resize(S)
        ks = numpy.array([R.randint(-8, 8) for _ in range(6)])
        ww = ks * (numpy.pi / 2) * (p + 1) / S
        if R.random() < 0.5:
            ww = ww.reshape(2, 3)
        ww = ww.astype(R.choice(['f8', 'f8', 'f4']))
        t = w.get_fwindow(ww)
        nd = R.choice([1, 2])
        wl = [ww.reshape(-1)[[k]] for k in range(nd)]
        v = numpy.array([3.0])
        okc = True
        if all(k % 4 or k == 0 for k in ks[:nd]):
            c = w.get_compensation()(wl, v)
            tf = 1.0
            for k in range(nd):
                tf = tf * float(numpy.reshape(t, -1)[k])
            okc = abs(float(c[0]) * tf - 3.0) < 1e-6 and v[0] == 3
        emit(dict(k="fwindow", key=key + ":" + name, p=p, ks=[abs(int(k)) for k in ks], t=fix(t, 10000), form=numpy.shape(t) == ww.shape, comp=bool(okc)))

R0 = rng("R0", PART)
for f in FAMILY.split(","):
    globals()["fam_" + f]()
done()
