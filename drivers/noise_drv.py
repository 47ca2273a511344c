"""Records what pmesh.whitenoise.generate fills, block by block."""
from rank import *
import numpy
from pmesh.whitenoise import generate
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "100"))
FAMILY = os.environ["PMV_FAMILY"]

class Signed:
    """signed tokens of floats: equal magnitude, equal token"""
    def __init__(self):
        self.t = {}
    def __call__(self, a):
        a = numpy.asarray(a)
        out = []
        for v in a.ravel().tolist():
            if v == 0:
                out.append(0)
            else:
                m = self.t.setdefault(abs(v), len(self.t) + 1)
                out.append(m if v > 0 else -m)
        return out

BAD = 9e9 + 9e9j
def canvas(R, shape, dtype):
    """a block of any memory layout inside a guarded base; returns (view, outside())"""
    nd = len(shape)
    how = R.choice(["C", "C", "F", "off", "strided", "neg", "perm"])
    pad = [R.randint(1, 2) for _ in shape]
    if how in ("C", "F"):
        big = numpy.empty(shape, dtype, order=how)
        view = big
    elif how == "off":
        big = numpy.empty([s + 2 * p for s, p in zip(shape, pad)], dtype)
        view = big[tuple(slice(p, p + s) for s, p in zip(shape, pad))]
    elif how == "strided":
        st = [R.choice([1, 2]) for _ in shape]
        big = numpy.empty([s * k + p for s, k, p in zip(shape, st, pad)], dtype)
        view = big[tuple(slice(p, p + s * k, k) for s, k, p in zip(shape, st, pad))][tuple(slice(0, s) for s in shape)]
    elif how == "neg":
        big = numpy.empty([s + 2 for s in shape], dtype)
        sl = tuple(slice(1, s + 1) for s in shape)
        fl = tuple(slice(None, None, R.choice([1, -1])) for _ in shape)
        view = big[sl][fl]
    else:
        p = list(range(nd)); R.shuffle(p)
        big = numpy.empty([shape[a] for a in p], dtype)
        view = big.transpose(numpy.argsort(p))
    assert view.shape == tuple(shape), (how, view.shape, shape)
    big[...] = BAD
    def outside():
        keep = view.copy()
        view[...] = BAD
        ok = bool((big == big.dtype.type(BAD)).all())
        view[...] = keep
        return ok
    return view, outside

def seed_of(R):
    return R.choice([0, 1, R.randrange(2**31), R.randrange(2**31), 2**31 - 1, R.randrange(2**31, 2**32)])

def full(n, seed, u, dtype='c16'):
    v = numpy.empty(n, dtype)
    v[...] = BAD
    generate(v, 0, n, seed, u)
    return v

def fx(a, s):
    a = numpy.rint(numpy.asarray(a, 'f8') * s)
    a = numpy.where(numpy.isfinite(a) & (abs(a) < 2**30), a, BADINT / 2)
    return a.astype('i8').ravel().tolist()

def norm(n, nd):
    return [1] * (3 - nd) + list(n)

def shape_of(R):
    how = R.random()
    if how < 0.45:
        return (R.choice([2, 4, 6, 8]),) * 3
    if how < 0.8:
        return tuple(R.choice([1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(3))
    if how < 0.9:
        return tuple(R.randint(1, 9) for _ in range(2))
    return (R.randint(1, 16),)

def blocks_of(R, n):
    """random sub-blocks, among them pencils and the halves a process mesh cuts"""
    out = []
    for _ in range(10):
        how = R.random()
        s, z = [], []
        for d, N in enumerate(n):
            if how < 0.35:
                a, b = sorted([R.randint(0, N), R.randint(0, N)])
            elif how < 0.8:
                P = R.randint(1, 4)
                q = R.randrange(P)
                M = N // 2 + 1 if d == len(n) - 1 and R.random() < 0.5 else N
                a, b = q * M // P, (q + 1) * M // P
            else:
                a, b = (0, N) if d != len(n) - 1 else R.choice([(0, N // 2 + 1), (0, N), (N // 2 + 1, N)])
            b = min(b, N)
            a = min(a, b)
            s.append(a); z.append(b - a)
        out.append((s, z))
    out.append(([0] * len(n), list(n[:-1]) + [n[-1] // 2 + 1]))
    return out

def fam_noise():
    R = rng("noise", PART)
    for k in range(COUNT):
        n = shape_of(R)
        nd = len(n)
        seed = seed_of(R)
        key = "noise:%s:%d" % (PART, k)
        case(key)
        def go():
            T = Signed()
            f, u = full(n, seed, False), full(n, seed, True)
            r = dict(k="noise", key=key, st="ok", nd=nd, n=norm(n, nd), fresh=bool((f != BAD).all() and (u != BAD).all()))
            r["re"], r["im"] = T(f.real), T(f.imag)
            r["ure8"], r["uim8"] = T(u.real), T(u.imag)
            f4, u4 = f.astype('c8'), u.astype('c8')
            r["re4"], r["im4"] = T(f4.real), T(f4.imag)
            r["ure4"], r["uim4"] = T(u4.real), T(u4.imag)
            S = 2.0 ** 24
            r["unit"] = 2 ** 24
            r["umod"] = fx(abs(u), S)
            if nd == 3:
                a = abs(f)
                a = numpy.where(a == 0, 1, a)
                r["cos"], r["sin"] = fx(f.real / a, S), fx(f.imag / a, S)
                r["ucos"], r["usin"] = fx(u.real, S), fx(u.imag, S)
                r["uone"] = (u == 1).ravel().tolist()
            else:
                r["fre"], r["fim"] = fx(f.real, 2.0**20), fx(f.imag, 2.0**20)
            r["blocks"] = []
            for s, z in blocks_of(R, n):
                uu, prec = R.random() < 0.3, R.choice([8, 8, 4])
                if nd < 3 and uu:
                    prec = 8        # in single precision the angle is taken of a rounded number
                v, outside = canvas(R, z, 'c16' if prec == 8 else 'c8')
                generate(v, R.choice([s, numpy.array(s), tuple(s)]), n, seed, uu)
                r["blocks"].append(dict(start=[0] * (3 - nd) + s, size=norm(z, nd), u=uu, prec=prec, re=T(v.real), im=T(v.imag), outside=outside()))
            return r
        st, r = attempt(go)
        emit(r if st == "ok" else dict(k="noise", key=key, st=st))

def assembled(R, n, seed, u, dtype):
    """the whole spectrum, put together from what differently stored blocks hold"""
    half = R.random() < 0.6
    N2 = n[2] // 2 + 1 if half else n[2]
    P = [R.randint(1, 3) for _ in range(3)]
    v = numpy.empty((n[0], n[1], N2), dtype)
    v[...] = BAD
    for i in range(P[0]):
        for j in range(P[1]):
            for l in range(P[2]):
                a = [i * n[0] // P[0], j * n[1] // P[1], l * N2 // P[2]]
                b = [(i + 1) * n[0] // P[0], (j + 1) * n[1] // P[1], (l + 1) * N2 // P[2]]
                blk = numpy.empty([y - x for x, y in zip(a, b)], dtype, order=R.choice("CF"))
                blk[...] = BAD
                generate(blk, a, n, seed, u)
                v[a[0]:b[0], a[1]:b[1], a[2]:b[2]] = blk
    if half:
        f = numpy.empty(n, dtype)
        f[:, :, :N2] = v
        rest = numpy.arange(N2, n[2])
        neg = [(-numpy.arange(m)) % m for m in n]
        f[:, :, N2:] = v[numpy.ix_(neg[0], neg[1], (-rest) % n[2])].conj()
        v = f
    return v

def fam_scale():
    R = rng("scale", PART)
    for k in range(COUNT):
        N = R.choice([2, 4, 6, 8, 10, 12])
        S = R.choice([x for x in (2, 4, 6, 8, 10, 12, 14, 16) if x != N])
        n, s = (N,) * 3, (S,) * 3
        seed = seed_of(R)
        key = "scale:%s:%d" % (PART, k)
        case(key)
        def go():
            T = Signed()
            dt = R.choice(['c16', 'c16', 'c8'])
            r = dict(k="scale", key=key, st="ok", n=n, s=s, wide=dt == 'c16')
            for a, b, u in (("re", "im", False), ("ure", "uim", True)):
                f, g = assembled(R, n, seed, u, dt), assembled(R, s, seed, u, dt)
                r[a], r[b], r["s" + a], r["s" + b] = T(f.real), T(f.imag), T(g.real), T(g.imag)
            return r
        st, r = attempt(go)
        emit(r if st == "ok" else dict(k="scale", key=key, st=st))

def fam_seeds():
    R = rng("seeds", PART)
    for k in range(COUNT):
        n = (R.choice([4, 6]),) * 3
        base = [R.randrange(2**31) for _ in range(3)]
        # neighbouring and repeated seeds, in any order
        base += [base[0] + 1, base[1] ^ 1, 1, 2]
        base = sorted(set(b % 2**31 for b in base if b > 1) | {1, 2})
        seeds = base + [R.choice(base) for _ in range(3)]
        R.shuffle(seeds)
        key = "seeds:%s:%d" % (PART, k)
        case(key)
        def go():
            T = Signed()
            fs = [full(n, s, False) for s in seeds]
            return dict(k="seeds", key=key, st="ok", seed=seeds, re=[T(f.real) for f in fs], im=[T(f.imag) for f in fs])
        st, r = attempt(go)
        emit(r if st == "ok" else dict(k="seeds", key=key, st=st))

def near(R, N):
    """an index of an axis of N modes, preferably a special one"""
    return R.choice([0, 1, N // 2 - 1, N // 2, N // 2 + 1, N - 1, R.randrange(N), R.randrange(N), R.randrange(N)]) % N

def fam_wide():
    """a few modes of large meshes: blocks that overlap, hold each other's conjugates, or (cubic
    meshes of two sizes) the same waves"""
    R = rng("wide", PART)
    for k in range(COUNT):
        seed = seed_of(R)
        cubic = R.random() < 0.6
        sizes = [32, 34, 64, 100, 126, 200, 254, 256, 258, 300, 400, 510, 514, 600]
        if cubic:
            a, b = R.sample(sizes, 2)
            ns = [(a,) * 3, (b,) * 3]
        else:
            ns = [tuple(R.choice([1, 2, 3, 5, 31, 33] + sizes) for _ in range(3))]
        dt = R.choice(['c16', 'c16', 'c8'])
        key = "wide:%s:%d" % (PART, k)
        case(key)
        specs = []
        def add(m, lo, z, u):
            n = ns[m]
            z = [max(1, min(y, N - l)) for l, y, N in zip(lo, z, n)]
            specs.append((m, list(lo), z, u))
            return z
        for _ in range(4):
            m = R.randrange(len(ns))
            n = ns[m]
            z = [R.randint(1, 3) for _ in range(3)]
            lo = [near(R, N) for N in n]
            u = R.random() < 0.3
            z = add(m, lo, z, u)
            # its conjugates, a long thin block through it, and the same waves of the other mesh
            add(m, [(N - l - y + 1) % N for N, l, y in zip(n, lo, z)], z, u)
            d = R.randrange(3)
            thin = [1, 1, 1]; thin[d] = min(n[d], 40)
            start = list(lo); start[d] = max(0, min(lo[d] - R.randrange(20), n[d] - thin[d]))
            add(m, start, thin, u)
            if cubic:
                o = ns[1 - m]
                lo2 = [l if 2 * l < N else O - (N - l) for l, N, O in zip(lo, n, o)]
                if all(0 <= l < O for l, O in zip(lo2, o)):
                    add(1 - m, lo2, z, u)
        def go():
            T = Signed()
            out = []
            for m, lo, z, u in specs:
                v = numpy.empty(z, dt)
                v[...] = BAD
                generate(v, lo, ns[m], seed, u)
                out.append(dict(m=m + 1, start=lo, size=z, u=u, fresh=bool((v != BAD).all()), re=T(v.real), im=T(v.imag)))
            return dict(k="wide", key=key, st="ok", n=[list(n) for n in ns], wide=dt == 'c16', p=out)
        st, r = attempt(go)
        emit(r if st == "ok" else dict(k="wide", key=key, st=st))

for f in FAMILY.split(","):
    globals()["fam_" + f]()
done()
