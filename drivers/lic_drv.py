"""Records line integral convolutions."""
from pcase import *
import warnings
warnings.simplefilter("ignore")
from pmesh.lic import lic
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
FAMILY = os.environ["PMV_FAMILY"]
WN = {0: ["nearest", "nnb", "NNB"], 1: ["linear", "cic", "CIC"]}

def finish(st):
    bad = [s for s in gather(st) if s != "ok"]
    return bad[0] if bad else "ok"

def blocks(c, R):
    """a mesh divided along its first axis only, two or three rows each"""
    c.nd = 2
    c.n = [P * R.choice([2, 3]), R.choice([1, 2, 3])]
    c.np = [P, 1] if R.random() < 0.5 else [P]
    c.cell = [4, 4]
    c.box = [float(x) for x in c.n]

def longrows(c, R):
    """the rows of one or two ranks"""
    w = c.n[0] // P
    b = numpy.arange(c.n[0]) // max(w, 1)
    return numpy.isin(b, [R.randrange(P) for _ in range(R.choice([1, 1, 2]))])

def fam_lic():
    for k in range(COUNT):
        R = rng("lic", PART, P, k)
        while True:
            c = Cfg(R, maxn=6, maxcells=40, dtypes=('f8', 'f8', 'f4'))
            p = R.choice([0, 0, 1])
            far = R.random() < (0.4 if P > 1 else 0.1)
            if far:
                blocks(c, R)
                p = 0
            J = R.randint(1, 5) if p == 0 else R.randint(1, {1: 3, 2: 2, 3: 1}[c.nd])
            # sides are cells of a power of two
            c.cell = [R.choice([1, 2, 4, 8])] * c.nd if R.random() < 0.5 else [R.choice([1, 2, 4, 8]) for _ in range(c.nd)]
            if R.random() < 0.3:
                c.cell = [4] * c.nd
            c.box = [a * x / 4.0 for a, x in zip(c.n, c.cell)]
            e, E = R.choice([(1, 1), (1, 2), (1, 2), (1, 4), (2, 1)])
            ds = e / E
            # half a step in cells: ds / 2 * 4 / cell = h / z
            hf = [Fraction(e, 2 * E) * Fraction(4, x) for x in c.cell]
            z = 1
            for f in hf:
                z = lcm(z, f.denominator)
            if p == 0:
                z *= R.choice([1, 2])
            normalize = R.random() < 0.3
            if far:
                normalize = False
            vmax = 6 if far else R.choice([0, 1, 1, 2, 3])
            S = z ** c.nd
            zz = z
            for j in range(J if p == 1 else 0):
                zz *= zz ** c.nd
                S = zz ** c.nd if j < J - 1 else S
            S = 1
            zz = z
            if p == 1:
                for j in range(J):
                    zz *= zz ** c.nd
                    S = zz ** c.nd
            ka, kb = R.choice([(1, 0), (2, 1), (1, -1), (0, 1), (3, 0)])
            mag = 9 * (E + e * 2 * J * (abs(ka) + abs(kb) * J))
            h = [int(f * z) for f in hf]
            if S * mag < 1e9 and zz * (8 + vmax * 4 * J * max(h)) < 1e8:
                break
        g = numpy.random.RandomState(R.randrange(2**31))
        v = [g.randint(-vmax, vmax + 1, size=c.n) for _ in range(c.nd)]
        if far:
            # short vectors lead from some ranks to the long ones of another
            short = g.randint(-1, 2, size=c.n)
            rows = longrows(c, R)
            v[0][~rows] = short[~rows]
            for a in v[1:]:
                a[~rows] = 0
        elif R.random() < 0.3:
            # long vectors on one part of the mesh only
            for a in v:
                a[1:] = 0
                a[:1] *= 2
        if normalize:
            pick = g.randint(0, c.nd, size=c.n)
            for d in range(c.nd):
                v[d] = v[d] * (pick == d)
        tex = g.randint(-9, 10, size=c.n)
        half = R.choice([J, J, J - 0.5])
        args = []
        def kernel(s):
            args.append(float(s))
            return ka + kb * s * half
        key = "lic:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", ""))
        name = R.choice(WN[p])
        how = R.choice(["name", "default", "object"])
        def go():
            pm = c.make(resampler=name if how == "default" else 'tsc')
            V = [put(pm.create(RealField), a) for a in v]
            T = put(pm.create(RealField), tex)
            kw = {}
            if how != "default":
                kw["resampler"] = name if how == "name" else FindResampler(name)
            if not normalize or R1:
                kw["normalize"] = normalize
            r = lic(V, kernel, 2 * half * ds, ds, texture=T, **kw)
            kept = all(numpy.array_equal(glob(f), a) for f, a in zip(V + [T], v + [tex])) and isinstance(r, RealField) and r.pm is pm
            return bool(kept), glob(r)
        R1 = R.random() < 0.5
        st, r = attempt(go)
        st = finish(st)
        kept = all(gather(bool(r and r[0])))
        f4 = c.dtype == 'f4'
        emit(dict(k="lic", key=key, st=st, n=c.n, p=p, z=z, h=h, J=J, e=e, E=E, ka=ka, kb=kb, S=S, normalize=normalize, inputs=kept, ranks=P, cfg=str(c),
                  v=[[int(x) for x in a.ravel()] for a in v], tex=[int(x) for x in tex.ravel()], out=fixd(r[1], S * E) if st == "ok" else [],
                  args=fixd(args, 1000000), unit=1000000, tol=int(S * mag * (2e-5 if f4 else 1e-12)) + 1))

def fam_same():
    """arbitrary vectors: several ranks and one"""
    for k in range(COUNT):
        R = rng("licsame", PART, P, k)
        c = Cfg(R, maxn=8, maxcells=300, dtypes=('f8',))
        far = P > 1 and R.random() < 0.4
        if far:
            blocks(c, R)
        key = "licsame:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", ""))
        g = numpy.random.RandomState(R.randrange(2**31))
        v = [g.uniform(-1, 1, size=c.n) * R.choice([0.3, 1, 2]) for _ in range(c.nd)]
        if far:
            rows = longrows(c, R)
            for a in v:
                a *= 3
                a[~rows] *= 0.1
        elif R.random() < 0.5:
            for a in v:
                a[R.randrange(c.n[0]):] *= 0.05
        if R.random() < 0.3:
            for a in v:
                a[g.uniform(size=c.n) < 0.3] = 0
        name = R.choice(["cic", "tsc", "pcs", "lanczos2", "db6"])
        norm = R.random() < 0.4 and not far
        deft = R.random() < 0.3
        tex = g.normal(size=c.n)
        L, ds = R.choice([(1.0, 0.3), (2.0, 0.5), (3.0, 1.0), (0.7, 0.1)])
        unit = R.random() < 0.5
        def run(pm, v, norm):
            V = [put(pm.create(RealField), a) for a in v]
            r = lic(V, lambda s: 1 - abs(s) / 2, L, ds, resampler=name, texture=None if deft else put(pm.create(RealField), tex), normalize=norm)
            return r
        def go():
            pm = c.make()
            r = glob(run(pm, v, norm))
            c1 = Cfg.__new__(Cfg)
            c1.__dict__.update(c.__dict__)
            c1.np = None
            if P > 1:
                s = numpy.array(run(c1.make(comm=MPI.COMM_SELF), v, norm).value)
            elif norm and unit:
                m = sum(a ** 2 for a in v) ** 0.5
                m[m == 0] = 1
                s = numpy.array(run(pm, [a / m for a in v], False).value)
            else:
                s = numpy.array(run(pm, v, norm).value)
            return r, s
        st, r = attempt(go)
        st = finish(st)
        emit(dict(k="licsame", key=key, st=st, cfg=str(c), a=fixd(r[0], 1e6) if st == "ok" else [], b=fixd(r[1], 1e6) if st == "ok" else [], inputs=True, tol=5))

dict(lic=fam_lic, same=fam_same)[FAMILY]()
done()
