"""Records the white noise of mesh objects on several ranks."""
from pcase import *
from pmesh.whitenoise import generate
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))

class Signed:
    """signed tokens of floats: equal magnitude, equal token"""
    def __init__(self):
        self.t = {}
    def __call__(self, a):
        return [0 if v == 0 else (1 if v > 0 else -1) * self.t.setdefault(abs(v), len(self.t) + 1) for v in numpy.asarray(a).ravel().tolist()]

def norm(n, fill=1):
    return [fill] * (3 - len(n)) + [int(x) for x in n]

for k in range(COUNT):
    R = rng("nfield", PART, P, k)
    c = Cfg(R, maxn=6, nds=[3, 3, 3, 3, 2] + ([1] if P == 1 else []), maxcells=216)
    if R.random() < 0.3 and c.nd == 3:
        c.n = [R.choice([2, 4, 6])] * 3
        c.box = [a * x / 4.0 for a, x in zip(c.n, c.cell)]
    t = R.choice("tturr")
    seed = R.choice([1, R.randrange(2**31), R.randrange(2**31), R.randrange(2**31, 2**32)])
    u = R.random() < 0.3 and (c.nd == 3 or c.dtype in ('f8', 'c16'))
    mean = R.choice([None, None, 0, 1, 2.5, -3])
    base = R.random() < 0.3
    key = "nfield:%d:%s:%d" % (P, PART, k)
    case(key + ":" + str(c).replace(" ", "") + t)
    def go():
        pm = c.make()
        kw = dict(unitary=u)
        if mean is not None:
            kw["mean"] = mean
        tp = R.choice([TYPES[t], dict(r='real', t=R.choice(['complex', 'transposedcomplex']), u='untransposedcomplex')[t]])
        how = R.choice(["type", "mode"])
        if not (t == 't' and R.random() < 0.3):
            kw[how] = tp
        b = None
        if base:
            b = pm.create(R.choice(list(TYPES.values())), value=0)
            kw["base"] = b._base
        f = pm.generate_whitenoise(seed, **kw)
        good = type(f) is TYPES[t] and f.pm is pm
        if base:
            # it lies in the memory given
            good = good and (f.value.size == 0 or b.value.size == 0 or numpy.may_share_memory(f.value, b.value))
        return f, bool(good)
    st, r = attempt(go)
    bad = [s for s in gather(st) if s != "ok"]
    rec = dict(key=key, cfg=str(c), ranks=P, st=bad[0] if bad else "ok", seed=str(seed), unitary=u, type=t)
    if bad:
        rec["k"] = "field"
    else:
        f, good = r
        full = numpy.empty(c.n, 'c16')
        generate(full, 0, c.n, seed, u)
        good = all(gather(good))
        if t != 'r':
            full = full.astype(f.dtype)
            T = Signed()
            rec.update(k="field", n=norm(c.n), half=bool(c.dtype[0] != 'c'), re=T(full.real), im=T(full.imag), mean=int(1000 * (mean or 0)), blocks=[])
            for s, v in gather(([int(x) for x in f.start], numpy.array(f.value))):
                o = dict(start=norm(s, 0), size=norm(v.shape), re=T(v.real), im=T(v.imag), mean=BADINT)
                if v.size and not any(s):
                    z = v.ravel()[0]
                    o["mean"] = int(round(1000 * z.real)) if z.imag == 0 else BADINT
                rec["blocks"].append(o)
            rec["good"] = good
        else:
            full.ravel()[0] = mean or 0
            a = glob(f).astype('c16')
            m = numpy.fft.fftn(a) / a.size
            tol = 2e-4 if c.dtype in ('f4', 'c8') else 1e-6
            S = 1e6
            rec.update(k="rfield", re=fixd(m.real, S), im=fixd(m.imag, S), tre=fixd(full.real, S), tim=fixd(full.imag, S), tol=1 + int(tol * S), good=good)
    if world.rank == 0:
        emit(rec)
done()
