"""Records the scale-invariant numbers of modes."""
from rank import *
import numpy, itertools
from pmesh.invariant import get_index
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "100"))
FAMILY = os.environ["PMV_FAMILY"]
TABLES = [(1, 40), (2, 9), (3, 3), (1, 7), (2, 4), (4, 1)] + ([] if QUICK else [(2, 20), (3, 5), (4, 2), (5, 1)])

def cube(M, d):
    return numpy.array(list(itertools.product(range(-M, M + 1), repeat=d)), dtype='i8').reshape(-1, d)

def layout(R, x):
    """the same points in another type, shape and memory layout"""
    x = x.astype(R.choice(['i8', 'i8', 'i4', 'i2'] if abs(x).max(initial=0) < 2**15 else ['i8', 'i4']))
    n, d = x.shape
    how = R.choice(["flat", "flat", "grid", "F", "strided", "1"])
    if how == "grid" and n > 1:
        f = [k for k in range(1, n + 1) if n % k == 0]
        a = R.choice(f)
        x = x.reshape(a, n // a, d)
        if R.random() < 0.5:
            f = [k for k in range(1, n // a + 1) if (n // a) % k == 0]
            b = R.choice(f)
            x = x.reshape(a, b, n // a // b, d)
    elif how == "F":
        x = numpy.asfortranarray(x)
    elif how == "strided":
        y = numpy.zeros((2 * n, 2 * d), x.dtype)
        y[::2, ::2] = x
        x = y[::2, ::2]
    elif how == "1":
        x = x.reshape(n, 1, d)
    return x

def ask(R, x, n, comp, lim=None):
    y = layout(R, numpy.asarray(x, 'i8'))
    keep = y.copy()
    nm = R.choice([list, tuple, numpy.array])(n)
    if len(set(n)) == 1 and R.random() < 0.5:
        nm = n[0]
    a = get_index(y, nm, **({} if lim is None and R.random() < 0.5 else dict(maxlength=lim)), compressed=comp)
    return numpy.ravel(a).tolist(), numpy.shape(a) == y.shape[:-1], bool((keep == y).all())

def table(R, d, M, comp):
    x = cube(M, d)
    # the mesh has room for all of the cube; Nyquist modes are asked about by either sign
    big = [2 * M + R.randint(2, 9) for _ in range(d)]
    a, shp, inp = ask(R, x, big, comp)
    assert shp
    return a

def fam_table():
    R = rng("table", PART)
    for k, (d, M) in enumerate(TABLES):
        for comp in (False, True):
            key = "table:%d:%d:%d" % (d, M, comp)
            case(key)
            st, a = attempt(lambda: table(R, d, M, comp))
            emit(dict(k="table", key=key, st=st, d=d, M=M, comp=comp, num=a))

def fam_query():
    R = rng("query", PART)
    for k in range(COUNT):
        d, M = R.choice([(1, 12), (2, 6), (3, 2), (4, 1)])
        comp = R.random() < 0.5
        key = "query:%s:%d" % (PART, k)
        case(key)
        def go():
            r = dict(k="query", key=key, st="ok", d=d, M=M, comp=comp, num=table(R, d, M, comp), q=[])
            for _ in range(6):
                n = [R.randint(1, 2 * M)] * d if R.random() < 0.5 else [R.randint(1, 2 * M) for _ in range(d)]
                x = cube(M, d)
                if R.random() < 0.5:
                    # far outside, and in any order
                    x = numpy.concatenate([x, [[R.randint(-50, 50) for _ in range(d)] for _ in range(20)]])
                    x = x[R.sample(range(len(x)), min(len(x), R.randint(0, 200)))]
                vol = (2 * M + 1) ** d
                lim = R.choice([None, None, 0, 1, R.randint(0, vol), R.randint(0, vol), vol, n[0] ** d])
                a, shp, inp = ask(R, x, n, comp, lim)
                r["q"].append(dict(n=n, x=x.tolist(), a=a, lim=-1 if lim is None else lim, shape=shp, inputs=inp))
            return r
        st, r = attempt(go)
        emit(r if st == "ok" else dict(k="query", key=key, st=st))

def digits(a):
    """base 1000, least significant first, no leading zeros (zero is [0]); [] for -1, [-1] for any other negative"""
    if a < 0:
        return [] if a == -1 else [-1]
    r = []
    while True:
        r.append(a % 1000)
        a //= 1000
        if a == 0:
            return r

def fam_far():
    R = rng("far", PART)
    # everything that has a number below 2^63
    top = {1: 10**6, 2: 10**6, 3: 10**6, 4: 27000, 5: 3000, 6: 700}
    for k in range(COUNT):
        d = R.choice(list(top))
        comp = R.random() < 0.5
        key = "far:%s:%d" % (PART, k)
        case(key)
        def go():
            s = R.randint(1, R.choice([3, 10, 40, 600, 2000, 46341, top[d]]))
            s = min(s, top[d])
            x = [[R.choice([R.randint(-s, s), s, -s, s - 1, 1 - s, 0]) for _ in range(d)] for _ in range(60)]
            n = [R.randint(2 * s + 1, 2 * s + 9)] * d
            a, _, _ = ask(R, x, n, comp)
            lim = max(0, R.choice(a) + R.randint(-1, 1))
            b, _, _ = ask(R, x, n, comp, lim)
            return dict(k="far", key=key, st="ok", d=d, comp=comp, x=x, num=[digits(v) for v in a],
                        lim=digits(lim), lnum=[digits(v) for v in b])
        st, r = attempt(go)
        emit(r if st == "ok" else dict(k="far", key=key, st=st))

for f in FAMILY.split(","):
    globals()["fam_" + f]()
done()
