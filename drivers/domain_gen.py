"""Inputs for the decomposition checks, on an integer lattice (same on all ranks)."""
import itertools, numpy

def axis_edges(R, allow_empty=True, maxcells=5, Ls=(2, 4, 6, 8)):
    L = R.choice(Ls)
    n = R.randint(1, maxcells)
    inner = sorted(R.randint(0, L) for _ in range(n - 1))
    e = [0] + inner + [L]
    if not allow_empty:
        e = sorted(set(e))
    return e

def all_edges(L, maxcells):
    """every edge list over [0, L] with at most maxcells cells (repeats included)"""
    for n in range(1, maxcells + 1):
        for inner in itertools.combinations_with_replacement(range(L + 1), n - 1):
            yield [0] + list(inner) + [L]

def split(R, items, nr, how=None):
    """initial distribution of particles over ranks"""
    how = how or R.choice(["random", "one", "block", "last", "skip"])
    parts = [[] for _ in range(nr)]
    one = R.randrange(nr)
    for i, x in enumerate(items):
        if how == "random":
            r = R.randrange(nr)
        elif how == "one":
            r = one
        elif how == "block":
            r = i * nr // max(1, len(items))
        elif how == "last":
            r = nr - 1
        else:
            r = (i % nr) // 2 * 2 % nr
        parts[r].append(x)
    return parts

def assignment(R, nd, nr, how=None):
    how = how or R.choice(["default", "random", "perm", "one", "rev"])
    if how == "default":
        return None
    if how == "random":
        return [R.randrange(nr) for _ in range(nd)]
    if how == "one":
        return [nr - 1] * nd
    if how == "rev":
        return [nr - 1 - (i * nr // nd) for i in range(nd)]
    p = list(range(nr))
    R.shuffle(p)
    return [p[i % nr] for i in range(nd)]

def point(R, edges, per, far=True):
    x = []
    for e in edges:
        L = e[-1]; W = L - e[0]
        c = R.random()
        if c < 0.4:
            x.append(R.choice(e))
        elif c < 0.8 or not far:
            x.append(R.randint(e[0], L))
        else:
            x.append(R.randint(e[0] - 2 * W - 1, L + 2 * W + 1))
    return x

def smoothing(R, edges):
    c = R.random()
    if c < 0.25:
        return [0] * len(edges)
    if c < 0.5:
        s = R.randint(0, 3)
        return [s] * len(edges)
    return [R.randint(0, (e[-1] - e[0]) * (2 if R.random() < 0.3 else 1)) for e in edges]
