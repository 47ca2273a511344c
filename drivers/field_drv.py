"""Replays histories of fields and records the contents of all of them."""
from pcase import *
import operator, warnings
warnings.simplefilter("ignore")
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
FAMILY = os.environ["PMV_FAMILY"]
HIST = os.environ.get("PMV_HIST")
EVERY = int(os.environ.get("PMV_EVERY", "1"))
LIMIT = 4000000
W = [1, 5, 25, 125]

def finish(st):
    bad = [s for s in gather(st) if s != "ok"]
    return bad[0] if bad else "ok"
def every(x):
    return all(gather(bool(x)))
def lin(i):
    return sum(w * x for w, x in zip(W, i))

class Stop(Exception):
    pass

class Hist:
    def __init__(self, R, key):
        self.R, self.key = R, key
        self.c = c = Cfg(R, maxn=4, nds=[1, 1, 2, 2, 3, 3, 3, 4] if P == 1 else [2, 2, 3, 3, 3, 4], maxcells=32)
        self.cplx = c.dtype[0] == 'c'
        half = list(c.n)
        if not self.cplx:
            half[-1] = half[-1] // 2 + 1
        self.sh = dict(r=list(c.n), t=half, u=half)
        self.F, self.K, self.steps = [], [], []
        self.tok = {}
        self.g = numpy.random.RandomState(R.randrange(2**31))
        self.pm = None
    def rec(self):
        return dict(k="hist", key=self.key, cfg=str(self.c), ranks=P, sh=self.sh, vol={k: int(numpy.prod(s)) for k, s in self.sh.items()}, steps=self.steps)
    # values
    def isc(self, k):
        return k != 'r' or self.cplx
    def vals(self, k, A=9):
        a = self.g.randint(-A, A + 1, size=self.sh[k])
        return a + 1j * self.g.randint(-A, A + 1, size=self.sh[k]) if self.isc(k) else a
    def code(self, x):
        x = float(x)
        if x == int(x) if numpy.isfinite(x) else False:
            if abs(x) <= LIMIT:
                return int(x)
        b = 'nan' if x != x else x
        return -2**30 - self.tok.setdefault(b, len(self.tok))
    def codes(self, a):
        a = numpy.asarray(a).ravel()
        re = [self.code(x) for x in a.real]
        im = [self.code(x) for x in a.imag] if numpy.iscomplexobj(a) else []
        return [re, im if any(im) else []]
    def arg(self, a):
        """descriptor of a number or global array"""
        re, im = self.codes(a)
        return dict(f=0, re=re, im=im)
    def fld(self, f):
        return dict(f=f + 1, re=[], im=[])
    def loc(self, k, a):
        """this rank's part of a global array"""
        for f, kk in zip(self.F, self.K):
            if kk == k and f is not None:
                return a[f.slices]
        return a[self.pm.create(TYPES[k]).slices]
    def snap(self):
        return [[[], []] if f is None else self.codes(glob(f)) for f in self.F]
    def step(self, st="ok", see=True, **kw):
        st = finish(st)
        d = dict(op="", kind="r", dst=0, fn="id", args=[], cells=[], res=[], resim=[], good=True, st=st, obs=[])
        d.update(kw)
        if st == "ok" and see:
            d["obs"] = self.snap()
        self.steps.append(d)
        if st != "ok":
            raise Stop
    def add(self, r, k):
        """a new field, or what should be one"""
        good = every(type(r) is TYPES[k] and r.pm is self.pm)
        if not good:
            self.steps.append(dict(op="drop", kind="r", dst=0, fn="id", args=[], cells=[], res=[], resim=[], good=False, st="WrongType", obs=[]))
            raise Stop
        self.F.append(r)
        self.K.append(k)
    def back(self, r, f, see=True):
        """the result of an in-place operation, which is (or shares the memory of) its target"""
        self.add(r, self.K[f])
        self.step(op="share", dst=f + 1, kind=self.K[f], see=see)
    def full(self):
        return len(self.F) >= 8
    def live(self, k=None):
        return [i for i, f in enumerate(self.F) if f is not None and (k is None or self.K[i] == k)]
    # operations
    def op_new(self, k=None, value=True):
        R = self.R
        k = k or R.choice("rrtu")
        name = dict(r=['real'], t=['complex', 'transposedcomplex'], u=['untransposedcomplex'])[k] + [TYPES[k]]
        how = R.choice(["array", "array", "array", "scalar", "none", "class"] + (["field"] if self.live(k) else [])) if value is True else value
        a, d = None, None
        if how == "array":
            a = self.vals(k)
            d = self.arg(a)
            a = self.loc(k, a)
            if R.random() < 0.3:
                a = numpy.asfortranarray(a)
        elif how == "scalar":
            a = R.choice([0, 1, 2.0, numpy.float32(3), -4])
            d = self.arg(a)
        elif how == "field":
            f = R.choice(self.live(k))
            a, d = self.F[f], self.fld(f)
        if how == "class":
            st, r = attempt(lambda: TYPES[k](self.pm))
        elif how == "none":
            st, r = attempt(lambda: self.pm.create(**{R.choice(["type", "type", "mode"]): R.choice(name)}))
        else:
            st, r = attempt(lambda: self.pm.create(R.choice(name), value=a))
        if finish(st) == "ok":
            self.add(r, k)
        if d is None:
            self.step(st, op="new", kind=k)
        else:
            self.step(st, op="elem", kind=k, fn="id", args=[d])
    def op_share(self, f, k=None):
        R = self.R
        k = k or R.choice([self.K[f]] * 3 + list("rtu"))
        v = R.random() < 0.3
        a = self.vals(k) if v else None
        if v:
            al = self.loc(k, a)
        st, r = attempt(lambda: self.pm.create(TYPES[k], base=self.F[f]._base, value=al if v else None) if v or R.random() < 0.7 else TYPES[k](self.pm, self.F[f]._base))
        if finish(st) == "ok":
            self.add(r, k)
        self.step(st, op="share", dst=f + 1, kind=k, see=not v)
        if v:
            self.step(op="elem", kind=k, dst=len(self.F), fn="id", args=[self.arg(a)])
    def op_copy(self, f):
        k = self.K[f]
        x = self.F[f]
        how = self.R.choice([lambda: x.copy(), lambda: x.copy(), lambda: x.cast(TYPES[k]), lambda: self.pm.create(TYPES[k], value=x), lambda: self.pm.create(TYPES[k], value=x.value),
                             lambda: +x, lambda: x.apply(lambda r, y: y), lambda: x.cast(type=dict(r='real', t='complex', u='untransposedcomplex')[k])])
        self.fresh(how, k, "id", [self.fld(f)])
    def fresh(self, how, k, fn, args, see=True):
        st, r = attempt(how)
        if finish(st) == "ok":
            self.add(r, k)
        self.step(st, op="elem", kind=k, fn=fn, args=args, see=see)
    def op_unary(self, f):
        x, k, R = self.F[f], self.K[f], self.R
        c = [("neg", lambda: -x), ("neg", lambda: numpy.negative(x)), ("conj", lambda: numpy.conj(x)), ("square", lambda: numpy.square(x)), ("id", lambda: numpy.positive(x))]
        if not self.isc(k):
            c += [("abs", lambda: abs(x)), ("abs", lambda: numpy.absolute(x)), ("whole", lambda: numpy.floor(x))]
        fn, how = R.choice(c)
        self.fresh(how, k, fn, [self.fld(f)])
    def other(self, f):
        """a second operand: (object, descriptor)"""
        R, k = self.R, self.K[f]
        how = R.choice(["field", "field", "field", "scalar", "array", "numpy"])
        if how == "field":
            g = R.choice(self.live(k))
            return self.F[g], self.fld(g), True
        if how == "scalar":
            v = R.choice([2, 3, -1, 0, 1.0])
            if self.isc(k) and R.random() < 0.3:
                v = v + 1j
            return v, self.arg(v), False
        if how == "numpy":
            v = R.choice([numpy.float64(2), numpy.int32(-3), numpy.float32(2)])
            return v, self.arg(v), False
        a = self.vals(k, 4)
        return self.loc(k, a), self.arg(a), False
    BIN = dict(add=(operator.add, numpy.add), sub=(operator.sub, numpy.subtract), mul=(operator.mul, numpy.multiply), max=(numpy.maximum,) * 2, min=(numpy.minimum,) * 2)
    def op_binary(self, f):
        R, x, k = self.R, self.F[f], self.K[f]
        y, d, isf = self.other(f)
        fn = R.choice(["add", "sub", "mul"] + ([] if self.isc(k) else ["max", "min"]))
        o = R.choice(self.BIN[fn])
        if R.random() < 0.3:
            self.fresh(lambda: o(y, x), k, fn, [d, self.fld(f)])
        else:
            self.fresh(lambda: o(x, y), k, fn, [self.fld(f), d])
    def op_inplace(self, f, fn=None):
        R, x, k = self.R, self.F[f], self.K[f]
        y, d, isf = self.other(f)
        fn = fn or R.choice(["add", "sub", "mul"])
        self.inplace(f, fn, y, d)
    def inplace(self, f, fn, y, d):
        R, x, k = self.R, self.F[f], self.K[f]
        u = self.BIN[fn][1]
        i = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul)[fn]
        how = R.choice([lambda: i(x, y), lambda: i(x, y), lambda: u(x, y, out=x), lambda: u(x, y, out=(x,)), lambda: u(x, y, x)])
        st, r = attempt(how)
        self.step(st, op="elem", kind=k, dst=f + 1, fn=fn, args=[self.fld(f), d])
        if not self.full():
            self.back(r, f)
    def op_out(self, f):
        """numpy.ufunc(f, y, out=g)"""
        R, x, k = self.R, self.F[f], self.K[f]
        y, d, isf = self.other(f)
        fn = R.choice(["add", "sub", "mul"])
        g = R.choice(self.live(k))
        o = self.F[g]
        if R.random() < 0.3:
            st, r = attempt(lambda: numpy.negative(x, out=o))
            self.step(st, op="elem", kind=k, dst=g + 1, fn="neg", args=[self.fld(f)])
        else:
            st, r = attempt(lambda: self.BIN[fn][1](x, y, out=o))
            self.step(st, op="elem", kind=k, dst=g + 1, fn=fn, args=[self.fld(f), d])
        if not self.full():
            self.back(r, g)
    def op_outarray(self, f):
        """into an array that is no field"""
        R, x, k = self.R, self.F[f], self.K[f]
        y, d, isf = self.other(f)
        a = numpy.empty_like(x.value)
        st, r = attempt(lambda: numpy.multiply(x, y, out=a))
        self.ask(st, "mul", [self.fld(f), d], k, a)
    def ask(self, st, fn, args, k, local, good=True):
        """records the answer, a local array for every local part"""
        al = gather((self.start(k), numpy.array(local) if st == "ok" else None))
        res = [[], []]
        if all(v is not None for _, v in al):
            if not all(isinstance(v, numpy.ndarray) and v.ndim == len(s) for s, v in al):
                good = False
            else:
                a = numpy.zeros(self.sh[k], 'c16')
                for s, v in al:
                    a[tuple(slice(b, b + n) for b, n in zip(s, v.shape))] = v
                res = self.codes(a)
        self.step(st, op="ask", kind=k, fn=fn, args=args, res=res[0], resim=res[1], good=good)
    def start(self, k):
        i = self.live(k)[0]
        return [int(x) for x in self.F[i].start]
    def op_compare(self, f):
        R, x, k = self.R, self.F[f], self.K[f]
        y, d, isf = self.other(f)
        fn = R.choice(["eq", "ne"] + ([] if self.isc(k) else ["lt", "ge"]))
        o = getattr(operator, fn)
        st, r = attempt(lambda: o(x, y))
        self.ask(st, fn, [self.fld(f), d], k, r, good=every(isinstance(r, numpy.ndarray)))
    def op_total(self, f):
        R, x, k = self.R, self.F[f], self.K[f]
        how = R.choice([lambda: numpy.sum(x), lambda: numpy.add.reduce(x, axis=None), lambda: numpy.sum(x[...]), lambda: numpy.asarray(x).sum()])
        st, r = attempt(how)
        t = sum(gather(r)) if finish(st) == "ok" else 0
        re, im = self.codes(numpy.array([t]))
        self.step(st, op="total", kind=k, args=[self.fld(f)], res=re, resim=im)
    def op_multi(self, f):
        x, k, R = self.F[f], self.K[f], self.R
        if self.isc(k) or len(self.F) > 6:
            return self.op_binary(f)
        if R.random() < 0.5:
            st, r = attempt(lambda: numpy.modf(x))
            fns = ["zero", "whole"]
        else:
            st, r = attempt(lambda: divmod(x, 3))
            fns = ["half", "mod"]
        if finish(st) != "ok":
            self.step(st, op="elem", kind=k, fn=fns[0], args=[self.fld(f)])
        self.add(r[0], k)
        self.step(op="elem", kind=k, fn=fns[0], args=[self.fld(f)], see=False)
        self.add(r[1], k)
        self.step(op="elem", kind=k, fn=fns[1], args=[self.fld(f)])
    def op_at(self, f):
        """unbuffered in-place addition at some elements"""
        x, k, R = self.F[f], self.K[f], self.R
        rows = R.sample(range(self.sh[k][0]), R.randint(1, self.sh[k][0]))
        cells = [int(c) for c in numpy.flatnonzero(numpy.isin(numpy.indices(self.sh[k])[0].ravel(), rows))]
        mine = numpy.array([q - int(x.start[0]) for q in rows if 0 <= q - int(x.start[0]) < x.shape[0]], dtype='intp')
        st, r = attempt(lambda: numpy.add.at(x, mine, 7))
        self.step(st, op="elem", kind=k, dst=f + 1, fn="add", args=[self.fld(f), self.arg(7)], cells=[c + 1 for c in cells], good=every(r is None))
    def somecells(self, k):
        n = int(numpy.prod(self.sh[k]))
        return sorted(self.R.sample(range(n), self.R.randint(1, min(n, 4))))
    def mine(self, f, cells):
        """local indices of those of the cells that are here"""
        x = self.F[f]
        co = numpy.array(numpy.unravel_index(cells, self.sh[self.K[f]])) - numpy.array(x.start).reshape(-1, 1)
        ok = ((co >= 0) & (co < numpy.array(x.shape).reshape(-1, 1))).all(axis=0)
        return tuple(co[:, ok])
    def op_set(self, f, cells=None):
        x, k, R = self.F[f], self.K[f], self.R
        how = R.choice(["index", "one", "one", "value", "whole", "scalar", "mask", "flat", "parts", "slice"]) if cells is None else "one"
        if how in ("index", "one", "value"):
            cells = self.somecells(k) if cells is None else cells
            if how == "one":
                cells = cells[:1]
            v = self.R.choice([5, -6, 7]) + (2j if self.isc(k) and R.random() < 0.5 else 0)
            m = self.mine(f, cells)
            whole = R.random() < 0.5
            def go():
                if how == "one":
                    for t in zip(*m):
                        if whole:
                            x[t] = v
                        else:
                            x[t[0]][t[1:]] = v
                elif how == "index":
                    x[m] = v
                else:
                    x.value[m] = v
            if how == "one" and len(self.sh[k]) == 1:
                def go():
                    for t in zip(*m):
                        x[t] = v
            st, _ = attempt(go)
            self.step(st, op="elem", kind=k, dst=f + 1, fn="id", args=[self.arg(v)], cells=[c + 1 for c in cells])
        elif how in ("whole", "scalar"):
            a = self.vals(k) if how == "whole" else 3
            al = self.loc(k, a) if how == "whole" else a
            def go():
                x[...] = al
            st, _ = attempt(go)
            self.step(st, op="elem", kind=k, dst=f + 1, fn="id", args=[self.arg(a)])
        elif how == "mask":
            b = glob(x)
            cells = [int(c) for c in numpy.flatnonzero(b.real.ravel() > 0)]
            if not cells:
                return
            def go():
                if k == 'r' and not self.cplx:
                    x[x > 0] = 4
                else:
                    x[x.value.real > 0] = 4
            st, _ = attempt(go)
            self.step(st, op="elem", kind=k, dst=f + 1, fn="id", args=[self.arg(4)], cells=[c + 1 for c in cells])
        elif how == "flat":
            a = self.vals(k)
            al = self.loc(k, a)
            def go():
                x.flat[...] = al.ravel()
            st, _ = attempt(go)
            self.step(st, op="elem", kind=k, dst=f + 1, fn="id", args=[self.arg(a)])
        elif how == "parts" and k != 'r':
            a = self.vals(k).real
            al = self.loc(k, a)
            part = R.choice(["setre", "setim"])
            plain = R.random() < 0.4
            def go():
                if plain:
                    x.plain[..., 0 if part == "setre" else 1] = al
                elif part == "setre":
                    x.real[...] = al
                else:
                    x.imag[...] = al
            st, _ = attempt(go)
            self.step(st, op="elem", kind=k, dst=f + 1, fn=part, args=[self.fld(f), self.arg(a)])
        else:
            ax = R.randrange(len(self.sh[k]))
            j = R.randrange(self.sh[k][ax])
            cells = [int(c) for c in numpy.flatnonzero(numpy.indices(self.sh[k])[ax].ravel() == j)]
            def go():
                l = j - int(x.start[ax])
                if 0 <= l < x.shape[ax]:
                    x[(slice(None),) * ax + (l,)] = 8
            st, _ = attempt(go)
            self.step(st, op="elem", kind=k, dst=f + 1, fn="id", args=[self.arg(8)], cells=[c + 1 for c in cells])
    def op_slabs(self, f):
        x, k, R = self.F[f], self.K[f], self.R
        how = R.choice(["twice", "plus", "lin", "zip", "keep", "copyto"])
        g = R.choice(self.live(k))
        y = self.F[g]
        args = [self.fld(f)]
        fn = how
        if how == "twice":
            def go():
                for s in x.slabs:
                    s *= 2
        elif how == "plus":
            def go():
                if R.random() < 0.5:
                    for s in x.slabs:
                        s[...] += lin(s.i)
                else:
                    for i, s in zip(x.slabs.i, x.slabs):
                        s[...] = s + lin(i)
        elif how == "lin":
            def go():
                for i, s in zip(x.slabs.i, x.slabs):
                    s[...] = 2 * s + lin(i)
        elif how == "zip":
            fn = "hyp"
            args = [self.fld(f), self.fld(g)]
            def go():
                for a, b in zip(x.slabs, y.slabs):
                    a[...] = a + 3 * b
        elif how == "copyto":
            fn = "id"
            args = [self.fld(g)]
            def go():
                for a, b in zip(x.slabs, y.slabs):
                    a[...] = b
        else:
            # an array made of the slabs is not the field
            fn = "id"
            def go():
                for s in x.slabs:
                    t = numpy.array(s)
                    t[...] = 99
                    u = s * 3
                    u[...] = 1
        st, _ = attempt(go)
        self.step(st, op="elem", kind=k, dst=f + 1, fn=fn, args=args)
    def op_apply(self, f, out=None):
        x, k, R = self.F[f], self.K[f], self.R
        out = out or R.choice(["new", "new", "inplace", "self", "other", "array", "value"])
        kind = R.choice(["index", "index", None, "relative" if k == 'r' else "circular"])
        if kind == "index":
            fn = "lin"
            func = lambda i, y: 2 * y + lin(i)
        else:
            fn, func = R.choice([("neg", lambda r, y: -y), ("twice", lambda r, y: y + y), ("zero", lambda r, y: 0), ("square", lambda r, y: y * y)])
        kw = {} if kind is None else dict(kind=kind)
        args = [self.fld(f)]
        if out == "new":
            if self.full():
                return
            return self.fresh(lambda: x.apply(func, **kw), k, fn, args)
        if out == "array":
            a = numpy.empty_like(x.value)
            if R.random() < 0.3:
                a = numpy.full(x.shape, 5, x.dtype)
            st, r = attempt(lambda: x.apply(func, out=a, **kw))
            return self.ask(st, fn, args, k, a, good=every(r is a))
        g = f if out in ("inplace", "self") else R.choice(self.live(k))
        o = Ellipsis if out == "inplace" else self.F[g]
        if out == "value":
            st, r = attempt(lambda: x.apply(func, out=self.F[g].value, **kw))
            return self.step(st, op="elem", kind=k, dst=g + 1, fn=fn, args=args)
        st, r = attempt(lambda: x.apply(func, out=o, **kw))
        self.step(st, op="elem", kind=k, dst=g + 1, fn=fn, args=args)
        if not self.full():
            self.back(r, g)
    def op_cast(self, f, g=None):
        """to the same kind, into the memory of another field"""
        x, k, R = self.F[f], self.K[f], self.R
        g = R.choice(self.live()) if g is None else g
        st, r = attempt(lambda: x.cast(TYPES[k], out=self.F[g]))
        if finish(st) == "ok":
            self.add(r, k)
        if self.K[g] == k:
            # shares the memory, then gets the values
            self.step(st, op="share", dst=g + 1, kind=k, see=False)
            self.step(op="elem", kind=k, dst=len(self.F), fn="id", args=[self.fld(f)])
        else:
            # the values are not defined when they lie in the memory written to
            self.step(st, op="share", dst=g + 1, kind=k, see=False)
            self.step(op="opaque", kind=k, dst=len(self.F))
    def op_transform(self, f, g=None, k2=None):
        """contents as the transform gives them; the rest stays what it was"""
        x, k, R = self.F[f], self.K[f], self.R
        if g is None and k2 is None and R.random() < 0.3:
            # in place
            k2 = R.choice([j for j in "rt" if j != k]) if k != 'r' else 't'
            if k != 'r':
                k2 = 'r'
            st, r = attempt(lambda: x.r2c(out=Ellipsis) if k == 'r' else x.c2r(out=Ellipsis))
            if finish(st) == "ok":
                self.add(r, k2)
            self.step(st, op="share", dst=f + 1, kind=k2, see=False)
            return self.step(op="opaque", kind=k2, dst=len(self.F))
        k2 = k2 or R.choice([j for j in "rtu" if j != k])
        direct = k == 'r' or k2 == 'r'
        def conv(**kw):
            if direct and R.random() < 0.5:
                if k == 'r':
                    if kw or k2 == 't':
                        return x.r2c(**kw)
                else:
                    return x.c2r(**kw)
            return x.cast(TYPES[k2], **kw)
        gs = [g] if g is not None else self.live(k2)
        if gs and (g is not None or R.random() < 0.5):
            g = R.choice(gs)
            o = self.F[g]
            st, r = attempt(lambda: conv(out=o))
            self.step(st, op="opaque", kind=k2, dst=g + 1)
            if not self.full():
                self.back(r, g)
        elif not self.full():
            st, r = attempt(lambda: conv())
            if finish(st) == "ok":
                self.add(r, k2)
            self.step(st, op="opaque", kind=k2, dst=0)
    def op_noise(self, f):
        R, k = self.R, self.K[f]
        if self.c.nd > 3:
            return          # not supported
        st, r = attempt(lambda: self.pm.generate_whitenoise(R.randrange(99) + 1, type=TYPES[k], base=self.F[f]._base))
        self.step(st, op="opaque", kind=k, dst=f + 1)
        if not self.full():
            self.back(r, f)
    def op_touch(self, f):
        """reading leaves everything alone"""
        x, k, R = self.F[f], self.K[f], self.R
        how = R.choice([lambda: x.ravel(), lambda: repr(x), lambda: numpy.array(x).fill(3), lambda: x.copy()[...].fill(2), lambda: x.cnorm() if k != 'r' else x.csum(),
                        lambda: [numpy.multiply(s, 0) for s in x.slabs], lambda: x.preview(), lambda: x.cgetitem([0] * len(self.sh[k])),
                        lambda: [z.fill(1) for z in self.pm.create_coords(TYPES[k])] and [z.fill(1) for z in self.pm.create_coords(TYPES[k], return_indices=True)]])
        if k == 'u' or k == 't':
            pass
        st, _ = attempt(how)
        self.step(st, op="ask", kind=k, fn="zero", args=[self.arg(0)], res=[0] * int(numpy.prod(self.sh[k])))
    def op_drop(self, f):
        if len(self.live()) < 2 or self.live(self.K[f]) == [f]:
            return
        self.F[f] = None
        self.step(op="drop", dst=f + 1)

OPS = dict(new=1, share=2, copy=2, unary=1, binary=3, inplace=3, out=2, outarray=1, compare=1, total=1, multi=1, at=1, set=4, slabs=3, apply=4, cast=1, transform=2, noise=0.3, touch=1, drop=1)
MAKES = ("new", "share", "copy", "unary", "binary", "multi", "cast")

def run(h, todo):
    case(h.key + ":" + str(h.c).replace(" ", ""))
    def go():
        h.pm = h.c.make()
    st, _ = attempt(go)
    if finish(st) != "ok":
        h.steps.append(dict(op="drop", kind="r", dst=0, fn="id", args=[], cells=[], res=[], resim=[], good=False, st=finish(st), obs=[]))
    else:
        try:
            todo(h)
        except Stop:
            pass
    if world.rank == 0:
        emit(h.rec())
    h.F = h.pm = None

def fam_hist():
    names = list(OPS)
    for k in range(COUNT):
        R = rng("hist", PART, P, k)
        def todo(h):
            h.op_new('r', "array")
            h.op_new(R.choice("tur"), "array")
            for _ in range(R.randint(5, 12)):
                o = R.choices(names, [OPS[x] for x in names])[0]
                if o in MAKES and h.full():
                    continue
                if o == "new":
                    h.op_new()
                else:
                    getattr(h, "op_" + o)(R.choice(h.live()))
        run(Hist(R, "hist:%d:%s:%d" % (P, PART, k)), todo)

def fam_enum():
    """histories of the model"""
    lines = [l for l in open(HIST)]
    off = rng("enum", PART, P).randrange(EVERY)
    for k in range(off, len(lines), EVERY):
        R = rng("enum", PART, P, k)
        ops = json.loads(lines[k])
        def todo(h):
            h.op_new('r', "array")
            h.op_new('t', "array")
            mp = [0, 0, 1]          # number in the model -> field
            for o in ops:
                a = mp[o["a"]] if o["a"] else None
                n = len(h.F)
                if o["op"] == "new":
                    h.op_new(o["k"], "none")
                elif o["op"] == "share":
                    h.op_share(a, o["k"])
                elif o["op"] == "copy":
                    h.op_copy(a)
                elif o["op"] == "neg":
                    h.fresh(lambda: -h.F[a], o["k"], "neg", [h.fld(a)])
                elif o["op"] == "trnew":
                    x = h.F[a]
                    st, r = attempt(lambda: x.cast(TYPES[o["k"]]))
                    if finish(st) == "ok":
                        h.add(r, o["k"])
                    h.step(st, op="opaque", kind=o["k"], dst=0)
                elif o["op"] == "add":
                    b = mp[o["b"]]
                    h.inplace(a, "add", h.F[b], h.fld(b))
                    continue
                elif o["op"] == "into":
                    b = mp[o["b"]]
                    x, y = h.F[a], h.F[b]
                    how = R.choice(["set", "slabs", "apply", "cast"])
                    def go():
                        if how == "set":
                            x[...] = y
                        elif how == "slabs":
                            for s, t in zip(x.slabs, y.slabs):
                                s[...] = t
                        elif how == "apply":
                            y.apply(lambda r, v: v, out=x)
                        else:
                            y.cast(TYPES[h.K[b]], out=x)
                    st, _ = attempt(go)
                    h.step(st, op="elem", kind=h.K[a], dst=a + 1, fn="id", args=[h.fld(b)])
                    continue
                elif o["op"] == "set":
                    n2 = int(numpy.prod(h.sh[h.K[a]]))
                    h.op_set(a, [(o["b"] - 1) * 7 % n2])
                    continue
                elif o["op"] == "tr":
                    h.op_transform(a, mp[o["b"]], h.K[mp[o["b"]]])
                    continue
                elif o["op"] == "drop":
                    h.F[a] = None
                    h.step(op="drop", dst=a + 1)
                    continue
                mp.append(n)
        run(Hist(R, "enum:%d:%s:%d" % (P, PART, k)), todo)

def fam_visits():
    for k in range(COUNT):
        R = rng("visits", PART, P, k)
        c = Cfg(R, maxn=6, nds=[1, 1, 2, 2, 3, 3, 3, 4] if P == 1 else [2, 2, 3, 3, 3, 4], maxcells=100)
        t = R.choice("rrtu")
        cplx = c.dtype[0] == 'c'
        kind = R.choice(["index", "relative", "relative", "absolute"] if t == 'r' else ["index", "wavenumber", "circular"])
        unit = [R.choice([1, 2, 3]) for _ in range(c.nd)]
        if R.random() < 0.3:
            unit = [unit[0]] * c.nd
        if t == 'r':
            c.box = [float(n * u) for n, u in zip(c.n, unit)]
        else:
            c.box = [2 * numpy.pi / u for u in unit]
        key = "visits:%d:%s:%d" % (P, PART, k)
        case(key + ":" + str(c).replace(" ", "") + t + kind)
        sh = list(c.n)
        if t != 'r' and not cplx:
            sh[-1] = sh[-1] // 2 + 1
        ids = (numpy.arange(numpy.prod(sh)) + 1).reshape(sh)
        via = R.choice(["apply", "apply", "apply", "slabs"])
        out = R.choice(["new", "inplace", "other", "same", "array", "arrayF"])
        p = R.choice([1, 2, 2])
        zero = R.choice([[], [], [1], [5]])
        # lengths in cells or modes
        def count(x):
            o = []
            for d, v in enumerate(x):
                v = numpy.asarray(v, 'f8')
                s = 1.0 if kind == "index" else 1.0 / unit[d] if kind in ("relative", "absolute", "wavenumber") else c.n[d] / (2 * numpy.pi)
                o.append(v * s)
            return o
        seen, norms = [], []
        good = [True]
        def see(x, y, key=None, nrm=True):
            co = count(x)
            v = numpy.asarray(y)
            if v.size == 0:
                return
            sh_ = v.shape
            b = [numpy.broadcast_to(numpy.rint(1000 * q), sh_).ravel() for q in co]
            for e in range(v.size):
                seen.append([int(v.ravel()[e].real)] + [int(q[e]) for q in b])
            if nrm and hasattr(x, 'normp') and kind in ("index", "relative", "wavenumber"):
                z = x.normp(p=p, zeromode=zero[0] if zero else None)
                norms.extend(int(q) for q in numpy.broadcast_to(numpy.rint(100 * z), sh_).ravel())
        def func(x, y):
            see(x, y)
            return y + sum((d + 1) * q for d, q in enumerate(count(x)))
        res = {}
        def go():
            pm = c.make()
            f = put(pm.create(TYPES[t]), ids)
            keep = f.copy()
            a = b = None
            if via == "slabs":
                it = f.slabs
                good[0] = good[0] and bool((numpy.array(it.Nmesh) == c.n).all() and numpy.allclose(it.BoxSize, c.box))
                form = R.choice(["x", "own"])
                if kind == "index":
                    if form == "x":
                        for i, s in zip(f.slabs.i, f.slabs):
                            see(i, s)
                    else:
                        for s in f.slabs:
                            see(s.i, s)
                else:
                    for x, s in zip(f.slabs.x, f.slabs):
                        x2 = x if form == "x" else s.x
                        if kind == "circular":
                            o = s if form == "own" else x
                            x2 = [ki * L / N for ki, L, N in zip(x2, o.BoxSize, o.Nmesh)]
                        see(x2, s)
                return pm, f, keep, f, None
            if out == "new":
                r = f.apply(func, kind=kind)
                good[0] = good[0] and type(r) is TYPES[t] and r.pm is pm and r is not f
                return pm, f, keep, r, f
            if out == "inplace":
                r = f.apply(func, kind=kind, out=Ellipsis)
                good[0] = good[0] and type(r) is TYPES[t] and r is f
                return pm, f, keep, r, None
            if out in ("other", "same"):
                o = pm.create(TYPES[t], value=77) if out == "other" else f
                r = f.apply(func, kind=kind, out=o)
                good[0] = good[0] and r is o
                return pm, f, keep, o, f if out == "other" else None
            o = numpy.zeros(f.shape, f.dtype, order='F' if out == "arrayF" else 'C')
            r = f.apply(func, kind=kind, out=o)
            good[0] = good[0] and r is o
            return pm, f, keep, pm.create(TYPES[t], value=o), f
        st, r = attempt(go)
        st = finish(st)
        rec = dict(k="visits", key=key, cfg=str(c), ranks=P, st=st, n=c.n, sh=sh, kind=kind, p=p, unit=[1] * c.nd if kind == "index" else unit, zero=zero, via=via, outform=out,
                   seen=sum(gather(seen), []), norms=sum(gather(norms), []), good=every(good[0]), writes=via == "apply", out=[], kept=True)
        rec["ntol"] = 1 + int(200 * sum(u * u * (n // 2 + 1) ** 2 for u, n in zip(rec["unit"], c.n)) * (1e-5 if c.dtype in ('f4', 'c8') else 1e-9))
        if len(rec["norms"]) != len(rec["seen"]):
            rec["norms"] = []
        if st == "ok":
            pm, f, keep, o, old = r
            rec["out"] = fixd(glob(o), 100) if not numpy.iscomplexobj(o.value) else [a if b == 0 else BADINT for a, b in zip(fixd(glob(o).real, 100), fixd(glob(o).imag, 100))]
            if old is not None:
                rec["kept"] = every((old.value == keep.value).all())
        if world.rank == 0:
            emit(rec)

globals()["fam_" + FAMILY]()
done()
