"""Random mesh objects (the same on every rank) and exact recording of them."""
from rank import *
import numpy, pfft
from pmesh.pm import ParticleMesh, RealField, TransposedComplexField, UntransposedComplexField
P = world.size

def factors(n, k):
    if k == 1:
        return [[n]]
    return [[a] + r for a in range(1, n + 1) if n % a == 0 for r in factors(n // a, k - 1)]

def procmeshes(nd, size=None):
    """every process mesh for nd-dimensional meshes (None: the default)"""
    size = size or P
    out = [None, None]
    if nd == 1:
        return [None, [1]] if size == 1 else []
    # three-dimensional process meshes only decompose three-dimensional meshes here
    for k in range(1, min(nd, 3 if nd == 3 else 2) + 1):
        out += factors(size, k)
    return out

class Cfg:
    def __init__(self, R, maxn=6, nds=None, dtypes=('f8', 'f8', 'f8', 'f4', 'c16', 'c8'), maxcells=220, even=None, equal=None, full3d=True, lib=False):
        if lib:
            # the installed library has neither one-dimensional nor fully decomposed meshes
            nds, full3d = [2, 2, 3, 3], False
        nds = nds or ([1, 1, 2, 2, 3, 3, 3] if P == 1 else [2, 2, 3, 3, 3])
        self.nd = R.choice(nds)
        while True:
            if R.random() < 0.35 or equal:
                self.n = [R.randint(1, maxn)] * self.nd
            else:
                self.n = [R.randint(1, maxn) for _ in range(self.nd)]
            if even or (even is None and R.random() < 0.4):
                self.n = [max(2, x + x % 2) for x in self.n]
            if numpy.prod(self.n) <= maxcells and (self.n[-1] > 1 or R.random() < 0.1):
                break
        self.np = R.choice(procmeshes(self.nd))
        if not full3d and self.np is not None and len(self.np) == self.nd and self.nd > 1:
            self.np = None
        self.dtype = R.choice(dtypes)
        # cell lengths in quarters
        self.cell = [R.choice([1, 2, 4, 8, 12])] * self.nd if R.random() < 0.5 else [R.choice([1, 2, 4, 8, 12]) for _ in range(self.nd)]
        self.box = [a * c / 4.0 for a, c in zip(self.n, self.cell)]
    def make(self, comm=None, resampler='cic'):
        box = self.box
        if len(set(box)) == 1:
            box = box[0]
        kw = {} if comm is None and P > 1 and not SUB else dict(comm=comm or world)
        return ParticleMesh(Nmesh=self.n, BoxSize=box, np=self.np, dtype=self.dtype, resampler=resampler, **kw)
    def __str__(self):
        return "n%s np%s %s" % (self.n, self.np, self.dtype)

TYPES = dict(r=RealField, t=TransposedComplexField, u=UntransposedComplexField)

def fx(a, s):
    """fixed point, BADINT where not representable"""
    a = numpy.asarray(a)
    if numpy.iscomplexobj(a):
        bad = a.imag != 0
        a = numpy.where(bad, numpy.inf, a.real)
    with numpy.errstate(all='ignore'):
        a = numpy.rint(a.astype('f8') * s)
        a = numpy.where(numpy.isfinite(a) & (abs(a) < 2**31 - 2), a, BADINT)
    return a.astype('i8').ravel().tolist()
