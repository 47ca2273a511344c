"""Common code of the rank-side drivers.  Drivers only record; they never judge."""
import boot, os, sys, json, random, traceback
import numpy
from mpi4py import MPI
world = MPI.COMM_WORLD
SUB = os.environ.get("PMV_SUB") == "1"
if SUB:
    # the communicator under test is not the one of all processes: one process stands
    # aside, the others are numbered the other way round
    import atexit, time
    _w, _all = MPI.COMM_WORLD, MPI.COMM_WORLD.Dup()
    world = _w.Split(0 if _w.rank == 0 else 1, -_w.rank)
    def _aside():
        r = _all.Ibarrier()
        while not r.Test():
            time.sleep(0.01)
    if _w.rank == 0:
        _aside()
        sys.exit(0)
    atexit.register(_aside)
# the harness gathers its observations over its own communicator
hcomm = world.Dup()
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER == "quick"
_out = open(os.environ["PMV_OUT"], "w") if world.rank == 0 else None
_prog = os.environ["PMV_PROGRESS"] + ".%d" % world.rank
_n = [0]

def rng(*salt):
    return random.Random("%d/%s%s" % (SEED, "/".join(map(str, salt)), "/sub" if SUB else ""))

def case(label):
    """Announces the case about to run (read by the parent if we die or hang)."""
    _n[0] += 1
    with open(_prog, "w") as f:
        f.write("%d %s" % (_n[0], label))

def done():
    with open(_prog, "w") as f:
        f.write("%d finished" % _n[0])

def emit(rec):
    """rank 0 writes one record"""
    if _out is not None:
        _out.write(json.dumps(rec, separators=(",", ":"), default=_default) + "\n")
        _out.flush()

def _default(o):
    if isinstance(o, numpy.integer):
        return int(o)
    if isinstance(o, numpy.bool_):
        return bool(o)
    if isinstance(o, numpy.ndarray):
        return o.tolist()
    raise TypeError(type(o))

def gather(x, comm=None):
    """all ranks' values, on every rank"""
    return (comm or hcomm).allgather(x)

def attempt(f):
    """('ok', value) or (exception name, None); never raises"""
    try:
        return "ok", f()
    except Exception as e:
        if os.environ.get("PMV_DEBUG"):
            traceback.print_exc()
        return type(e).__name__, None

class Tokens:
    """Interns opaque byte strings as small integers, identically on all ranks
    (the tables of the ranks are merged by content)."""
    def __init__(self):
        self.t = {}
    def __call__(self, b):
        return self.t.setdefault(bytes(b), len(self.t))

def rows(a):
    """the rows of an array as byte strings"""
    a = numpy.asarray(a)
    return [numpy.ascontiguousarray(a[i]).tobytes() for i in range(len(a))]

def scaled(a, S):
    """exact integers a*S, or None where a*S is not an integer below 2**31"""
    a = numpy.asarray(a, dtype='f8') * S
    r = numpy.rint(a)
    bad = ~((a == r) & (abs(r) < 2**31 - 1))
    r = numpy.where(bad, 0, r)
    return r.astype('i8'), bad

BADINT = 2147480000      # recorded where an observation is not representable

def ints(a, S=1):
    r, bad = scaled(a, S)
    return numpy.where(bad, BADINT, r).tolist()
