"""Records turns of the ranks and functions called on the root."""
from rank import *
import warnings, time
warnings.simplefilter("ignore")
from pmesh.tools import Rotator, FromRoot
P = world.size
PART = os.environ.get("PMV_PART", "0")
COUNT = int(os.environ.get("PMV_COUNT", "20"))
now = lambda: time.clock_gettime_ns(time.CLOCK_MONOTONIC)

def comms(R):
    how = R.choice(["world", "dup", "split", "reverse"])
    if how == "world":
        return world, 0
    if how == "dup":
        return world.Dup(), 0
    if how == "reverse":
        return world.Split(0, -world.rank), 0
    color = world.rank % 2
    return world.Split(color, world.rank), color

class Boom(Exception):
    pass

def turns(k):
    R = rng("turns", PART, P, k)
    key = "turns:%d:%s:%d" % (P, PART, k)
    case(key)
    comm, color = comms(R)
    n = R.choice([1, 1, 2, 3])
    slow = [[R.random() * R.choice([0, 0, 1]) for _ in range(2 * P)] for _ in range(n)]
    ask = [[R.choice([0, 0, 0, 1]) for _ in range(P)] for _ in range(n)]
    again = R.random() < 0.5
    use = R.random() < 0.3
    ev, raised = [], []
    def go():
        rot = Rotator(comm)
        for t in range(n):
            if not again:
                rot2 = Rotator(comm)
            else:
                rot2 = rot
            time.sleep(slow[t][world.rank] * 0.004)
            try:
                with rot2:
                    ev.append((now(), t, comm.rank, 0))
                    time.sleep(slow[t][P + world.rank] * 0.004)
                    ev.append((now(), t, comm.rank, 1))
                    if ask[t][world.rank]:
                        raise Boom()
                raised.append(0)
            except Boom:
                raised.append(1)
        return comm.allreduce(comm.rank + 1) == comm.size * (comm.size + 1) // 2
    st, v = attempt(go)
    al = gather((st, bool(v), color, comm.rank, comm.size, ev, raised, [a[world.rank] for a in ask]))
    for c in sorted(set(a[2] for a in al)):
        m = sorted((a for a in al if a[2] == c), key=lambda a: a[3])
        bad = [a[0] for a in m if a[0] != "ok"]
        e = sorted(x for a in m for x in a[5])
        emit(dict(k="turns", key=key, st=bad[0] if bad else "ok", size=m[0][4], turns=n, ev=[list(x[1:]) for x in e],
                  raised=[a[6] for a in m], asked=[a[7] for a in m], usable=all(a[1] for a in m)))
    if comm is not world:
        comm.Free()

def fromroot(k):
    R = rng("fromroot", PART, P, k)
    key = "fromroot:%d:%s:%d" % (P, PART, k)
    case(key)
    comm, color = comms(R)
    times = R.choice([1, 1, 2])
    val = R.choice([None, 3, "a", [1, [2]], {"x": 1}, 2.5])
    calls, args = [], []
    def go():
        @FromRoot(comm)
        def f(a, b=0):
            calls.append(1)
            args.append((a, b))
            return (val, a, b)
        for t in range(times):
            # the root's arguments count
            r = f(10 * comm.rank + t, b=comm.rank + 5)
        return r
    st, v = attempt(go)
    al = gather((st, v, color, comm.rank, comm.size, len(calls), args == ([(t, 5) for t in range(times)] if comm.rank == 0 else [])))
    for c in sorted(set(a[2] for a in al)):
        m = sorted((a for a in al if a[2] == c), key=lambda a: a[3])
        bad = [a[0] for a in m if a[0] != "ok"]
        emit(dict(k="fromroot", key=key, st=bad[0] if bad else "ok", size=m[0][4], times=times, calls=[a[5] for a in m], args=all(a[6] for a in m),
                  want=json.dumps([val, times - 1, 5]), got=[json.dumps(list(a[1])) if isinstance(a[1], tuple) else "?" for a in m]))
    if comm is not world:
        comm.Free()

for k in range(COUNT):
    turns(k)
    if k % 3 == 0:
        fromroot(k)
done()
