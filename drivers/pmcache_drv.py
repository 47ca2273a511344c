"""Replays create/drop/collect histories of mesh objects and records what each
object is, what it shares and what is still alive."""
from meshgen import *
import gc, pfftshim
from pmesh.window import FindResampler
PART = int(os.environ.get("PMV_PART", "0"))
NPART = int(os.environ.get("PMV_NPART", "1"))
hists = [json.loads(l) for l in open(os.environ["PMV_HIST"])]
gc.disable()
me = world.rank
dup = world.Dup()
half = world.Split(me * 2 // P, me)
alt = world.Split(me % 2, me)
COMMS = dict(w=lambda: world, d=lambda: dup, h=lambda: half, a=lambda: alt,
             fh=lambda: world.Split(me * 2 // P, me), fa=lambda: world.Split(me % 2, -me), fw=lambda: world.Dup())

# communicators are never freed here, so a handle names one for good
HAND = {}
def members(c):
    return [int(x) for x in MPI.Group.Translate_ranks(c.group, list(range(c.size)), world.group)]

def themes(R):
    base = dict(n=R.choice([[4, 4, 4], [4, 6, 2], [3, 4, 5], [4, 4], [5, 4], [2, 6]]), box=8.0, dtype=R.choice(['f8', 'f4', 'c16']), np=None, comm='w', plan='estimate')
    nd = len(base["n"])
    def alter(**kw):
        return dict(base, **kw)
    kind = R.choice(["n", "n", "dtype", "dtype", "np", "box", "dup", "split", "fresh", "fresh", "plan", "ndim"])
    if kind == "n":
        m = list(base["n"]); d = R.randrange(nd); m[d] += R.choice([1, 2])
        other = alter(n=R.choice([m, base["n"][::-1]]) if base["n"][::-1] != base["n"] else m)
    elif kind == "dtype":
        other = alter(dtype=R.choice([t for t in ('f8', 'f4', 'c16', 'c8') if t != base["dtype"]]))
    elif kind == "np":
        opts = [q for q in procmeshes(nd) if q is not None]
        base["np"] = R.choice(opts + [None])
        other = alter(np=R.choice(opts))
    elif kind == "box":
        other = alter(box=R.choice([4.0, 16.0]))
    elif kind == "dup":
        other = alter(comm='d')
    elif kind == "split":
        base["comm"] = R.choice(['h', 'a', 'w'])
        other = alter(comm=R.choice([c for c in 'haw' if c != base["comm"]]))
    elif kind == "fresh":
        base["comm"] = R.choice(['fh', 'fa', 'fw'])
        other = alter(comm=R.choice(['fh', 'fa', 'fw']))
    elif kind == "plan":
        other = alter(plan='measure')
    else:
        other = alter(n=base["n"][:2] if nd == 3 else base["n"] + [3])
    return kind, [base, other]

def check_np(cfg, size):
    np = cfg["np"]
    if np is not None:
        return list(np)
    if len(cfg["n"]) >= 3:
        return [int(x) for x in pfft.split_size_2d(size)]
    return [size]

def fill(pm):
    f = pm.create(RealField)
    idx = numpy.zeros(f.shape, 'i8')
    for d in range(f.ndim):
        idx = idx * int(f.Nmesh[d]) + f.i[d]
    f[...] = idx + 1
    return f, idx

def works(pm):
    """a transform there and back with the object's own plans"""
    f, idx = fill(pm)
    c = f.r2c()
    z = c.cgetitem([0] * f.ndim) * float(f.csize)
    b = c.c2r()
    u = b.cast(UntransposedComplexField).c2r()
    ok = all(abs(numpy.asarray(x.value) - (idx + 1)).max(initial=0) < 0.01 for x in (b, u))
    return dict(zero=fx(numpy.real(z), 1)[0], back=bool(ok))

class History:
    def __init__(self, key, kind, cfgs, R):
        self.kind, self.cfgs, self.R = kind, cfgs, R
        self.res = {}
        self.slots, self.trash, self.steps, self.n = {}, [], [], 0
    def tok(self, o):
        # the creation that made this object, as far as we have seen
        if not hasattr(o, "_pmv"):
            o._pmv = self.n
        return o._pmv
    def create(self, s, c):
        self.n += 1
        cfg = self.cfgs[c - 1]
        via = "new"
        comm = None
        for t, (src, sc) in sorted(self.slots.items()):
            if cfg["plan"] != "estimate":
                continue
            if sc["comm"] == cfg["comm"] and sc["dtype"] == cfg["dtype"] and sc["np"] == cfg["np"] and (len(sc["n"]) == len(cfg["n"])) and self.R.random() < 0.4:
                via, source, comm, old = "reshape", src, src.comm, t
            elif sc["n"] == cfg["n"] and sc["dtype"] == cfg["dtype"] and sc["box"] == cfg["box"] and self.R.random() < 0.5:
                via, source, old = "respawn", src, t
        if comm is None:
            comm = COMMS[cfg["comm"]]()
        if via == "new":
            kw = dict(comm=comm)
            if cfg["comm"] == 'w' and not SUB and self.R.random() < 0.3:
                kw = {}
            res = self.R.choice(["cic", "tsc", "nnb", "pcs", "lanczos3", "db6"])
            if self.R.random() < 0.3:
                kw["resampler"] = FindResampler(res)
            elif self.R.random() < 0.3:
                res = "cic"
            else:
                kw["resampler"] = res
            pm = ParticleMesh(Nmesh=cfg["n"], BoxSize=cfg["box"], dtype=cfg["dtype"], np=cfg["np"] if comm.size == P else None, plan_method=cfg["plan"], **kw)
            self.res[s] = res
        elif via == "reshape":
            kw = dict(Nmesh=cfg["n"], BoxSize=cfg["box"])
            if cfg["n"] == [int(x) for x in source.Nmesh] and self.R.random() < 0.5:
                del kw["Nmesh"]
            if cfg["box"] == source.BoxSize[0] and self.R.random() < 0.5:
                del kw["BoxSize"]
            pm = source.reshape(**kw)
        else:
            pm = source.respawn(comm, np=cfg["np"] if comm.size == P else None)
        if via != "new":
            self.res[s] = self.res[old]
        self.slots[s] = (pm, cfg)
        w = FindResampler(self.res[s])
        p = pm.partition
        o = dict(n=[int(x) for x in pm.Nmesh], box=fx(pm.BoxSize, 4), dtype=numpy.dtype(pm.dtype).name, np=[int(x) for x in pm.np],
                 comm=bool(pm.comm == comm), members=members(pm.comm), pmembers=members(pm.procmesh.comm), pnp=[int(x) for x in pm.procmesh.np],
                 partn=[int(x) for x in p.n], partt=p.i_dtype.name, tok=self.tok(pm.procmesh),
                 plans=sorted({self.tok(v) for k, v in pm.plans.items() if isinstance(v, pfftshim.Plan)}),
                 wantn=cfg["n"], wantbox=fx([cfg["box"]] * len(cfg["n"]), 4), wantt=numpy.dtype(cfg["dtype"]).name,
                 wantnp=check_np(dict(cfg, np=cfg["np"] if comm.size == P else None), comm.size), wantm=members(comm), via=via,
                 win=int(pm.resampler == w or (pm.resampler.kind == w.kind and pm.resampler.support == w.support)),
                 wanth=HAND.setdefault(MPI._handleof(comm), len(HAND)))
        o.update(works(pm))
        o["sum"] = sum(range(1, int(numpy.prod(cfg["n"])) + 1))
        return o
    def drop(self, s, R):
        pm, cfg = self.slots.pop(s)
        if me % 2 in R:
            self.trash.append(pm)
        del pm
        gc.collect()
        return {}
    def collect(self, R):
        if me % 2 in R:
            self.trash.clear()
            gc.collect()
        return {}
    def live(self):
        return sorted({getattr(o, "_pmv", -1) for o in list(pfftshim.LIVE)})

def main():
    for k, h in enumerate(hists):
        if k % NPART != PART:
            continue
        R = rng("pmcache", P, k)
        kind, cfgs = themes(R)
        key = "pmcache:%d:%d:%s" % (P, k, kind)
        case(key)
        H = History(key, kind, cfgs, R)
        def go():
            out = []
            for op in h:
                o = H.create(op["s"], op["c"]) if op["op"] == "create" else H.drop(op["s"], op["R"]) if op["op"] == "drop" else H.collect(op["R"])
                o["live"] = H.live()
                out.append(o)
            # everything still held still works
            for s in sorted(H.slots):
                w = works(H.slots[s][0])
                w["sum"] = sum(range(1, int(numpy.prod(H.slots[s][0].Nmesh)) + 1))
                out[-1].setdefault("late", []).append(w)
            return out
        st, v = attempt(go)
        H.slots.clear(); H.trash.clear()
        gc.collect()
        end = H.live()
        al = gather((st, v, end))
        bad = [s for s, _, _ in al if s != "ok"]
        rec = dict(k="pmcache", key=key, st=bad[0] if bad else "ok", kind=kind, samecfg=cfgs[0] == cfgs[1], boxonly=kind == "box",
                   P=P, ops=h, fresh=kind == "fresh", cfgs=[str(c) for c in cfgs])
        if not bad:
            rec["rk"] = [v for _, v, _ in al]
            rec["end"] = [e for _, _, e in al]
        emit(rec)
    done()
main()
