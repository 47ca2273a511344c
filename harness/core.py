"""Shared machinery of all checks: build, run ranks, run TLC, judge, report.

A check never judges by itself: drivers only *record* what the real code did, as
ndjson records; TLC evaluates the records against a TLA+ specification and prints
one verdict per record (the set of violated clauses).  The parent compares the
set of verdicts with the committed list of known findings and reports.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPECS = os.path.join(ROOT, "specs")
DRIVERS = os.path.join(ROOT, "drivers")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
import glob
if not os.path.exists("/opt/veriftools/tla/CommunityModules-deps.jar"):
    TLAJARS = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))

import build as _build

class CheckError(Exception):
    """The check itself could not be carried out: neither held nor violated."""

NCPU = 8
LIGHT = float(os.environ.get("PMV_LIGHT", "0"))

class Ctx:
    def __init__(self, prop, tier=None, seed=None, only=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.only = only
        self.t0 = time.time()
        os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(ROOT, ".work"))
        self.ext = {}
        self.bad = []          # (key, clauses, record)
        self.counts = dict(states=0, transitions=0, traces=0, records=0)
        self.samples = []
        self.mc = []
        self.notes = []
        self.classes = {}

    quick = property(lambda self: self.tier == "quick")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, *names):
        try:
            self.ext = _build.build(names)
        except _build.BuildError as e:
            raise CheckError("the code under test does not build: " + str(e))
        self.log("built", ", ".join(names))

    def env(self, shim=False, **kw):
        e = dict(os.environ)
        e["PYTHONPATH"] = HERE + ":" + DRIVERS
        e["PMV_EXT"] = json.dumps(self.ext)
        e["PMV_SHIM"] = "1" if shim else "0"
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        for k, v in kw.items():
            e[k] = str(v)
        return e

    # ------------------------------------------------------- run real code
    def drive(self, script, n, job=None, shim=False, timeout=240, args=(), again=False, **env):
        """Runs drivers/<script> on n ranks; returns the records it wrote.

        A rank that dies or hangs inside a case yields a record with kind
        'died'/'hung' naming that case, which is itself a violation."""
        env0 = dict(env)
        job = job or "%s-n%d" % (os.path.splitext(script)[0], n)
        out = os.path.join(self.work, job + ".ndjson")
        prog = os.path.join(self.work, job + ".progress")
        errf = os.path.join(self.work, job + ".log")
        cmd = [sys.executable, os.path.join(DRIVERS, script)] + list(args)
        if n >= 1 and env.pop("MPIRUN", True):
            cmd = ["mpirun", "-n", str(n + (env.get("PMV_SUB") == "1"))] + cmd
        e = self.env(shim, PMV_OUT=out, PMV_PROGRESS=prog, TMPDIR=self.work, **env)
        with open(errf, "w") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=e, cwd=self.work, start_new_session=True)
            status = self._watch(p, prog, n, timeout)
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        try:
                            recs.append(json.loads(line))
                        except ValueError:
                            if status is None:
                                raise CheckError("unreadable record in " + out)
        if status:
            case = None
            for r in range(max(n, 1)):
                f = prog + ".%d" % r
                if os.path.exists(f):
                    c = open(f).read().strip()
                    if c:
                        case = c if case is None else max(case, c, key=lambda s: int(s.split(" ", 1)[0]))
            tail = open(errf).read()[-2500:]
            if case is None and not again:
                # never got to the code under test (mpirun itself may fail to start)
                self.log("%s: %s before its first case; once more" % (job, status))
                time.sleep(5)
                for f in [out] + glob.glob(prog + ".*"):
                    if os.path.exists(f):
                        os.remove(f)
                return self.drive(script, n, job=job, shim=shim, timeout=timeout, args=args, again=True, **env0)
            if case is None:
                raise CheckError("%s on %d ranks %s before its first case:\n%s" % (script, n, status, tail))
            idx, label = case.split(" ", 1)
            self.bad.append(dict(key="%s:%s:%s" % (self.prop, status, label), clauses=[status],
                                 record=dict(job=job, case=label, log=tail)))
            self.log("%s: %s during case %s" % (job, status, label))
        return recs

    # a case that makes no progress for this long is stuck (cases take well under a second)
    STALL = 25 if LIGHT else 75

    def _watch(self, p, prog, n, timeout):
        t0 = last = time.time()
        seen = None
        while True:
            try:
                return None if p.wait(0.05 if time.time() - t0 < 5 else 0.3) == 0 else "died"
            except subprocess.TimeoutExpired:
                pass
            now = []
            for r in range(max(n, 1)):
                try:
                    now.append(os.stat(prog + ".%d" % r).st_mtime_ns)
                except OSError:
                    now.append(0)
            if now != seen:
                seen, last = now, time.time()
            if time.time() - last > self.STALL or time.time() - t0 > timeout:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "hung"

    def drive_many(self, jobs, par=4):
        """jobs: list of kwargs dicts for drive(); run concurrently."""
        if LIGHT:
            # a tool for the author (tools/automut.py): a fraction of the cases
            seen, some = set(), []
            for kw in jobs:
                k = (kw["script"], kw.get("PMV_FAMILY"), kw.get("PMV_FAM"), kw.get("PMV_NDS"), kw["n"])
                if kw["n"] in (0, 1, 3) and k not in seen:
                    seen.add(k)
                    some.append(dict(kw, timeout=100))
                    if "PMV_COUNT" in kw:
                        some[-1]["PMV_COUNT"] = max(1, int(kw["PMV_COUNT"] * LIGHT))
                    if "PMV_EVERY" in kw:
                        some[-1]["PMV_EVERY"] = int(kw["PMV_EVERY"] / LIGHT)
                    if "PMV_NPART" in kw:
                        some[-1]["PMV_NPART"] = int(kw["PMV_NPART"] / LIGHT)
            jobs = some
        else:
            # every family once more on a communicator that is not the one of all processes
            seen = {}
            for kw in jobs:
                k = (kw["script"], kw.get("PMV_FAMILY"), kw.get("PMV_FAM"), kw.get("PMV_NDS"), kw.get("PMV_COUNT") == 0)
                if kw["n"] in (2, 3) and (k not in seen or seen[k]["n"] < kw["n"]):
                    seen[k] = kw
            for kw in seen.values():
                kw = dict(kw, job=kw["job"] + "-sub", PMV_SUB="1")
                if "PMV_COUNT" in kw:
                    kw["PMV_COUNT"] = (kw["PMV_COUNT"] + 1) // 2
                for k in ("PMV_EVERY", "PMV_NPART"):
                    if k in kw:
                        kw[k] *= 2
                jobs = jobs + [kw]
        def one(kw):
            # once several jobs are stuck or dead the verdict is settled
            if sum(1 for b in self.bad if b["clauses"] in (["hung"], ["died"])) >= 3:
                self.log("skipped", kw.get("job"))
                return []
            return self.drive(**kw)
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, jobs))
        return [r for rs in res for r in rs]

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=1, timeout=800, mem="2g", extra=()):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-Xmx" + mem, "-Xss64m",
               "-Djava.io.tmpdir=" + meta,
               "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            raise CheckError("TLC %s timed out\n%s" % (module, out[-1500:]))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return p.returncode, out, gen, dist

    def model_check(self, module, cfg=None, workers=4, timeout=800, mem="4g", env=None, expect_ok=True, extra=()):
        """Exhaustive TLC run of a design model; must succeed (a failing model is
        an error of this framework, not of the code)."""
        cfg = cfg or module + ".cfg"
        if LIGHT:
            return ""
        t = time.time()
        rc, out, gen, dist = self._tlc(module + ".tla", cfg, env=env, workers=workers, timeout=timeout, mem=mem, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s/%s: TLC rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
        self.counts["states"] += dist
        self.counts["transitions"] += gen
        self.mc.append(dict(model=module, cfg=cfg, states=dist, transitions=gen, wall_s=round(time.time() - t, 1)))
        self.log("TLC %s %s: %d distinct states, %d generated" % (module, cfg, dist, gen))
        return out

    def generate(self, module, cfg, timeout=300, workers=4):
        """Behaviours enumerated by TLC: the model prints "H <json>" per behaviour.
        Returns the file with one JSON behaviour per line, for the drivers to replay."""
        old = "/tmp/pmv-light-%s-%s.hist" % (module, cfg)
        if LIGHT and os.path.exists(old):
            return old
        rc, out, gen, dist = self._tlc(module + ".tla", cfg, workers=workers, timeout=timeout, mem="4g")
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("generator %s/%s: TLC rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
        hs = sorted({json.loads(l)[2:] for l in out.splitlines() if l.startswith('"H ')})
        if not hs:
            raise CheckError("generator %s/%s produced nothing" % (module, cfg))
        fn = os.path.join(self.work, cfg + ".hist")
        with open(fn, "w") as f:
            f.write("\n".join(hs) + "\n")
        if LIGHT:
            shutil.copy(fn, old)
        self.counts["states"] += dist
        self.counts["transitions"] += gen
        self.mc.append(dict(model=module, cfg=cfg, states=dist, transitions=gen, behaviours_generated=len(hs)))
        self.log("TLC %s %s: %d behaviours generated for replay" % (module, cfg, len(hs)))
        return fn

    def validate(self, module, records, cfg=None, chunks=3 if LIGHT else NCPU, key=None, env=None, timeout=800, mem="2g", per_chunk_min=1):
        """Checks every record against a trace specification.

        The specification prints <<"V", i, S>> for record i, S being the set of
        violated clauses.  Anything but exactly one verdict per record is an error."""
        if not records:
            return []
        cfg = cfg or module + ".cfg"
        nch = max(1, min(chunks, len(records) // per_chunk_min))
        parts = [records[i::nch] for i in range(nch)]
        def one(ip):
            # values far outside what the specification's (32 bit) arithmetic takes, as NaN and
            # infinity are recorded, make the evaluation of a record fail: such a record is
            # rejected and the evaluation goes on behind it
            i, part = ip
            done, gen, dist, fails = [], 0, 0, 0
            while part:
                vs, g, d, stuck = run1("%s-%d" % (i, fails), part)
                done += vs
                gen += g
                dist += d
                if stuck is None:
                    break
                done.append((part[len(vs)], ["shape" if "Overflow" not in stuck and "2147480000" not in json.dumps(part[len(vs)]) else "representable"]))
                self.log("%s: record %s cannot be evaluated: %s" % (module, part[len(vs)].get("key"), stuck))
                part = part[len(vs) + 1:]
                fails += 1
                if fails == 8:
                    break
            return done, gen, dist
        def run1(i, part):
            fn = os.path.join(self.work, "%s-%s-%d.ndjson" % (module, i, id(part)))
            with open(fn, "w") as f:
                for r in part:
                    f.write(json.dumps(r) + "\n")
            e = dict(env or {}, TRACE=fn)
            rc, out, gen, dist = self._tlc(module + ".tla", cfg, env=e, workers=1, timeout=timeout, mem=mem)
            verd = {}
            # strip prefix noise; verdict values may span lines
            for m in re.finditer(r'<<\s*"V",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
                cl = re.findall(r'"([^"]*)"', m.group(2))
                k = int(m.group(1))
                # an evaluation that fails is repeated by TLC, with the same verdicts
                if verd.setdefault(k, cl) != cl:
                    raise CheckError("%s: contradicting verdicts" % module)
            n = len(verd)
            if rc == 0 and "No error has been found" in out and sorted(verd) == list(range(1, len(part) + 1)):
                return [(part[k - 1], verd[k]) for k in sorted(verd)], gen, dist, None
            # a record of another shape than the clauses take (a list too short, a number where a
            # sequence belongs) is likewise not a behaviour of the specification
            why = re.search(r"(Overflow when computing[^\n]*|(?:[Aa]ttempted to|not in the domain of|out of bounds|no element that satisf)[^\n]*)", out)
            if not why and n < len(part) and "2147480000" in json.dumps(part[n]):
                why = re.search(r"Error: ([^\n]*)", out)
            if why and n < len(part) and sorted(verd) == list(range(1, n + 1)):
                return [(part[k - 1], verd[k]) for k in sorted(verd)], gen, dist, why.group(1)
            ctxr = json.dumps(part[n])[:1500] if n < len(part) else ""
            raise CheckError("trace validation %s: rc=%d, %d verdicts for %d records\n%s\nnext record: %s"
                             % (module, rc, n, len(part), out[-2500:], ctxr))
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, enumerate(parts)))
        n = 0
        out = []
        for vs, gen, dist in res:
            self.counts["transitions"] += gen
            self.counts["states"] += dist
            for rec, cl in vs:
                n += 1
                out.append((rec, cl))
                if cl:
                    self.bad.append(dict(key=(key(rec) if key else rec.get("key", "?")), clauses=sorted(cl), record=rec))
        self.counts["traces"] += n
        self.counts["records"] += n
        for rec, cl in out[: 2]:
            if len(self.samples) < 6:
                s = json.dumps(rec)
                self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")
        self.log("TLC %s: %d recorded behaviours validated, %d rejected" % (module, n, sum(1 for _, c in out if c)))
        return out

    def count(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n

    # --------------------------------------------------------------- report
    def finish(self, level="model_checking", rule="", assumptions=(), extra=None):
        known = load_known(self.prop)
        viol, kf = [], {}
        for b in self.bad:
            hit = None
            for k in known:
                if re.fullmatch(k["match"], b["key"]) and set(b["clauses"]) <= set(k.get("clauses", [])):
                    hit = k
                    break
            if hit:
                kf.setdefault(hit["id"], []).append(b)
            else:
                viol.append(b)
        if LIGHT:
            shutil.rmtree(self.work, ignore_errors=True)
            self.log("light: %d" % len(viol))
            return 1 if viol else 0
        os.makedirs(os.path.join(ROOT, ".replays"), exist_ok=True)
        for k in known:
            if k["id"] in kf:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        seen = {}
        for b in viol:
            sig = (tuple(b["clauses"]), b["key"].rsplit(":", 1)[0])
            seen.setdefault(sig, []).append(b)
        for n, (sig, bs) in enumerate(list(seen.items())[:8]):
            rp = os.path.join(ROOT, ".replays", "%s-%d.json" % (self.prop, n))
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, clauses=bs[0]["clauses"], key=bs[0]["key"],
                               similar=len(bs), record=bs[0]["record"],
                               rerun="VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (self.seed, self.tier, self.prop)), f, indent=1)
            print("  clauses %s, case %s (%d similar)" % (",".join(bs[0]["clauses"]), bs[0]["key"], len(bs)), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
        cov = dict(states=self.counts["states"], transitions=self.counts["transitions"],
                   traces_validated_against_impl=self.counts["traces"],
                   samples=self.samples, models=self.mc, rule=rule, case_classes=self.classes)
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", self.prop + ".json"))
        if os.environ.get("PMV_KEEP") != "1":
            shutil.rmtree(self.work, ignore_errors=True)
        self.log("%s: %d violation(s), %d known" % ("FAIL" if viol else "ok", len(viol), sum(map(len, kf.values()))))
        return 1 if viol else 0

def load_known(prop):
    fn = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "open":
                    out.append(k)
    return out

def main():
    import importlib
    prop = sys.argv[1]
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    ctx = Ctx(prop)
    try:
        mod = importlib.import_module(prop.lower())
        rc = mod.run(ctx)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), flush=True)
        # a violation already established stays reported even if a later stage failed
        rc = 1 if ctx.bad and ctx.finish(rule="aborted: " + str(e)[:200]) == 1 else 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

if __name__ == "__main__":
    main()
