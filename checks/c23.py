def run(ctx):
    ctx.build("_domain", "_window")
    q = ctx.quick
    ctx.model_check("LegacyMC", "LegacyMC.cfg" if q else "LegacyMC8.cfg", workers=8)
    jobs = [dict(script="legacy_drv.py", n=0, job="tsc-%d" % p, PMV_FAM="tsc,bulk", PMV_PART=p, PMV_COUNT=100 if q else 600, timeout=300 if q else 800) for p in range(3 if q else 6)]
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 6)):
        for p in range(3 if q else 5):
            jobs.append(dict(script="legacy_drv.py", n=n, job="tf-%d-%d" % (n, p), PMV_FAM="tf,ps,coords,tscpm", PMV_PART=p, PMV_COUNT=60 if q else 300, timeout=300 if q else 800))
    recs = ctx.drive_many(jobs, par=5 if q else 4)
    for r in recs:
        ctx.count(r.get("fn", r["k"]))
    a = [r for r in recs if r["k"] in ("paint", "read")]
    ctx.validate("WindowTrace", a, key=lambda r: r["key"])
    ctx.validate("LegacyTrace", [r for r in recs if r["k"] not in ("paint", "read")], key=lambda r: r["key"])
    return ctx.finish(rule="every transfer function on random integer spectra, sides 2-8, every process mesh of 1-4 (6) ranks, mode by mode; shell averages; signed coordinates of every axis; the older quadratic painter and readout cell by cell, alone and in the older mesh class",
                      assumptions=["the installed FFT library is used as it is, on process meshes without empty blocks", "shells are chosen such that no mode lies on a boundary", "the sign of the Nyquist wavenumber is unspecified"])
