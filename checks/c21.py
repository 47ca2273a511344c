def run(ctx):
    ctx.build("_domain", "_window")
    q = ctx.quick
    ctx.model_check("FourierMC", "FourierMC.cfg" if q else "FourierMC36.cfg", workers=8)
    jobs = []
    for nd in (1, 2, 3):
        for p in range(3 if q else 6):
            jobs.append(dict(script="cic_drv.py", n=0, job="cic-%d-%d" % (nd, p), PMV_FAM="cic", PMV_NDS=nd, PMV_PART="%d-%d" % (nd, p), PMV_COUNT=900 if q else 6000, timeout=300 if q else 800))
    jobs.append(dict(script="cic_drv.py", n=0, job="chunk", PMV_FAM="chunk", PMV_COUNT=2 if q else 10, timeout=300 if q else 800))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 6):
        for p in range(3 if q else 5):
            jobs.append(dict(script="cic_drv.py", n=n, job="lpm-%d-%d" % (n, p), PMV_FAM="legacy", PMV_PART=p, PMV_COUNT=60 if q else 400, timeout=300 if q else 800))
    recs = ctx.drive_many(jobs, par=5 if q else 4)
    for r in recs:
        ctx.count("%s %s" % (r["k"], r.get("which", "")) if r["k"] == "cic" else "older mesh class: " + r["k"])
    a = [r for r in recs if r["k"] != "transform"]
    ctx.validate("WindowTrace", a, key=lambda r: r["key"])
    ctx.validate("FourierTrace", [r for r in recs if r["k"] == "transform"], key=lambda r: r["key"])
    return ctx.finish(rule="the compiled and the array version of paint and readout on dyadic positions in 1-3 dimensions, any period, mode, transform and memory layout, and more particles than one chunk; the older mesh class on 1-4 (6) ranks, cell by cell and mode by mode",
                      assumptions=["rejecting a position whose only out-of-mesh cell has zero weight is optional", "the installed FFT library is used as it is, on process meshes without empty blocks"])
