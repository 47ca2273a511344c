def run(ctx):
    ctx.STALL = 30
    ctx.build()
    q = ctx.quick
    ctx.model_check("Rotator", "RotatorMC.cfg" if q else "RotatorMC4.cfg", workers=8)
    jobs = []
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6, 8)):
        jobs.append(dict(script="tools_drv.py", n=n, job="tools-%d" % n, PMV_COUNT=200 if q else 1200, timeout=300 if q else 800))
    recs = ctx.drive_many(jobs, par=2)
    for r in recs:
        ctx.count("%s of %d" % (r["k"], r["size"]))
    ctx.validate("RotatorTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="turns of all ranks of communicators of 1-4 (8) ranks (whole, split and reversed), one or several times, with random delays and bodies that raise on some ranks: the order of all entries and exits; functions called on the root only, any arguments and results",
                      assumptions=["the monotonic clock is common to the processes of one host", "a function that raises on the root is unspecified"])
