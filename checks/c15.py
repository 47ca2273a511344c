def run(ctx):
    ctx.build("_window", "_domain")
    q = ctx.quick
    ctx.model_check("ViewsMC", "ViewsMC2.cfg", workers=4)
    if not q:
        ctx.model_check("ViewsMC", "ViewsMC.cfg", workers=4)
        ctx.model_check("ViewsMC", "ViewsMC4.cfg", workers=4)
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for fam, c in (("ravel", 60), ("unravel", 60), ("preview", 50), ("transpose", 50)):
            for part in range(3 if q else 5):
                jobs.append(dict(script="view_drv.py", n=n, shim=True, job="%s-%d-%d" % (fam, n, part), PMV_FAMILY=fam, PMV_PART=part,
                                 PMV_COUNT=c if q else 4 * c, timeout=300 if q else 700))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count(r["k"])
    ctx.validate("ViewsTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="random fields of all kinds (1-3 dims) on every process mesh of 1-4 (8) ranks; flattening and rebuilding with every kind of buffer and any split over the ranks, previews with every axis selection and order, coordinate transposes with any permutation and box",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)"])
