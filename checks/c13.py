def run(ctx):
    ctx.build("_window", "_domain")
    q = ctx.quick
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for fam, c in (("paint", 80), ("read", 80), ("serial", 40), ("resize", 60), ("resizeserial", 60)):
            for part in range(3 if q else 5):
                jobs.append(dict(script="paint_drv.py", n=n, shim=True, job="%s-%d-%d" % (fam, n, part), PMV_FAMILY=fam, PMV_PART=part,
                                 PMV_COUNT=c if q else 4 * c, timeout=300 if q else 700))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count(r["k"])
    ctx.validate("WindowTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="random periodic meshes (1-3 dims) on every process mesh of 1-4 (8) ranks, random particle ownership, all spline windows with derivatives, scales and masses, judged cell by cell against the exact window; tabulated windows against the single-process result; up/downsampling against the exact window at the exact coincident points",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)", "tabulated windows are compared with the serial result to 2^-17 of the largest value"])
