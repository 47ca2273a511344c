def run(ctx):
    ctx.build("_window", "_domain")
    q = ctx.quick
    for c in ("ResampleMC.cfg", "ResampleMC3.cfg") if q else ("ResampleMC8.cfg", "ResampleMC3.cfg", "ResampleMC4.cfg"):
        ctx.model_check("ResampleMC", c, workers=8)
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for part in range(3 if q else 5):
            jobs.append(dict(script="resample_drv.py", n=n, shim=True, job="rs-%d-%d" % (n, part), PMV_PART=part,
                             PMV_COUNT=150 if q else 600, timeout=300 if q else 700))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count(r["from"] + ">" + r["to"])
    ctx.validate("ResampleTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="random fields of all kinds resampled between random pairs of meshes (1-3 dims, odd and even sides, up, down, mixed and equal), between different process meshes and precisions, on 1-4 (8) ranks; every mode or cell judged against the exact resampling",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)", "real and complex meshes are not mixed", "half-stored source spectra are Hermitian"])
