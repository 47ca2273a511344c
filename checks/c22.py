def run(ctx):
    ctx.build("_window", "_domain", "_whitenoise")
    q = ctx.quick
    for c in ("LicMC.cfg", "LicMC0.cfg", "LicMC1.cfg"):
        ctx.model_check("LicMC", c, workers=8)
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for fam, c in (("lic", 90), ("same", 20)):
            for part in range(3 if q else 5):
                jobs.append(dict(script="lic_drv.py", n=n, shim=True, job="%s-%d-%d" % (fam, n, part), PMV_FAMILY=fam, PMV_PART=part,
                                 PMV_COUNT=c if q else 4 * c, timeout=300 if q else 800))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count(r["k"])
    ctx.validate("LicTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="random meshes, cells, process meshes of 1-4 (8) ranks, step sizes, lengths, kernels and integer vectors with the nearest and the linear window: every pixel against the exact line integral; arbitrary vectors and wider windows: the same image on several ranks as on one, and as with vectors normalized by the caller",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)", "the length of a step is taken along the vectors in units of BoxSize"])
