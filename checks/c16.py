def run(ctx):
    ctx.build("_window", "_domain")
    q = ctx.quick
    ctx.model_check("FourierMC", "FourierMC.cfg" if q else "FourierMC36.cfg", workers=8)
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for fam, c in (("op", 60), ("delta", 30)):
            for part in range(3 if q else 5):
                jobs.append(dict(script="fourier_drv.py", n=n, shim=True, job="%s-%d-%d" % (fam, n, part), PMV_FAMILY=fam, PMV_PART=part,
                                 PMV_COUNT=c if q else 4 * c, timeout=300 if q else 700))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count(r["k"] if r["k"] != "transform" else r["from"] + ">" + r["to"])
    ctx.validate("FourierTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="random fields of all three kinds on meshes whose sides divide 12, every target kind, out of place, in given memory, in shared memory and in place, alone and in chains, on every process mesh of 1-4 (8) ranks, judged cell by cell against the exact transform; point sources on meshes of any size",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)", "half-stored spectra given to the inverse are Hermitian"])
