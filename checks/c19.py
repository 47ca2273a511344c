def run(ctx):
    ctx.build("_window", "_domain", "_whitenoise")
    q = ctx.quick
    ctx.model_check("FieldMemMC", "FieldMemMC.cfg" if q else "FieldMemMC4.cfg", workers=8)
    h = ctx.generate("FieldMemMC", "FieldMemGen.cfg")
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for fam, c, e in (("hist", 60, 0), ("visits", 80, 0), ("enum", 0, 250)):
            for part in range(3 if q else 5):
                jobs.append(dict(script="field_drv.py", n=n, shim=True, job="%s-%d-%d" % (fam, n, part), PMV_FAMILY=fam, PMV_PART=part, PMV_HIST=h,
                                 PMV_EVERY=e if q else max(1, e // 10), PMV_COUNT=c if q else 5 * c, timeout=300 if q else 800))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count("%s on %d ranks" % (r["k"], r["ranks"]))
    ctx.validate("FieldMemTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="histories of create, share, copy, cast, operate, in-place, slab, apply, transform and drop steps over up to eight fields on every process mesh of 1-4 (8) ranks (those of length 3 of the memory model, one in 250 (25) per rank count, and random ones of length 5-12); every visit of applied functions and slab iterations with its coordinates",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)", "the contents seen through a field of another kind on the same memory are unspecified, but stay what they are",
                                   "results of operations that leave the integers are only required to stay what they are"])
