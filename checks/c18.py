def run(ctx):
    ctx.build("_window", "_domain")
    q = ctx.quick
    for c in ("ReduceMC.cfg", "ReduceMC3.cfg"):
        ctx.model_check("ReduceMC", c, workers=8)
    jobs = []
    for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
        for fam, c in (("reduce", 80), ("elements", 50), ("transform", 30), ("particles", 50), ("pairing", 30)):
            for part in range(3 if q else 5):
                jobs.append(dict(script="grad_drv.py", n=n, shim=True, job="%s-%d-%d" % (fam, n, part), PMV_FAMILY=fam, PMV_PART=part,
                                 PMV_COUNT=c if q else 4 * c, timeout=300 if q else 700))
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count(r["k"])
    for m, ks in (("ReduceTrace", ("reduce", "elements")), ("FourierTrace", ("transform",)), ("WindowTrace", ("paintsum", "readsum", "pairing"))):
        ctx.validate(m, [r for r in recs if r["k"] in ks], key=lambda r: r["key"])
    return ctx.finish(rule="random fields of all kinds on every process mesh of 1-4 (8) ranks: sums, means, inner products and norms with and without metric against the full mesh, bit-identical on all ranks; gradients of inner products and half-stored spectra element by element, of transforms against the exact transform, of painting and readout against the exact window and its derivatives; the transpose identity for tabulated windows",
                      assumptions=["the FFT layer is simulated (no field can be created with the installed library)", "the imaginary part of inner products of half-stored spectra is unspecified", "inner products of complex-valued configuration-space fields are not claimed"])
