def run(ctx):
    ctx.build("_window", "_domain")
    q = ctx.quick
    ctx.model_check("ElementMC", "ElementMC.cfg" if q else "ElementMC4.cfg", workers=8)
    jobs = [dict(script="item_drv.py", n=n, shim=True, job="items-%d-%d" % (n, part), PMV_PART=part, PMV_COUNT=150 if q else 900, timeout=300 if q else 700)
            for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]) for part in range(4 if q else 6)]
    recs = ctx.drive_many(jobs, par=4)
    for r in recs:
        ctx.count("%s %s" % (r["t"], "half" if r["half"] else "whole"))
    ctx.validate("ElementTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="sequences of reads and writes of whole elements, real and imaginary parts, any index (negative too), of real fields and both Fourier layouts, half and fully stored, on 1-4 (8) ranks; the whole mesh is compared afterwards",
                      assumptions=["only stored elements can be read", "what is returned for a write to an element that is not stored is unspecified"])
