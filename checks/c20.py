def run(ctx):
    ctx.STALL = 30
    ctx.build()
    q = ctx.quick
    for cfg in ["CoarrayMC.cfg", "CoarrayMCe.cfg", "CoarrayMC3.cfg"] + ([] if q else ["CoarrayMC23.cfg"]):
        ctx.model_check("CoarrayMC", cfg, workers=8)
    ctx.model_check("CoarrayHist", "CoarrayHistMC.cfg", workers=8)
    h4 = ctx.generate("CoarrayHist", "CoarrayGen4.cfg")
    jobs = []
    hs = [h4] if q else [h4, ctx.generate("CoarrayHist", "CoarrayGen3.cfg")]
    for a, h in enumerate(hs):
        every = 40 if q else 6
        for n, parts in ((2, 2), (3, 1), (1, 1)) if q else ((2, 3), (3, 2), (1, 1)):
            for p in range(parts):
                jobs.append(dict(script="coarray_drv.py", n=n, job="coah-%d-%d-%d" % (a, n, p), PMV_HIST=h, PMV_EVERY=every, PMV_PART=p, PMV_COUNT=0, timeout=300 if q else 800))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6, 8):
        for p in range(3 if q else 5):
            jobs.append(dict(script="coarray_drv.py", n=n, job="coar-%d-%d" % (n, p), PMV_PART=p, PMV_COUNT=150 if q else 1500, timeout=300 if q else 800))
    recs = ctx.drive_many(jobs, par=4 if q else 3)
    for r in recs:
        ctx.count("%s on %d images" % (r["fam"], r["P"]))
    ctx.validate("CoarrayTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="histories of queued reads, queued writes, local writes and partial or full synchronisations: those of length 4 of the co-array model (one in 40, thorough 1 in 2) and random ones, with random index expressions of equal shape, types and memory layouts",
                      assumptions=["indexed local and remote parts have the same shape; remote parts are addressed from the whole array",
                                   "operations of different images on the same cell in one synchronisation are not ordered",
                                   "a write of a part of the array itself may use its contents when queued or when synchronised"])
