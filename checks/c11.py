def run(ctx):
    ctx.STALL = 30
    ctx.build("_window", "_domain")
    q = ctx.quick
    ctx.model_check("PlanCache", "PlanCacheMC.cfg" if q else "PlanCacheMC3.cfg")
    h = ctx.generate("PlanCache", "PlanCacheGen5.cfg" if q else "PlanCacheGen6.cfg")
    jobs = []
    for n, parts in ((2, 2), (3, 1), (4, 1)) if q else ((1, 1), (2, 3), (3, 2), (4, 2), (6, 1)):
        for p in range(parts):
            jobs.append(dict(script="pmcache_drv.py", n=n, shim=True, job="pmcache-%d-%d" % (n, p), PMV_HIST=h, PMV_PART=p, PMV_NPART=parts if n < 4 or not q else 2,
                             timeout=400 if q else 800))
    recs = ctx.drive_many(jobs, par=2 if q else 2)
    for r in recs:
        ctx.count("%s on %d ranks" % (r["kind"], r["P"]))
    ctx.validate("PlanCacheTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="every operation history of the cache model (2 slots, 2 configurations that differ in one attribute, lingering garbage on any ranks) replayed with real mesh objects",
                      assumptions=["process meshes and plans of the simulated FFT layer stand for those of the library; communicators are real"])
