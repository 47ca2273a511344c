def run(ctx):
    ctx.build("_invariant")
    ctx.model_check("InvariantMC", "InvariantMC.cfg" if ctx.quick else "InvariantMC4.cfg")
    jobs = []
    for fam, parts, c in (("table", 1, 0), ("query", 4, 25 if ctx.quick else 250), ("far", 4, 60 if ctx.quick else 1500)):
        for part in range(parts):
            jobs.append(dict(script="invariant_drv.py", n=1, job="%s%d" % (fam, part), PMV_FAMILY=fam, PMV_PART=part, PMV_COUNT=c))
    recs = ctx.drive_many(jobs, par=8)
    for r in recs:
        ctx.count(r["k"])
    ctx.validate("InvariantTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="all modes of cubes in 1-4 dimensions (5 thorough); random queries with meshes of any size, limits, input types, shapes and strides; random far modes")
