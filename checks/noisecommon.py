def run(ctx, fams, rule, assumptions=(), parts=4, fields=0):
    ctx.build("_whitenoise", "_window", "_domain")
    ctx.model_check("WhiteNoiseMC", "WhiteNoiseMC.cfg" if ctx.quick else "WhiteNoiseMC7.cfg")
    jobs = []
    for fam, cq, ct in fams:
        for part in range(parts):
            jobs.append(dict(script="noise_drv.py", n=1, job="%s%d" % (fam, part), PMV_FAMILY=fam, PMV_PART=part,
                             PMV_COUNT=cq if ctx.quick else ct, timeout=300 if ctx.quick else 700))
    for n in ([1, 2, 3, 4] if ctx.quick else [1, 2, 3, 4, 5, 6, 8]) if fields else ():
        for part in range(1 if ctx.quick else 2):
            jobs.append(dict(script="nfield_drv.py", n=n, shim=True, job="nfield%d-%d" % (n, part), PMV_PART=part, PMV_COUNT=fields, timeout=300 if ctx.quick else 700))
    recs = ctx.drive_many(jobs, par=8)
    for r in recs:
        ctx.count(r["k"])
    ctx.validate("WhiteNoiseTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule=rule, assumptions=assumptions)
