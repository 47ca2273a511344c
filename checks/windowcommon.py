def run(ctx, fams, rule, assumptions=(), parts=4):
    """fams: list of (family, quick count, thorough count) per part"""
    ctx.build("_window")
    jobs = []
    for fam, cq, ct in fams:
        for part in range(parts if ctx.quick else 2 * parts):
            jobs.append(dict(script="window_drv.py", n=1, job="%s%d" % (fam, part), PMV_FAMILY=fam, PMV_PART=part,
                             PMV_COUNT=cq if ctx.quick else ct, timeout=300 if ctx.quick else 700))
    recs = ctx.drive_many(jobs, par=8)
    for r in recs:
        ctx.count(r["k"])
    ctx.validate("WindowTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule=rule, assumptions=assumptions)
