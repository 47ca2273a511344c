def run(ctx, fams, rule, assumptions=(), mc=(), gen=None):
    """fams: list of (family, quick count, thorough count, quick ranks, thorough ranks)"""
    ctx.build("_domain")
    for m in mc:
        ctx.model_check(*m)
    hist = ctx.generate(*gen) if gen else ""
    jobs = []
    for fam, cq, ct, rq, rt in fams:
        for n in (rq if ctx.quick else rt):
            jobs.append(dict(script="domain_drv.py", n=n, job="%s%d" % (fam, n), PMV_FAMILY=fam, PMV_HIST=hist,
                             PMV_COUNT=cq if ctx.quick else ct, timeout=200 if ctx.quick else 700))
    recs = ctx.drive_many(jobs, par=4 if ctx.quick else 3)
    for r in recs:
        ctx.count(r["k"] + ("/%dr" % r["nr"]))
    ctx.validate("DomainTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule=rule, assumptions=assumptions)
