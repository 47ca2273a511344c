def run(ctx):
    ctx.build("_window", "_domain")
    ctx.model_check("MeshMC", "MeshMC.cfg" if ctx.quick else "MeshMC8.cfg")
    q = ctx.quick
    jobs = []
    for shim in (False, True):
        for n in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 8]):
            for part in range(3 if q else 5):
                jobs.append(dict(script="mesh_drv.py", n=n, shim=shim, job="mesh-%d-%d-%d" % (shim, n, part), PMV_PART="%s%d" % ("s" if shim else "l", part),
                                 PMV_COUNT=(50 if shim else 20) if q else (120 if shim else 60), timeout=300 if q else 700))
    recs = ctx.drive_many(jobs, par=3)
    for r in recs:
        ctx.count("%s on %d ranks" % (r["k"], r["P"]))
    ctx.validate("MeshTrace", recs, key=lambda r: r["key"])
    return ctx.finish(rule="random 1-3 dimensional meshes, even and odd, cubic or not, more ranks than planes, every process mesh of the rank count, with the installed FFT library and with the simulated one; random dyadic particles in and far outside the box",
                      assumptions=["coordinates are compared exactly where the cell length is dyadic; wavenumbers to 2/1024 of the fundamental"])
