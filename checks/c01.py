import domaincommon
def run(ctx):
    Q, T = (1, 2, 3, 4), (1, 2, 3, 4, 5, 6, 8)
    return domaincommon.run(ctx, [("decomp", 800, 6000, Q, T), ("decomp1d", 800, 6000, Q, T), ("bulk", 2, 10, Q, T), ("tiny", 15, 100, Q, T), ("wide", 25, 150, Q, T)],
        mc=[("UniMC", "UniMC.cfg")],
        rule="random 1-3d lattice grids and all 1-d edge lists over [0,4] with at most 4 cells x smoothing 0..9 x owner maps (a seeded subset in quick); grids with up to 70000 domains along an axis or up to 5 axes")
