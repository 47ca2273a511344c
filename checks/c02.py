import domaincommon
def run(ctx):
    Q, T = (1, 2, 3, 4), (1, 2, 3, 4, 5, 6, 8)
    return domaincommon.run(ctx, [("exch", 800, 3000, Q, T), ("experr", 150, 600, Q, T)],
        mc=[('LayoutMC', 'LayoutMC.cfg')] if ctx.quick else [('LayoutMC', 'LayoutMC.cfg'), ('LayoutMC', 'LayoutMC3.cfg')],
        rule="random layouts x element types x trailing shapes x memory orders x packing; every fault kind on every proper subset of ranks")
