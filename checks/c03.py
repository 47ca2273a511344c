import domaincommon
def run(ctx):
    Q, T = (1, 2, 3, 4), (1, 2, 3, 4, 5, 6, 8)
    return domaincommon.run(ctx, [("gather", 1200, 4000, Q, T)],
        mc=[('LayoutMC', 'LayoutMC.cfg')] if ctx.quick else [('LayoutMC', 'LayoutMC.cfg'), ('LayoutMC', 'LayoutMC3.cfg')],
        rule="random layouts (including empty ranks and undelivered particles) x reduction x element type x trailing shape x memory order x output buffer")
