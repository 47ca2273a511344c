import domaincommon
def run(ctx):
    Q, T = (1, 2, 3, 4), (1, 2, 3, 4, 5, 6, 8)
    q = ctx.quick
    return domaincommon.run(ctx, [("hist", 500, 3000, Q, T), ("bighist", 2, 6, Q, T), ("uniform", 40, 200, Q, T),
                                  ("tiny", 15, 100, Q, T), ("wide", 25, 150, Q, T), ("script", 200, 4000, (2, 3), (1, 2, 3, 4, 5))],
        mc=[("BalanceMC", "BalanceMC.cfg")] if q else [("BalanceMC", "BalanceMC.cfg"), ("BalanceMC", "BalanceMC6.cfg")],
        gen=("BalanceMC", "BalanceGen.cfg" if q else "BalanceGen3.cfg"),
        rule="TLC-enumerated and random histories of load / rebalance / primary test / decomposition over random grids; positions a rounding error below the period; inputs beyond one internal chunk; uniform grids over random boxes",
        assumptions=["lattice positions: every coordinate is an exactly represented dyadic multiple"])
