import windowcommon
def run(ctx):
    return windowcommon.run(ctx, [("agree", 400, 4000), ("conserve", 100, 2000), ("shift", 200, 2000), ("support", 100, 800), ("fwindow", 60, 400)],
        rule="random positions/transforms/layouts: tuned vs generic, totals, whole-cell shifts, axis permutations, support bounds of every window")
