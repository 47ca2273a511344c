import noisecommon
def run(ctx):
    return noisecommon.run(ctx, [("scale", 12, 100), ("seeds", 5, 50), ("wide", 8, 80)],
        rule="pairs of even cubic sizes, bit for bit; the same waves of cubic meshes of up to 600 per side; neighbouring and repeated seeds in any order")
