import windowcommon
def run(ctx):
    return windowcommon.run(ctx, [("paint", 700, 6000), ("product", 100, 1500), ("slope", 40, 400)],
        rule="random exact painting problems (window, support, per-particle scale, 1-4 dims, folding, mesh memory layout, input types) against rational arithmetic; tabulated windows by product structure and slope",
        assumptions=["the values of the tabulated (Lanczos, ACG, wavelet) kernels are taken from the code; only their structure is specified",
                     "the derivative of the linear window is unspecified exactly at its kinks"])
