import windowcommon
def run(ctx):
    return windowcommon.run(ctx, [("read", 700, 6000), ("transpose", 250, 2000)],
        rule="random exact readouts against rational arithmetic; painted unit mass = readout of every unit mesh for every window",
        assumptions=["the derivative of the linear window is unspecified exactly at its kinks"])
