import noisecommon
def run(ctx):
    return noisecommon.run(ctx, [("noise", 15, 150), ("wide", 8, 80)], fields=25 if ctx.quick else 150,
        rule="random meshes (1-3 dims, cubic or not, even and odd), random blocks, memory layouts and precisions against the whole spectrum, bit for bit; overlapping, conjugate and thin blocks of meshes of up to 600 per side; the noise of mesh objects of all kinds on every process mesh of 1-4 (8) ranks against the serial spectrum",
        assumptions=["one- and two-dimensional noise is Hermitian only up to FFT rounding", "mesh objects use a simulated FFT layer (no field can be created with the installed library)"])
