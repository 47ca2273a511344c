"""mpirun -n N python shimtest.py: compares the simulated PFFT with the installed library
(layouts of every partition, and transforms) on this number of ranks."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import numpy, pfft
from pfft import core
import pfftshim as S
from mpi4py import MPI
c = MPI.COMM_WORLD
F = pfft.Flags
def meshes(n):
    yield [n]
    for a in range(1, n + 1):
        if n % a == 0:
            yield [a, n // a]
R = numpy.random.RandomState(3)
count = 0
for np in meshes(c.size):
    for nd in range(len(np) + 1, 5):
        for _ in range(4):
            n = [int(x) for x in R.randint(1 if nd < 4 else 2, 7, size=nd)]
            for typ, btyp in ((pfft.Type.PFFT_R2C, pfft.Type.PFFT_C2R), (pfft.Type.PFFT_C2C, pfft.Type.PFFT_C2C), (pfft.Type.PFFTF_R2C, pfft.Type.PFFTF_C2R)):
                for tr in (0, F.PFFT_TRANSPOSED_OUT):
                    pad = F.PFFT_PRESERVE_INPUT | F.PFFT_PADDED_R2C | F.PFFT_PADDED_C2R
                    rm, sm = core.ProcMesh(np, comm=c), S.ProcMesh(np, comm=c)
                    rp, sp = core.Partition(typ, n, rm, pad | tr), S.Partition(typ, n, sm, pad | tr)
                    rb, sb = core.LocalBuffer(rp), S.LocalBuffer(sp)
                    what = (np, n, typ, tr)
                    empty_i, empty_o = 0 in rp.local_i_shape, 0 in rp.local_o_shape
                    assert list(rp.local_i_shape) == list(sp.local_i_shape), what
                    assert list(rp.local_o_shape) == list(sp.local_o_shape), what
                    assert list(rp.local_i_start) == list(sp.local_i_start), (what, list(rp.local_i_start), list(sp.local_i_start))
                    assert list(rp.local_o_start) == list(sp.local_o_start), (what, list(rp.local_o_start), list(sp.local_o_start), list(rp.local_o_shape))
                    if not empty_i: assert rb.view_input().strides == sb.view_input().strides, what
                    if not empty_o: assert rb.view_output().strides == sb.view_output().strides, (what, rb.view_output().strides, sb.view_output().strides)
                    if 1 in n: continue
                    ro, so = core.LocalBuffer(rp), S.LocalBuffer(sp)
                    bf = F.PFFT_TRANSPOSED_IN if tr else 0
                    rf = core.Plan(rp, pfft.Direction.PFFT_FORWARD, rb, ro, typ, F.PFFT_ESTIMATE | pad | tr)
                    rv = core.Plan(rp, pfft.Direction.PFFT_BACKWARD, ro, rb, btyp, F.PFFT_ESTIMATE | pad | bf)
                    sf = S.Plan(sp, pfft.Direction.PFFT_FORWARD, sb, so, typ, F.PFFT_ESTIMATE | pad | tr)
                    sv = S.Plan(sp, pfft.Direction.PFFT_BACKWARD, so, sb, btyp, F.PFFT_ESTIMATE | pad | bf)
                    x = R.normal(size=n)
                    for b in (rb, sb): b.view_input()[...] = x[sp.local_i_slice]
                    rf.execute(rb, ro); sf.execute(sb, so)
                    assert numpy.allclose(ro.view_output(), so.view_output(), rtol=1e-4, atol=1e-4), what
                    assert numpy.allclose(sb.view_input(), x[sp.local_i_slice], atol=1e-6)
                    rv.execute(ro, rb); sv.execute(so, sb)
                    assert numpy.allclose(rb.view_input(), sb.view_input(), rtol=1e-3, atol=1e-3), what
                    count += 1
if c.rank == 0:
    print("ok: %d transforms on %d ranks agree" % (count, c.size))
