"""Stand-in for the parts of a newer pfft-python that pmesh needs.

The installed pfft-python (0.1.12) has no LocalBuffer(partition, base=...), so no
pmesh field can be created with it.  This module replaces Partition, LocalBuffer
and Plan by simulations with PFFT's block distribution and memory layout (padded,
transposed; checked against the installed library by tools/shimtest.py).  A
transform gathers the whole mesh and uses numpy.fft.  Process meshes are the real
ones, so communicators are used up and released as with the library.

Misuse that makes the real library produce garbage is an error here: running an
in-place plan on two buffers or an out-of-place plan on one, or with flags that do
not agree with the partition.  Memory that was never written is NaN; a transform
that may destroy its input fills it with NaN."""
import numpy, pfft, weakref
from pfft import core
F, T, D = pfft.Flags, pfft.Type, pfft.Direction
R2C = {T.PFFT_R2C: ('f8', 'c16'), T.PFFTF_R2C: ('f4', 'c8')}
C2R = {T.PFFT_C2R: ('f8', 'c16'), T.PFFTF_C2R: ('f4', 'c8')}
C2C = {T.PFFT_C2C: ('c16', 'c16'), T.PFFTF_C2C: ('c8', 'c8')}

LIVE = weakref.WeakSet()

class ProcMesh(object):
    def __init__(self, np, comm=None):
        LIVE.add(self)
        np = [int(n) for n in np]
        size = 1
        for n in np:
            size *= n
        if size != comm.size:
            raise ValueError("process mesh %s does not match %d ranks" % (np, comm.size))
        self.comm = comm
        self.np = numpy.array(np, 'intp')
        self.ndim = len(np)
        self.rank = comm.rank
        # a 1-d mesh has no process mesh
        self._real = core.ProcMesh(np, comm=comm) if np else None
        self.this = numpy.array(self._real.this if np else [], 'intp')

def _blocks(n, p):
    b = -(-n // p)
    return [min(k * b, n) for k in range(p + 1)]

class Partition(object):
    def __init__(self, type, n, procmesh, flags):
        self.n = numpy.array(n, 'intp')
        self.ndim = d = len(self.n)
        self.procmesh, self.type, self.flags = procmesh, type, flags
        r = procmesh.ndim
        if r > d:
            raise ValueError("the process mesh has more dimensions than the mesh")
        self.real = type in R2C or type in C2R
        self.i_dtype, self.o_dtype = [numpy.dtype(t) for t in (R2C.get(type) or C2R.get(type) or C2C[type])]
        self.full3d = r == d and d > 0
        no = [int(m) for m in self.n]
        if self.real:
            no[-1] = no[-1] // 2 + 1
        self.no = numpy.array(no, 'intp')
        transposed = bool(flags & (F.PFFT_TRANSPOSED_OUT | F.PFFT_TRANSPOSED_IN)) and not self.full3d
        self.transposed = transposed
        this = [int(x) for x in procmesh.this]
        if self.full3d:
            # which block a rank has is not tied to its number: use another order
            # of the ranks here than row-major
            this = [int(x) for x in numpy.unravel_index(procmesh.rank, procmesh.np, order='F')]
        np = [int(x) for x in procmesh.np]
        # axis -> process mesh direction
        idir = {k: k for k in range(r)}
        odir = {(k + 1): k for k in range(r)} if transposed else idir
        def dist(n, adir):
            edges, start, shape = [], [], []
            for a in range(d):
                e = _blocks(int(n[a]), np[adir[a]] if a in adir else 1)
                c = this[adir[a]] if a in adir else 0
                edges.append(numpy.array(e, 'intp'))
                shape.append(e[c + 1] - e[c])
                # an empty block starts at 0
                start.append(e[c] if e[c + 1] > e[c] else 0)
            return edges, numpy.array(start, 'intp'), numpy.array(shape, 'intp')
        self.i_edges, self.local_i_start, self.local_i_shape = dist(self.n, idir)
        self.o_edges, self.local_o_start, self.local_o_shape = dist(self.no, odir)
        mem_i = [int(x) for x in self.local_i_shape]
        if self.real and flags & F.PFFT_PADDED_R2C:
            mem_i[-1] = 2 * no[-1]
        self.local_i_strides = self._strides(mem_i, range(d), self.i_dtype.itemsize)
        order = list(range(1, r + 1)) + [0] + list(range(r + 1, d)) if transposed else list(range(d))
        self.local_o_strides = self._strides([int(x) for x in self.local_o_shape], order, self.o_dtype.itemsize)
        self._mem_i = mem_i
        self.local_ni, self.local_no = self.local_i_shape, self.local_o_shape
        # enough for the input, and the output in either order
        size = 1
        for m in mem_i:
            size *= max(m, 1)
        size = size * self.i_dtype.itemsize // self.o_dtype.itemsize + 1
        for adir in (idir, {(k + 1): k for k in range(r)} if not self.full3d else idir):
            s = 1
            for a in range(d):
                e = _blocks(int(self.no[a]), np[adir[a]] if a in adir else 1)
                c = this[adir[a]] if a in adir else 0
                s *= max(e[c + 1] - e[c], 1)
            size = max(size, s)
        self.alloc_local = size + 4
    @staticmethod
    def _strides(shape, order, itemsize):
        st = [0] * len(shape)
        s = itemsize
        for a in reversed(list(order)):
            st[a] = s
            s *= max(shape[a], 1)
        return tuple(st)
    local_i_slice = property(lambda self: tuple(slice(s, s + n) for s, n in zip(self.local_i_start, self.local_i_shape)))
    local_o_slice = property(lambda self: tuple(slice(s, s + n) for s, n in zip(self.local_o_start, self.local_o_shape)))

class LocalBuffer(object):
    def __init__(self, partition, base=None):
        self.partition = partition
        if base is None:
            self._raw = numpy.empty(partition.alloc_local * partition.o_dtype.itemsize, 'u1')
            self._raw.view(partition.o_dtype)[...] = numpy.nan
        else:
            if base._raw.nbytes < partition.alloc_local * partition.o_dtype.itemsize:
                raise ValueError("the base is too small for the partition")
            self._raw = base._raw
    def __contains__(self, other):
        return self._raw is other._raw
    def _view(self, dtype, shape, strides):
        return numpy.ndarray(tuple(int(x) for x in shape), dtype, self._raw, 0, strides)
    def _input(self, p):
        return self._view(p.i_dtype, p.local_i_shape, p.local_i_strides)
    def _output(self, p):
        return self._view(p.o_dtype, p.local_o_shape, p.local_o_strides)
    def view_input(self):
        return self._input(self.partition)
    def view_output(self):
        return self._output(self.partition)
    def view_raw(self, type=None):
        return self._raw.view(type or self.partition.o_dtype)

def _assemble(comm, start, block, shape, dtype):
    full = numpy.full([int(x) for x in shape], numpy.nan, dtype)
    for s, b in comm.allgather((tuple(int(x) for x in start), numpy.ascontiguousarray(block))):
        full[tuple(slice(a, a + n) for a, n in zip(s, b.shape))] = b
    return full

class Plan(object):
    def __init__(self, partition, direction, bufferin, bufferout=None, type=None, flags=0):
        LIVE.add(self)
        bufferout = bufferin if bufferout is None else bufferout
        self.partition, self.direction, self.type, self.flags = partition, direction, type, flags
        self.inplace = bufferin in bufferout
        p = partition
        want = F.PFFT_TRANSPOSED_OUT if direction == D.PFFT_FORWARD else F.PFFT_TRANSPOSED_IN
        other = F.PFFT_TRANSPOSED_IN if direction == D.PFFT_FORWARD else F.PFFT_TRANSPOSED_OUT
        if bool(flags & want) != bool(p.flags & F.PFFT_TRANSPOSED_OUT) or flags & other:
            raise ValueError("plan and partition disagree about the transposed layout")
        if bool(flags & F.PFFT_PADDED_R2C) != bool(p.flags & F.PFFT_PADDED_R2C):
            raise ValueError("plan and partition disagree about padding")
        ok = type in ((R2C if direction == D.PFFT_FORWARD else C2R) if p.real else C2C)
        if ok:
            ok = numpy.dtype((R2C.get(type) or C2R.get(type) or C2C[type])[0]) == p.i_dtype
        if not ok:
            raise ValueError("plan and partition disagree about the type of transform")
    def execute(self, bufferin, bufferout=None):
        bufferout = bufferin if bufferout is None else bufferout
        p, comm = self.partition, self.partition.procmesh.comm
        if self.inplace != (bufferin in bufferout):
            raise RuntimeError("in-place plan run out of place, or the reverse")
        need = p.alloc_local * p.o_dtype.itemsize
        if bufferin._raw.nbytes < need or bufferout._raw.nbytes < need:
            raise RuntimeError("buffer too small for the plan")
        if self.direction == D.PFFT_FORWARD:
            x = _assemble(comm, p.local_i_start, bufferin._input(p), p.n, p.i_dtype)
            with numpy.errstate(all='ignore'):
                y = numpy.fft.rfftn(x.astype('f8')) if p.real else numpy.fft.fftn(x.astype('c16'))
            src, dst, sl = bufferin._input(p), bufferout._output(p), p.local_o_slice
        else:
            x = _assemble(comm, p.local_o_start, bufferin._output(p), p.no, p.o_dtype).astype('c16')
            tot = 1.0 * numpy.prod(p.n)
            with numpy.errstate(all='ignore'):
                y = (numpy.fft.irfftn(x, [int(m) for m in p.n]) if p.real else numpy.fft.ifftn(x)) * tot
            src, dst, sl = bufferin._output(p), bufferout._input(p), p.local_i_slice
        if self.inplace or self.flags & F.PFFT_DESTROY_INPUT:
            bufferin.view_raw(p.o_dtype)[...] = numpy.nan
        with numpy.errstate(all='ignore'):
            dst[...] = y[sl]

def install():
    for name in ("ProcMesh", "Partition", "LocalBuffer", "Plan"):
        setattr(pfft, name, globals()[name])
