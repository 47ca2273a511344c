W = "pmesh/"
M = {
 "pcs_scale": (W + "_window_tuned_pcs.h", "* (XYZ[d] - IJK1[d])) * painter->scale[d]", "* (XYZ[d] - IJK1[d]))", ["C05", "C06", "C07"]),
 "pcs_idx": (W + "_window_tuned_pcs.h", "value += ACCESS3(_REd3, 2, 3, 1);", "value += ACCESS3(_REd3, 2, 1, 3);", ["C06", "C05", "C07"]),
 "tsc_w2": (W + "_window_tuned_tsc.h", "ACCESS2(_WRtPlus2, 2, 1)", "ACCESS2(_WRtPlus2, 1, 2)", ["C05", "C07"]),
 "vfactor": (W + "_window_generics.h", "window->vfactor == 1.0 && ", "", ["C05", "C06", "C07"]),
 "cic_wrap": (W + "_window_tuned_cic.h", "while(UNLIKELY(IJK1[d] < 0)) IJK1[d] += painter->Nmesh[d];", "if(UNLIKELY(IJK1[d] < 0)) IJK1[d] += painter->Nmesh[d];", ["C05", "C06"]),
 "shift": (W + "_window_imp.c", "info->shift = support / 2.0 - info->support / 2;", "info->shift = 0.5 * (info->support % 2);", ["C05", "C07"]),
 "diff2": (W + "_window_imp.c", "window->vfactor * window->vfactor;", "window->vfactor;", ["C05", "C07"]),
 "hsml_order": (W + "window.py", "hsml = _mkarr(hsml, len(pos), hsml.dtype)\n\n            if not hsml.flags.writeable:\n                hsml = hsml.copy()\n\n        if numpy.iscomplexobj(real):\n            real = real.real\n\n        _Res", "hsml = _mkarr(hsml.max(initial=1), len(pos), hsml.dtype)\n        if numpy.iscomplexobj(real):\n            real = real.real\n\n        _Res", ["C06"]),
 "bounds2": (W + "_window_generics.h", "if(UNLIKELY(0 > j || painter->size[1] <= j)) return 0;\n    ptrdiff_t ind = j", "if(UNLIKELY(0 > j || painter->size[1] < j)) return 0;\n    ptrdiff_t ind = j", ["C06"]),
 "acgdiff": (W + "_window_acg.h", "return factor * f / 3", "return factor * f * 1.02 / 3", ["C05"]),
 "symdiff": (W + "_window_wavelets.h", "return (f1 - f0) / 3.906250e-03;", "return (f1 - f0) / 3.90625e-03 * 1.01;", ["C05"]),
 "wn_neg": (W + "_whitenoise_generics.h", "sign == -1 ? self->Nmesh[2] - k : k", "k", ["C08"]),
 "wn_d1": (W + "_whitenoise_generics.h", "|| (ci < i && cj == j)", "", ["C08", "C09"]),
 "wn_nyq": (W + "_whitenoise_generics.h", "2 * k == self->Nmesh[2]", "0", ["C08", "C09"]),
 "wn_skip": (W + "_whitenoise_generics.h", "used ++;\n                    }", "used ++;\n                    }\n if(i == 3 && j == 1 && k == 2 && self->start[2] > 0) continue;", ["C08"]),
 "wn_order": (W + "_whitenoise_generics.h", "signs[0] = -1;\n            signs[1] = 1;", "signs[0] = 1;\n            signs[1] = -1;", ["C08"]),
 "wn_spiral": (W + "_whitenoise_generics.h", "for(i = 0; i < (Nmax + 1) / 2; i++) {", "for(i = (Nmax + 1) / 2 - 1; i >= 0; i--) {", ["C09", "C08"]),
 "wn_seedbits": (W + "_whitenoise_imp.c", "0x7fffffff * gsl_rng_uniform", "0xff * gsl_rng_uniform", ["C08", "C09"]),
 "inv_lim": (W + "_invariant_imp.c", "max_length1 = max_length - ind;", "max_length1 = max_length;", ["C10"]),
 "inv_lim2": (W + "_invariant_imp.c", "                if(max_length >= 0 && ind >= max_length) {\n                    return -1;\n                }\n                return ind;", "                return ind;", ["C10"]),
 "inv_half": (W + "_invariant_imp.c", "get_nbits(cmask & ~icapset)", "get_nbits(cmask)", ["C10"]),
 "inv_nyq": (W + "_invariant.pyx", "xi[d] > Nmesh[d] // 2 or", "xi[d] > Nmesh[0] // 2 or", ["C10"]),
 "inv_cmask1": (W + "_invariant_imp.c", "cmask1 |= (1 << ndim1) * ((cmask >> d) & 1);", "cmask1 |= (1 << d) * ((cmask >> d) & 1);", ["C10"]),
 "pc_dtype": (W + "pm.py", "tuple(np), dtype, plan_method, paddedflag)", "tuple(np), plan_method, paddedflag)", ["C11"]),
 "pc_np": (W + "pm.py", "tuple(np), dtype, plan_method, paddedflag)", "dtype, plan_method, paddedflag)", ["C11"]),
 "pc_plan": (W + "pm.py", "tuple(np), dtype, plan_method, paddedflag)", "tuple(np), dtype, paddedflag)", ["C11"]),
 "pc_comm": (W + "pm.py", "MPI._addressof(comm), comm.rank, comm.size,", "comm.rank, comm.size,", ["C11"]),
 "pc_local": (W + "pm.py", "if not all(hastemplate):", "if not any(hastemplate):", ["C11"]),
 "pc_strong": (W + "pm.py", "_pm_cache = WeakValueDictionary()", "_pm_cache = {}", ["C11"]),
 "pc_respawn": (W + "pm.py", "comm=comm,\n                            resampler=self.resampler,\n                            np=np)", "comm=comm,\n                            resampler=self.resampler,\n                            np=np if np is not None or comm.size != self.comm.size else self.np)", ["C11"]),
 "m_unravel": (W + "pm.py", "DomainAssign=DomainAssign)", "DomainAssign=None)", ["C12", "C13"]),
 "m_grid": (W + "pm.py", "id[...] *= self.Nmesh[i]", "id[...] *= self.Nmesh[i - 1]", ["C12"]),
 "m_start": (W + "pm.py", "source = coord + partition.local_i_start", "source = coord + self.plans['partitionU'].local_o_start", ["C12"]),
 "m_coordcache": (W + "pm.py", "return [ii.copy() for ii in i]", "return list(i)", ["C12"]),
 "co_drop": (W + "coarray.py", "if not op.done ]", "if not op.done and not ops ]", ["C20"]),
 "co_rev": (W + "coarray.py", "for op in ops: op.finish()", "for op in ops[::-1]: op.finish()", ["C20"]),
 "co_late": (W + "coarray.py", "self.buffer = numpy.copy(coa[localindex], order='C')", "self.buffer = numpy.copy(coa[localindex], order='K')", ["C20"]),
 "co_indices": (W + "coarray.py", "for index in recvindices[:-1]:", "for index in recvindices[:1]:", ["C20"]),
 "co_tag": (W + "coarray.py", "PUSH_TAG = 2", "PUSH_TAG = 1", ["C20"]),
 "co_once": (W + "coarray.py", "self.coa[self.localindex] = self.buffer", "self.coa[self.localindex] = self.buffer.astype('f4')", ["C20"]),
 "f_norm": (W + "pm.py", "out.value[...] *= numpy.prod(self.Nmesh ** -1.0)\n\n        return out", "out.value[...] *= float(self.Nmesh[0]) ** -self.ndim\n\n        return out", ["C16"]),
 "f_base": (W + "pm.py", "self = self.pm.create(type=type(self), value=self.value, base=out._base)", "out = self.pm.create(type=type(out), base=self._base)", ["C16"]),
 "f_ip": (W + "pm.py", "if isinstance(out, UntransposedComplexField):\n                plan = self.pm.plans['ipforwardU']", "if False:\n                plan = self.pm.plans['ipforwardU']", ["C16"]),
 "f_cast": (W + "pm.py", "tmp = self.pm.create(type=RealField, base=out._base)", "tmp = self.pm.create(type=RealField, base=self._base)", ["C16"]),
 "f_cast2": (W + "pm.py", "self.c2r(out=tmp).r2c(out=out)", "out[...] = self.c2r(out=tmp).r2c()[...]", ["C16"]),
 "f_unpad": (W + "pm.py", "self = self.pm.create(type=type(self), base=out._base, value=self.value)", "self = self.pm.create(type=TransposedComplexField, base=out._base, value=self.value)", []),
 "f_castbase": (W + "pm.py", "out.value[...] = self.value\n        if isinstance(self, BaseComplexField) and isinstance(out, RealField)", "out = self\n        if isinstance(self, BaseComplexField) and isinstance(out, RealField)", ["C16"]),
 "v_ravel": (W + "pm.py", "return mpsort.sort(self.flat, orderby=ind.flat, comm=self.pm.comm, out=out)", "return mpsort.sort(self.flat, orderby=numpy.ravel_multi_index(numpy.mgrid[self.slices], self.Nmesh).flat, comm=self.pm.comm, out=out)", []),
 "v_ravel2": (W + "pm.py", "ind = numpy.ravel_multi_index(numpy.mgrid[self.slices], self.cshape)\n            return", "ind = numpy.ravel_multi_index(numpy.mgrid[self.slices], self.cshape, order='F' if self.cshape[0] == 1 else 'C')\n            return", ["C15"]),
 "v_prev": (W + "pm.py", "all_axes = list(axes) + list(removeaxes)", "all_axes = sorted(axes) + list(removeaxes)", ["C15"]),
 "v_tr": (W + "pm.py", "q = q[..., axes]", "q = q[..., numpy.argsort(axes)]", ["C15"]),
 "v_trbox": (W + "pm.py", "pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])", "pm = self.pm.reshape(BoxSize=self.BoxSize, Nmesh=self.Nmesh[axes])", ["C15"]),
 "v_unr": (W + "pm.py", "mpsort.permute(flatiter, argindex=ind.flat, comm=self.pm.comm, out=self.flat)", "self.flat[...] = mpsort.permute(numpy.array(flatiter[:]), argindex=ind.ravel(order='K'), comm=self.pm.comm)", ["C15"]),
 "r_idx": (W + "pm.py", "reindex[k % Ndest] = k % Nsrc", "reindex[k % Ndest] = k % Nsrc if Nsrc != 2 * Ndest else (k + (k == -1)) % Nsrc", ["C17"]),
 "r_build": (W + "pm.py", "ind[...] *= fullshape[d]", "ind[...] *= fullshape[min(d, 1)]", ["C17"]),
 "r_nyq": (W + "pm.py", "[ (2 * ii == n) & (n <= nout)", "[ (2 * ii == n) & (n < nout) & (n > 2)", ["C17"]),
 "r_base": (W + "pm.py", "        self = self.cast(type=TransposedComplexField)\n", "        self = self.cast(type=TransposedComplexField, out=self)\n", ["C17"]),
 "r_cshape": (W + "pm.py", "zip(indtable, complex.slices) ],\n                self.cshape)", "zip(indtable, complex.slices) ],\n                self.value.shape)", ["C17"]),
 "g_expand": (W + "pm.py", "mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])\n        y += mask * y", "mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[0])\n        y += mask * y", ["C18"]),
 "g_conj": (W + "pm.py", "r.value[...] = numpy.conj(r.value[...])\n        r.value[...] *= self.value", "r.value[...] *= numpy.conj(self.value)", ["C18"]),
 "g_sum": (W + "pm.py", "sum1 = sum1.sum(axis=-1, dtype=dtype)\n\n        return self.pm.comm.allreduce(sum1)", "sum1 = sum1.sum(axis=-1, dtype=dtype)\n\n        return self.pm.comm.reduce(sum1) or 0 * sum1", ["C18"]),
 "g_mean": (W + "pm.py", "return self.csum(dtype=dtype) / self.csize", "return self.csum(dtype=dtype) / (self.size * self.pm.comm.size)", ["C18"]),
 "g_dec": (W + "pm.py", "mask &= (n - ii) % n == ii", "mask &= (2 * ii == n) | (ii == 0) if n % 2 == 0 else (2 * ii // n == 0) & (ii == 0) | (ii == n)", []),
 "g_dec2": (W + "pm.py", "a[~mask] = 2 * b[~mask]\n            a[mask] = b[mask]", "a[~mask] = 2 * b[~mask]\n            a[mask & (i[0] >= 0)] = b[mask & (i[0] >= 0)] if i[0].flat[0] == 0 else 2 * b[mask]", ["C18"]),
 "g_vjp1": (W + "pm.py", "                # need to create a copy of pos because we use it later.\n                pos = pos.copy()", "                pass", ["C18"]),
 "g_vjp2": (W + "pm.py", "out_pos[..., d] *= mass", "out_pos[..., d] *= numpy.mean(mass)", ["C18"]),
 "g_vjp3": (W + "pm.py", "v.readout(pos, out=out_mass, resampler=resampler, transform=transform, gradient=gradient, layout=layout)", "v.readout(pos, out=out_mass, resampler=resampler, transform=transform, layout=layout)", ["C18"]),
 "g_jvp": (W + "pm.py", "if v_mass is not None:\n            self.paint(pos, mass=v_mass,\n                resampler=resampler, transform=transform, gradient=None, hold=True", "if v_mass is not None:\n            self.paint(pos, mass=v_mass,\n                resampler=resampler, transform=transform, gradient=None, hold=v_pos is None", ["C18"]),
 "g_hold": (W + "pm.py", "gradient=gradient, hold=False,\n                    layout=layout, out=out_self)", "gradient=gradient, hold=True,\n                    layout=layout, out=out_self)", ["C18"]),
 "g_r2c": (W + "pm.py", "out.value[...] *= numpy.prod(out.pm.Nmesh ** -1.0)\n        return out", "out.value[...] *= 1.0 / out.value.size\n        return out", ["C18"]),
 "g_metric": (W + "pm.py", "if metric is not None:\n            r.apply(lambda k, y: y * metric(k.normp() ** 0.5), out=Ellipsis)\n\n        return self", "if metric is not None:\n            r.apply(lambda k, y: y * metric(k.normp(zeromode=1) ** 0.5), out=Ellipsis)\n\n        return self", ["C18"]),
 "d_cast": (W + "pm.py", "return self.pm.create(_gettype(self), value=result)", "r = self.pm.create(_gettype(self)); r.value[...] = result; return r if self.pm.comm.size > 0 else None", []),
 "d_copy": (W + "pm.py", "return self.pm.create(_gettype(self), value=self.value)", "return self.pm.create(_gettype(self), base=self._base)", ["C19"]),
 "d_inpl": (W + "pm.py", "if isinstance(x, Field) and result is x.value:\n                    return x", "pass", ["C19"]),
 "d_slabi": (W + "pm.py", "ii = [x[0] if d != self.axis else x[irow] for d, x in enumerate(self.opti)]\n            s.x", "ii = [x[0] if d != 0 else x[irow] for d, x in enumerate(self.opti)]\n            s.x", ["C19"]),
 "d_axis": (W + "pm.py", "axissort = numpy.argsort(field.value.strides)[::-1]", "axissort = numpy.arange(field.ndim)", []),
 "d_nslab": (W + "pm.py", "self.nslabs = field.shape[axis]", "self.nslabs = field.shape[axisort[0]] if False else max(field.shape[axis] - (field.ndim > 3), 0)", ["C19"]),
 "d_optx": (W + "pm.py", "self.optx = [xx.transpose(axissort) for xx in field.x]", "self.optx = [xx.transpose(axissort) if d == axis else xx for d, xx in enumerate(field.x)]", ["C19"]),
 "d_circ": (W + "pm.py", "w = [ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)]", "w = [ ki * self.BoxSize[0] / N for ki, N in zip(x, self.Nmesh)]", ["C19"]),
 "d_zero": (W + "pm.py", "kk[kk == 0] = zeromode", "kk.flat[0] = zeromode", ["C19"]),
 "d_outarr": (W + "pm.py", "            assert out.shape == self.value.shape\n            outslabs = slabiter(self, out)", "            assert out.shape == self.value.shape\n            out = numpy.ascontiguousarray(out)\n            outslabs = slabiter(self, out)", ["C19"]),
 "d_castout": (W + "pm.py", "out = self.pm.create(type=type, base=out._base)\n\n        assert", "out = out if isinstance(out, type) else self.pm.create(type=type)\n\n        assert", ["C19"]),
 "d_coords": (W + "pm.py", "return [xx.copy() for xx in x]", "return list(x)", ["C19", "C12"]),
 "d_normp": (W + "pm.py", "kk = (sum([abs(ki) ** p for ki in self]))", "kk = (sum([ki ** p for ki in self]))", ["C19"]),
 "d_self": (W + "pm.py", "        if out is None:\n            out = self.pm.create(type=_gettype(self))\n\n        if is_inplace(out):\n            out = self\n\n        if isinstance(out, numpy.ndarray):", "        if out is None:\n            out = self.pm.create(type=_gettype(self), value=self.value) if self.ndim > 2 else self.pm.create(type=_gettype(self), base=self._base)\n\n        if is_inplace(out):\n            out = self\n\n        if isinstance(out, numpy.ndarray):", ["C19"]),
 "n_mean": (W + "pm.py", "v[mask] = mean", "v.flat[0] = mean if mask.any() or v.size < 2 else v.flat[0]", []),
 "n_start": (W + "pm.py", "generate(complex.value, complex.start, complex.Nmesh,", "generate(complex.value, complex._partition.local_i_start, complex.Nmesh,", ["C08"]),
 "n_base": (W + "pm.py", "complex = self.create(type=complex_type, base=base)", "complex = self.create(type=complex_type)", ["C08"]),
 "n_unit": (W + "pm.py", "seed, bool(unitary))", "seed, bool(unitary) and complex.compressed)", ["C08"]),
 "lic_local": (W + "lic.py", "pm.comm.allreduce(vmax, MPI.MAX)", "vmax", ["C22"]),
 "lic_units": (W + "lic.py", " * (pm.Nmesh / pm.BoxSize).max()", "", ["C22"]),
 "lic_half": (W + "lic.py", "            x[...] += dx * 0.5 * sign\n\n", "            x[...] += dx * 0.5\n\n", ["C22"]),
 "lic_alias": (W + "lic.py", "x = Q.copy()", "x = Q", ["C22"]),
 "lic_len": (W + "lic.py", "while s < length * 0.5:", "while s <= length * 0.5:", ["C22"]),
 "lic_norm": (W + "lic.py", "vectors = [vi / vabs for vi in vectors]", "for vi in vectors: vi[...] /= vabs[...]", ["C22"]),
 "tf_laplace": (W + "transfer.py", "            w2 *= -1\n            complex[row] *= w2", "            w2 *= -1\n        complex[:] *= w2", ["C23"]),
 "tf_gauss": (W + "transfer.py", "numpy.exp(-0.5 * wi2 * sm2)", "numpy.exp(-wi2 * sm2)", ["C23"]),
 "tf_trilin": (W + "transfer.py", "complex[:] /= tmp", "complex[:] *= tmp", ["C23"]),
 "tf_super": (W + "transfer.py", "8 * numpy.sin (wi) - numpy.sin (2 * wi)", "8 * numpy.sin (wi) + numpy.sin (2 * wi)", ["C23"]),
 "tf_sing": (W + "transfer.py", "singular = (w[-1] == 0).ravel()", "singular = (w[-1] == w[-1][0,0,0]).ravel()", ["C23"]),
 "tf_dc": (W + "transfer.py", "            if (wi != 0).all():\n                return\n", "            if (wi != 0).all():\n                continue\n", ["C23"]),
 "tf_odd": (W + "particlemesh.py", "wi[wi >= (self.Nmesh + 1) // 2]", "wi[wi >= self.Nmesh // 2]", ["C23"]),
 "tsc_smooth": (W + "particlemesh.py", "smoothing = 1.5 if self.paintbrush == 'tsc' else 1.0", "smoothing = 1.0", ["C23"]),
 "tsc_off": (W + "tsc.py", "targetpos = intpos + rel\n", "targetpos = intpos + rel - 1\n", ["C23"]),
 "tsc_chunk": (W + "tsc.py", "            wchunk = weights[chunk]", "            wchunk = weights", ["C23"]),
 "tsc_chunk2": (W + "tsc.py", "        mypos = transform(pos[chunk])", "        mypos = transform(pos[start:start+chunksize-1])", ["C23"]),
 "rot_enter": (W + "tools.py", "        self.comm.Barrier()\n        for i in range(self.comm.rank):\n            self.comm.Barrier()", "        for i in range(self.comm.rank // 2 * 2):\n            self.comm.Barrier()", ["C24"]),
 "froot": (W + "tools.py", "rt = comm.bcast(rt)", "rt = comm.bcast(rt, root=comm.size - 1)", ["C24"]),
}
