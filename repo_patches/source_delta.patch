From 9d8c072373332f8cad57a6a2620b01999b2245b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:15 +0000
Subject: [PATCH 01/45] fix: look up degenerate domains by domain, not by
 owning rank

---
 pmesh/_domain.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..b24a0e3 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,9 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
 
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From 598b9233d679eca5349f108621fc4b39b93e0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 02/45] fix: GridND.load and isprimary put positions that wrap
 onto the box edge at 0

---
 pmesh/domain.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..d697578 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -346,6 +346,17 @@ class GridND(object):
         else:
             return numpy.digitize(data, bins, right)
 
+    @staticmethod
+    def _wrap(x, boxsize):
+        """ Image number q and wrapped position r, x = q * boxsize + r, 0 <= r < boxsize.
+
+            The remainder of a tiny negative number may round to boxsize; that is
+            position 0 of the next image.
+        """
+        q, r = numpy.divmod(x, boxsize)
+        up = r >= boxsize
+        return q + up, numpy.where(up, numpy.zeros_like(r), r)
+
     @classmethod
     def uniform(cls, BoxSize, comm=MPI.COMM_WORLD, periodic=True):
         ndim = len(BoxSize)
@@ -441,7 +452,7 @@ class GridND(object):
                 chunk = transform(pos[s])
                 for j in range(self.ndim):
                     if periodic:
-                        tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        q, tmp = self._wrap(chunk[:, j], self.edges[j][-1])
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -545,14 +556,14 @@ class GridND(object):
         x0 = self.primary_region['start']
         x1 = self.primary_region['end']
 
-        BoxSize = numpy.array([self.edges[j][-1] for j in range(self.ndim)])
         chunksize = 1024 * 48
 
         for i in range(0, len(pos), chunksize):
             s = slice(i, i + chunksize)
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
-                chunk = numpy.remainder(chunk,  BoxSize)
+                chunk = numpy.stack([self._wrap(chunk[..., j], self.edges[j][-1])[1]
+                                     for j in range(self.ndim)], axis=-1)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
-- 
2.43.0


From 3c58d1f1834e3231292a0ed2c8f1ee58067637eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 03/45] fix: periodic decompose visits every image cell when
 the smoothing spans the box

---
 pmesh/domain.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index d697578..0cf8c01 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -624,13 +624,17 @@ class GridND(object):
                     tmp = chunk[:, j]
                     if periodic:
                         boxsize = self.edges[j][-1]
-                        c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
-                        p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
-                        #print(l, p, r)
+                        q, c = self._wrap(tmp, boxsize)
+                        # cells are counted through the periodic images, such that
+                        # l <= r even if the smoothing spans most of the box.
+                        ql, l = self._wrap(c - smoothing[j], boxsize)
+                        qr, r = self._wrap(c + smoothing[j], boxsize)
+                        l = self._digitize(l, self.edges[j], right=False) - 1 + ql * self.shape[j]
+                        r = self._digitize(r, self.edges[j], right=False) + qr * self.shape[j]
+                        # never visit a cell twice
+                        full = r - l >= self.shape[j]
+                        l = numpy.where(full, 0, l)
+                        r = numpy.where(full, self.shape[j], r)
                         sil[j, s] = l
                         sir[j, s] = r
                     else:
-- 
2.43.0


From 46a32b338f00f3191466d04eff1d5824c2c671f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 04/45] fix: Layout.exchange and gather raise on all ranks if
 any rank has mismatched data

---
 pmesh/domain.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 0cf8c01..a0aa98a 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -52,7 +52,8 @@ def promote(data, comm):
     dtype_root = comm.bcast(data.dtype)
     data = data.astype(dtype_root)
     shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    # all ranks must agree to raise, or the others are stuck in a collective
+    if any(comm.allgather(shape_root[1:] != data.shape[1:])):
         raise ValueError('the shape of the data does not match across ranks.')
     return data
 
@@ -159,6 +160,12 @@ class Layout(object):
 
         """
         if pack:
+            # mismatches are found on all ranks before packing
+            args = [promote(arg, self.comm) for arg in args]
+            if any(self.comm.allgather(any(len(arg) != self.sendlength for arg in args))):
+                raise ValueError(
+                'the length of data does not match that used to build the layout')
+
             data = pack_arrays(args)
             newdata = self._exchange(data)
             r = tuple([newdata[name] for name in newdata.dtype.names])
-- 
2.43.0


From 94070877a8d2d9ddbbd4ebfd3a3f6a905f4e5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 05/45] fix: Layout.gather accepts data that is not
 C-contiguous

---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a0aa98a..4ed3fad 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -248,6 +248,9 @@ class Layout(object):
             raise ValueError(
             'the length of data does not match result of a domain.exchange')
 
+        # alltoallv needs C-contiguous data
+        data = numpy.ascontiguousarray(data)
+
         dtype = numpy.dtype((data.dtype, data.shape[1:]))
 
         if mode == 'local':
-- 
2.43.0


From cc238f7a75a3e85a597a151df818cad8fc7c4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 06/45] fix: Layout.gather with a ufunc handles items that are
 sent to no domain

---
 pmesh/domain.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 4ed3fad..d5e00e8 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -310,7 +310,19 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             offset = numpy.zeros(self.sendlength, 'intp')
             offset[1:] = numpy.cumsum(N)[:-1]
-            return mode.reduceat(recvbuffer, offset, out=out)
+            sent = N > 0
+            if sent.all():
+                return mode.reduceat(recvbuffer, offset, out=out)
+
+            # reduceat is ill-defined on items that were never sent
+            if sent.any():
+                r = mode.reduceat(recvbuffer, offset[sent])
+            else:
+                r = recvbuffer
+            if out is None:
+                out = numpy.zeros((self.sendlength,) + r.shape[1:], dtype=r.dtype)
+            out[sent] = r
+            return out
 
         if mode == 'mean':
             N = numpy.bincount(self.indices, minlength=self.sendlength)
-- 
2.43.0


From f44194b8a7d3d3ec0a182229f708ac1f9eef2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 07/45] fix: Layout.gather sums complex data

---
 pmesh/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index d5e00e8..3956859 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -44,7 +44,12 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 
     for index in numpy.ndindex(*shape[1:]):
         ind = tuple([Ellipsis] + list(index))
-        out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
+        if numpy.iscomplexobj(weights):
+            # bincount only knows real weights
+            out[ind] = numpy.bincount(x, weights[ind].real, minlength=minlength) \
+                + 1j * numpy.bincount(x, weights[ind].imag, minlength=minlength)
+        else:
+            out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
     return out
 
 def promote(data, comm):
-- 
2.43.0


From 0ec0eb8602d879e87914aa42e10239e4fece0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 08/45] fix: tuned PCS derivative is in units of the caller's
 coordinates

---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..e1eb658 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -29,11 +29,11 @@
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
             V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
-                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
+                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])) * painter->scale[d]; \
             V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
-                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])) * painter->scale[d]; \
+            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])) * painter->scale[d]; \
+            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])) * painter->scale[d]; \
         } \
     } \
 \
-- 
2.43.0


From 5e00fd64594ce0f6b1c17c32ca57c91e61774871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 09/45] fix: tuned windows fall back to the generic kernel for
 fractional supports

---
 pmesh/_window_generics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/_window_generics.h b/pmesh/_window_generics.h
index 8cb8063..a644db2 100644
--- a/pmesh/_window_generics.h
+++ b/pmesh/_window_generics.h
@@ -11,7 +11,7 @@ mkname(_generic_paint) (PMeshPainter * painter, double pos[], double weight, dou
     paintfunc fastpaint;
     readoutfunc fastreadout;
 
-    if(painter->getfastmethod &&
+    if(window->vfactor == 1.0 && painter->getfastmethod &&
        painter->getfastmethod(painter, window, &fastpaint, &fastreadout)) {
 
         fastpaint(painter, pos, weight, hsml);
@@ -82,7 +82,7 @@ mkname(_generic_readout) (PMeshPainter * painter, double pos[], double hsml)
     paintfunc fastpaint;
     readoutfunc fastreadout;
 
-    if(painter->getfastmethod &&
+    if(window->vfactor == 1.0 && painter->getfastmethod &&
        painter->getfastmethod(painter, window, &fastpaint, &fastreadout)) {
 
         return fastreadout(painter, pos, hsml);
-- 
2.43.0


From 243cc1af8a4387fdc8ecc7ce8d840d5b2775a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 10/45] fix: whitenoise fills blocks that hold only negative
 modes of the last axis

---
 pmesh/_whitenoise_generics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..4f9d36a 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -162,7 +162,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                         SAMPLE(this_rng, &ampl, &phase);
                     }
 
-                    ptrdiff_t iabs[3] = {i, j, k};
+                    ptrdiff_t iabs[3] = {i, j, sign == -1 ? self->Nmesh[2] - k : k};
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -193,7 +193,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From dd67a34a47f9b3cb559ff293adc51a14ee343390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 11/45] fix: whitenoise seeds every column of non-cubic and odd
 meshes

---
 pmesh/_whitenoise_generics.h | 20 ++++++++++++--------
 pmesh/_whitenoise_imp.c      |  7 +++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 4f9d36a..5d2e9fb 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,23 +73,27 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* spiral over the signed modes, such that the seed of a mode does not depend
+     * on Nmesh; modes that are not on the mesh are skipped by SETSEED. */
+    ptrdiff_t Nmax = self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1];
+
+    for(i = 0; i < (Nmax + 1) / 2; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
             SETSEED(self, j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
+            SETSEED(self, - 1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, - 1 - j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, - 1 - i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, - 1 - i, - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, - 1 - j, - 1 - i, rng);
     }
     gsl_rng_free(rng);
 
@@ -149,7 +153,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..273948b 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,6 +31,13 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* i and j are signed modes, -N/2 .. (N-1)/2 */
+    if(i < - (self->Nmesh[0] / 2) || i > (self->Nmesh[0] - 1) / 2) return;
+    if(j < - (self->Nmesh[1] / 2) || j > (self->Nmesh[1] - 1) / 2) return;
+
+    if(i < 0) i += self->Nmesh[0];
+    if(j < 0) j += self->Nmesh[1];
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From c82e873324bd29aaa93290780d8171e31821dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:04 +0000
Subject: [PATCH 12/45] fix: invariant index of odd meshes reports modes beyond
 the mesh as -1

---
 pmesh/_invariant.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/_invariant.pyx b/pmesh/_invariant.pyx
index f4f209d..3450d6c 100644
--- a/pmesh/_invariant.pyx
+++ b/pmesh/_invariant.pyx
@@ -40,10 +40,11 @@ def get_index(inttype [:, :] x, ptrdiff_t [:] Nmesh, compressed, maxlength=None)
                 # The nyquist frequency has a confusion -- it can be either.
                 # we always map it to the positive.
                 # PMesh and FFT uses a negative nyquist freq; correct for it here.
-                if xi[d] == - Nmesh[d] // 2:
+                # (a mesh of odd size has no nyquist frequency)
+                if 2 * xi[d] == - Nmesh[d]:
                     xi[d] = Nmesh[d] // 2
 
-                if xi[d] > Nmesh[d] // 2 or xi[d] < -Nmesh[d] // 2:
+                if xi[d] > Nmesh[d] // 2 or xi[d] < - (Nmesh[d] // 2):
                     bad = 1
             if bad:
                 r[i] = -1
-- 
2.43.0


From ff923ab4f269ab8a1cc884f034484f44eac9f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:04 +0000
Subject: [PATCH 13/45] fix: invariant index of the zero mode honours maxlength
 = 0

---
 pmesh/_invariant_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index af08965..3eaa31c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -67,7 +67,7 @@ ptrdiff_t pmesh_get_invariant_index(
 
     ptrdiff_t shell = absmax(ndim, x);
     /* (0, 0, 0....) */
-    if (shell == 0) return 0;
+    if (shell == 0) return max_length == 0 ? -1 : 0;
 
     ptrdiff_t side = shell * 2 + 1; 
 
-- 
2.43.0


From 6353783cd5bd90984fee346c92951bbd92a508f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:24 +0000
Subject: [PATCH 14/45] fix: ranks without mesh cells no longer claim the first
 domain of a ParticleMesh

---
 pmesh/pm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..7df1f93 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1451,7 +1451,11 @@ class ParticleMesh(object):
         size = numpy.prod(shape)
         ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
+        # ranks without any mesh cell have no domain of their own.
+        if any(partition.local_i_shape == 0): ilocal = -1
         ilocals = numpy.array(self.comm.allgather(ilocal))
+        # hand the (empty) domains that are nobody's to those ranks
+        ilocals[ilocals == -1] = numpy.setdiff1d(numpy.arange(size), ilocals)
         DomainAssign = numpy.empty(size, dtype='int32')
         for irank, ilocal in enumerate(ilocals):
             start = ilocal * size // self.comm.size
-- 
2.43.0


From dc34268a2720bf3b5c1d43e885fdf93b16b451ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:24 +0000
Subject: [PATCH 15/45] fix: coordinates and wavenumbers of the middle cell of
 odd meshes are positive

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 7df1f93..fc26748 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From bcb1815203e75abc7bcee1bf12b7905fb35a2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 16/45] fix: upsample decomposes with the support of its
 resampler instead of a fixed 1.6 cells

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index fc26748..40999b1 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1972,7 +1972,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From 9c89bc78a4b446b306b2dd96cb2d177a3f9453e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 17/45] fix: coarray tells the data of a Pull and of a Push
 between the same images apart

---
 pmesh/coarray.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 01af88c..27bd69c 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -111,6 +111,11 @@ class coaproxy(object):
     def __str__(self):
         return 'coaproxy:%d/%d %s' % (self.coindex, self.comm.size, self.indices)
 
+# messages that answer a Pull and messages of a Push between the same pair of
+# images must not be mistaken for each other.
+PULL_TAG = 1
+PUSH_TAG = 2
+
 class Op(object): pass
 
 class Pull(Op):
@@ -124,7 +129,7 @@ class Pull(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('irecv into', self.proxy.coindex, self.buffer.data)
-        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex)
+        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex, tag=PULL_TAG)
 
     def finish(self):
         self.coa[self.localindex] = self.buffer
@@ -140,7 +145,7 @@ class Push(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
-        return comm.Isend(self.buffer, dest=self.proxy.coindex)
+        return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=PUSH_TAG)
 
     def finish(self):
         self.done = True
@@ -271,7 +276,7 @@ class coarray(numpy.ndarray):
                 value = value[index]
 
             print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest)
+            comm.Send(value, dest=senddest, tag=PULL_TAG)
 
         for recvindices, recvsource in recvactions:
             value = self
@@ -284,7 +289,7 @@ class coarray(numpy.ndarray):
             print('receiving from ', recvsource, value.data)
             # trigger setitem
             buf = numpy.zeros_like(value[recvindices[-1]])
-            comm.Recv(buf, recvsource)
+            comm.Recv(buf, recvsource, tag=PUSH_TAG)
             value[recvindices[-1]] = buf
 
         MPI.Request.waitall(requests)
-- 
2.43.0


From e9291f9ec615b6b7ac7ce1dd06b3c1c5d08bdeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 18/45] fix: coarray transfers parts that are not contiguous,
 scalars, and values of other types

---
 pmesh/coarray.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 27bd69c..40ade9e 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -139,11 +139,15 @@ class Pull(Op):
 class Push(Op):
     def __init__(self, proxy, value):
         self.proxy = proxy
-        self.buffer = value
+        self.value = value
+        self.buffer = None
         self.done = False
 
     def start(self):
         comm = self.proxy.comm
+        # a contiguous copy of the right type, since value may be part of the
+        # local image and the transfer is still going on when that is written.
+        self.buffer = numpy.array(self.value, dtype=self.proxy.coa.dtype, order='C')
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
         return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=PUSH_TAG)
 
@@ -276,7 +280,7 @@ class coarray(numpy.ndarray):
                 value = value[index]
 
             print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest, tag=PULL_TAG)
+            comm.Send(numpy.ascontiguousarray(value), dest=senddest, tag=PULL_TAG)
 
         for recvindices, recvsource in recvactions:
             value = self
@@ -288,7 +292,7 @@ class coarray(numpy.ndarray):
 
             print('receiving from ', recvsource, value.data)
             # trigger setitem
-            buf = numpy.zeros_like(value[recvindices[-1]])
+            buf = numpy.zeros_like(value[recvindices[-1]], order='C')
             comm.Recv(buf, recvsource, tag=PUSH_TAG)
             value[recvindices[-1]] = buf
 
-- 
2.43.0


From d1d642134dae1ec489988a96d29155d3894b8458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 19/45] fix: coarray constructor refers to an undefined name

---
 pmesh/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 40ade9e..763ae83 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -203,7 +203,7 @@ class coameta(object):
 
 class coarray(numpy.ndarray):
     def __new__(kls, comm, *args, **kwargs):
-        self = super(coarray, cls).__new__(cls, *args, **kwargs)
+        self = super(coarray, kls).__new__(kls, *args, **kwargs)
         self.__coameta__ = coameta(comm, self)
         return self
 
-- 
2.43.0


From b20ab224bbb9700886646d3821f52f00cb749fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 20/45] fix: cic.paint deposits to meshes that are not C
 contiguous

---
 pmesh/_cic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pmesh/_cic.py b/pmesh/_cic.py
index 69fa714..41c43dd 100644
--- a/pmesh/_cic.py
+++ b/pmesh/_cic.py
@@ -59,6 +59,9 @@ def driver(pos, mesh, weights, mode, period, transform,
         p[...] = period
         period = p
 
+    # ravel makes a copy if mesh is not C contiguous
+    meshflat = mesh.ravel()
+
     for start in range(0, Np, chunksize):
         chunk = slice(start, start+chunksize)
         mypos = transform(pos[chunk])
@@ -67,9 +70,12 @@ def driver(pos, mesh, weights, mode, period, transform,
             wchunk[:] = weights
         else:
             wchunk = weights[chunk]
-        if callback(mypos, mesh, mesh.ravel(), wchunk, period) \
+        if callback(mypos, mesh, meshflat, wchunk, period) \
                 and mode == "raise":
            raise ValueError("Some points are out of boundary")
+
+    if callback is paint_some and not numpy.may_share_memory(meshflat, mesh):
+        mesh[...] = meshflat.reshape(mesh.shape)
     return mesh
 @numba.jit(nopython=True)
 def paint_some(pos, mesh, meshflat, weights, period):
-- 
2.43.0


From a2e86a6ba62211f8f0e11550f385656cd6995a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 21/45] fix: preview ignores the order of the axes when all are
 kept

---
 pmesh/pm.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 40999b1..2795681 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -603,13 +603,10 @@ class Field(NDArrayLike):
         # TODO: allow slicing along projected directions.
         out = out[...]
 
-        if len(axes) != self.ndim:
-            removeaxes = set(range(self.ndim)) - set(axes)
-            all_axes = list(axes) + list(removeaxes)
-            removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
-            result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
-        else:
-            result[local_slice] += out
+        removeaxes = set(range(self.ndim)) - set(axes)
+        all_axes = list(axes) + list(removeaxes)
+        removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
+        result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 02bee8c89761aad016685715d9c1ac12f87bdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 22/45] fix: ctranspose fails if axes is a tuple

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 2795681..4e1f8dc 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -704,11 +704,11 @@ class RealField(Field):
         assert numpy.max(axes) == self.ndim - 1
 
         # create a new pm with transposed BoxSize and Nmesh
-        pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])
-
         # for fancy indexing
         axes = numpy.array(axes, dtype='intp')
 
+        pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])
+
         q = self.pm.generate_uniform_particle_grid(shift=0)
         v = self.readout(q, resampler='nnb')
 
-- 
2.43.0


From 8937c2f93c03c6c5302aaaaa51fd49e5e91dcbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 23/45] fix: ctranspose drops the imaginary part on complex
 meshes

---
 pmesh/pm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4e1f8dc..81e3fb1 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -717,7 +717,15 @@ class RealField(Field):
 
         layout = pm.decompose(q, smoothing='nnb')
 
-        return pm.paint(q, mass=v, resampler='nnb', layout=layout)
+        out = pm.paint(q, mass=v, resampler='nnb', layout=layout)
+
+        if numpy.iscomplexobj(self.value):
+            # readout and paint only transport the real part
+            imag = self.pm.create(type=RealField, value=self.value.imag)
+            v = imag.readout(self.pm.generate_uniform_particle_grid(shift=0), resampler='nnb')
+            out.value.imag[...] = pm.paint(q, mass=v, resampler='nnb', layout=layout).value.real
+
+        return out
 
     def csum(self, dtype=None):
         """ Collective mean. Sum of the entire mesh. (Must be called collectively)"""
-- 
2.43.0


From a5b51eebc0f9dca3e0352886313d1228e709ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 24/45] fix: resample fails or drops modes if a mesh side is
 odd

---
 pmesh/pm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 81e3fb1..8528ac6 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -531,13 +531,13 @@ class Field(NDArrayLike):
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, self.Nmesh)])
             slab[mask] = 0
 
@@ -1143,9 +1143,11 @@ def reindex(Nsrc, Ndest):
         >>> array([ 0,  1,  2, -1, -1, -1,  -1,  3])
 
     """
-    reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    reindex = numpy.full(Ndest, -1)
+    N = min(Nsrc, Ndest)
+    # the modes of the smaller mesh are on both
+    k = numpy.arange(-((N - 1) // 2), N // 2 + 1)
+    reindex[k % Ndest] = k % Nsrc
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From fd5e6f8346f6f22271c649f74d3caffd9869340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 25/45] fix: resample to a smaller mesh drops the negative mode
 at the index of the source's Nyquist

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8528ac6..9e220db 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -537,8 +537,8 @@ class Field(NDArrayLike):
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ 2 * ii == n
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (2 * ii == n) & (n <= nout)
+                   for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
         if isinstance(out, RealField):
-- 
2.43.0


From 7fb43f53f27e3ca4b1f5d1fa527b6e7ffa0d5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 26/45] fix: resample into an untransposed field stores the
 modes in the transposed order

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 9e220db..69f6776 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -541,8 +541,8 @@ class Field(NDArrayLike):
                    for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
-        if isinstance(out, RealField):
-            complex.c2r(out)
+        if not isinstance(out, TransposedComplexField):
+            complex.cast(type=_gettype(out), out=out)
 
         return out
 
-- 
2.43.0


From 8a9bba2a032bebccbbbcf6c8799f74661ccb8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 27/45] fix: resample to the same size fails if precision or
 process mesh differ

---
 pmesh/pm.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 69f6776..25a4939 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -488,10 +488,6 @@ class Field(NDArrayLike):
         """
         assert isinstance(out, Field)
 
-        if all(out.Nmesh == self.Nmesh):
-            # no resampling needed. Just do Fourier transforms.
-            self.cast(type=_gettype(out), out=out)
-
         self = self.cast(type=TransposedComplexField)
 
         complex = out.pm.create(type=TransposedComplexField, base=out._base, value=0)
-- 
2.43.0


From 01891bf2505cd6f74032e3ef0152e56183c92d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 28/45] fix: resample on complex meshes drops the imaginary
 part of self-conjugate modes

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 25a4939..59cdabd 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -521,7 +521,7 @@ class Field(NDArrayLike):
             mask = functools.reduce(numpy.bitwise_and,
                  [(n - ii) % n == ii
                     for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
+            if complex.pm.dtype.kind != 'c': slab.imag[mask] = 0
 
             # remove the nyquist of the output
             # FIXME: the nyquist is messy due to hermitian constraints
-- 
2.43.0


From 746c354c2a9ab2d7561ee513218562ea30e9a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 29/45] fix: slabs and apply fail on one-dimensional meshes

---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 59cdabd..a9d1555 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -87,7 +87,8 @@ class slab(numpy.ndarray):
 class slabiter(object):
     def __init__(self, field, value):
         # we iterate over the slowest axis to gain locality.
-        if field.ndim == 2:
+        if field.ndim <= 2:
+            # a single slab
             axis = 2
             self.optimized_view = value[None, ...]
             self.nslabs = 1
-- 
2.43.0


From aaf1e6c2a64d9496c2ff3f163488bbf46a62d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 30/45] fix: cdot and cnorm count the last modes only once if
 the last side is odd

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index a9d1555..579681b 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -915,7 +915,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])
         y += mask * y
         return y
 
-- 
2.43.0


From e95d5091ebb058346368c00088ede9bc56b70a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 31/45] fix: RealField.cdot fails with an array

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 579681b..f955766 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -213,7 +213,7 @@ class Field(NDArrayLike):
             if not isinstance(other, _gettype(self)):
                 raise TypeError("type of two operands of cdot must be the same type")
         else:
-            assert all(numpy.shape(other) == self.shape)
+            assert numpy.shape(other) == self.shape
 
     def copy(self):
         return self.pm.create(_gettype(self), value=self.value)
-- 
2.43.0


From 8d9dee45c456e8a66a066c093f6d4ab9c15ca8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 32/45] fix: readout_jvp ignores the gradient argument

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index f955766..cac8e62 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -852,11 +852,13 @@ class RealField(Field):
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
+            if gradient is not None:
+                raise ValueError("gradient of gradient is not yet supported")
             for d in range(self.ndim):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From 5fbc484ecfabacc6f09f3e66bbc632ae6273b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 33/45] fix: in-place operations return a detached copy of the
 field

---
 pmesh/pm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index cac8e62..28d1997 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -188,6 +188,10 @@ class Field(NDArrayLike):
 
         result = getattr(ufunc, method)(*inputs, **kwargs)
         def cast(result):
+            # in place; return the object that was written to
+            for x in out:
+                if isinstance(x, Field) and result is x.value:
+                    return x
             # booleans, cannot be reasonable Field objects
             # just return the ndarray
             if result.dtype == '?':
-- 
2.43.0


From 73c50079a3c87b6d1a45d6b346b6b2db8408c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 34/45] fix: grids with more than 32767 domains along an axis
 overflowed 16 bit indices

---
 pmesh/_domain.pyx | 4 ++--
 pmesh/domain.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index b24a0e3..976a474 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -10,8 +10,8 @@ def gridnd_fill(
         int mode,
         int [::1] counts,
         int [:] adims,
-        short int [:, ::1] sil,
-        short int [:, ::1] sir,
+        int [:, ::1] sil,
+        int [:, ::1] sir,
         int periodic,
         short int [::1] domain_is_degenerate,
         int [::1] DomainAssign,
diff --git a/pmesh/domain.py b/pmesh/domain.py
index 3956859..1f95e07 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -472,7 +472,7 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
@@ -641,8 +641,8 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
-            sir = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
+            sir = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-- 
2.43.0


From 24866d6f529ad91cb9b9cc9754255c175adeac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 35/45] fix: transfer.Laplace multiplied all modes by the
 factors of the last row

and gave nan for the zero mode.
---
 pmesh/transfer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index c23a503..936d83e 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -187,7 +187,7 @@ class TransferFunction:
         """ 
             Take the Laplacian k-space: complex *= -w2
 
-            where this function performs only the -w **-2 part.
+            where this function performs only the -w ** 2 part.
 
             Note that k = w * Nmesh / BoxSize, thus the usual laplacian is
            
@@ -200,9 +200,8 @@ class TransferFunction:
             w2 = w[0][row] ** 2
             for wi in w[1:]:
                 w2 = w2 + wi[0] ** 2
-            w2[w2 == 0] = numpy.inf
             w2 *= -1
-        complex[:] *= w2
+            complex[row] *= w2
 
     @staticmethod
     def Poisson(pm, complex):
-- 
2.43.0


From 3602ae064c58fef479cfcb9d7fa795e9120d6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 36/45] fix: transfer.Trilinear could not be used as a transfer
 function

---
 pmesh/transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 936d83e..0873a9b 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -66,8 +66,8 @@ class TransferFunction:
         ind = tuple(ind)
         complex[ind] = 0
     @staticmethod
-    def Trilinear(comm, complex, w):
-        for wi in w:
+    def Trilinear(pm, complex):
+        for wi in pm.w:
             # convert to 
             tmp = numpy.sinc(wi / (2 * numpy.pi)) ** 2
             complex[:] /= tmp
-- 
2.43.0


From 7fca9d0fc5f2c7158203ff3b9016796afd17cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 37/45] fix: transfer.PowerSpectrum averaged w over the last
 row only

and the single counted plane was never down weighted.
---
 pmesh/transfer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 0873a9b..9fe8573 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -142,10 +142,11 @@ class TransferFunction:
 
             P = numpy.zeros(len(psout))
             N = numpy.zeros(len(psout))
+            wsum = numpy.zeros(len(wout))
+            # pickup the singular plane that is single counted (r2c transform)
+            singular = (w[-1] == 0).ravel()
 
             for row in range(complex.shape[0]):
-                # pickup the singular plane that is single counted (r2c transform)
-                singular = w[0][-1] == 0
                 scratch = w[0][row] ** 2
                 for wi in w[1:]:
                     scratch = scratch + wi[0] ** 2
@@ -156,15 +157,15 @@ class TransferFunction:
                 # take the sum of w
                 scratch **= 0.5
                 # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
+                scratch[..., singular] *= 0.5
 
-                wsum = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                wsum = comm.allreduce(wsum, MPI.SUM)
+                wsum1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
+                wsum += comm.allreduce(wsum1, MPI.SUM)
 
                 # take the sum of weights
                 scratch[...] = 1.0
                 # the singular plane is down weighted by 0.5
-                scratch[singular] = 0.5
+                scratch[..., singular] = 0.5
 
                 N1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
                 N += comm.allreduce(N1, MPI.SUM)
@@ -173,7 +174,7 @@ class TransferFunction:
                 numpy.abs(complex[row], out=scratch)
                 scratch[...] **= 2.0
                 # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
+                scratch[..., singular] *= 0.5
 
                 P1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
                 P += comm.allreduce(P1, MPI.SUM)
-- 
2.43.0


From 62a1f4276c8f0854c0f66b1e3c6dacadab28f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 38/45] fix: frequencies and positions of the legacy mesh left
 -pi to pi on odd meshes

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index 1d683b7..bf00bdc 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -136,8 +136,8 @@ class ParticleMesh(object):
             wi = numpy.arange(s[d], dtype='f4') + self.partition.local_o_start[d] 
             ri = numpy.arange(t[d], dtype='f4') + self.partition.local_i_start[d] 
 
-            wi[wi >= self.Nmesh // 2] -= self.Nmesh
-            ri[ri >= self.Nmesh // 2] -= self.Nmesh
+            wi[wi >= (self.Nmesh + 1) // 2] -= self.Nmesh
+            ri[ri >= (self.Nmesh + 1) // 2] -= self.Nmesh
 
             wi *= (2 * numpy.pi / self.Nmesh)
             ki = wi * self.Nmesh / self.BoxSize[d]
-- 
2.43.0


From 7cc52869c2edd36c4e5020482e47e55818dcc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 39/45] fix: the legacy mesh rejected upper case paintbrush
 names

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index bf00bdc..c68834d 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -155,9 +155,9 @@ class ParticleMesh(object):
         
         # set the painter
         self.paintbrush = paintbrush.lower()
-        if paintbrush == 'cic':
+        if self.paintbrush == 'cic':
             self.painter = cic.paint
-        elif paintbrush == 'tsc':
+        elif self.paintbrush == 'tsc':
             self.painter = tsc.paint
         else:
             raise ValueError("valid `painter` values are: ['cic', 'tsc']")
-- 
2.43.0


From 1e10246ff78625b895861d3f69ec71785fe57266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 40/45] fix: tsc.paint deposited one cell too low along every
 axis

---
 pmesh/tsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 782a4e5..195c914 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -84,7 +84,7 @@ def paint_some(pos, mesh, meshflat, weights, period):
                 intpos = numpy.rint(pos[i, d]) # NGP index
                 diff = intpos - pos[i, d]
                 rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
-                targetpos = intpos + rel - 1
+                targetpos = intpos + rel
                 if rel == -1: # before NGP
                     kernel *= 0.5 * (0.5+diff)*(0.5+diff)
                 elif rel == 0: # NGP
-- 
2.43.0


From f512335e70baa5c646090cf91eac5989ca298926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 41/45] fix: tsc.readout raised NameError

---
 pmesh/tsc.py | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 195c914..e34f52a 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -111,3 +111,49 @@ def paint_some(pos, mesh, meshflat, weights, period):
 
     return outbound
 
+@numba.jit(nopython=True)
+def readout_some(pos, mesh, meshflat, out, period):
+    Ndim = pos.shape[1]
+    Np = pos.shape[0]
+    Nmax = int(3 ** Ndim)
+    ignore = False
+    period = int(period)
+    outbound = 0
+    for i in range(Np):
+        w = 0.0
+        for n in range(Nmax):
+            ignore = False
+            kernel = 1.0
+            ind = 0
+            for d in range(Ndim):
+                intpos = numpy.rint(pos[i, d]) # NGP index
+                diff = intpos - pos[i, d]
+                rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
+                targetpos = intpos + rel
+                if rel == -1: # before NGP
+                    kernel *= 0.5 * (0.5+diff)*(0.5+diff)
+                elif rel == 0: # NGP
+                    kernel *= 0.75 - diff*diff
+                else: # after NGPs
+                    kernel *= 0.5 * (0.5-diff)*(0.5-diff)
+                
+                # wrap by period
+                if period > 0:
+                    while targetpos >= period:
+                        targetpos -= period
+                    while targetpos < 0:
+                        targetpos += period
+                if targetpos < 0 or \
+                        targetpos >= mesh.shape[d]:
+                    ignore = True
+                    break
+                ind += mesh.strides[d]*targetpos
+
+            if ignore:
+                outbound += 1
+                continue
+            w += meshflat[int(ind/mesh.itemsize)] * kernel
+        out[i] = w
+
+    return outbound
+
-- 
2.43.0


From 92e8c74cc8a887d227548617ec182a113eda2ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 42/45] fix: the legacy mesh lost mass at the domain edges with
 tsc

---
 pmesh/particlemesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index c68834d..1640f86 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -215,7 +215,9 @@ class ParticleMesh(object):
         to the correct MPI ranks that hosts the PM local mesh
         """
         with self.T['Decompose']:
-            return self.domain.decompose(pos, smoothing=1.0,
+            # half of the support of the window
+            smoothing = 1.5 if self.paintbrush == 'tsc' else 1.0
+            return self.domain.decompose(pos, smoothing=smoothing,
                     transform=self.transform0)
     def clear(self):
         """ 
-- 
2.43.0


From a1cf23263ff478f00fa98d84cf37b5e5b9f84321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 43/45] fix: the image of lic depended on the number of ranks

if the longest vectors are on another rank, or if cells are smaller than 1.
---
 pmesh/lic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..001abf7 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -1,4 +1,5 @@
 import numpy
+from mpi4py import MPI
 from .window import FindResampler
 
 def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=True):
@@ -58,7 +59,9 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
+    # the longest half step of any rank, in cells
+    vmax = max(abs(v[...]).max() if v[...].size else 0 for v in vectors)
+    vmax = pm.comm.allreduce(vmax, MPI.MAX) * (pm.Nmesh / pm.BoxSize).max()
 
     for sign in [-1, +1]:
         x = Q.copy()
-- 
2.43.0


From 11651bbd92137a47cd255bbc2d27a9a919131646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 44/45] fix: lic returned unit masses painted with the image as
 smoothing lengths

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 001abf7..545194f 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -78,4 +78,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From a37943de1138f70a776314abde45e8c9b4b96949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 45/45] fix: GridND.uniform made an empty grid of plates and
 rods (no domain along the longest axis)

---
 pmesh/domain.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 1f95e07..fc7006d 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -396,8 +396,13 @@ class GridND(object):
         imax = shape.argmax()
         shape = numpy.int32(shape)
         shape[shape < 1] = 1
-        shape[imax] = 1
-        shape[imax] = comm.size // numpy.prod(shape)
+        # never more domains than ranks, or the longest axis is left with none
+        nleft = comm.size
+        for i in shape.argsort():
+            if i == imax: continue
+            shape[i] = min(shape[i], nleft)
+            nleft //= shape[i]
+        shape[imax] = nleft
         assert numpy.prod(shape) <= comm.size
 
         edges = []
-- 
2.43.0

