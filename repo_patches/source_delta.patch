From a04c2c6d57ea850b78edc686cc892e0e6c4c576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 01/95] fix: npy_load read a single item per rank when count
 was not given (operator precedence)

---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..bd86acc 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -285,7 +285,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (count % size > rank)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From 74cf10f54d7114792a618e49c6ce6ee1b49cbc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/95] fix: convert non-native byte order instead of
 reinterpreting the bytes in allreduce and npy_save

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index bd86acc..2daccc1 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -161,7 +161,7 @@ def _blockdist(N, size, rank):
 def allreduce(data, comm):
     if comm is not None:
         MPI = _get_module_MPI(comm)
-        data = data.view(data.dtype.newbyteorder('='))
+        data = data.astype(data.dtype.newbyteorder('='), copy=False)
         data_reduced = np.zeros_like(data)
         comm.Barrier()
         comm.Allreduce(data, data_reduced, op=MPI.SUM)
@@ -187,7 +187,7 @@ def npy_save(comm, filename, array, axis=0):
     if comm is not None:
         MPI = _get_module_MPI(comm)
         dtlib = _get_module_dtlib(comm)
-        array = array.view(array.dtype.newbyteorder('='))
+        array = array.astype(array.dtype.newbyteorder('='), copy=False)
         array = np.asarray(array)
         dtype = array.dtype
         shape = array.shape
-- 
2.43.0


From 8e45730ce28f7355d90144468599b2995854b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 03/95] fix: Standard.fit failed when a rank holds a single
 point

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..856af5e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -195,7 +195,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
-- 
2.43.0


From d9f609866393f9b4b58fe916ef0bed86d5f9d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 04/95] fix: apply_normalization modified the weights passed by
 the user in place

---
 pyspod/utils/weights.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..916ece5 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -112,6 +112,9 @@ def apply_normalization(
     :rtype: numpy.ndarray
     '''
 
+    ## do not modify the weights of the caller
+    weights = np.array(weights, dtype=float)
+
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
-- 
2.43.0


From d214c76494ac750273a6ad2e8713796276c99886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 05/95] fix: reader_1stage read the wrong snapshots of the
 second and later data sets for a partial time range

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..8ceb1f8 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -97,7 +97,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From c9cb422f33e2167e6cced2935d16dfb58f496f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 06/95] fix: t_waitall used before assignment in the padded
 path of the netCDF and mat readers

---
 pyspod/utils/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8ceb1f8..8f2d7c7 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -298,6 +298,7 @@ class reader_2stage():
         nreqs = 1024
         recvcounts = np.zeros(mpi_size)
         reqs = []
+        t_waitall = 0
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
         if not use_padding:
@@ -591,6 +592,7 @@ class reader_mat():
         nreqs = 1024
         recvcounts = np.zeros(mpi_size)
         reqs = []
+        t_waitall = 0
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
         if not use_padding:
-- 
2.43.0


From 2502514e58eb5bab2bbc416be8530879098a4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 07/95] fix: np.product no longer exists in numpy 2

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8f2d7c7..fc3d615 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -523,7 +523,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From c63981808d6a2f4655bec254817406bb842b2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 08/95] fix: first negative frequency of the two-sided axis was
 positive for odd n_dft

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..7def859 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -627,7 +627,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From 472834d47f699b007d2e1091a207579232a6f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 09/95] fix: one-sided spectrum correction applied to two-sided
 spectra, and not to the last frequency for odd n_dft

---
 pyspod/spod/standard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 856af5e..22be28c 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -353,8 +353,10 @@ class Standard(Base):
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
         ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        ## (all but the zero and, for even n_dft, the Nyquist frequency)
+        if self._isrealx and not self._fullspectrum:
+            end = self._n_freq - 1 if self._n_dft % 2 == 0 else self._n_freq
+            L[1:end,:] = 2 * L[1:end,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
-- 
2.43.0


From d7a4f381b96878bedf4946b07f46981e1a9bd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 10/95] fix: upper and lower confidence bounds of the
 eigenvalues were stored under each other's name

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 7def859..a7c78cd 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -690,8 +690,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_u = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From 2dcd2a9643d5dd1d23abd66ed8302fac022a7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 11/95] fix: Streaming.fit took any error while reading a
 snapshot for the end of the data

---
 pyspod/spod/streaming.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..0ff32e2 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -98,12 +98,11 @@ class Streaming(Base):
 
             ## get new snapshot and abort if data stream runs dry
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
+                if ti >= self._nt:
                     self._pr0(f'--> Data stream ended.')
                     break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
-- 
2.43.0


From 9adbff41e25aab77649f63059afa76c93dd7ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 12/95] fix: Streaming.fit failed for one saved mode and for a
 rank that holds a single point

---
 pyspod/spod/streaming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 0ff32e2..b83acb1 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -159,10 +159,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From 967935dd63cd3c2a3ca1b884a9a0313d6f478f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 13/95] fix: Streaming.fit stored a fraction of the first
 snapshot as the long-time mean

---
 pyspod/spod/streaming.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index b83acb1..43508c5 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -250,6 +250,10 @@ class Streaming(Base):
         ## transpose eigs
         self._eigs = self._eigs.T
 
+        ## long-time mean (the mean of all snapshots at this point)
+        lt_mean = mu.real if self._isrealx else mu
+        self._lt_mean = self._set_dtype(lt_mean.ravel())
+
         # store and save results
         self._store_and_save()
         self._pr0(f'------------------------------------')
-- 
2.43.0


From 930893727136501aa05dd8ad53cc223a029c9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 14/95] fix: the imaginary part of complex data was discarded
 by reader_1stage

---
 pyspod/utils/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index fc3d615..6b9a661 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -89,7 +89,10 @@ class reader_1stage():
                     shape = (te-ts,) + d.shape[1:]
                     if len(shape) < len(self.shape):
                         shape = (te-ts,) + d.shape[1:] + (1,)
-                    data = np.zeros(shape, dtype=self._dtype)
+                    dtype = self._dtype
+                    if not self._is_real:
+                        dtype = np.result_type(dtype, np.complex64)
+                    data = np.zeros(shape, dtype=dtype)
 
                 data_idx = [np.s_[:]]*len(self.shape)
                 data_idx[0] = np.s_[cum_read:cum_read+read_je-read_js]
-- 
2.43.0


From 90bfa695ac86b4e6ca2717154168724c92e41d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 15/95] fix: long-time mean of complex data

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index a7c78cd..95aa5f8 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -593,7 +593,7 @@ class Base():
             last_val = data[last_key]["v"]
 
             shape_sxv = last_val[0,...].size
-            t_sum = np.zeros(last_val[0,...].shape)
+            t_sum = np.zeros(last_val[0,...].shape, dtype=np.result_type(last_val.dtype, float))
 
             for k,v in data.items():
                 val = v["v"]
@@ -602,7 +602,7 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape, dtype=np.result_type(data.dtype, float))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
-- 
2.43.0


From 6334734f5b36295f78237e07088ffc1191f5ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 16/95] fix: savefft and reuse_blocks failed for more than one
 variable

---
 pyspod/spod/standard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 22be28c..d66a8bf 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -63,7 +63,7 @@ class Standard(Base):
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            size_qhat = [*self._xshape, self._nv, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +72,7 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = np.load(path).reshape(size_qhat[:-1])
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,7 +107,7 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
+                        shape = [*self._xshape, self._nv]
                         if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
-- 
2.43.0


From 6ba74af6ec0da0b3b14fcb1e6703ba6ae3ce51a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 17/95] fix: reuse_blocks without savefft raised AttributeError

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 95aa5f8..308752c 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,7 +529,7 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
-        if self._savefft:
+        if self._savefft or self._reuse_blocks:
             self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
-- 
2.43.0


From d37588d4d96064a61699a7dc3775ddd9576b72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 18/95] fix: pvar returned NaN when a rank holds no data

---
 pyspod/utils/parallel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 2daccc1..8bf6897 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,15 +29,19 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
-    d = data - m
-    d *= d
-    v = np.sum(d)/n
+    if n > 0:
+        m = np.mean(data)
+        d = data - m
+        d *= d
+        v = np.sum(d)/n
+    else:
+        m = v = 0.
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
         n = na + nb
+        if n == 0: return a
         m = (na*ma + nb*mb)/n
         v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
         return ((n, m, v))
-- 
2.43.0


From 0e3ae1bc2908989dfcd6de88bebeb1e8bbf7ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 19/95] fix: reader_1stage distributed the variables instead of
 the largest spatial dimension when there are more variables than points

---
 pyspod/utils/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 6b9a661..f4c2a19 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -58,7 +58,7 @@ class reader_1stage():
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
         self._is_real = np.isreal(x_tmp).all()
-        self._max_axis = np.argmax(self._shape[1:])
+        self._max_axis = np.argmax(self._xshape)
         del x_tmp
         del data
 
@@ -82,8 +82,9 @@ class reader_1stage():
             read_je = min(te, file_ts_end)
 
             if read_je > read_js:
-                d, _, self._global_shape = \
-                    utils_par.distribute_data(data=d, comm=self._comm)
+                self._global_shape = d.shape[1:]
+                d = utils_par.distribute_dimension(
+                    data=d, max_axis=self._max_axis+1, comm=self._comm)
                 if data is None:
                     # add extra dimension for 1 variable data
                     shape = (te-ts,) + d.shape[1:]
-- 
2.43.0


From 3cdc6c3ba7cdb671077e62e0903ae3b7ebad2682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 20/95] fix: flattened weights failed in parallel and with
 normalize_weights

---
 pyspod/spod/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 308752c..ca00459 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -562,6 +562,9 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, tuple(self._xshape) + (self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From 0d6f81c449ac0384f5104e8e4f2fd582c53730ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 21/95] fix: compute_coeffs_conv failed for a frequency band, a
 single mode or a single point

---
 pyspod/spod/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..fa8ad47 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -319,12 +319,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[cnt_freq,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -378,8 +378,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = (Q_blk * weights[:,0])
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
-- 
2.43.0


From c7bab99781b9d9702e95d4e9cab1fe848723290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 22/95] fix: compute_coeffs_conv stored the contribution of
 rank 0 only

---
 pyspod/spod/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index fa8ad47..eea399c 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -388,6 +388,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From fa0b5d93dae30877a6e5a803cd6977e4291c1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 23/95] fix: compute_coeffs_conv stored the modes in scrambled
 order

---
 pyspod/spod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index eea399c..235d9fa 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -405,7 +405,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.reshape(np.moveaxis(phir, 0, 1), shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 363fcc68df517b8053c575647f722c2730054de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 24/95] fix: coefficients for given frequency ids raised a
 TypeError or had the wrong number of frequencies

---
 pyspod/spod/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 235d9fa..33747fa 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -118,7 +118,12 @@ def compute_coeffs_op(
     weights = _set_dtype(weights, dtype)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -126,9 +131,9 @@ def compute_coeffs_op(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -277,7 +282,12 @@ def compute_coeffs_conv(
     window = window.reshape(window.shape[0], 1)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -285,9 +295,9 @@ def compute_coeffs_conv(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From 357a5c4532d03efbabd250a6244a58b98511c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 25/95] fix: writing to loaded modes changed the stored results

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..102b47c 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -160,7 +160,7 @@ def get_data_from_file(filename):
 
     if ext.lower() == '.npy':
         # m = np.load(filename)
-        m = np.lib.format.open_memmap(filename)
+        m = np.lib.format.open_memmap(filename, mode='c')
         # mode='r+', dtype=None, shape=None, fortran_order=False, version=None)
     # elif ext.lower() == '.mat':
     #     pass
-- 
2.43.0


From 957a6433290f96360e3b553a0fb2d9eb8a63062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 26/95] fix: receive counts of the padded path of the file
 readers were floats, which MPI refuses

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index f4c2a19..ab2a3f2 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -300,7 +300,7 @@ class reader_2stage():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=np.int64)
         reqs = []
         t_waitall = 0
 
@@ -594,7 +594,7 @@ class reader_mat():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=np.int64)
         reqs = []
         t_waitall = 0
 
-- 
2.43.0


From 33af2aa492622d36fc29f0b33de3c128d1ce7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 27/95] fix: npy_load failed for files of non-native byte order

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 8bf6897..54b9d0b 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -303,7 +303,7 @@ def npy_load(comm, filename, axis=0, count=None):
             mpi_order = MPI.ORDER_C
         else:
             mpi_order = MPI.ORDER_FORTRAN
-        datatype = dtlib.from_numpy_dtype(dtype)
+        datatype = dtlib.from_numpy_dtype(dtype.newbyteorder('='))
 
         if shape[axis] > 0:
             subarray = datatype.Create_subarray(
@@ -321,7 +321,7 @@ def npy_load(comm, filename, axis=0, count=None):
         datatype.Free()
         subarray.Free()
         array = np.empty(shape, dtype, npy_order)
-        file.Read_all(array)
+        file.Read_all(array.view(dtype.newbyteorder('='))) # bytes as stored
         file.Close()
     else:
         array = np.load(filename)
-- 
2.43.0


From c41b2169f5eab17b511ac64079283c67dc0fe115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 28/95] fix: pvar gave a complex number for the variance of
 complex data

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 54b9d0b..ffe9b6b 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -31,7 +31,7 @@ def pvar(data, comm):
     n = np.size(data)
     if n > 0:
         m = np.mean(data)
-        d = data - m
+        d = np.abs(data - m)
         d *= d
         v = np.sum(d)/n
     else:
@@ -43,7 +43,7 @@ def pvar(data, comm):
         n = na + nb
         if n == 0: return a
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
-- 
2.43.0


From a261689928b9cbb9e95c1ea9d33b5075b584b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 29/95] fix: reader_2stage selected snapshots by time value,
 which fails without unique ascending time coordinates

---
 pyspod/utils/reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index ab2a3f2..f978d14 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -274,10 +274,7 @@ class reader_2stage():
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
                     first_var = list(d[self._variables[0]].dims)[0]
-                    time_from = d[first_var].values[read_js-cum_t]
-                    time_to = d[first_var].values[read_je-cum_t-1] # .sel uses inclusive indexing on both ends!
-
-                    with d.sel({first_var: slice(time_from,time_to)},drop=True) as dvars:
+                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
                         for idx, var in enumerate(self._variables):
                             vals = dvars[var].values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-- 
2.43.0


From 15f69935b6aa98c20c89ff433df340ad1c77b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 30/95] fix: integer data in netCDF and MATLAB files was
 treated as complex

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index f978d14..597e228 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -208,7 +208,7 @@ class reader_2stage():
                 shape = d.shape
                 self._file_time[f] = (nt, nt+shape[0])
                 nt += shape[0]
-                if d.dtype != 'float32' and d.dtype != 'float64':
+                if d.dtype.kind not in 'fiub':
                     self._is_real = False
                 d.close()
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
@@ -503,7 +503,7 @@ class reader_mat():
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype != 'float32' and data.dtype != 'float64':
+            if data.dtype.kind not in 'fiub':
                 self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
-- 
2.43.0


From a96ebb7cde8832355d60aad40c16f17f5486c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 31/95] fix: normalize_weights raised a TypeError for data read
 from files

---
 pyspod/spod/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index ca00459..1f93f6e 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -473,8 +473,11 @@ class Base():
         ## normalize weights if required
         if self._normalize_weights:
             self._pr0('- normalizing weights')
+            data = self.data
+            if isinstance(data,dict):
+                data = np.concatenate([v['v'] for v in data.values()])
             self._weights = utils_weights.apply_normalization(
-                data=self.data, weights=self._weights,
+                data=data, weights=self._weights,
                 n_vars=self._nv, comm=self._comm, method='variance')
 
         ## flatten weights to number of space x variables points
-- 
2.43.0


From 51f2e168cb27f0b450afa65df50f0d7ddd16f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 32/95] fix: streaming one-sided correction applied to
 two-sided spectra, and not to the last frequency for odd n_dft

---
 pyspod/spod/streaming.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 43508c5..e8f8cd3 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -77,10 +77,12 @@ class Streaming(Base):
 
         ## check if real for frequency axis
         if self._isrealx:
-            dft[:,1:n_freq-1] = 2 * dft[:,1:n_freq-1]
             if self._fullspectrum:
                 freq_idx = np.arange(0, int(self._n_dft), 1)
             else:
+                ## double all but the zero and, for even n_dft, the Nyquist frequency
+                end = n_freq - 1 if self._n_dft % 2 == 0 else n_freq
+                dft[:,1:end] = 2 * dft[:,1:end]
                 freq_idx = np.arange(0, int(self._n_dft/2+1))
             dft = dft[:,freq_idx]
 
-- 
2.43.0


From e3f6f0b6fa6f117e5a41927b74a777f8d98ab142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 33/95] fix: Streaming.fit failed or lost orthogonality when
 the data lies in the span of the modes

---
 pyspod/spod/streaming.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index e8f8cd3..8516196 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -173,13 +173,24 @@ class Streaming(Base):
                         ## orthogonal complement to U, eqn. (27)
                         u_p = x - np.matmul(U, Ux)
 
+                        ## remove what rounding left in the span of U
+                        Uu = np.matmul(U.conj().T, u_p)
+                        Uu = utils_par.allreduce(Uu, comm=self._comm)
+                        u_p = u_p - np.matmul(U, Uu)
+
                         ## norm of orthogonal complement
                         abs_up = np.matmul(u_p.conj().T, u_p)
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
                         abs_up = np.sqrt(abs_up)
 
-                        ## normalized orthogonal complement
-                        u_new = u_p / abs_up
+                        ## normalized orthogonal complement (zero if the new
+                        ## data lies in the span of the basis)
+                        tol = np.finfo(self._float).eps * la.norm(Ux)
+                        if abs_up.real <= tol:
+                            u_new = np.zeros_like(u_p)
+                            abs_up = np.zeros_like(abs_up)
+                        else:
+                            u_new = u_p / abs_up
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
-- 
2.43.0


From fa6dd74a469daf39336aab90151a04a0f7ff8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 34/95] fix: complex data with a real first snapshot was taken
 for real data

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 597e228..7e4b6db 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -57,7 +57,7 @@ class reader_1stage():
         self._shape = x_tmp.shape
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
-        self._is_real = np.isreal(x_tmp).all()
+        self._is_real = all(d.dtype.kind != 'c' or np.isreal(d).all() for d in data_list)
         self._max_axis = np.argmax(self._xshape)
         del x_tmp
         del data
-- 
2.43.0


From 758209fc0a26a84d7a66a1b1ef98eda315dfc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 35/95] fix: coefficients and orthogonality of file-based
 results used weights split along the wrong axis in parallel

---
 pyspod/spod/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 33747fa..dcbc214 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -50,7 +50,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     n_modes_save = params['n_modes_save']
     weights = _set_dtype(weights, dtype)
 
-    ## distribute weights and reshape
+    ## distribute weights (shaped as the modes) and reshape
+    phi = post.get_modes_at_freq(results_dir, freq_idx=freq_idx[0])
+    weights = np.reshape(weights, phi.shape[:-1])
     weights, max_axis, _ = utils_par.distribute(data=weights, comm=comm)
     xsize = weights.size
     weights = np.reshape(weights, [xsize, 1])
@@ -142,7 +144,8 @@ def compute_coeffs_op(
     coeffs = np.zeros(shape_tmp, dtype=dt_complex)
 
     ## distribute data and weights if parallel
-    data, max_axis, _ = utils_par.distribute_data(data, comm)
+    data, max_axis, xshape = utils_par.distribute_data(data, comm)
+    weights = np.reshape(weights, (*xshape[:xdim], nv))
     weights = utils_par.distribute_dimension(weights, max_axis, comm)
 
     ## add axis for single variable
@@ -306,7 +309,8 @@ def compute_coeffs_conv(
     coeffs = np.zeros(shape_tmp, dtype=dt_complex)
 
     ## distribute data and weights if parallel
-    data, max_axis, _ = utils_par.distribute_data(data, comm)
+    data, max_axis, xshape = utils_par.distribute_data(data, comm)
+    weights = np.reshape(weights, (*xshape[:xdim], nv))
     weights = utils_par.distribute_dimension(weights, max_axis, comm)
 
     ## add axis for single variable
-- 
2.43.0


From ec184887f4c17128c5b0cb3970af8cdb911be061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 36/95] fix: compute_coeffs_conv discarded the imaginary part
 of the mean of complex data

---
 pyspod/spod/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index dcbc214..4dacc9c 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -325,7 +325,8 @@ def compute_coeffs_conv(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0, dtype=np.float64)
+    lt_mean = np.mean(
+        data, axis=0, dtype=np.result_type(data.dtype, np.float64))
     data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From a3b7eb675210a68cdf01acb25e981922da276e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 37/95] fix: modes of repeated eigenvalues were not orthogonal
 (general instead of hermitian eigenproblem)

---
 pyspod/spod/standard.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index d66a8bf..e7c2b50 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -203,12 +203,15 @@ class Standard(Base):
         self._pr0(f'- M computation: {time.time() - st} s.')
         st = time.time()
 
-        ## compute eigenvalues and eigenvectors
-        L, V = la.eig(M)
-        L = np.real_if_close(L, tol=1000000)
+        ## compute eigenvalues and eigenvectors of the hermitian matrices (real
+        ## eigenvalues and orthogonal eigenvectors, also for repeated ones);
+        ## the largest component of each eigenvector is made real
+        L, V = la.eigh(M)
+        pivot = np.take_along_axis(
+            V, np.argmax(np.abs(V), axis=1)[:,None,:], axis=1)
+        V = V * (np.abs(pivot) / pivot)
         del M
 
-
         # reorder eigenvalues and eigenvectors
         ## double non-zero freq and non-Nyquist
         for f, Lf in enumerate(L):
-- 
2.43.0


From 31ca6d84bae2b86b3d3ab3e928179e7b2126c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 38/95] fix: modes without energy were NaN or noise, and NaN
 made every projection fail

---
 pyspod/spod/standard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index e7c2b50..9ef888d 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -224,8 +224,10 @@ class Standard(Base):
         st = time.time()
 
         # compute spatial modes for given frequency
-        L_diag = np.sqrt(self._n_blocks) * np.sqrt(L)
-        L_diag_inv = 1. / L_diag
+        ## (zero if the energy of the mode does not exceed rounding errors)
+        null = L <= np.finfo(self._float).eps * self._n_blocks * L[:,[0]]
+        L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.where(null, 1, L))
+        L_diag_inv = np.where(null, 0, 1. / L_diag)
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From 1d76f57f9fc063b4ef8cf38d34c3b60060e77c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 39/95] fix: the selected modes were ignored when computing
 coefficients

---
 pyspod/spod/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 4dacc9c..8e1f103 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -116,6 +116,9 @@ def compute_coeffs_op(
     freq   = eigs_freq['freq']
     n_freq = params['n_freq']
     n_modes_save = params['n_modes_save']
+    if modes_idx is not None:
+        modes_idx = [int(i) for i in modes_idx]
+        n_modes_save = len(modes_idx)
     data = _set_dtype(data, dtype)
     weights = _set_dtype(weights, dtype)
 
@@ -165,8 +168,8 @@ def compute_coeffs_op(
     st = time.time()
 
     ## get modes
-    phir = _get_modes(results_dir, n_freq_r,
-        freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
+    phir = _get_modes(results_dir, n_freq_r, freq_idx,
+        max_axis, xsize, n_modes_save, dt_complex, comm, modes_idx)
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -268,6 +271,9 @@ def compute_coeffs_conv(
     n_freq = params['n_freq']
     n_dft  = params['n_dft']
     n_modes_save = params['n_modes_save']
+    if modes_idx is not None:
+        modes_idx = [int(i) for i in modes_idx]
+        n_modes_save = len(modes_idx)
     data = _set_dtype(data, dtype)
     weights = _set_dtype(weights, dtype)
 
@@ -337,6 +343,7 @@ def compute_coeffs_conv(
     phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
     for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
+        if modes_idx is not None: phi = phi[...,modes_idx]
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
         phir[cnt_freq,...] = phi
@@ -717,7 +724,7 @@ def _get_required_data(results_dir):
 
 
 def _get_modes(results_dir, n_freq, freq_idx,
-    max_axis, xsize, n_modes_save, dt_complex, comm):
+    max_axis, xsize, n_modes_save, dt_complex, comm, modes_idx=None):
     ## order weights and modes such that each frequency contains
     ## all required modes (n_modes_save)
     ## - freq_0: modes from 0 to n_modes_save
@@ -729,6 +736,7 @@ def _get_modes(results_dir, n_freq, freq_idx,
     cnt_freq = 0
     for i_freq in freq_idx:
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
+        if modes_idx is not None: phi = phi[...,modes_idx]
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
         for i_mode in range(n_modes_save):
-- 
2.43.0


From f9af6f3c2d06ef5cf89f354cf564de610a1b1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 40/95] fix: POD coefficients ignored the weights of the inner
 product

---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..f2ec74f 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir) @ (weights * np.transpose(data))
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From dd74fdeaacfd8ba17e4781f3a2428d3ae5821507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 41/95] fix: the selected modes were ignored when computing POD
 coefficients

---
 pyspod/pod/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index f2ec74f..bf29022 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -46,6 +46,9 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     ## get required parameters
     nv     = params['n_variables']
     xdim   = params['n_space_dims']
+    if modes_idx is not None:
+        modes_idx = [int(i) for i in modes_idx]
+        phir = phir[...,modes_idx]
     n_modes_save = phir.shape[-1]
 
     ## set datatypes
-- 
2.43.0


From 001b32000593e7faf973c5c9f883dc53cb63dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 42/95] fix: POD modes were not sorted by energy, and not
 orthogonal for repeated eigenvalues

---
 pyspod/pod/standard.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..19151df 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -49,7 +49,12 @@ class Standard(Base):
         ## eigendecomposition
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
-        w, v = scipy.linalg.eig(Q)
+        ## (the Schur vectors of a symmetric matrix are its eigenvectors, and
+        ## orthogonal also for repeated eigenvalues), largest energy first
+        w, v = scipy.linalg.schur(Q)
+        w = np.diag(w)
+        idx = np.argsort(w)[::-1]
+        w, v = w[idx].astype(complex), v[:,idx]
 
         # bases
         self._pr0(f' ')
-- 
2.43.0


From c24b686c6af4acc9810c200185be556f05e4c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 43/95] fix: POD.fit refused several variables and data with a
 variable axis

---
 pyspod/pod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..958e6d1 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,7 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert d.shape[1:] == data.shape[1:]
             self._nt += d.shape[0]
 
         # # Determine whether data is real-valued or complex-valued-valued
-- 
2.43.0


From ad3534d57d571e955aa6d23b98d337a0f6fd80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 44/95] fix: POD.fit failed for the default number of saved
 modes

---
 pyspod/pod/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 958e6d1..95ea3d4 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -235,6 +235,9 @@ class Base():
             assert d.shape[1:] == data.shape[1:]
             self._nt += d.shape[0]
 
+        ## at most one mode per snapshot
+        self._n_modes_save = int(min(self._n_modes_save, self._nt))
+
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
         self._isrealx = np.isreal(data[0]).all()
-- 
2.43.0


From 978fee2ae6e5dc2358f85ac8b2cca34fbfe649ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 45/95] fix: flattened weights failed in parallel POD

---
 pyspod/pod/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 95ea3d4..d80dcd3 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -329,6 +329,9 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, tuple(self._xshape) + (self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From a7452799ae7eec5bff4b9f426af5e15a86ec94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 46/95] fix: POD modes without energy were noise, which spoiled
 the reconstruction

---
 pyspod/pod/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index 19151df..2180dcf 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -60,7 +60,10 @@ class Standard(Base):
         self._pr0(f' ')
         self._pr0(f'Calculating standard POD ...')
         st = time.time()
-        phi = np.real(d @ v) / np.sqrt(w[:])
+        ## (zero if the energy of the mode does not exceed rounding errors)
+        null = w.real <= np.finfo(self._float).eps * self._nt * w[0].real
+        phi = np.real(d @ v) / np.sqrt(np.where(null, 1, w))
+        phi[:,null] = 0
 
         # truncation and save
         phi_r = phi[:,0:self._n_modes_save]
-- 
2.43.0


From c362758dca7422dddedc7774c0335d2950c3d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 47/95] fix: parameters clipped or added by a fit were used by
 later fits

---
 pyspod/pod/base.py  | 4 +++-
 pyspod/spod/base.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index d80dcd3..51a04e3 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -29,6 +29,7 @@ class Base():
     Proper Orthogonal Decomposition base class.
     '''
     def __init__(self, params, weights=None, comm=None):
+        params = dict(params) # results are added, which are not for the caller
         # store mandatory parameters in class
         self._dt   = params['time_step']
         self._xdim = params['n_space_dims']
@@ -40,6 +41,7 @@ class Base():
         self._normalize_data = params.get('normalize_data', False)
         self._normalize_weights = params.get('normalize_weights', False)
         self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_requested = self._n_modes_save
         self._dtype = params.get('dtype', 'double')
         self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
@@ -236,7 +238,7 @@ class Base():
             self._nt += d.shape[0]
 
         ## at most one mode per snapshot
-        self._n_modes_save = int(min(self._n_modes_save, self._nt))
+        self._n_modes_save = int(min(self._n_modes_requested, self._nt))
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 1f93f6e..8579a8b 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -48,6 +48,7 @@ class Base():
     Spectral Proper Orthogonal Decomposition base class.
     '''
     def __init__(self, params, weights=None, comm=None):
+        params = dict(params) # results are added, which are not for the caller
         ##--- required
         self._n_dft = int(params['n_dft'])   # number of DFT (per block)
         self._dt    = params['time_step'   ] # time-step of the data
@@ -75,6 +76,7 @@ class Base():
         self._normalize_data = params.get('normalize_data', False)
         # default is all (large number)
         self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_requested = self._n_modes_save
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
@@ -500,8 +502,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
-        if self._n_modes_save > self._n_blocks:
-            self._n_modes_save = self._n_blocks
+        self._n_modes_save = min(self._n_modes_requested, self._n_blocks)
 
         # determine correction for FFT window gain
         self._win_weight = 1 / np.mean(self._window)
-- 
2.43.0


From 2e045e706bfedc028b0cb5b325909cf2a71a4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 48/95] fix: modes left in the results folder by an earlier fit
 were returned as those of the last fit

---
 pyspod/spod/base.py      | 9 +++++++++
 pyspod/spod/standard.py  | 2 ++
 pyspod/spod/streaming.py | 1 +
 3 files changed, 12 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 8579a8b..1b6d24f 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -711,6 +711,15 @@ class Base():
         utils_par.barrier(self._comm)
 
 
+    def _remove_modes(self):
+        '''Remove the modes that an earlier fit left in the results folder.'''
+        if self._rank == 0:
+            for f in os.listdir(self._modes_dir):
+                if f.startswith('freq_idx_') and f.endswith('.npy'):
+                    os.remove(os.path.join(self._modes_dir, f))
+        utils_par.barrier(self._comm)
+
+
     def _pr0(self, string):
         '''Print rank 0 only.'''
         utils_par.pr0(string=string, comm=self._comm)
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 9ef888d..db0c883 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -229,6 +229,8 @@ class Standard(Base):
         L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.where(null, 1, L))
         L_diag_inv = np.where(null, 0, 1. / L_diag)
 
+        if self._savefreq_disk or self._savefreq_disk2: self._remove_modes()
+
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
                 s0 = time.time()
diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 8516196..7fb1807 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -240,6 +240,7 @@ class Streaming(Base):
         phi = np.einsum('ijk->jik', phi)
 
         ## save modes
+        self._remove_modes()
         for f in range(0,n_freq):
             filename = f'freq_idx_{f:08d}.npy'
             path_modes = os.path.join(self._modes_dir, filename)
-- 
2.43.0


From 5c256d68e042f1577a05d0790a6f28da70dfc02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 49/95] fix: parallel POD distributed the variables when there
 are more variables than points, which breaks the normalisation

---
 pyspod/pod/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 51a04e3..1053d08 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -252,8 +252,10 @@ class Base():
         tmp_nt = 0
         data = np.empty(0)
         for i, d in enumerate(data_list):
-            d, self._max_axis, self._global_shape = \
-                utils_par.distribute_data(data=d, comm=self._comm)
+            self._max_axis = np.argmax(self._xshape)
+            self._global_shape = d.shape[1:]
+            d = utils_par.distribute_dimension(
+                data=d, max_axis=self._max_axis+1, comm=self._comm)
             if i == 0:
                 data = np.zeros((self._nt,) + d.shape[1:], self._float)
             data[tmp_nt:tmp_nt+d.shape[0],...] = d
-- 
2.43.0


From eab301cacc570c22cc6696e925dc5acbd1ae2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 50/95] fix: complex data was normalised by a complex number
 instead of its variance

---
 pyspod/spod/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index db0c883..85302f9 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -173,7 +173,8 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum((Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_var = np.sum(
+                np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
-- 
2.43.0


From bd6f78a873bed0a97dc685c3ccf4bf135d4d5ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 51/95] fix: Streaming.fit lost orthogonality when rounding
 errors were taken for a new direction

---
 pyspod/spod/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 7fb1807..db78148 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -185,7 +185,7 @@ class Streaming(Base):
 
                         ## normalized orthogonal complement (zero if the new
                         ## data lies in the span of the basis)
-                        tol = np.finfo(self._float).eps * la.norm(Ux)
+                        tol = 100 * np.finfo(self._float).eps * la.norm(Ux)
                         if abs_up.real <= tol:
                             u_new = np.zeros_like(u_p)
                             abs_up = np.zeros_like(abs_up)
-- 
2.43.0


From 2c60995b1c5d65a5b8264482110ffa96b892cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 52/95] fix: single precision fits stored the modes in double
 precision

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 85302f9..1859159 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -227,7 +227,7 @@ class Standard(Base):
         # compute spatial modes for given frequency
         ## (zero if the energy of the mode does not exceed rounding errors)
         null = L <= np.finfo(self._float).eps * self._n_blocks * L[:,[0]]
-        L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.where(null, 1, L))
+        L_diag = np.sqrt(self._float(self._n_blocks)) * np.sqrt(np.where(null, 1, L))
         L_diag_inv = np.where(null, 0, 1. / L_diag)
 
         if self._savefreq_disk or self._savefreq_disk2: self._remove_modes()
-- 
2.43.0


From 34d40bd591b946dbd92e2919699b573477cf5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 53/95] fix: modes of Streaming.fit were NaN where the weight
 is zero

---
 pyspod/spod/streaming.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index db78148..7d786ed 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -234,7 +234,10 @@ class Streaming(Base):
                 #     self._eigs**2)**2) / (S_hat_prev**2)
 
         ## rescale such that <U_i,U_j>_E = U_i^H * W * U_j = delta_ij
-        phi = u_hat[:,:,0:n_m_save] * (1 / sqrt_w[:,:,np.newaxis])
+        ## (zero where the weight is zero)
+        zero_w = sqrt_w == 0
+        inv_sqrt_w = np.where(zero_w, 0, 1 / np.where(zero_w, 1, sqrt_w))
+        phi = u_hat[:,:,0:n_m_save] * inv_sqrt_w[:,:,np.newaxis]
 
         # ## shuffle and reshape
         phi = np.einsum('ijk->jik', phi)
-- 
2.43.0


From 49eb70cd804091288a88f67c47bf4f58048631e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 54/95] fix: geo_trapz_3D stacked the weights of several
 variables along the first spatial axis

---
 pyspod/utils/weights.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 916ece5..3d32caf 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -80,7 +80,8 @@ def geo_trapz_3D(x1_dim, x2_dim, x3_dim, n_vars, **kwargs):
     dA = np.abs(R**2 * np.cos(lat_rad) * d_lon.T * d_lat).T
     dA = np.tile(dA, [x3_dim, 1, 1])
     dA = np.einsum('ijk->jki', dA)
-    dA = np.tile(dA, [n_vars, 1, 1])
+    ## the variables are the last axis
+    if n_vars > 1: dA = np.stack([dA] * n_vars, axis=-1)
     w = { 'weights_name': 'geo_trapz_3D', 'weights': dA }
     return w
 
-- 
2.43.0


From ac74b2834603888ae35a70dfa993849ec0c8b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 55/95] fix: get_all_modes changed the working directory and
 failed for per-mode files

---
 pyspod/utils/postproc.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 102b47c..eb96bd0 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -131,16 +131,12 @@ def get_all_modes(results_path):
     :rtype: numpy.ndarray
     '''
     if isinstance(results_path, str):
-        import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
-        flist = []
-        for filename in glob.glob("*.npy"):
-            flist.append(filename)
-        flist.sort()
-        m = [None] * len(flist)
-        for f_idx, f in enumerate(flist):
-            m[f_idx] = get_data_from_file(f)
+        flist = [os.path.basename(f) for f in glob.glob(
+            os.path.join(glob.escape(modes_path), 'freq_idx_*.npy'))]
+        ## freq_idx_<freq>.npy, or freq_idx_f<freq>_m<mode>.npy
+        idxs = {int(f[len('freq_idx_'):].lstrip('f')[:8]) for f in flist}
+        m = [get_modes_at_freq(results_path, idx) for idx in sorted(idxs)]
         m = np.stack(m)
     else:
         raise TypeError('Modes must be a string to modes.npy')
-- 
2.43.0


From 64b3fef8f2c814e86a9c015ffd63a851612ef0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 56/95] fix: compute_coeffs_op and compute_reconstruction
 methods ignored the folder they are given

---
 pyspod/pod/base.py  | 4 ++--
 pyspod/spod/base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 1053d08..7bfeed8 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -386,7 +386,7 @@ class Base():
         See method implementation in the pod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_pod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -402,7 +402,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_pod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, coeffs=coeffs, time_idx=time_idx,
+                coeffs_dir=coeffs_dir, coeffs=coeffs, time_idx=time_idx,
                 comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 1b6d24f..c5a865b 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -644,7 +644,7 @@ class Base():
         See method implementation in the spod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -660,7 +660,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)
+                coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
-- 
2.43.0


From 476a349d3da50f7d70469eb23d0165f42295a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 57/95] fix: get_modes_at_freq missed per-mode files below
 folders with glob characters in their name

---
 pyspod/utils/postproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index eb96bd0..a600793 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -107,8 +107,9 @@ def get_modes_at_freq(results_path, freq_idx):
         m = get_data_from_file(filename)
     else:
         tmp_str = f'freq_idx_f{freq_idx:08d}_m*.npy'
-        filename = os.path.join(results_path, 'modes', tmp_str)
-        modes = sorted(glob.glob(os.path.join(filename)))
+        filename = os.path.join(
+            glob.escape(os.path.join(results_path, 'modes')), tmp_str)
+        modes = sorted(glob.glob(filename))
         nmodes = len(modes)
 
         if nmodes > 0:
-- 
2.43.0


From c71bcb65654498629ceb16fd17d60f0d247addcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 58/95] fix: savefft and reuse_blocks failed or mixed up points
 for data read in parallel from files

---
 pyspod/spod/standard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 1859159..3e9438c 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -64,6 +64,8 @@ class Standard(Base):
             # load blocks if present
             Q_hats = {}
             size_qhat = [*self._xshape, self._nv, self._n_blocks]
+            if self._reader._flattened:
+                size_qhat = [self._nx, self._nv, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -108,7 +110,9 @@ class Standard(Base):
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
                         shape = [*self._xshape, self._nv]
-                        if self._comm: shape[self._max_axis] = -1
+                        if self._reader._flattened:
+                            shape = [self._local_shape, self._nv]
+                        elif self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
                             self._comm, path, Q_blk_hat_fr,
-- 
2.43.0


From 14484e52259395702fee212888b82818052c59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 59/95] fix: an interrupted fit with savefft left a mix of its
 blocks and those of an earlier fit

---
 pyspod/spod/base.py     | 16 +++++++++++++---
 pyspod/spod/standard.py |  3 +++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index c5a865b..f6e15e8 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -713,10 +713,20 @@ class Base():
 
     def _remove_modes(self):
         '''Remove the modes that an earlier fit left in the results folder.'''
+        self._remove_files(self._modes_dir, 'freq_idx_')
+
+
+    def _remove_blocks(self):
+        '''Remove the blocks that an earlier fit left in the results folder.'''
+        self._remove_files(self._blocks_folder, ('fft_block', 'tmp_fft_block'))
+
+
+    def _remove_files(self, folder, prefix):
+        '''Remove the .npy files of a folder that start with the prefix.'''
         if self._rank == 0:
-            for f in os.listdir(self._modes_dir):
-                if f.startswith('freq_idx_') and f.endswith('.npy'):
-                    os.remove(os.path.join(self._modes_dir, f))
+            for f in os.listdir(folder):
+                if f.startswith(prefix) and f.endswith('.npy'):
+                    os.remove(os.path.join(folder, f))
         utils_par.barrier(self._comm)
 
 
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 3e9438c..74f7913 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -91,6 +91,9 @@ class Standard(Base):
             else:
                 xvsize = self.data[0,...].size
 
+            # blocks of an earlier fit must not be taken for blocks of this one
+            if self._savefft: self._remove_blocks()
+
             Q_hats = {}
             for i_blk in range(0,self._n_blocks):
                 st = time.time()
-- 
2.43.0


From 386bdf648a29e109abf2aeed86979df6adb74eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 60/95] fix: an interrupted parallel fit with savefft left
 block files with holes that reuse_blocks took for complete

---
 pyspod/spod/standard.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 74f7913..0c6522b 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -112,14 +112,19 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
+                        # (a block file is always complete)
+                        path_tmp = os.path.join(
+                            self._blocks_folder, 'tmp_' + file)
                         shape = [*self._xshape, self._nv]
                         if self._reader._flattened:
                             shape = [self._local_shape, self._nv]
                         elif self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
-                            self._comm, path, Q_blk_hat_fr,
+                            self._comm, path_tmp, Q_blk_hat_fr,
                             axis=self._max_axis)
+                        utils_par.barrier(self._comm)
+                        if self._rank == 0: os.replace(path_tmp, path)
 
                 # print info file
                 self._pr0(f'block {(i_blk+1)}/{(self._n_blocks)}'
-- 
2.43.0


From 4658b1b58f3675042d53db002e1719f58ba7cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 61/95] fix: npy_load returned arbitrary numbers for an
 incomplete file

---
 pyspod/utils/parallel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index ffe9b6b..dc627db 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -284,6 +284,9 @@ def npy_load(comm, filename, axis=0, count=None):
             offset = file.Get_position()
             data = (offset, shape, dtype, "F" if fortran_order else "C")
         offset, sizes, dtype, npy_order = comm.bcast(data, root=0)
+        nbytes = np.prod(sizes, dtype=np.int64) * dtype.itemsize
+        if file.Get_size() < offset + nbytes:
+            raise ValueError(f'File {filename} is incomplete')
 
         if count is None:
             count = sizes[axis]
-- 
2.43.0


From 0f98d0fb0c4e2e0d51211e9bbcb4fdeef99f67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 62/95] fix: a results file cut short was extended with zeros
 and used by projection and reconstruction

---
 pyspod/pod/utils.py  | 10 +++++-----
 pyspod/spod/utils.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index bf29022..f0de71b 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -37,8 +37,8 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     file_modes   = os.path.join(results_dir, 'modes.npy')
     file_eigs    = os.path.join(results_dir, 'eigs.npz')
     file_params  = os.path.join(results_dir, 'params_modes.yaml')
-    weights      = np.lib.format.open_memmap(file_weights)
-    phir         = np.lib.format.open_memmap(file_modes)
+    weights      = np.lib.format.open_memmap(file_weights, mode='r')
+    phir         = np.lib.format.open_memmap(file_modes, mode='r')
     eigs         = np.load(file_eigs)
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
@@ -155,8 +155,8 @@ def compute_reconstruction(
     file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')
     file_phir    = os.path.join(coeffs_dir, 'modes_r.npy')
     file_params  = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    lt_mean      = np.lib.format.open_memmap(file_lt_mean)
-    phir         = np.lib.format.open_memmap(file_phir)
+    lt_mean      = np.lib.format.open_memmap(file_lt_mean, mode='r')
+    phir         = np.lib.format.open_memmap(file_phir, mode='r')
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
     xshape_nv = lt_mean.shape
@@ -164,7 +164,7 @@ def compute_reconstruction(
     if coeffs is None:
         try:
             file_coeffs = os.path.join(coeffs_dir, 'coeffs.npy')
-            coeffs      = np.lib.format.open_memmap(file_coeffs)
+            coeffs      = np.lib.format.open_memmap(file_coeffs, mode='r')
         except:
             raise Exception('`coeffs` file not found.')
 
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 8e1f103..9369e88 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -494,8 +494,8 @@ def compute_reconstruction(
     file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')
     file_phir    = os.path.join(coeffs_dir, 'modes_r.npy')
     file_params  = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    lt_mean      = np.lib.format.open_memmap(file_lt_mean)
-    phir         = np.lib.format.open_memmap(file_phir)
+    lt_mean      = np.lib.format.open_memmap(file_lt_mean, mode='r')
+    phir         = np.lib.format.open_memmap(file_phir, mode='r')
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
     xshape_nv = lt_mean.shape
@@ -503,7 +503,7 @@ def compute_reconstruction(
     if coeffs is None:
         try:
             file_coeffs = os.path.join(coeffs_dir, 'coeffs.npy')
-            coeffs      = np.lib.format.open_memmap(file_coeffs)
+            coeffs      = np.lib.format.open_memmap(file_coeffs, mode='r')
         except:
             raise Exception('`coeffs` file not found.')
 
@@ -717,7 +717,7 @@ def _get_required_data(results_dir):
             'eigs_freq.npz not found. Consider running fit to '
             'compute SPOD modes before computing coefficients.')
     ## load rest of files if found
-    weights = np.lib.format.open_memmap(file_weights)
+    weights = np.lib.format.open_memmap(file_weights, mode='r')
     with open(file_params) as f:
         params = yaml.load(f, Loader=yaml.FullLoader)
     return params, eigs_freq, weights
-- 
2.43.0


From 38f99d0d9c0aa96b3e8a8aab6c13144c28d01a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 63/95] fix: find_nearest_coords returned the index along the
 wrong axis

---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index a600793..65ae4b5 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -76,12 +76,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From 6b29049d00d85d66e4a419edbeefa0077e76a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 64/95] fix: relative errors were negative or cancelled for a
 reference with negative values

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index dbd952a..63b821d 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -17,7 +17,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
-    e_rel = ef / data_ref.flatten('C')
+    e_rel = ef / np.abs(data_ref.flatten('C'))
     if   norm_type == 'l1'  : error_norm = np.linalg.norm(ef, 1) / n
     elif norm_type == 'l2'  : error_norm = np.linalg.norm(ef) / n
     elif norm_type == 'linf': error_norm = np.amax(ef)
-- 
2.43.0


From 16dcfdc8eeb1a9d7c23a3114b7074dfd15691565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 65/95] fix: errors of opposite sign cancelled in
 compute_h_errors

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 63b821d..672c9d1 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum(uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * np.sum(np.abs(uprime - utrueprime)**2))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From 7dff9e82ad16d6ff1a9f887cd9563b9d69130f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 66/95] fix: read_data failed for npy files

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From e782e7520bc2bd0f3895a741f6fb0c778febe81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 67/95] fix: read_config failed for an empty optional section
 and dropped all but the first entry of a list item

---
 pyspod/utils/io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 3b4eeb9..7e2499c 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -78,10 +78,8 @@ def read_config(parsed_file=None):
 
 def _parse_yaml(l):
     params = dict()
-    for i,d in enumerate(l):
-        k = list(d.keys())[0]
-        v = d[k]
-        params[k] = v
+    for d in l or []: # None if the section is empty
+        params.update(d)
     return params
 
 
-- 
2.43.0


From 5f7470abced80aff842068b716e306d084450699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 68/95] fix: model_inference failed unless the predicted steps
 are a multiple of n_seq_out

---
 pyspod/emulation/neural_nets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..bc6e7ba 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -197,8 +197,8 @@ class Neural_Nets(Base):
         coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
-            ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From 1030f76be3f460933a0b6f121d00d6e2288a56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 69/95] fix: scaling a coefficient with a vanishing real or
 imaginary part gave NaN

---
 pyspod/emulation/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 2ee8c22..296520b 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -72,6 +72,9 @@ class Base():
                     vec[i] = 1.0 + 1j
         else:
             raise TypeError('You need to specify data_type; real or complex.')
+        ## do not scale a part that vanishes
+        vec.real[vec.real == 0] = 1.0
+        if np.iscomplexobj(vec): vec.imag[vec.imag == 0] = 1.0
         return vec
 
 
-- 
2.43.0


From 0aa136883a8b5bbe5f2dd8e7f4afba0c63d1ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 70/95] fix: errors in the list of data files found by rank 0
 left the other ranks waiting forever

---
 pyspod/utils/reader.py | 88 +++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 35 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 7e4b6db..255c698 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -14,6 +14,17 @@ except:
 import h5py
 
 
+def _raise_on_all_ranks(error, comm):
+    '''
+    Raise the error that occurred on rank 0, if any, on all ranks (otherwise
+    the other ranks would wait for rank 0 forever).
+    '''
+    message = None if error is None else str(error)
+    message = comm.bcast(message, root=0)
+    if error is not None: raise error
+    if message is not None: raise RuntimeError(f'rank 0: {message}')
+
+
 ########################################################################################
 # 1-stage reader
 ########################################################################################
@@ -190,37 +201,39 @@ class reader_2stage():
         assert variables is not None, 'Variable(s) has to be provided for the 2-stage reader'
         assert isinstance(variables,list), 'Variable(s) has to be provided as a list'
 
-        # data_list should be a list of filenames
-        if comm.rank == 0:
-            for f in data_list:
-                # check if file exists
-                assert os.path.isfile(f), f'File {f} does not exist'
-
         self._max_axes = np.array([1,0]) # time is the first dimension (not listed), then nvar, then the spatial dimension
         nt = 0
         shape = None
+        error = None
         if comm.rank == 0:
-            for f in data_list:
-                d = xr.open_dataset(f,cache=False)[variables[0]]
-                # make sure that all files have the same spatial shape
-                if shape is not None:
-                    assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
-                shape = d.shape
-                self._file_time[f] = (nt, nt+shape[0])
-                nt += shape[0]
-                if d.dtype.kind not in 'fiub':
-                    self._is_real = False
-                d.close()
-                self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
-
-            self._shape = (nt,) + shape[1:] + (self._nv,)
+            try:
+                for f in data_list:
+                    # check if file exists
+                    assert os.path.isfile(f), f'File {f} does not exist'
+                for f in data_list:
+                    d = xr.open_dataset(f,cache=False)[variables[0]]
+                    # make sure that all files have the same spatial shape
+                    if shape is not None:
+                        assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
+                    shape = d.shape
+                    self._file_time[f] = (nt, nt+shape[0])
+                    nt += shape[0]
+                    if d.dtype.kind not in 'fiub':
+                        self._is_real = False
+                    d.close()
+                    self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
+
+                self._shape = (nt,) + shape[1:] + (self._nv,)
+                assert nt >= self._nchunks*self._nblocks, f'Number of chunks {self._nchunks} and blocks {self._nblocks} is too large for the nt ({nt}) (nt must be equal at least self._nchunks*self._nblocks)'
+            except Exception as e:
+                error = e
+        _raise_on_all_ranks(error, comm)
 
         self._shape     = comm.bcast(self._shape,     root=0)
         self._is_real   = comm.bcast(self._is_real,   root=0)
         self._file_time = comm.bcast(self._file_time, root=0)
 
         if comm.rank == 0:
-            assert nt >= self._nchunks*self._nblocks, f'Number of chunks {self._nchunks} and blocks {self._nblocks} is too large for the nt ({nt}) (nt must be equal at least self._nchunks*self._nblocks)'
             mb_per_chunk_per_reader = 256
             item_size = np.dtype(self._dtype).itemsize
             size_per_ts = np.prod(self._shape[1:])*item_size/1024/1024
@@ -491,22 +504,27 @@ class reader_mat():
         nt = len(data_list)
 
         # data_list should be a list of filenames
+        error = None
         if comm.rank == 0:
-            for f in sorted(data_list):
-                # check if file exists
-                assert os.path.isfile(f), f'File {f} does not exist'
-                #print(f'file {f} exists')
-                self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
-
-
-            # check the first file to find dimensions
-            f = h5py.File(data_list[0], "r")
-            group_key = list(f.keys())[0]
-            data = f.get(group_key)
-            if data.dtype.kind not in 'fiub':
-                self._is_real = False
+            try:
+                for f in sorted(data_list):
+                    # check if file exists
+                    assert os.path.isfile(f), f'File {f} does not exist'
+                    #print(f'file {f} exists')
+                    self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
+
+
+                # check the first file to find dimensions
+                f = h5py.File(data_list[0], "r")
+                group_key = list(f.keys())[0]
+                data = f.get(group_key)
+                if data.dtype.kind not in 'fiub':
+                    self._is_real = False
 
-            self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+                self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+            except Exception as e:
+                error = e
+        _raise_on_all_ranks(error, comm)
 
         self._shape     = comm.bcast(self._shape,    root=0)
         self._is_real   = comm.bcast(self._is_real,  root=0)
-- 
2.43.0


From 89e6db2fbbcf655ebb76abbd4b5981ac4f530121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 71/95] fix: missing variables were read as zeros when fewer
 names than n_variables are given

---
 pyspod/utils/reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 255c698..59823c7 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -200,6 +200,7 @@ class reader_2stage():
         # check required (optional) arguments
         assert variables is not None, 'Variable(s) has to be provided for the 2-stage reader'
         assert isinstance(variables,list), 'Variable(s) has to be provided as a list'
+        assert len(variables) == nv, f'Number of variables ({len(variables)}) differs from n_variables ({nv})'
 
         self._max_axes = np.array([1,0]) # time is the first dimension (not listed), then nvar, then the spatial dimension
         nt = 0
-- 
2.43.0


From cde2797bde1f8a048f4b368e3eca0e466b22bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 72/95] fix: files or variables of different shape but equal
 size were accepted and mixed up

---
 pyspod/utils/reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 59823c7..860b6ea 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -212,7 +212,11 @@ class reader_2stage():
                     # check if file exists
                     assert os.path.isfile(f), f'File {f} does not exist'
                 for f in data_list:
-                    d = xr.open_dataset(f,cache=False)[variables[0]]
+                    ds = xr.open_dataset(f,cache=False)
+                    d = ds[variables[0]]
+                    # make sure that all variables have the same shape
+                    for var in variables:
+                        assert ds[var].shape == d.shape, f'Variable {var} in {f} has different shape than {variables[0]}'
                     # make sure that all files have the same spatial shape
                     if shape is not None:
                         assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
@@ -221,7 +225,7 @@ class reader_2stage():
                     nt += shape[0]
                     if d.dtype.kind not in 'fiub':
                         self._is_real = False
-                    d.close()
+                    ds.close()
                     self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
 
                 self._shape = (nt,) + shape[1:] + (self._nv,)
@@ -523,6 +527,13 @@ class reader_mat():
                     self._is_real = False
 
                 self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+                assert data.shape[0] == nv, f'Number of variables in {data_list[0]} ({data.shape[0]}) differs from n_variables ({nv})'
+
+                # make sure that all files have the same shape
+                for f in data_list[1:]:
+                    with h5py.File(f, "r") as ff:
+                        shape = ff.get(list(ff.keys())[0]).shape
+                    assert shape == data.shape, f'File {f} has different shape than the first one'
             except Exception as e:
                 error = e
         _raise_on_all_ranks(error, comm)
-- 
2.43.0


From d8a3c1da89223fb3880dd29584024b928c22a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 73/95] fix: an unknown dtype was silently taken for single
 precision

---
 pyspod/pod/base.py  | 4 +++-
 pyspod/spod/base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 7bfeed8..ca7097c 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -54,9 +54,11 @@ class Base():
         if self._dtype == 'double':
             self._float = np.float64
             self._complex = np.complex128
-        else:
+        elif self._dtype == 'single':
             self._float = np.float32
             self._complex = np.complex64
+        else:
+            raise ValueError(f'invalid dtype {self._dtype}.')
 
         ## define rank and size for both parallel and serial
         if self._comm:
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index f6e15e8..1b21b2e 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -91,9 +91,11 @@ class Base():
         if self._dtype == 'double':
             self._float = np.float64
             self._complex = np.complex128
-        else:
+        elif self._dtype == 'single':
             self._float = np.float32
             self._complex = np.complex64
+        else:
+            raise ValueError(f'invalid dtype {self._dtype}.')
 
         ## define rank and size for both parallel and serial
         if self._comm:
-- 
2.43.0


From 508cd3ae983fd6b83edd574f1648be8f1e96111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 74/95] fix: a fit refused because of savefreq_disk2 removed
 the stored modes first

---
 pyspod/spod/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 0c6522b..f89bf9e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -42,6 +42,8 @@ class Standard(Base):
         self._pr0(f' ')
         self._pr0(f'Initialize data ...')
         self._initialize(data_list, variables)
+        if self._savefreq_disk2:
+            assert self._reader._flattened, "savefreq_disk2 currently only works with flattened data"
         self._pr0(f'Time to initialize: {time.time() - start} s.')
 
         start = time.time()
@@ -278,7 +280,6 @@ class Standard(Base):
         ####################################
         ####################################
         ####################################
-            assert self._reader._flattened, "savefreq_disk2 currently only works with flattened data"
             rank = comm.rank
             ftype = MPI.C_FLOAT_COMPLEX if self._complex==np.complex64 else MPI.C_DOUBLE_COMPLEX
 
-- 
2.43.0


From 8879d2afb00eb9c7986cb973e662467ca793e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 75/95] fix: a fractional n_dft was truncated instead of
 refused

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 1b21b2e..e59585d 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -108,7 +108,7 @@ class Base():
 
         # get default spectral estimation parameters and options
         # define default spectral estimation parameters
-        if isinstance(self._n_dft, int):
+        if self._n_dft == float(params['n_dft']):
             self._window = utils_spod._hamming_window(self._n_dft)
             self._window = self._set_dtype(self._window)
             self._window_name = 'hamming'
-- 
2.43.0


From 798cdfb28709e97a214796ee32fa09a0a3e54ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 76/95] fix: a missing mode file silently gave fewer or shifted
 modes

---
 pyspod/utils/postproc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 65ae4b5..a1568d0 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -110,6 +110,13 @@ def get_modes_at_freq(results_path, freq_idx):
             glob.escape(os.path.join(results_path, 'modes')), tmp_str)
         modes = sorted(glob.glob(filename))
         nmodes = len(modes)
+        ## all frequencies have the same modes
+        flist = glob.glob(os.path.join(
+            os.path.dirname(filename), 'freq_idx_f*_m*.npy'))
+        expected = range(max([int(f[-12:-4]) + 1 for f in flist], default=0))
+        if [int(f[-12:-4]) for f in modes] != list(expected):
+            raise FileNotFoundError(
+                f'Modes of frequency {freq_idx} not found: {filename}')
 
         if nmodes > 0:
             m = None
-- 
2.43.0


From 74444b2ed724d4b72d4b5940343971eaa8fe2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 77/95] fix: modes with a purely imaginary overlap were
 reported as orthogonal

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 9369e88..10cce75 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -71,9 +71,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From e61fa655c164080479ffa92573bfa83d3b47f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 78/95] fix: a missing frequency silently shifted those of
 get_all_modes

---
 pyspod/utils/postproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index a1568d0..bde59b7 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -143,6 +143,8 @@ def get_all_modes(results_path):
             os.path.join(glob.escape(modes_path), 'freq_idx_*.npy'))]
         ## freq_idx_<freq>.npy, or freq_idx_f<freq>_m<mode>.npy
         idxs = {int(f[len('freq_idx_'):].lstrip('f')[:8]) for f in flist}
+        if idxs != set(range(len(idxs))):
+            raise FileNotFoundError(f'Modes not found in {modes_path}.')
         m = [get_modes_at_freq(results_path, idx) for idx in sorted(idxs)]
         m = np.stack(m)
     else:
-- 
2.43.0


From 8b9a62e422d12778a56119e0374fad7499578af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 79/95] fix: plots marked the maximum at swapped coordinates

---
 pyspod/utils/postproc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index bde59b7..c424637 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -862,9 +862,9 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                     imag_ax = _apply_2d_vertical_lines(
-                        imag_ax, x1, x2, idx_x1, idx_x2)
+                        imag_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 imag_divider = make_axes_locatable(imag_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
@@ -907,7 +907,7 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
                 plt.colorbar(real, cax=real_cax)
@@ -1519,8 +1519,9 @@ def _apply_2d_coastlines(coastlines, ax):
     return ax
 
 def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
-    ax.axhline(x1[idx1], xmin=0, xmax=1,color='k',linestyle='--')
-    ax.axvline(x2[idx2], ymin=0, ymax=1,color='k',linestyle='--')
+    for i1, i2 in zip(idx1, idx2):
+        ax.axvline(x1[i1], ymin=0, ymax=1,color='k',linestyle='--')
+        ax.axhline(x2[i2], xmin=0, xmax=1,color='k',linestyle='--')
     return ax
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 1805db168db2b8b53080bbc0dd7d9a98779f59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 80/95] fix: mode tracers of several variables failed, as did
 axes of one point

---
 pyspod/utils/postproc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index c424637..79d5ed7 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1012,14 +1012,14 @@ def plot_mode_tracers(
         if not isinstance(coords, tuple):
             raise TypeError('each element of `coords` must be a tuple.')
         coords, idx_coords = find_nearest_coords(coords, x, xdim)
-        fig, spec = plt.subplots(
-            ncols=1, nrows=len(modes_idx),
-            figsize=(wsize,1.5*len(modes_idx)),
-            squeeze=False, sharex=True)
-        cnt = 0
         for var_id in vars_idx:
+            fig, spec = plt.subplots(
+                ncols=1, nrows=len(modes_idx),
+                figsize=(wsize,1.5*len(modes_idx)),
+                squeeze=False, sharex=True)
+            cnt = 0
             for mode_id in modes_idx:
-                mode = np.squeeze(modes[...,var_id,mode_id])
+                mode = modes[...,var_id,mode_id]
                 if fftshift:
                     mode = np.fft.fftshift(mode, axes=1)
                 mode_point_phase = mode[idx_coords] * phase.conj()
-- 
2.43.0


From b7a1ef9f195ff86ad21ecb227297eb60a768902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 81/95] fix: plots of several coefficients shared a figure

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 79d5ed7..68937a8 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1045,9 +1045,9 @@ def plot_mode_tracers(
 def plot_coeffs(coeffs, coeffs_idx=[0], equal_axes=False,
     figsize=(12,8), path='CWD', filename=None):
 
-    # initialize figure
-    fig = plt.figure(figsize=figsize)
     for ci in coeffs_idx:
+        # initialize figure
+        fig = plt.figure(figsize=figsize)
         plt.plot(coeffs[ci,:], 'k-')
         plt.xlabel('time')
         plt.ylabel(f'coeff {ci}')
-- 
2.43.0


From 7e123669a12051b229ffc9ef3aa52cab4357efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 82/95] fix: time limits that do not start at zero were applied
 twice to plotted data

---
 pyspod/spod/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index e59585d..46beedd 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -1007,8 +1007,7 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+        data = self.get_data(data, t_end=time_limits[-1])
         post.plot_data_tracers(
             X=data, coords_list=coords_list, x=x, time_limits=time_limits,
             vars_idx=vars_idx, title=title, figsize=figsize,
@@ -1117,10 +1116,9 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+        data = self.get_data(data, t_end=time_limits[-1])
         post.generate_2d_data_video(
-            X=data, time_limits=[0,time_limits[-1]], vars_idx=vars_idx,
+            X=data, time_limits=time_limits, vars_idx=vars_idx,
             sampling=sampling, x1=x1, x2=x2, coastlines=coastlines,
             figsize=figsize, path=self.savedir_sim, filename=filename)
 
-- 
2.43.0


From 380438ed721418a1c35e7e4d40348fd988051292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 83/95] fix: shift180 shifted the wrong axis of transposed
 modes and changed the coordinates of the caller

---
 pyspod/utils/postproc.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 68937a8..a6d8d77 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -412,7 +412,7 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
     x2 = x2[limits_x2]
 
     if shift180:
-        x1 -= 180
+        x1 = x1 - 180
 
     ## loop over variables and modes
     for var_id in vars_idx:
@@ -430,9 +430,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             ## extract mode
             mode = np.squeeze(modes[:,:,var_id,mode_id])
 
-            if shift180:
-                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
-
             ## check dimensions
             if mode.ndim != 2:
                 raise ValueError('Dimension of the modes is not 2D.')
@@ -445,6 +442,10 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             if x1_tmp.shape[0] != mode.shape[1] or \
                x2_tmp.shape[0] != mode.shape[0]:
                 mode = mode.T
+
+            if shift180:
+                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
+
             mode = mode[limits_x2,limits_x1]
 
             # check dimension axes and data
@@ -536,8 +537,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
                 basename, ext = splitext(filename)
                 tmp_name = f'{basename}_var{var_id}_mode{mode_id}{ext}'
             _save_show_plots(tmp_name, path, plt, pdf=pdf)
-    if shift180:
-        x1 += 180
 
 # def plot_2d_mode_slice_vs_time(results_path, freq_req, freq,
 #     vars_idx=[0], modes_idx=[0], x1=None, x2=None, max_each_mode=False,
-- 
2.43.0


From 9036009e17224b46f1deffb07be6fe448d590437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 84/95] fix: 3D plots did not slice through the maximum by
 default

---
 pyspod/utils/postproc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index a6d8d77..52adf7e 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -819,10 +819,14 @@ def plot_3d_modes_slice_at_frequency(
             if mode_3d.ndim != 3:
                 raise ValueError('Dimension of the modes is not 3D.')
 
-            if slice_id is None: slice_id = 0
-            if slice_dim == 0: mode = mode_3d[slice_id,:,:]
-            elif slice_dim == 1: mode = mode_3d[:,slice_id,:]
-            elif slice_dim == 2: mode = mode_3d[:,:,slice_id]
+            ## by default, slice through the maximum
+            idx = slice_id
+            if idx is None:
+                idx = np.unravel_index(
+                    np.argmax(np.abs(mode_3d)), mode_3d.shape)[slice_dim]
+            if slice_dim == 0: mode = mode_3d[idx,:,:]
+            elif slice_dim == 1: mode = mode_3d[:,idx,:]
+            elif slice_dim == 2: mode = mode_3d[:,:,idx]
             # coord 1
             if mode.shape[0] == x1.shape[0]: xx = x1; flag1 = 'x1'
             elif mode.shape[0] == x2.shape[0]: xx = x2; flag1 = 'x2'
-- 
2.43.0


From f4097d9b7963e42ba230d4ca99fe5cd035236afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 85/95] fix: 3D slices used the coordinates of another axis of
 the same length

---
 pyspod/utils/postproc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 52adf7e..5b21e00 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -838,6 +838,11 @@ def plot_3d_modes_slice_at_frequency(
                 yy = x2; flag2 = 'x2'
             elif (mode.shape[1] == x3.shape[0]) and (flag1 != 'x3'):
                 yy = x3; flag2 = 'x3'
+            # coordinates in the order of the axes, if their sizes match
+            axes = [('x1',x1), ('x2',x2), ('x3',x3)]
+            if mode_3d.shape == tuple(x.shape[0] for _, x in axes):
+                axes.pop(slice_dim)
+                (flag1, xx), (flag2, yy) = axes
 
             # perform fft shift if required
             if fftshift:
-- 
2.43.0


From 29e76003474e317ccf05154148015609b77f8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 86/95] fix: plots cut off data next to positive lower or
 negative upper limits

---
 pyspod/utils/postproc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 5b21e00..594d202 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -885,10 +885,8 @@ def plot_3d_modes_slice_at_frequency(
                 imag_ax = _apply_2d_coastlines(coastlines, imag_ax)
 
                 # axis management
-                real_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                real_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
-                imag_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                imag_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
+                real_ax = _set_2d_axes_limits(real_ax, xx, yy)
+                imag_ax = _set_2d_axes_limits(imag_ax, xx, yy)
                 real_ax, xticks, yticks = _format_axes(real_ax, xticks, yticks)
                 imag_ax, xticks, yticks = _format_axes(imag_ax, xticks, yticks)
                 if equal_axes:
@@ -927,8 +925,7 @@ def plot_3d_modes_slice_at_frequency(
                 if equal_axes:
                     real_ax.set_aspect('equal')
                 real_ax, xticks, yticks = _format_axes(real_ax, xticks, yticks)
-                real_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                real_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
+                real_ax = _set_2d_axes_limits(real_ax, xx, yy)
                 real_ax.set_xlabel(flag1)
                 real_ax.set_ylabel(flag2)
                 if len(title) > 1:
@@ -1511,10 +1508,14 @@ def _save_show_plots(filename, path, plt, pdf = None):
         plt.show()
 
 def _set_2d_axes_limits(ax, x1, x2):
-    ax.set_xlim(np.nanmin(x1)*1.05,np.nanmax(x1)*1.05)
-    ax.set_ylim(np.nanmin(x2)*1.05,np.nanmax(x2)*1.05)
+    ax.set_xlim(_get_limits(x1))
+    ax.set_ylim(_get_limits(x2))
     return ax
 
+def _get_limits(x):
+    xmin, xmax = np.nanmin(x), np.nanmax(x)
+    return xmin - 0.05 * np.abs(xmin), xmax + 0.05 * np.abs(xmax)
+
 def _apply_2d_coastlines(coastlines, ax):
     # overlay coastlines if required
     if coastlines.lower() == 'regular':
-- 
2.43.0


From 907e09f910f47ca5c268bbc88d5d05b64c5bea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 87/95] fix: the energy spectrum dropped the imaginary part of
 the transform

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 594d202..b4c7bb1 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1543,7 +1543,7 @@ def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
 
 def compute_energy_spectrum(u):
     # transform to Fourier space
-    array_hat = np.real(np.fft.fft(u))
+    array_hat = np.fft.fft(u)
     # normalizing data
     nx = u.size
     array_new = np.copy(array_hat / float(nx))
-- 
2.43.0


From 51ae94fd3221ad21253d8c8ce12406a5127d732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 88/95] fix: file_dynamics was never set by
 compute_reconstruction

---
 pyspod/spod/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 46beedd..027649b 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -664,6 +664,7 @@ class Base():
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
                 coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
+        self._file_dynamics = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
 
-- 
2.43.0


From 2f7288742b309c7853b3f81d374ab34717041e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 89/95] fix: freq_idx_lb and freq_idx_ub were never set by
 compute_coeffs_op

---
 pyspod/spod/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 027649b..2809b0a 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -272,9 +272,9 @@ class Base():
     @property
     def freq_idx_lb(self):
         '''
-        Get the number of frequencies.
+        Get the first frequency id used for the coefficients.
 
-        :return: the number of frequencies computed by the SPOD algorithm.
+        :return: the first frequency id used for the coefficients.
         :rtype: int
         '''
         return self._freq_idx_lb
@@ -283,9 +283,9 @@ class Base():
     @property
     def freq_idx_ub(self):
         '''
-        Get the number of frequencies.
+        Get the last frequency id used for the coefficients.
 
-        :return: the number of frequencies computed by the SPOD algorithm.
+        :return: the last frequency id used for the coefficients.
         :rtype: int
         '''
         return self._freq_idx_ub
@@ -650,6 +650,10 @@ class Base():
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
+        with open(os.path.join(coeffs_dir, 'params_coeffs.yaml')) as f:
+            params = yaml.load(f, Loader=yaml.FullLoader)
+        self._freq_idx_lb = params['freq_idx_lb']
+        self._freq_idx_ub = params['freq_idx_ub']
         return file_coeffs, coeffs_dir
 
 
-- 
2.43.0


From 1b7853fcb06f6589c3a74aea1edda8f8b22564be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 90/95] fix: Streaming.fit failed for data read in parallel
 from files unless the parts of the ranks are whole rows

---
 pyspod/spod/streaming.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 7d786ed..e94195e 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -248,12 +248,21 @@ class Streaming(Base):
             filename = f'freq_idx_{f:08d}.npy'
             path_modes = os.path.join(self._modes_dir, filename)
             shape = [*self._xshape, self._nv, self._n_modes_save]
-            if self._comm:
-                shape[self._max_axis] = -1
+            shape_loc = list(shape)
+            if self._reader._flattened:
+                shape_loc = [self._local_shape, self._nv, self._n_modes_save]
+            elif self._comm:
+                shape_loc[self._max_axis] = -1
             phif = phi[f,...]
-            phif.shape = shape
+            phif.shape = shape_loc
             utils_par.npy_save(
                 self._comm, path_modes, phif, axis=self._max_axis)
+            ## points read from files are distributed across the axes
+            if self._reader._flattened:
+                utils_par.barrier(self._comm)
+                if self._rank == 0:
+                    phif = np.load(path_modes).reshape(shape)
+                    np.save(path_modes, phif)
 
         # ## save modes
         # self._modes_dir = 'modes.npy'
-- 
2.43.0


From 7f369dee59e9c4f1883ed065110a3b4586ee8b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 91/95] fix: error norms of integer data overflowed

---
 pyspod/utils/errors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 672c9d1..a6093fb 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -15,6 +15,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     :rtype: numpy.ndarray
     '''
     n = data.size
+    data, data_ref = _as_float(data, data_ref)
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
     e_rel = ef / np.abs(data_ref.flatten('C'))
@@ -42,6 +43,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     :rtype: numpy.ndarray
     '''
     # warnings.warn("warning: for h1 calculation, dim0 must be time.")
+    data, data_ref = _as_float(data, data_ref)
     if norm_type == 'h1':
         err_h1 = 0
         for i in range(data.shape[0]):
@@ -57,3 +59,8 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     else:
         raise ValueError(norm_type, ' not implemented.')
     return error_norm
+
+
+def _as_float(*arrays):
+    '''Integers as floats: their differences may not be representable.'''
+    return [a.astype(float) if a.dtype.kind in 'iub' else a for a in arrays]
-- 
2.43.0


From 940e3ce8adc1d97b1340c76669120b078f1812aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 92/95] fix: emulation scaling of integer data gave integers

---
 pyspod/emulation/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 296520b..1fdd7db 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -32,6 +32,7 @@ class Base():
         '''
         Evaluate normalization vector
         '''
+        data = self._as_float(data)
         if self._data_type.lower() == 'real':
             vec = np.zeros(data.shape[0], dtype=float)
             if self._normalization.lower() == 'localmax':
@@ -85,6 +86,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No normalization performed')
             return
+        data = self._as_float(data)
         data_out = np.zeros_like(data)
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
@@ -102,6 +104,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No denormalization is performed')
             return
+        data = self._as_float(data)
         data_out = np.zeros_like(data)
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
@@ -114,4 +117,12 @@ class Base():
             raise TypeError('You need to specify data_type; real or complex.')
         return data_out
 
+
+    @staticmethod
+    def _as_float(data):
+        '''
+        Integers as floats (scaled integers are none)
+        '''
+        return data.astype(float) if data.dtype.kind in 'iub' else data
+
 ## ----------------------------------------------------------------------------
-- 
2.43.0


From 45eb7195359f3c5b7cc4f2b540d7c4fc4ea681bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:54 +0000
Subject: [PATCH 93/95] fix: variance normalisation of weights divided by zero
 for a variable that does not vary

---
 pyspod/utils/weights.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 3d32caf..d26e5a4 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -125,8 +125,9 @@ def apply_normalization(
                 print('------------------------------------')
             axis = tuple(np.arange(0, data[...,0].ndim))
             for i in range(0, n_vars):
-                var, _, _ = utils_par.pvar(data[...,i], comm=comm)
-                weights[...,i] = weights[...,i] / var
+                var, mean, _ = utils_par.pvar(data[...,i], comm=comm)
+                if not _is_constant(var, mean, data.dtype):
+                    weights[...,i] = weights[...,i] / var
         else:
             if comm.rank:
                 print('')
@@ -140,9 +141,20 @@ def apply_normalization(
             axis = tuple(np.arange(0, data[...,0].ndim))
             for i in range(0, n_vars):
                 var = np.nanvar(data[...,i], axis=axis)
-                weights[...,i] = weights[...,i] / var
+                mean = np.nanmean(data[...,i], axis=axis)
+                if not _is_constant(var, mean, data.dtype):
+                    weights[...,i] = weights[...,i] / var
         else:
             print('')
             print('No normalization performed')
             print('--------------------------')
     return weights
+
+
+def _is_constant(var, mean, dtype):
+    '''
+    Whether a variable does not vary (its variance is zero, or what rounding
+    leaves of it), so that there is nothing to normalize by.
+    '''
+    if dtype.kind not in 'fc': dtype = float
+    return var <= (64 * np.finfo(dtype).eps * np.abs(mean))**2
-- 
2.43.0


From 2558ff8ad6e395530801119493ae628975d5b802 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:43:53 +0000
Subject: [PATCH 94/95] fix: means of projections and of POD were accumulated
 in the precision of the data

---
 pyspod/pod/base.py   | 4 ++--
 pyspod/pod/utils.py  | 5 ++++-
 pyspod/spod/utils.py | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index ca7097c..3a38a5f 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -372,10 +372,10 @@ class Base():
             lb = i_blk * split_block
             ub = lb + split_block
             d = data[lb:ub,...,:]
-            t_sum += np.sum(d, axis=0)
+            t_sum += np.sum(d, axis=0, dtype=np.result_type(d.dtype, float))
         if split_res > 0:
             d = data[self.nt-split_res:self.nt,...,:]
-            t_sum += np.sum(d, axis=0)
+            t_sum += np.sum(d, axis=0, dtype=np.result_type(d.dtype, float))
         t_mean = t_sum / self.nt
         t_mean = np.reshape(t_mean, shape_sxv)
         t_mean = self._set_dtype(t_mean)
diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index f0de71b..38892da 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -79,7 +79,10 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0); data = data - lt_mean
+    lt_mean = np.mean(
+        data, axis=0, dtype=np.result_type(data.dtype, np.float64))
+    lt_mean = _set_dtype(lt_mean, dtype)
+    data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
 
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 10cce75..c5b92cd 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -163,7 +163,10 @@ def compute_coeffs_op(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0); data = data - lt_mean
+    lt_mean = np.mean(
+        data, axis=0, dtype=np.result_type(data.dtype, np.float64))
+    lt_mean = _set_dtype(lt_mean, dtype)
+    data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From de3463215ed8e361492c798618458f43ac1c916d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:10:09 +0000
Subject: [PATCH 95/95] fix: frequencies were off by rounding errors of single
 precision for a time step in single precision

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 2809b0a..e71f00e 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -51,7 +51,7 @@ class Base():
         params = dict(params) # results are added, which are not for the caller
         ##--- required
         self._n_dft = int(params['n_dft'])   # number of DFT (per block)
-        self._dt    = params['time_step'   ] # time-step of the data
+        self._dt    = float(params['time_step']) # time-step of the data
         self._xdim  = params['n_space_dims'] # number of spatial dimensions
         self._nv    = params['n_variables' ] # number of variables
         ##--- optional
-- 
2.43.0

