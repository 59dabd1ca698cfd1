From 8bcb4aaa76d0018fd28981853f4c2fd4cda50963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 01/40] fix: keep the imaginary part of complex data in the
 1-stage reader

---
 pyspod/utils/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..444d4b6 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -89,7 +89,9 @@ class reader_1stage():
                     shape = (te-ts,) + d.shape[1:]
                     if len(shape) < len(self.shape):
                         shape = (te-ts,) + d.shape[1:] + (1,)
-                    data = np.zeros(shape, dtype=self._dtype)
+                    dtype = self._dtype if self._is_real \
+                        else np.result_type(self._dtype, np.complex64)
+                    data = np.zeros(shape, dtype=dtype)
 
                 data_idx = [np.s_[:]]*len(self.shape)
                 data_idx[0] = np.s_[cum_read:cum_read+read_je-read_js]
-- 
2.43.0


From eb472970c84bc364a018acf926573d76b6112a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 02/40] fix: accumulate the long-time mean of complex data in a
 complex buffer

---
 pyspod/spod/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..81579f3 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -602,7 +602,8 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape,
+                dtype=np.result_type(data.dtype, float))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
-- 
2.43.0


From 6181f53e988ca3e28b241c9a6afed4e7f765824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 03/40] fix: index each file of a multi-file dataset from its
 own first snapshot

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 444d4b6..7a0a953 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -99,7 +99,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From 0ea25c05b41256beb9d856a031ffdd7d40e798a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 04/40] fix: frequency axis of complex data with an odd block
 length

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 81579f3..f058172 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -628,7 +628,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From d5e56e5a0ee6716ddac2e5c93addcf3b4d1a4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 05/40] fix: save the upper and lower confidence bounds under
 their own names

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index f058172..144c95a 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -691,8 +691,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_u = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From dc9ff964a2474d00551185919f2c384f1aed452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 06/40] fix: double only one-sided spectra, up to but not
 including Nyquist

---
 pyspod/spod/standard.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..cf9cd68 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -353,8 +353,9 @@ class Standard(Base):
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
         ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        if self._isrealx and not self._fullspectrum:
+            last = self._n_freq - 1 + self._n_dft % 2 # no Nyquist if odd
+            L[1:last,:] = 2 * L[1:last,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
-- 
2.43.0


From 7cca981646131fce84006c872e1357e059da04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 07/40] fix: end the data stream after the last snapshot, do
 not swallow read errors

---
 pyspod/spod/streaming.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..0ff32e2 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -98,12 +98,11 @@ class Streaming(Base):
 
             ## get new snapshot and abort if data stream runs dry
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
+                if ti >= self._nt:
                     self._pr0(f'--> Data stream ended.')
                     break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
-- 
2.43.0


From fd5950c66d0e6243fca59a856a4cac80a2361f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 08/40] fix: save the long-time mean of all snapshots with
 streaming modes

---
 pyspod/spod/streaming.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 0ff32e2..a90a6cf 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -220,6 +220,9 @@ class Streaming(Base):
                 # mse_prev[block_i,:,:] = (np.abs(S_hat_prev**2 - \
                 #     self._eigs**2)**2) / (S_hat_prev**2)
 
+        ## sample mean of the whole stream is the longtime mean
+        self._lt_mean = mu.real.copy() if self._isrealx else mu
+
         ## rescale such that <U_i,U_j>_E = U_i^H * W * U_j = delta_ij
         phi = u_hat[:,:,0:n_m_save] * (1 / sqrt_w[:,:,np.newaxis])
 
-- 
2.43.0


From 960a04f84c46e2616277a1033a60e8409f29fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 09/40] fix: compute coefficients for frequency ids given
 without period bounds

---
 pyspod/spod/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..e840f99 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -118,7 +118,12 @@ def compute_coeffs_op(
     weights = _set_dtype(weights, dtype)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -126,9 +131,9 @@ def compute_coeffs_op(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -277,7 +282,12 @@ def compute_coeffs_conv(
     window = window.reshape(window.shape[0], 1)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -285,9 +295,9 @@ def compute_coeffs_conv(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From f59c805d8d519b4242463b3dba46cf06b5aa9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 10/40] fix: store the modes used by convolution coefficients
 in the order reconstruction reads them

---
 pyspod/spod/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index e840f99..72ba31a 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -329,12 +329,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for k, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[k,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -414,7 +414,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.reshape(np.moveaxis(phir, 0, 1), shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 81a930fda64da359aae51fd812ebb90de9a5ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 11/40] fix: sum the convolution coefficients over all ranks

---
 pyspod/spod/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 72ba31a..fbbfc29 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -398,6 +398,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From 576f34abc48eabc9a1664b2b0ead869a78b52e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 12/40] fix: convolution coefficients of a single mode or
 frequency

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index fbbfc29..f3fd88d 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -388,8 +388,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = Q_blk * weights[:,0]
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
-- 
2.43.0


From 07caa417c033f33e6ee1c7cffc071d904fe2ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 13/40] fix: write the coefficient parameters from one rank
 only

---
 pyspod/pod/utils.py  | 3 ++-
 pyspod/spod/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..e2ce78c 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -120,7 +120,8 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     params['modes_idx'  ] = modes_idx
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.', comm)
     utils_par.pr0(f'---------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in: {file_coeffs}'     , comm)
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index f3fd88d..057ab76 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -216,7 +216,8 @@ def compute_coeffs_op(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
@@ -440,7 +441,8 @@ def compute_coeffs_conv(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
-- 
2.43.0


From aaa59d2bf080eae4c4df4b8e7ccb8cfd6ba854d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 14/40] fix: operator precedence in the row count of a parallel
 npy load

---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..bd86acc 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -285,7 +285,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (count % size > rank)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From 7f9c7866102f71465599a45ef6a6f091a0349f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 15/40] fix: read .npy data with numpy

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From b019a9f4c4907f3a75504366c990a4f050ec9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 16/40] fix: initialise the wait time of the padded read path

---
 pyspod/utils/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 7a0a953..132b829 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -353,6 +353,7 @@ class reader_2stage():
 
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
+            t_waitall = 0
 
             for irank in range(mpi_size):
                 s_msg = [s_msgs[irank], ftype]
@@ -646,6 +647,7 @@ class reader_mat():
 
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
+            t_waitall = 0
 
             for irank in range(mpi_size):
                 s_msg = [s_msgs[irank], ftype]
-- 
2.43.0


From 1c3d87d15506e41514761148df213f7e8ce5fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 17/40] fix: np.product was removed from numpy

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 132b829..b5052d2 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -525,7 +525,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From 10710f51134a3237fd6c4c32645c61b4a6c5dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 18/40] fix: name the network in the input error of
 model_inference

---
 pyspod/emulation/neural_nets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..258a2d1 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -155,7 +155,7 @@ class Neural_Nets(Base):
         nt = data_in.shape[1]
         # check the size of the input array
         if nt < n_seq_in:
-            raise ValueError(network.lower(), 'data input error.')
+            raise ValueError(self._network.lower(), 'data input error.')
 
         # initialization of variables and vectors
         input_batch = np.zeros([1, n_seq_in, n_features])
-- 
2.43.0


From 0e515adca7f7765fceb7b0cd6ac41b0a4e1662c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 19/40] fix: inference horizon that is not a multiple of the
 output sequence

---
 pyspod/emulation/neural_nets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 258a2d1..b87c169 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -197,8 +197,8 @@ class Neural_Nets(Base):
         coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
-            ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From 15325d7b7e2dd0f19f418348cef20c7032a73b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 20/40] fix: report missing modes instead of an unbound name

---
 pyspod/utils/postproc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..69e3552 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -111,7 +111,9 @@ def get_modes_at_freq(results_path, freq_idx):
         modes = sorted(glob.glob(os.path.join(filename)))
         nmodes = len(modes)
 
-        if nmodes > 0:
+        if nmodes == 0:
+            raise FileNotFoundError(filename)
+        else:
             m = None
             for idx, imode in enumerate(modes):
                 mode = np.load(imode)
-- 
2.43.0


From 294efd5db4d5be90b575e7174be241282a0a23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 21/40] fix: get_all_modes left the process in another working
 directory

---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 69e3552..7511d3b 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -135,9 +135,8 @@ def get_all_modes(results_path):
     if isinstance(results_path, str):
         import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
         flist = []
-        for filename in glob.glob("*.npy"):
+        for filename in glob.glob(os.path.join(modes_path, "*.npy")):
             flist.append(filename)
         flist.sort()
         m = [None] * len(flist)
-- 
2.43.0


From 730f632357811dacd9769e9249b4d45c5c522451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 22/40] fix: reuse stored blocks when they are not saved again

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 144c95a..5dbf6ec 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,8 +529,8 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
+        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
         if self._savefft:
-            self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
                     os.makedirs(self._blocks_folder)
-- 
2.43.0


From 2d5fe59804e8d724fe45eb206ed17817e6ad6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 23/40] fix: store and reload the blocks of several variables

---
 pyspod/spod/standard.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index cf9cd68..9fafd51 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -63,7 +63,7 @@ class Standard(Base):
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            size_qhat = [*self._xshape, self._nv, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +72,8 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = np.reshape(
+                        np.load(path), size_qhat[:-1])
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,7 +108,7 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
+                        shape = [*self._xshape,self._nv]
                         if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
-- 
2.43.0


From 347ce53b2d78fc664f05729067333332ab632c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 24/40] fix: normalising the weights overwrote the weights
 passed by the user

---
 pyspod/utils/weights.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..fc6ebb8 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -112,6 +112,7 @@ def apply_normalization(
     :rtype: numpy.ndarray
     '''
 
+    weights = np.array(weights)
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
-- 
2.43.0


From 7356e3b2e894e578f8dba8582cb4f8d29ca66ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 25/40] fix: plotting shifted the coordinates passed by the
 user

---
 pyspod/utils/postproc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 7511d3b..d13f65c 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -408,7 +408,7 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
     x2 = x2[limits_x2]
 
     if shift180:
-        x1 -= 180
+        x1 = x1 - 180
 
     ## loop over variables and modes
     for var_id in vars_idx:
@@ -532,8 +532,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
                 basename, ext = splitext(filename)
                 tmp_name = f'{basename}_var{var_id}_mode{mode_id}{ext}'
             _save_show_plots(tmp_name, path, plt, pdf=pdf)
-    if shift180:
-        x1 += 180
 
 # def plot_2d_mode_slice_vs_time(results_path, freq_req, freq,
 #     vars_idx=[0], modes_idx=[0], x1=None, x2=None, max_each_mode=False,
-- 
2.43.0


From 68bda7f21096b44e096fd94452f38c83fd2a86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 26/40] fix: h1 error summed the differences before squaring
 them

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index dbd952a..fd200b3 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum(uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * np.sum(np.abs(uprime - utrueprime)**2))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From 9f226f369d028830ec375d21c74a18f29593a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 27/40] fix: relative errors of data with negative values

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index fd200b3..672c9d1 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -17,7 +17,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
-    e_rel = ef / data_ref.flatten('C')
+    e_rel = ef / np.abs(data_ref.flatten('C'))
     if   norm_type == 'l1'  : error_norm = np.linalg.norm(ef, 1) / n
     elif norm_type == 'l2'  : error_norm = np.linalg.norm(ef) / n
     elif norm_type == 'linf': error_norm = np.amax(ef)
-- 
2.43.0


From ea3a83b556d89cb4833e82b9302d7e022e548728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 28/40] fix: index of the nearest coordinate was taken from the
 mirrored axis

---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index d13f65c..99bb08f 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -76,12 +76,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From 007aa1c7008fe6ed22f5ae0aca3d2c2d0839c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 29/40] fix: a fit changed the parameters passed by the user,
 and so the next fit made with them

---
 pyspod/pod/base.py  | 2 +-
 pyspod/spod/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..2be71ce 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -46,7 +46,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 5dbf6ec..6f67952 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -83,7 +83,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
-- 
2.43.0


From 60b8506e57736b840b96d9555f18274b4933e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 30/40] fix: order the POD eigenpairs before truncating them

---
 pyspod/pod/standard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..7d4b211 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -50,6 +50,8 @@ class Standard(Base):
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
         w, v = scipy.linalg.eig(Q)
+        idx = np.argsort(np.real(w))[::-1]
+        w = w[idx]; v = v[:,idx]
 
         # bases
         self._pr0(f' ')
-- 
2.43.0


From 84f7c24f2fac36f130faf2ed422fed3405473f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 31/40] fix: save all POD modes when no number of modes is
 given

---
 pyspod/pod/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 2be71ce..bbdb4d8 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -234,6 +234,7 @@ class Base():
         for d in data_list:
             assert d[0,...].shape == self._xshape
             self._nt += d.shape[0]
+        if self._n_modes_save > self._nt: self._n_modes_save = self._nt
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
-- 
2.43.0


From 157bf047bfbd8f5f24b8100550f694368654e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 32/40] fix: accept POD data of several variables

---
 pyspod/pod/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index bbdb4d8..32c1f7a 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,8 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert tuple(d[0,...].shape) in (
+                self._xshape, (*self._xshape, self._nv))
             self._nt += d.shape[0]
         if self._n_modes_save > self._nt: self._n_modes_save = self._nt
 
-- 
2.43.0


From 4e989cee8553b712b6314793d17953d51eb99749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 33/40] fix: project on the POD modes with the weights they are
 orthonormal in

---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e2ce78c..8a234fc 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir) @ (weights * np.transpose(data))
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From 181c2a18ead47815b23a70d365fdb457a516e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 34/40] fix: orthogonality check of a single frequency id and
 of complex products

---
 pyspod/spod/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 057ab76..8a42ad7 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -57,7 +57,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
 
     ## get modes
     phir = _get_modes(results_dir, n_freq,
-        freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
+        np.atleast_1d(freq_idx), max_axis, xsize, n_modes_save, dt_complex,
+        comm)
     phir1 = phir[:,mode_idx1]
     phir2 = phir[:,mode_idx2]
     del phir
@@ -69,9 +70,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From 311d8c1494a8c99ebcf91283d24cf927eb23c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 35/40] fix: a process that holds a single grid point, and
 streaming with a single mode, raised an exception

---
 pyspod/spod/standard.py  | 2 +-
 pyspod/spod/streaming.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 9fafd51..1588a72 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -196,7 +196,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index a90a6cf..0863a27 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -159,10 +159,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From 5ccea8e3f408fd002b2cdb9cae5ccb904796c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:39 +0000
Subject: [PATCH 36/40] fix: variance over processes was undefined when a
 process holds no data

---
 pyspod/utils/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index bd86acc..01cc0ca 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,15 +29,17 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
+    m = np.mean(data) if n > 0 else 0.
     d = data - m
     d *= d
-    v = np.sum(d)/n
+    v = np.sum(d)/n if n > 0 else 0.
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
         n = na + nb
+        if n == 0:
+            return a
         m = (na*ma + nb*mb)/n
         v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
         return ((n, m, v))
-- 
2.43.0


From 83083e02a7c749806c9c1fe64de42914a4747336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 37/40] fix: variance of complex data over processes was not
 the mean squared modulus

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 01cc0ca..44609ba 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -30,7 +30,7 @@ def pvar(data, comm):
     """
     n = np.size(data)
     m = np.mean(data) if n > 0 else 0.
-    d = data - m
+    d = np.abs(data - m)
     d *= d
     v = np.sum(d)/n if n > 0 else 0.
 
@@ -41,7 +41,7 @@ def pvar(data, comm):
         if n == 0:
             return a
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
-- 
2.43.0


From 013aa23ae9c8a8e2f64dee57ae4716a4e0a6521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:47 +0000
Subject: [PATCH 38/40] fix: check_orthogonality compares two modes when the
 ids are integers

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 8a42ad7..c652f3e 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -59,8 +59,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     phir = _get_modes(results_dir, n_freq,
         np.atleast_1d(freq_idx), max_axis, xsize, n_modes_save, dt_complex,
         comm)
-    phir1 = phir[:,mode_idx1]
-    phir2 = phir[:,mode_idx2]
+    phir1 = phir[:,np.atleast_1d(mode_idx1)]
+    phir2 = phir[:,np.atleast_1d(mode_idx2)]
     del phir
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From 89352bb08e6b8e055c77c4dede0d3f846046a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:25 +0000
Subject: [PATCH 39/40] fix: plots of data between two times were cut to these
 times twice

---
 pyspod/spod/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6f67952..9adb26b 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -981,7 +981,7 @@ class Base():
         See method implementation in the postproc module.
         '''
         data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+            data, t_0=0, t_end=time_limits[-1])
         post.plot_data_tracers(
             X=data, coords_list=coords_list, x=x, time_limits=time_limits,
             vars_idx=vars_idx, title=title, figsize=figsize,
@@ -1091,9 +1091,9 @@ class Base():
         See method implementation in the postproc module.
         '''
         data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+            data, t_0=0, t_end=time_limits[-1])
         post.generate_2d_data_video(
-            X=data, time_limits=[0,time_limits[-1]], vars_idx=vars_idx,
+            X=data, time_limits=time_limits, vars_idx=vars_idx,
             sampling=sampling, x1=x1, x2=x2, coastlines=coastlines,
             figsize=figsize, path=self.savedir_sim, filename=filename)
 
-- 
2.43.0


From 7d0d1ac5b6865726f5219cb65e1eaa02d7566730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:25 +0000
Subject: [PATCH 40/40] fix: plots ignored the argument origin of the methods
 of a fit

---
 pyspod/spod/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 9adb26b..ebc09e3 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -914,7 +914,8 @@ class Base():
                 fftshift=fftshift, imaginary=imaginary, plot_max=plot_max,
                 coastlines=coastlines, title=title, xticks=xticks, yticks=yticks,
                 figsize=figsize, equal_axes=equal_axes, path=self.savedir_sim,
-                filename=filename, modes=None, pdf=pdf, shift180=shift180)
+                filename=filename, origin=origin, modes=None, pdf=pdf,
+                shift180=shift180)
 
 
     def plot_2d_mode_slice_vs_time(self, freq_req, freq, vars_idx=[0],
@@ -946,7 +947,7 @@ class Base():
             imaginary=imaginary, plot_max=plot_max, coastlines=coastlines,
             title=title, xticks=xticks, yticks=yticks, figsize=figsize,
             equal_axes=equal_axes, path=self.savedir_sim,
-            filename=filename)
+            filename=filename, origin=origin)
 
 
     def plot_mode_tracers(self, freq_req, freq, coords_list,
@@ -972,7 +973,8 @@ class Base():
         post.plot_2d_data(
             X=data, time_idx=time_idx, vars_idx=vars_idx,
             x1=x1, x2=x2, title=title, coastlines=coastlines,
-            figsize=figsize, path=self.savedir_sim, filename=filename)
+            figsize=figsize, path=self.savedir_sim, filename=filename,
+            origin=origin)
 
 
     def plot_data_tracers(self, data, coords_list, x=None, time_limits=[0,10],
-- 
2.43.0

