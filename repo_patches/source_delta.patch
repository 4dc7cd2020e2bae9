From fc4310f20fe533907785699e6cf30ee25e35364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:02 +0000
Subject: [PATCH 01/35] fix: do not modify the caller's pydmd_kwargs in COSTS
 and mrCOSTS

---
 pydmd/costs.py   | 2 +-
 pydmd/mrcosts.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 040322b..c3354fb 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -125,7 +125,7 @@ class COSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index b2de48a..fa16ec8 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -95,7 +95,7 @@ class mrCOSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
-- 
2.43.0


From 0ebf3948618d88c639781e475ea8c7560b596025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:02 +0000
Subject: [PATCH 02/35] fix: plotting helpers no longer write defaults into the
 caller's keyword dicts

---
 pydmd/costs.py | 21 +++++++--------------
 pydmd/havok.py |  3 +--
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c3354fb..c5e7888 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1089,19 +1089,16 @@ class COSTS:
             scale_reconstruction_kwargs
         )
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = dict(fig_kwargs or {})
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get("figsize", (6, 4))
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = dict(hf_plot_kwargs or {})
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_high_frequency).max()
         )
@@ -1193,8 +1190,7 @@ class COSTS:
 
         xr_sep = self.scale_reconstruction(**scale_reconstruction_kwargs)
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = dict(fig_kwargs or {})
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get(
             "figsize", (6, 1.5 * len(self._cluster_centroids) + 1)
@@ -1202,15 +1198,13 @@ class COSTS:
 
         # Low frequency and input data often require separate plotting
         # parameters.
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
         # High frequency components often require separate plotting parameters.
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = dict(hf_plot_kwargs or {})
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_sep[1:, :, :]).max()
         )
@@ -1294,8 +1288,7 @@ class COSTS:
         """
         if scale_reconstruction_kwargs is None:
             scale_reconstruction_kwargs = {}
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -3)
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", 3)
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "RdBu_r")
diff --git a/pydmd/havok.py b/pydmd/havok.py
index 9325af8..f577db7 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -578,8 +578,7 @@ class HAVOK:
 
         if plot:
             # Set the plotting parameters first.
-            if plot_kwargs is None:
-                plot_kwargs = {}
+            plot_kwargs = dict(plot_kwargs or {})
             if "figsize" not in plot_kwargs:
                 plot_kwargs["figsize"] = (5, 4)
             if "semilogy" not in plot_kwargs:
-- 
2.43.0


From c39dfd1e1230f1bb6b4261ebf1535877d621abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:02 +0000
Subject: [PATCH 03/35] fix: BOPDMD eigenvalue constraints no longer modify the
 caller's init_alpha

---
 pydmd/bopdmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b0f7fbd..9721647 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -299,6 +299,10 @@ class BOPDMDOperator(DMDOperator):
         if isfunction(self._eig_constraints):
             return self._eig_constraints(eigenvalues)
 
+        # Never modify nor hand out the array that was given, which may be
+        # the initial guess provided by the user.
+        eigenvalues = np.array(eigenvalues)
+
         if "conjugate_pairs" in self._eig_constraints:
             num_eigs = len(eigenvalues)
             new_eigs = np.empty(num_eigs, dtype="complex")
-- 
2.43.0


From 0fe9160915aa9ae0704b5ee4a91974cb6580f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 04/35] fix: mrCOSTS.fit starts afresh and leaves the caller's
 n_components_array alone

---
 pydmd/mrcosts.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index fa16ec8..d6f1bbf 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -59,6 +59,7 @@ class mrCOSTS:
         transform_method=None,
     ):
         self._n_components_array = n_components_array
+        self._requested_n_components = n_components_array
         self._step_size_array = step_size_array
         self._window_length_array = window_length_array
         self._svd_rank_array = svd_rank_array
@@ -286,9 +287,16 @@ class mrCOSTS:
         n_decompositions = self._n_decompositions
         transform_method = self._transform_method
 
+        # Forget the global clustering of any previous fit.
+        self._da_omega = None
+        self._omega_classes = None
+        self._n_components_global = None
+        self._cluster_centroids = None
+
         # Check for the n_components array and cluster sweeping.
+        self._n_components_array = copy.copy(self._requested_n_components)
         if self._cluster_sweep:
-            if self._n_components_array is not None:
+            if self._requested_n_components is not None:
                 raise ValueError(
                     (
                         "Only one of `cluster_sweep` and `n_components_array` "
-- 
2.43.0


From 3771c55c0a3a3e9e94d738b3f5b0bf7e1662d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 05/35] fix: rescale_mode='auto' uses the singular values of
 the data being fitted on every fit

---
 pydmd/dmdoperator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 5495f8d..9efffed 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -53,6 +53,7 @@ class DMDOperator:
         tikhonov_regularization,
     ):
         self._exact = exact
+        self._requested_rescale_mode = rescale_mode
         self._rescale_mode = rescale_mode
         self._svd_rank = svd_rank
         self._forward_backward = forward_backward
@@ -90,6 +91,8 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
+        # "auto" stands for the singular values of the current data
+        self._rescale_mode = self._requested_rescale_mode
         if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
             self._rescale_mode = s
 
-- 
2.43.0


From 01760431f8619a4843c29e5958e02d2940f6b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 06/35] fix: RDMD draws the random test matrix anew for every
 fit

---
 pydmd/rdmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/rdmd.py b/pydmd/rdmd.py
index 1eb8aa0..a5ffa6a 100644
--- a/pydmd/rdmd.py
+++ b/pydmd/rdmd.py
@@ -71,7 +71,7 @@ class RDMD(CDMD):
         :return: the compressed snapshots
         :rtype: numpy.ndarray
         """
-        Q, B, test_matrix = compute_rqb(
+        Q, B, _ = compute_rqb(
             self.snapshots,
             self._svd_rank,
             self._oversampling,
@@ -80,6 +80,5 @@ class RDMD(CDMD):
             self._seed,
         )
         self._compression_matrix = Q.conj().T
-        self._test_matrix = test_matrix
 
         return B
-- 
2.43.0


From 62ca1a998e772acea4a07d0e574541870280908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 07/35] fix: VarProDMD.fit discards the cached modes of the
 previous fit

---
 pydmd/varprodmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 88d336e..f3c6803 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -699,6 +699,8 @@ class VarProDMD(DMDBase):
         :rtype: object
         """
 
+        self._reset()
+
         self._snapshots_holder = Snapshots(X)
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
-- 
2.43.0


From 8506234fd8e708dc4cbf357fa47579c29a141298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:05 +0000
Subject: [PATCH 08/35] fix: LANDO refits and repeated fixed point analyses no
 longer return stale results

---
 pydmd/lando.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ea487e7..b4dd791 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -184,6 +184,13 @@ class LANDOOperator(DMDOperator):
 
         # Initialize values if fitting for the first time.
         if not updating:
+            # Discard the fixed point analysis of any previous fit.
+            self._eigenvalues = None
+            self._eigenvectors = None
+            self._modes = None
+            self._Atilde = None
+            self._A = None
+
             # Initialize the Cholesky factorization routine.
             ind_0 = parsing_inds[0]
             x_0 = X[:, ind_0][..., None]
@@ -275,6 +282,7 @@ class LANDOOperator(DMDOperator):
             self._A = self.weights.dot(kernel_grad)
             self._Atilde = np.linalg.multi_dot([U.conj().T, self._A, U])
         else:
+            self._A = None
             self._Atilde = np.linalg.multi_dot(
                 [U.conj().T, self.weights, kernel_grad, U]
             )
@@ -502,6 +510,7 @@ class LANDO(DMDBase):
         )
 
         # Keep track of the data rescaling factor.
+        self._requested_x_rescale = x_rescale
         self._x_rescale = x_rescale
 
         # Keep track of the last fixed point analysis.
@@ -767,6 +776,10 @@ class LANDO(DMDBase):
         :type Y: numpy.ndarray or iterable
         """
         self._reset()
+        self._compute_A = False
+        self._fixed_point = None
+        self._bias = None
+        self._updated = False
         self._snapshots_holder = Snapshots(X)
         self._check_x_rescale()
 
@@ -823,6 +836,8 @@ class LANDO(DMDBase):
         self._compute_A = compute_A
         self._fixed_point = fixed_point
         self._bias = self.f(fixed_point[..., None])
+        self._modes_activation_bitmask_proxy = None
+        self._b = None
         self.operator.compute_linear_operator(
             self._rescale(fixed_point.flatten()),
             self._compute_A,
@@ -872,6 +887,8 @@ class LANDO(DMDBase):
         # If a fixed point analysis was already done, redo it.
         if self.fitted:
             self._bias = self.f(self._fixed_point[..., None])
+            self._modes_activation_bitmask_proxy = None
+            self._b = None
             self.operator.compute_linear_operator(
                 self._rescale(self._fixed_point.flatten()),
                 self._compute_A,
@@ -972,6 +989,7 @@ class LANDO(DMDBase):
         or a numpy array. Also ensures that if `x_rescale` is an array, then it
         must possess the same shape as the flattened input snapshots.
         """
+        self._x_rescale = self._requested_x_rescale
         if not isinstance(self._x_rescale, (int, float, np.ndarray)):
             raise TypeError("x_rescale must be a float or a numpy array.")
         if isinstance(self._x_rescale, np.ndarray):
-- 
2.43.0


From 4842c00627c892b2db71778d1b928d89ce28db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 09/35] fix: COSTS.fit derives svd_rank and init_alpha from the
 data being fitted

---
 pydmd/costs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c5e7888..80e9ae4 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -91,10 +91,12 @@ class COSTS:
         self._step_size = None
         self._window_length = None
         self._n_components = n_components
+        self._requested_svd_rank = svd_rank
         self._svd_rank = svd_rank
         self._global_svd = global_svd
         self._initialize_artificially = initialize_artificially
         self._use_last_freq = use_last_freq
+        self._requested_init_alpha = init_alpha
         self._init_alpha = init_alpha
         self._cluster_centroids = cluster_centroids
         self._force_even_eigs = force_even_eigs
@@ -454,6 +456,11 @@ class COSTS:
         :type corner_sharpness: float or int
         """
 
+        # Start from the user provided values, not from those derived from the
+        # data of a previous fit.
+        self._svd_rank = self._requested_svd_rank
+        self._init_alpha = self._requested_init_alpha
+
         # Prepare window and data properties.
         self._window_length = window_length
         self._step_size = step_size
@@ -1516,6 +1523,7 @@ class COSTS:
         self._time_array = ds.time.values
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
+        self._requested_svd_rank = self._svd_rank
         self._n_data_vars = ds.attrs["n_data_vars"]
         self._n_time_steps = ds.attrs["n_time_steps"]
         self._n_components = ds.attrs["num_frequency_bands"]
-- 
2.43.0


From 0e23f23c5a4e725a2a85b3f32d69aa78bb4fdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 10/35] fix: MrDMD.fit applies the requested max_level to every
 fit

---
 pydmd/mrdmd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index a1ca06f..6442553 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -76,6 +76,7 @@ class MrDMD(DMDBase):
         self.dmd = dmd
         self.max_cycles = max_cycles
         self.max_level = max_level
+        self._requested_max_level = max_level
         self._build_tree()
 
     def __iter__(self):
@@ -482,9 +483,9 @@ Expected one item per level, got {} out of {} levels.""".format(
         lvl_threshold = (
             int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
         )
-        if self.max_level > lvl_threshold:
-            self.max_level = lvl_threshold
-            self._build_tree()
+        self.max_level = min(self._requested_max_level, lvl_threshold)
+        self._build_tree()
+        if self._requested_max_level > lvl_threshold:
             print(
                 "Too many levels... "
                 "Redefining `max_level` to {}".format(self.max_level)
-- 
2.43.0


From fc5fef4fd182ae41fc1c6bc3354b18c418935210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 11/35] fix: OptDMD rejects unknown factorizations and forgets
 the snapshots of previous fits

---
 pydmd/optdmd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 0ed6527..516b143 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -163,6 +163,12 @@ class OptDMD(DMDBase):
     """
 
     def __init__(self, factorization="evd", svd_rank=0, tlsq_rank=0, opt=False):
+        if factorization not in ("svd", "evd"):
+            raise ValueError(
+                "Invalid factorization '{}', use 'svd' or 'evd'.".format(
+                    factorization
+                )
+            )
         self._factorization = factorization
         self._tlsq_rank = tlsq_rank
 
@@ -203,6 +209,8 @@ class OptDMD(DMDBase):
         :type Y: numpy.ndarray or iterable
         """
         self._reset()
+        self._input_holder = None
+        self._output_holder = None
 
         if Y is None:
             self._snapshots_holder = Snapshots(X)
-- 
2.43.0


From 25bd5fb505e17bcd313f63ea69bfe1620bf28fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:25 +0000
Subject: [PATCH 12/35] fix: COSTS clustering accepts its default
 transform_method

cluster_omega(), the hyperparameter sweep and every mrCOSTS with the default
transform_method=None raised "Transform method None not supported".
---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 80e9ae4..e8dcb1f 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -761,7 +761,7 @@ class COSTS:
         :rtype: numpy.ndarray
         """
         # Apply a transformation to omega to improve frequency band separation
-        if transform_method == "absolute":
+        if transform_method is None or transform_method == "absolute":
             omega_transform = np.abs(omega_array.imag.astype("float"))
             self._omega_label = r"$|\omega|$"
             self._hist_kwargs = {"bins": 64}
-- 
2.43.0


From 8cef47b3f92949f043e9bc14ce8e8d46b1e6967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:33 +0000
Subject: [PATCH 13/35] fix: sub-models obtained by indexing no longer write to
 the original model

dmd[...] shared the mode, eigenvalue and amplitude arrays and the dmd_time
dictionary with dmd, so changing the sub-model changed the original.
---
 pydmd/dmdbase.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2397a38..efe2e28 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -533,7 +533,12 @@ class DMDBase:
         mask[key] = True
 
         shallow_copy = copy(self)
-        shallow_copy._allocate_modes_bitmask_proxy()
+        # The copy gets a proxy and a time window of its own, otherwise changes
+        # made on the copy are written to the original instance.
+        shallow_copy._modes_activation_bitmask_proxy = deepcopy(
+            self._modes_activation_bitmask_proxy
+        )
+        shallow_copy._dmd_time = deepcopy(getattr(self, "_dmd_time", None))
         shallow_copy.modes_activation_bitmask = mask
 
         return shallow_copy
-- 
2.43.0


From aa281925320297781d97a3d22742878fc4eb557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:34 +0000
Subject: [PATCH 14/35] fix: OptDMD eigenvalue factorization keeps complex
 quantities and can predict

pinv_diag discarded the imaginary part of the reciprocals, and predict read
attributes that do not exist; prediction now agrees with the svd factorization.
---
 pydmd/optdmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 516b143..6ee7435 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -30,9 +30,9 @@ def pinv_diag(x):
     factor = {"f": 1e2, "d": 1e4}
     rcond = factor[t] * np.finfo(t).eps
 
-    y = np.zeros(*x.shape)
+    y = np.zeros(x.shape, dtype=x.dtype)
 
-    y[x > rcond] = np.reciprocal(x[x > rcond])
+    y[np.abs(x) > rcond] = np.reciprocal(x[np.abs(x) > rcond])
 
     return np.diag(y)
 
@@ -124,7 +124,7 @@ class DMDOptOperator(DMDOperator):
 
         # --> Rescale the left eigenvectors.
         m = np.diag(left_vecs.T.conj().dot(right_vecs))
-        left_vecs = left_vecs.dot(pinv_diag(m))
+        left_vecs = left_vecs.dot(pinv_diag(m.conj()))
 
         self._eigenvalues = vals
         self._eigenvectors = left_vecs
@@ -236,7 +236,7 @@ class OptDMD(DMDBase):
 
         elif self.factorization == "evd":
             # --> Compute DMD eigenvalues and right/left eigenvectors
-            self._input_space = self.eigs
+            self._input_space = self.operator.eigenvectors
             self._output_space = self.operator.right_eigenvectors
 
         return self
@@ -257,7 +257,7 @@ class OptDMD(DMDBase):
             Y = np.linalg.multi_dot(
                 [
                     self._output_space,
-                    np.diag(self._eigs),
+                    np.diag(self.eigs),
                     self._input_space.T.conj(),
                     X,
                 ]
-- 
2.43.0


From 59d994a54373595a47f67dbe7c3c77a31083b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 15/35] fix: attributes of models that do not call
 DMDBase.__init__ are always defined

Reading results before fit (or HankelDMD.svd_rank, BOPDMD.dmd_time, and
SubspaceDMD(opt=True).fit) failed with AttributeError on internal names.
---
 pydmd/dmdbase.py     | 9 +++++++++
 pydmd/hankeldmd.py   | 2 +-
 pydmd/subspacedmd.py | 1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index efe2e28..430fc0a 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -164,6 +164,15 @@ class DMDBase:
 
     """
 
+    # Values before fit, also for subclasses that do not call __init__ below.
+    _Atilde = None
+    _original_time = None
+    _dmd_time = None
+    _b = None
+    _snapshots_holder = None
+    _snapshots_holder_y = None
+    _modes_activation_bitmask_proxy = None
+
     def __init__(
         self,
         svd_rank=0,
diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index d9c73d0..41178de 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -181,7 +181,7 @@ class HankelDMD(DMDBase):
 
     @property
     def svd_rank(self):
-        return self._sub_dmd.svd_rank
+        return self.operator._svd_rank
 
     @property
     def ho_snapshots(self):
diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0818e1b..14becdf 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -157,6 +157,7 @@ class SubspaceDMD(DMDBase):
         self._original_time = None
         self._dmd_time = None
         self._opt = opt
+        self._exact = True
 
         self._b = None
         self._snapshots_holder = None
-- 
2.43.0


From 61791c0927b6f7c08aa30791ee07d600faf094c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 16/35] fix: unsupported option values raise ValueError instead
 of UnboundLocalError

---
 pydmd/bopdmd.py               | 2 ++
 pydmd/cdmd.py                 | 4 ++++
 pydmd/mrcosts.py              | 5 +++--
 pydmd/mrdmd.py                | 6 ++++++
 pydmd/preprocessing/hankel.py | 4 ++++
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 9721647..7aaf439 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1717,6 +1717,8 @@ class BOPDMD(DMDBase):
             if y is None:
                 y = np.arange(modes_shape[1])
             xgrid, ygrid = np.meshgrid(x, y)
+        elif len(modes_shape) != 1:
+            raise ValueError("modes_shape must have one or two dimensions.")
 
         # Collapse the results across time-delays.
         if d > 1:
diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 973b22e..96b1ec3 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -210,6 +210,10 @@ class CDMD(DMDBase):
                 np.arange(self.snapshots.shape[1]),
                 np.random.choice(*self.snapshots.shape, replace=False),
             ] = 1.0
+        else:
+            raise ValueError(
+                "Invalid compression_matrix: {}".format(self.compression_matrix)
+            )
 
         # compress the matrix
         Y = C.dot(self.snapshots)
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index d6f1bbf..2e5550e 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -617,8 +617,9 @@ class mrCOSTS:
                         "decomposition level"
                     )
                 )
-            if level > 0:
-                x_iter, _ = self.costs_array[level - 1].scale_separation()
+            if level < 0:
+                raise ValueError("Level must not be negative.")
+            x_iter, _ = self.costs_array[level - 1].scale_separation()
 
         if not x_iter.shape == (self._n_data_vars, self._n_time_steps):
             raise ValueError("Input data has the wrong shape.")
diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 6442553..7f870b7 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -224,6 +224,12 @@ Expected one item per level, got {} out of {} levels.""".format(
             def builder_func(*args):
                 return deepcopy(self.dmd)
 
+        else:
+            raise ValueError(
+                "Expected a DMD instance, a list or tuple of DMD instances or "
+                "a callable, got {}".format(type(self.dmd))
+            )
+
         return builder_func
 
     def _build_tree(self):
diff --git a/pydmd/preprocessing/hankel.py b/pydmd/preprocessing/hankel.py
index 6686776..4dd2979 100644
--- a/pydmd/preprocessing/hankel.py
+++ b/pydmd/preprocessing/hankel.py
@@ -119,6 +119,10 @@ class _HankelPrePostProcessing(PrePostProcessing):
                 result = _first_reconstructions(rec, d=self._d)
             elif self._reconstruction_method == "mean":
                 result = np.nanmean(rec, axis=1).T
+            else:
+                raise ValueError(
+                    f"{self._reconstruction_method=} not recognized"
+                )
         elif isinstance(self._reconstruction_method, np.ndarray):
             result = np.ma.average(
                 rec, axis=1, weights=self._reconstruction_method
-- 
2.43.0


From e371ab50ba9c3f2ec783ab6685f61c9a42a6a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:04 +0000
Subject: [PATCH 17/35] fix: CDMD and RDMD support tikhonov_regularization

The norm of the data was never computed, so fit failed with a TypeError.
---
 pydmd/cdmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 96b1ec3..95bf31c 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -79,6 +79,9 @@ class CDMDOperator(DMDOperator):
 
         U, s, V = compute_svd(compressedX, svd_rank=self._svd_rank)
 
+        if self._tikhonov_regularization is not None:
+            self._norm_X = np.linalg.norm(compressedX)
+
         atilde = self._least_square_operator(U, s, V, compressedY)
 
         if self._forward_backward:
-- 
2.43.0


From d51f2fd6ff87769decda462252659be70d0c699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:04 +0000
Subject: [PATCH 18/35] fix: MrDMD reports that it has been fitted and provides
 its amplitudes

---
 pydmd/mrdmd.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 7f870b7..e54f625 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -117,6 +117,26 @@ class MrDMD(DMDBase):
         """
         return np.concatenate([dmd.eigs for dmd in self])
 
+    @property
+    def amplitudes(self):
+        """
+        Get the amplitudes of the modes of all the levels.
+
+        :return: the array that contains the amplitudes.
+        :rtype: numpy.ndarray
+        """
+        return np.concatenate([dmd.amplitudes for dmd in self])
+
+    @property
+    def fitted(self):
+        """
+        Check whether this MrDMD instance has been fitted.
+
+        :return: `True` if all the nodes have been fitted, `False` otherwise.
+        :rtype: bool
+        """
+        return all(dmd.fitted for dmd in self)
+
     @property
     def modes_activation_bitmask(self):
         raise RuntimeError("This feature has not been implemented yet.")
-- 
2.43.0


From 0db8a5faf7fc917140e599102baf7bd56771391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:44 +0000
Subject: [PATCH 19/35] fix: fit of wrapped, parametric, COSTS and mrCOSTS
 models returns the fitted model

A wrapped model returned the inner DMD instance, whose reconstruction lacks
the post-processing; the others returned None.
---
 pydmd/costs.py                             | 2 ++
 pydmd/mrcosts.py                           | 2 ++
 pydmd/paramdmd.py                          | 2 ++
 pydmd/preprocessing/pre_post_processing.py | 3 ++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index e8dcb1f..6cc429d 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -619,6 +619,8 @@ class COSTS:
                 elif self._reset_alpha_init:
                     optdmd.init_alpha = None
 
+        return self
+
     def get_window_indices(self, k):
         """Returns the window indices for slide `k`.
 
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 2e5550e..50c96a0 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -365,6 +365,8 @@ class mrCOSTS:
             # Save the fitted costs object.
             self._costs_array.append(copy.copy(mrd))
 
+        return self
+
     @staticmethod
     def interp_fill(
         da_interp,
diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 6c0d969..098808a 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -409,6 +409,8 @@ class ParametricDMD:
                 spacemu_time, *self._dmd_fit_args, **self._dmd_fit_kwargs
             )
 
+        return self
+
     # ------------------------------------------------------------
     # getter properties for intermediate values of the computation
 
diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 7ff0253..2d6e638 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,7 +98,8 @@ class PrePostProcessingDMD(Generic[S]):
         new_args, new_kwargs = PrePostProcessingDMD._replace_training_data(
             pre_processed_training_data, *args, **kwargs
         )
-        return self._dmd.fit(*new_args, **new_kwargs)
+        self._dmd.fit(*new_args, **new_kwargs)
+        return self
 
     def _reconstructed_data_with_post_processing(self) -> np.ndarray:
         data = self._dmd.reconstructed_data
-- 
2.43.0


From cc8651ebd0a8899ed5ffcd0d4e9e438fa6ab9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 20/35] fix: saving a preprocessed model keeps its
 pre/post-processing

---
 pydmd/preprocessing/pre_post_processing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 2d6e638..71cd477 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -4,6 +4,7 @@ Pre/post-processing capability for DMD instances.
 
 from __future__ import annotations
 
+import pickle
 from inspect import isroutine
 from typing import Any, Dict, Generic, Tuple, TypeVar
 
@@ -90,6 +91,16 @@ class PrePostProcessingDMD(Generic[S]):
     def modes_activation_bitmask(self, value):
         self._dmd.modes_activation_bitmask = value
 
+    def save(self, fname):
+        """
+        Save the object (wrapped DMD and pre/post-processing) to `fname` using
+        the pickle module.
+
+        :param str fname: the name of file where the object will be saved.
+        """
+        with open(fname, "wb") as output:
+            pickle.dump(self, output, pickle.HIGHEST_PROTOCOL)
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From 9673f83c7d79af561cd51f670d1fe09caa25e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:09 +0000
Subject: [PATCH 21/35] fix: CDMD, RDMD and SubspaceDMD support
 rescale_mode='auto'

---
 pydmd/cdmd.py        |  1 +
 pydmd/dmdoperator.py | 16 ++++++++++++----
 pydmd/subspacedmd.py |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 95bf31c..5faf173 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -90,6 +90,7 @@ class CDMDOperator(DMDOperator):
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
+        self._select_rescale_mode(s)
         self._Atilde = atilde
         self._compute_eigenquantities()
         self._compute_modes(nonCompressedY, U, s, V)
diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 9efffed..58262e0 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -91,10 +91,7 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
-        # "auto" stands for the singular values of the current data
-        self._rescale_mode = self._requested_rescale_mode
-        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
-            self._rescale_mode = s
+        self._select_rescale_mode(s)
 
         self._Atilde = atilde
         self._compute_eigenquantities()
@@ -102,6 +99,17 @@ class DMDOperator:
 
         return U, s, V
 
+    def _select_rescale_mode(self, s):
+        """
+        Private method that selects the scaling factors for the current data.
+        "auto" stands for the singular values of the current data.
+
+        :param numpy.ndarray s: singular values of the current data.
+        """
+        self._rescale_mode = self._requested_rescale_mode
+        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
+            self._rescale_mode = s
+
     @property
     def shape(self):
         """Shape of the operator"""
diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 14becdf..c3b752c 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -90,6 +90,7 @@ class SubspaceDMDOperator(DMDOperator):
 
         U, S, V = reducedsvd(Uq1)
 
+        self._select_rescale_mode(S)
         self._Atilde = self._least_square_operator(U, S, V, Uq2)
         self._compute_eigenquantities()
 
-- 
2.43.0


From e49b3df33490b68fc6d400a80de8105c2015ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:15 +0000
Subject: [PATCH 22/35] fix: CDMD and RDMD use one rank for the forward and the
 backward operator

---
 pydmd/cdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 5faf173..bead899 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -86,7 +86,7 @@ class CDMDOperator(DMDOperator):
 
         if self._forward_backward:
             # b stands for "backward"
-            bU, bs, bV = compute_svd(compressedY, svd_rank=self._svd_rank)
+            bU, bs, bV = compute_svd(compressedY, svd_rank=len(s))
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
-- 
2.43.0


From ff9d01a95a0b8323cf5cde817507c7fefcbc00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:29 +0000
Subject: [PATCH 23/35] fix: EDMD.eigenfunctions works after a fit without Y

---
 pydmd/edmd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index b4374d8..654d82c 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -259,9 +259,14 @@ class EDMD(DMD):
         if not isinstance(x, np.ndarray) or np.ndim(x) != 1:
             raise ValueError("Input x must be a 1-D numpy array.")
 
+        # The fit used all but the last snapshot, unless Y was given.
+        X = self.snapshots
+        if self.snapshots_y is None:
+            X = X[:, :-1]
+
         K_xx = pairwise_kernels(
             x[None],
-            self.snapshots.T,
+            X.T,
             self._kernel_metric,
             **self._kernel_params,
         )
-- 
2.43.0


From 4604265f57a8c38e8f869c9bbdd6143599028dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:47 +0000
Subject: [PATCH 24/35] fix: HankelDMD reconstructs the whole time window when
 original_time does not start at zero

---
 pydmd/hankeldmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index 41178de..fb7ce35 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -130,7 +130,7 @@ class HankelDMD(DMDBase):
         return max(
             0,
             (time - self.original_time["t0"]) // self.dmd_time["dt"]
-            - (self.original_time["t0"] + self._d - 1),
+            - (self._d - 1),
         )
 
     def _update_sub_dmd_time(self):
-- 
2.43.0


From 2d1ed46ccbdc60af96475047262f61585e4467f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 25/35] fix: svd_projection preprocessing and HODMD project
 complex data onto the conjugate basis

---
 pydmd/preprocessing/svd_projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/svd_projection.py b/pydmd/preprocessing/svd_projection.py
index 7c6dc08..f785658 100644
--- a/pydmd/preprocessing/svd_projection.py
+++ b/pydmd/preprocessing/svd_projection.py
@@ -52,7 +52,7 @@ class _SvdProjectionPrePostProcessing(PrePostProcessing):
             svd_rank = self._svd_rank
         projection_matrix, _, _ = compute_svd(X, svd_rank)
 
-        return projection_matrix, projection_matrix.T.dot(X)
+        return projection_matrix, projection_matrix.T.conj().dot(X)
 
     @override
     def post_processing(
-- 
2.43.0


From 18ef6a43c0256a7d2c6d7205d1c29a7c18d87ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:10 +0000
Subject: [PATCH 26/35] fix: select_modes applied the indexes of the active
 modes to the whole bitmask

---
 pydmd/dmd_modes_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e8c3388..6783f18 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -69,7 +69,8 @@ def select_modes(
 
     if len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
-        tmp[cut_indexes] = False
+        # indexes are relative to the modes which are currently active
+        tmp[np.flatnonzero(tmp)[cut_indexes]] = False
         dmd.modes_activation_bitmask = tmp
 
     if return_indexes:
-- 
2.43.0


From 97950b831fba7b87371b177b06edf0eed7d15519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:11 +0000
Subject: [PATCH 27/35] fix: select_modes ignored nullify_amplitudes

---
 pydmd/dmd_modes_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 6783f18..db48eee 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -67,7 +67,9 @@ def select_modes(
     all_indexes = set(np.arange(len(dmd.eigs)))
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
 
-    if len(cut_indexes) > 0:
+    if len(cut_indexes) > 0 and nullify_amplitudes:
+        dmd.amplitudes[cut_indexes] = 0
+    elif len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
         # indexes are relative to the modes which are currently active
         tmp[np.flatnonzero(tmp)[cut_indexes]] = False
-- 
2.43.0


From 0e86213bf3fba55fbb2567ddcc9698f8ac107403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 28/35] fix: VarProDMD uses every sample when the compression
 leaves none

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index f3c6803..3ad783f 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -392,7 +392,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         indices = select_best_samples_fast(res[2], compression)
 
         if indices.size <= 1:
-            indices = np.arange(res[2])
+            indices = np.arange(res[2].shape[-1])
 
     else:
         indices = np.arange(res[2].shape[-1])
-- 
2.43.0


From f003e9e09616757947f53ddd8b39e25f08053460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 29/35] fix: VarProDMD starts from the eigenvalues of the
 operator, not of its inverse

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 3ad783f..08d54e4 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -263,7 +263,7 @@ def _varpro_preprocessing(
     dt_in = time[1:] - time[:-1]
     z_out = (data_out[:, 1:] - data_out[:, :-1]) / dt_in[None]
 
-    return z_out, y_out, data_out, u_r
+    return y_out, z_out, data_out, u_r
 
 
 def _compute_dmd_varpro(
-- 
2.43.0


From e4a55ccbe0d95d61dc787cf9204f2e8ebabcf443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 30/35] fix: VarProDMD modes and amplitudes belong to the
 eigenvalues returned

---
 pydmd/varprodmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 08d54e4..f370dcf 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -415,6 +415,10 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         opthelper,
         **optargs,
     )
+    # The last evaluation of the optimizer may be a rejected step: make sure
+    # that the coefficients belong to the eigenvalues which are returned.
+    _compute_dmd_rho(opt.x, time[indices], res[2][:, indices].T, opthelper)
+
     omegas.real = opt.x[: opt.x.shape[-1] // 2]
     omegas.imag = opt.x[opt.x.shape[-1] // 2 :]
     xi = res[-1] @ opthelper.b_matrix.T if use_proj else opthelper.b_matrix.T
-- 
2.43.0


From 716be3bd0ef1cb8ddf120c029acab717d26e87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 31/35] fix: differentiate keeps the imaginary part of complex
 data

---
 pydmd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/utils.py b/pydmd/utils.py
index 5f8927f..79cb6ce 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -313,7 +313,7 @@ def differentiate(X, dt):
         raise ValueError("Please ensure that input data is a 1D or 2D array.")
     if X.ndim == 1:
         X = X[None]
-    X_prime = np.empty(X.shape)
+    X_prime = np.empty(X.shape, dtype=np.result_type(X, float))
     X_prime[:, 1:-1] = (X[:, 2:] - X[:, :-2]) / (2 * dt)
     X_prime[:, 0] = (-3 * X[:, 0] + 4 * X[:, 1] - X[:, 2]) / (2 * dt)
     X_prime[:, -1] = (3 * X[:, -1] - 4 * X[:, -2] + X[:, -3]) / (2 * dt)
-- 
2.43.0


From 88571802233449fb09fec68446556a56f6cd6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 32/35] fix: HAVOK hankel and dehankel keep the imaginary part
 of complex data

---
 pydmd/havok.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index f577db7..8d7db22 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -302,7 +302,7 @@ class HAVOK:
             )
 
         Hm = m - ((self._delays - 1) * self._lag)
-        H = np.empty((n * self._delays, Hm))
+        H = np.empty((n * self._delays, Hm), dtype=np.result_type(X, float))
         for i in range(self._delays):
             H[i * n : (i + 1) * n] = X[:, i * self._lag : i * self._lag + Hm]
 
@@ -324,7 +324,7 @@ class HAVOK:
         Hn, Hm = H.shape
         n = int(Hn / self._delays)
         m = int(Hm + ((self._delays - 1) * self._lag))
-        X = np.empty((n, m))
+        X = np.empty((n, m), dtype=np.result_type(H, float))
         for i in range(self._delays):
             X[:, i * self._lag : i * self._lag + Hm] = H[i * n : (i + 1) * n]
 
-- 
2.43.0


From 2394bd109020e6f0ce41b15b5764c52912a02c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 33/35] fix: LANDO discrete predictions keep the imaginary part
 of complex models

---
 pydmd/lando.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index b4dd791..54d89f1 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -953,7 +953,8 @@ class LANDO(DMDBase):
             return sol.y
 
         # Otherwise, assume a discrete-time system.
-        Y = np.empty((len(x0), tend))
+        dtype = np.result_type(x0, self.operator.weights, float)
+        Y = np.empty((len(x0), tend), dtype=dtype)
         Y[:, 0] = x0
         for i in range(tend - 1):
             Y[:, i + 1] = self.f(Y[:, i][..., None]).flatten()
-- 
2.43.0


From bd44eb14257775121f3d9def5f2c48195c8ca185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 34/35] fix: PiDMD symmetric operator of complex data is
 Hermitian, not real

---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 181e0fb..6198a7e 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -118,7 +118,7 @@ def compute_symmetric(X, Y, svd_rank, skew_symmetric=False):
                 atilde[i, j] /= s[i] ** 2 + s[j] ** 2
         atilde += -atilde.conj().T - 1j * np.diag(np.diag(atilde.imag))
     else:  # symmetric
-        atilde = np.diag(np.diagonal(C).real / s)[:r, :r]
+        atilde = np.diag(np.diagonal(C).real / s)[:r, :r].astype(C.dtype)
         for i in range(r):
             for j in range(i + 1, r):
                 atilde[i, j] = s[i] * np.conj(C[j, i]) + s[j] * C[i, j]
-- 
2.43.0


From 8289be04a5a249f3f809174c7ca5a3cb26ff679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:13 +0000
Subject: [PATCH 35/35] fix: MrDMD does not truncate the levels of integer
 snapshots

---
 pydmd/mrdmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index e54f625..8389527 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -520,7 +520,9 @@ Expected one item per level, got {} out of {} levels.""".format(
         def slow_modes(dmd, rho):
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
-        X = self.snapshots.copy()
+        X = self.snapshots.astype(
+            np.result_type(self.snapshots.dtype, np.float32)
+        )
         for level in self.dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
-- 
2.43.0

