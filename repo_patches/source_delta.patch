From 768220f82146b672d16108f818190a5d235327ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 01/13] fix: solve the ADMM least-squares step for the filter
 over the channel axis

The augmented Lagrangian is quadratic in each row of the filter: W (Q X X^H + I) = V - Y + sum_q (V~_q - Y~_q) X^H.
The system was solved against the rows instead of the columns of the right-hand side, so the result was not its minimiser.
---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..85ba769 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -427,7 +428,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From 1e125218566cf791a57f607a372fd0ace329933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 02/13] fix: record the loss of masking PDS/ADMM separation

The callable penalty was stored as given while compute_loss iterates over a list of penalties, so record_loss=True raised a TypeError.
---
 ssspy/bss/admmbss.py | 2 ++
 ssspy/bss/pdsbss.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 85ba769..5a1510d 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -310,6 +310,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..5736a53 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -287,6 +287,8 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
-- 
2.43.0


From c91f25364e19e4698c90621920a56d820e31ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 03/13] fix: apply minimal distortion principle on whitened
 input in FastIVA/FasterIVA

---
 ssspy/bss/iva.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..f7dff7e 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -549,6 +549,25 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 4a72eb89c416ebaef7dfb65dd479cf54517410c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 04/13] fix: accept initial_call in IPSDTA

---
 ssspy/bss/ipsdta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..20a38f5 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -93,7 +93,9 @@ class IPSDTABase(IterativeMethodBase):
 
         self.rng = rng
 
-    def __call__(self, input: np.ndarray, n_iter: int = 100, **kwargs) -> np.ndarray:
+    def __call__(
+        self, input: np.ndarray, n_iter: int = 100, initial_call: bool = True, **kwargs
+    ) -> np.ndarray:
         r"""Separate a frequency-domain multichannel signal.
 
         Args:
@@ -103,6 +105,9 @@ class IPSDTABase(IterativeMethodBase):
             n_iter (int):
                 The number of iterations of demixing filter updates.
                 Default: ``100``.
+            initial_call (bool):
+                If ``True``, perform callbacks (and computation of loss if necessary)
+                before iterations.
 
         Returns:
             numpy.ndarray of the separated signal in frequency-domain.
@@ -112,7 +117,7 @@ class IPSDTABase(IterativeMethodBase):
 
         self._reset(**kwargs)
 
-        super().__call__(n_iter=n_iter)
+        super().__call__(n_iter=n_iter, initial_call=initial_call)
 
         if self.scale_restoration:
             self.restore_scale()
-- 
2.43.0


From 618d1a569e1ffe2d2d9b27096a192c6fddb06acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 05/13] fix: saturate instead of wrapping around in wavwrite of
 float full scale

---
 ssspy/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..b1a4fec 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,8 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = np.clip(_waveform.astype("f8") * vmax, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From 44c0a5321cc6a52b22edc5639d5f08e9c8cbb351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 06/13] fix: reject negative frame_offset in wavread

---
 ssspy/io/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index b1a4fec..515b1b3 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -155,6 +155,9 @@ def _read_data_chunk(
     return_2d: Optional[bool] = None,
     channels_first: Optional[bool] = None,
 ) -> np.ndarray:
+    if frame_offset < 0:
+        raise ValueError(f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer.")
+
     data_chunk_size = struct.unpack("<I", f.read(4))[0]
     bytes_per_sample = block_align // n_channels
     n_full_samples = data_chunk_size // bytes_per_sample
-- 
2.43.0


From e7ba8cd7ff637e3d02235519afe8d13c6b8e571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 07/13] fix: copy the given spatial parameter in FastMNMF

---
 ssspy/bss/mnmf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index adf9dcf..a48cd49 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -595,7 +595,8 @@ class FastMNMFBase(MNMFBase):
             D = rng.random((n_bins, n_sources, n_channels))
             D = flooring_fn(D)
         else:
-            D = self.spatial
+            # To avoid overwriting.
+            D = self.spatial.copy()
 
         self.spatial = D
 
-- 
2.43.0


From b2b30069b77c99de098ab82bbd429f06deff9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 08/13] fix: keep given and estimated parameters when CACGMM is
 called again

---
 ssspy/bss/cacgmm.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ssspy/bss/cacgmm.py b/ssspy/bss/cacgmm.py
index 778ce1e..90d0add 100644
--- a/ssspy/bss/cacgmm.py
+++ b/ssspy/bss/cacgmm.py
@@ -175,13 +175,21 @@ class CACGMMBase(IterativeMethodBase):
         if rng is None:
             rng = np.random.default_rng()
 
-        alpha = rng.random((n_sources, n_bins))
-        alpha = alpha / alpha.sum(axis=0)
-
-        eye = np.eye(n_channels, dtype=np.complex128)
-        B_diag = self.rng.random((n_sources, n_bins, n_channels))
-        B_diag = B_diag / B_diag.sum(axis=-1, keepdims=True)
-        B = B_diag[:, :, :, np.newaxis] * eye
+        if not hasattr(self, "mixing"):
+            alpha = rng.random((n_sources, n_bins))
+            alpha = alpha / alpha.sum(axis=0)
+        else:
+            # To avoid overwriting.
+            alpha = self.mixing.copy()
+
+        if not hasattr(self, "covariance"):
+            eye = np.eye(n_channels, dtype=np.complex128)
+            B_diag = self.rng.random((n_sources, n_bins, n_channels))
+            B_diag = B_diag / B_diag.sum(axis=-1, keepdims=True)
+            B = B_diag[:, :, :, np.newaxis] * eye
+        else:
+            # To avoid overwriting.
+            B = self.covariance.copy()
 
         self.mixing = alpha
         self.covariance = B
-- 
2.43.0


From 824673c05141da5199a8a99bb16c1a60c54ef7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 09/13] fix: take the principal eigenvector, not the last row,
 in lqpqm2 for singular bins

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..fe0c841 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[:, :, -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From 3bc53b3d059722763660ad21f7a93f0368ad7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 10/13] fix: do not rescale the linear term when normalizing
 the scalar equation of lqpqm2

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index fe0c841..16c52d6 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From f07a0afc3a8fefbe32e82e6bdb8c7d8232fec77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 11/13] fix: resolve the default of record_loss before it is
 handed to the iteration driver

---
 ssspy/bss/admmbss.py | 10 +++++-----
 ssspy/bss/pdsbss.py  | 10 +++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 5a1510d..bb64a2f 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -295,11 +295,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -315,6 +310,11 @@ class MaskingADMMBSS(ADMMBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index 5736a53..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -292,6 +287,11 @@ class MaskingPDSBSS(PDSBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From cb34c1cef7c1f520f56d7c5acdb0c781397f6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 12/13] fix: avoid cancellation in cube roots of cubic
 equations

For x^3 + px + q with small p > 0 and q > 0, -q/2 + sqrt(q^2/4 + p^3/27) loses
all digits, and solve_cubic returned nan (or roots with a relative error of
1e-3).
---
 ssspy/linalg/polynomial.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ssspy/linalg/polynomial.py b/ssspy/linalg/polynomial.py
index eaefacc..5255a02 100644
--- a/ssspy/linalg/polynomial.py
+++ b/ssspy/linalg/polynomial.py
@@ -79,7 +79,14 @@ def _find_cubic_roots(P: np.ndarray, Q: np.ndarray) -> np.ndarray:
 
     discriminant = (Q / 2) ** 2 + (P / 3) ** 3
 
-    U = cbrt(-Q / 2 + np.sqrt(discriminant))
+    sqrt_discriminant = np.sqrt(discriminant)
+    U_cubed = -Q / 2 + sqrt_discriminant
+    V_cubed = -Q / 2 - sqrt_discriminant
+    # U^3 * V^3 = -(P / 3)^3. To avoid cancellation, the smaller one is computed by the other.
+    is_cancelled = np.abs(U_cubed) < np.abs(V_cubed)
+    V_cubed = np.where(is_cancelled, V_cubed, 1)
+    U_cubed = np.where(is_cancelled, -((P / 3) ** 3) / V_cubed, U_cubed)
+    U = cbrt(U_cubed)
     # U = 0, when P = 0.
     is_singular = P == 0
     U = np.where(is_singular, 1, U)
-- 
2.43.0


From ac4f0c046bd81cc10a50ca2c6d82815aab76dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 13/13] fix: keep updates complex when the initial filter is
 given as a real array

The in-place updates (IP, IP2, VCD) wrote complex rows into the copy of a real
demix_filter/diagonalizer (e.g. np.eye), which silently discarded the imaginary
parts.
---
 ssspy/bss/fdica.py  | 2 +-
 ssspy/bss/ilrma.py  | 2 +-
 ssspy/bss/ipsdta.py | 4 ++--
 ssspy/bss/iva.py    | 2 +-
 ssspy/bss/mnmf.py   | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/fdica.py b/ssspy/bss/fdica.py
index 75517b2..95bbbe1 100644
--- a/ssspy/bss/fdica.py
+++ b/ssspy/bss/fdica.py
@@ -166,7 +166,7 @@ class FDICABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/ilrma.py b/ssspy/bss/ilrma.py
index 13eb5e3..fad8e3f 100644
--- a/ssspy/bss/ilrma.py
+++ b/ssspy/bss/ilrma.py
@@ -191,7 +191,7 @@ class ILRMABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index 20a38f5..5758dc0 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -180,7 +180,7 @@ class IPSDTABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
@@ -507,7 +507,7 @@ class BlockDecompositionIPSDTABase(IPSDTABase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index f7dff7e..5f35186 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -163,7 +163,7 @@ class IVABase(IterativeMethodBase):
                 W = None
             else:
                 # To avoid overwriting ``demix_filter`` given by keyword arguments.
-                W = self.demix_filter.copy()
+                W = self.demix_filter.astype(np.complex128)
 
         self.demix_filter = W
         self.output = self.separate(X, demix_filter=W)
diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index a48cd49..39307fb 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -559,7 +559,7 @@ class FastMNMFBase(MNMFBase):
             Q = np.tile(Q, reps=(n_bins, 1, 1))
         else:
             # To avoid overwriting.
-            Q = self.diagonalizer.copy()
+            Q = self.diagonalizer.astype(np.complex128)
 
         self.diagonalizer = Q
 
-- 
2.43.0

