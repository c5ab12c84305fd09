From d9250df6ea55e43c1185c80b345f5735670f4f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 1/9] fix: tiling integrand diverges at quadrature nodes
 rounded outside its support

For many scale factors (lam = 5, 3.5, 1.4, 1.9, ...) the last or first
trapezium node a + i*h lands marginally outside [1/lam, 1]. There the
exponent changes sign and overflows, so k_lam and every filter derived from
it were inf/NaN. The Schwartz function is zero outside its support.
---
 s2wav/filters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..70a630a 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -371,6 +371,11 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
+    # The Schwartz function vanishes outside its support. Quadrature nodes at the limits
+    # may fall marginally outside due to rounding, where the exponential diverges.
+    if abs(s_arg) >= 1.0:
+        return 0.0
+
     integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
 
     return integrand
-- 
2.43.0


From 4d6eff14c66fb29cb15a6f2989a8655f0e368cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 2/9] fix: j_max overshoots by one when log(L)/log(lam) rounds
 above an integer

For L=27, lam=3 the ratio evaluates to 3.0000000000000004, so j_max returned
4: an empty additional scale with L0_j = L, on which the base transforms
raise an AssertionError.
---
 s2wav/samples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..fabc5c9 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -573,7 +573,11 @@ def j_max(L: int, lam: float = 2.0) -> int:
     Returns:
         int: The maximum wavelet scale used.
     """
-    return int(np.ceil(np.log(L) / np.log(lam)))
+    J = int(np.ceil(np.log(L) / np.log(lam)))
+    # The ratio of logarithms can round above an exact integer power, e.g. L=27, lam=3.
+    if J > 0 and lam ** (J - 1) >= L:
+        J -= 1
+    return J
 
 
 def wavelet_shape_check(
-- 
2.43.0


From b10a31e449c5a0eb5e98016e855d740f2c8757b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:15 +0000
Subject: [PATCH 3/9] fix: keep the lower harmonic limit of a wavelet scale
 below its band-limit

When L-1 < lam**(J-1) < L (e.g. L=8, lam=1.5 or L=7, lam=2.5) the highest
scale had L0_j >= L_j and the base transforms raised an AssertionError in
s2fft. The kernel vanishes there, so clamping changes no coefficient.
---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index fabc5c9..ebb0bb8 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,7 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From e360b51e49e6dcbe2aac54f2354fa2fc130864c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:48 +0000
Subject: [PATCH 4/9] fix: scaling coefficients at band-limit one ignore the
 sampling scheme

With J_min=0 the scaling function has band-limit 1 and analysis short-cuts
the inverse transform, but always returned shape (1, 1). For mwss, dh and
healpix this is not the grid advertised by samples.f_scal, nor the one
returned by the base transforms or consumed by synthesis.
---
 s2wav/transforms/wavelet.py                  | 3 ++-
 s2wav/transforms/wavelet_c.py                | 3 ++-
 s2wav/transforms/wavelet_precompute.py       | 3 ++-
 s2wav/transforms/wavelet_precompute_torch.py | 4 +++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..c49c7cb 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,8 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = jnp.broadcast_to(temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)), shape)
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..7598566 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,8 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, multiresolution=True)
+        f_scal = jnp.broadcast_to(flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)), shape)
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..f2fd521 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,8 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = jnp.broadcast_to(temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)), shape)
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..a5c13d5 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,9 +201,11 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = temp[0, 0] * torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
         )
+        f_scal = f_scal.repeat(shape)
     else:
         f_scal = spherical.inverse_transform_torch(
             temp, precomps[1], Ls, sampling, reality, spin, nside
-- 
2.43.0


From 18e61d751338253d2a159a01a8b3e0cb532f4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:21 +0000
Subject: [PATCH 5/9] fix: spin normalisation of vectorised and JAX filters

The vectorised form reshaped 2|s| factors to length 2|s|+1 and so raised for
every spin0 != 0; it also multiplied instead of adding ell and the offsets.
Evaluate prod_i (ell + i), i = -|s|+1..|s|, as the looped version does.
---
 s2wav/filters.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 70a630a..8ff5511 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -665,9 +665,11 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    factor = np.arange(-abs(spin) + 1, abs(spin) + 1, dtype=np.float64)
+    factor = np.prod(el.reshape(len(el), 1) + factor.reshape(1, 2 * abs(spin)), axis=1)
+    # Multipoles below |spin| carry no signal and would divide by zero.
+    factor = np.where(el < abs(spin), 1.0, factor)
+    return np.sqrt(factor if spin > 0 else 1.0 / factor)
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -729,6 +731,8 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1, dtype=jnp.float64)
+    factor = jnp.prod(el.reshape(len(el), 1) + factor.reshape(1, 2 * abs(spin)), axis=1)
+    # Multipoles below |spin| carry no signal and would divide by zero.
+    factor = jnp.where(el < abs(spin), 1.0, factor)
+    return jnp.sqrt(factor if spin > 0 else 1.0 / factor)
-- 
2.43.0


From fc4e2cacd9915af75497d095cb9f695685a66c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 6/9] fix: flm_to_analysis with J_max below the top scale uses
 the wrong precompute

The kernel list omits the top scale, which shares the kernel of the scale
below; the index was shifted at j == J_max instead of at the top scale, so
truncated analyses used the kernel of scale J_max - 1.
---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index f2fd521..dc8e9fe 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -304,7 +304,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index a5c13d5..aec16d1 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -285,7 +285,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From ad707660507e94d9ac2d2bc8c834b2582e63f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 7/9] fix: full precomputes were always built for spin 0

analysis and synthesis of the precompute backends accept spin, but
generate_full_precomputes hard-coded spin-0 spherical kernels, so any
spin != 0 transform silently returned wrong coefficients. Add a trailing
spin argument (default 0).
---
 s2wav/transforms/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..7fc2fac 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,8 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin (integer) of the signal to transform. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +69,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From 23dc14b5c6f08553d1eb7bad1000f843b6293e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 8/9] fix: C backend raises when the scaling band-limit does
 not exceed |spin|

For J_min such that ceil(lam**J_min) <= |spin| (e.g. the default J_min=0 with
spin 1) the scaling signal has no harmonic modes; ducc0 refuses such a
transform. The coefficients are zero, as in the other backends.
---
 s2wav/transforms/wavelet_c.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 7598566..cb5e017 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -67,9 +67,13 @@ def synthesis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    f_scal_lm = ssht_forward(
-        f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
-    )
+    # No harmonic modes exist below |spin|, for which the C backend would raise
+    if Ls <= abs(spin):
+        f_scal_lm = jnp.zeros((Ls, 2 * Ls - 1), dtype=jnp.complex128)
+    else:
+        f_scal_lm = ssht_forward(
+            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+        )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
@@ -146,8 +150,10 @@ def analysis(
             )
         )
 
-    if Ls == 1:
-        shape = samples.f_scal(L, J_min, lam, sampling, multiresolution=True)
+    shape = samples.f_scal(L, J_min, lam, sampling, multiresolution=True)
+    if Ls <= abs(spin):
+        f_scal = jnp.zeros(shape, dtype=jnp.complex128)
+    elif Ls == 1:
         f_scal = jnp.broadcast_to(flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)), shape)
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
-- 
2.43.0


From 83a873f1ea0b76de6760b0714832fa7445d61182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:47 +0000
Subject: [PATCH 9/9] fix: filters is documented as optional but None raised
 TypeError

README usage s2wav.analysis(f, L, N) / synthesis(f_wav, f_scal, L, N) failed
with 'NoneType' object is not subscriptable. Generate the wavelet filters
for the requested configuration when none are supplied, as is already done
for the recursion precomputes.
---
 s2wav/transforms/wavelet.py                  | 10 ++++++++++
 s2wav/transforms/wavelet_c.py                | 10 ++++++++++
 s2wav/transforms/wavelet_precompute.py       | 10 ++++++++++
 s2wav/transforms/wavelet_precompute_torch.py | 10 ++++++++++
 4 files changed, 40 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index c49c7cb..1fd6702 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 import s2fft
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 from s2wav.transforms import construct
 
 
@@ -66,6 +67,9 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, True, reality
@@ -151,6 +155,9 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
@@ -258,6 +265,9 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters, _ = filters_directional_vectorised(L, N, J_min, lam)
+
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index cb5e017..011d4a3 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -5,6 +5,7 @@ from functools import partial
 import s2fft
 from s2fft.transforms.c_backend_spherical import ssht_forward, ssht_inverse
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -60,6 +61,9 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
@@ -130,6 +134,9 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
@@ -198,6 +205,9 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters, _ = filters_directional_vectorised(L, N, J_min, lam)
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index dc8e9fe..8d126f9 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 @partial(jit, static_argnums=(2, 3, 4, 5, 6, 7, 8, 9))
@@ -68,6 +69,9 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -161,6 +165,9 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -275,6 +282,9 @@ def flm_to_analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters, _ = filters_directional_vectorised(L, N, J_min, lam)
+
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index aec16d1..7f4c6e4 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -2,6 +2,7 @@ import torch
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -65,6 +66,9 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin, using_torch=True)
+
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -154,6 +158,9 @@ def analysis(
         f_scal (torch.tensor): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin, using_torch=True)
+
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
@@ -262,6 +269,9 @@ def flm_to_analysis(
         f_scal (torch.tensor): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters, _ = filters_directional_vectorised(L, N, J_min, lam, using_torch=True)
+
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
-- 
2.43.0

