From 448c2a39f173232559ef7480d91bd958d7f2e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 01/41] fix: bose_fct truncated its result for integer
 arguments

---
 gftool/statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 41d4654..7aa9a82 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -47,6 +47,8 @@ def bose_fct(eps, beta):
     >>> plt.show()
     """
     betaeps = np.asanyarray(beta*eps)
+    if not np.issubdtype(betaeps.dtype, np.inexact):  # avoid truncation of the result to integers
+        betaeps = betaeps.astype(float)
     res = np.empty_like(betaeps)
     small = betaeps < 700
 
-- 
2.43.0


From 66a9a7d9a7cef05de60ccc412a17c042c7ac3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:29 +0000
Subject: [PATCH 02/41] fix: tau2iv failed for two imaginary-time points (empty
 range of frequencies)

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 839d472..b822959 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -653,7 +653,7 @@ def tau2iv(gf_tau, beta, fourier=tau2iv_ft_lin):
     tau = np.linspace(0, beta, num=gf_tau.shape[-1])
     gf_tau = gf_tau - g1[..., newaxis]/beta*tau  # remove jump by linear shift
     gf_iv = fourier(gf_tau, beta=beta)
-    ivs = matsubara_frequencies_b(range(1, gf_iv.shape[-1]), beta=beta)
+    ivs = matsubara_frequencies_b(np.arange(1, gf_iv.shape[-1]), beta=beta)
     gf_iv[..., 1:] += g1[..., newaxis]/ivs
     gf_iv[..., 0] += .5 * g1 * beta  # `iv_{n=0}` = 0 has to be treated separately
     return gf_iv
-- 
2.43.0


From 8c691f98228dd57ae2d8caa72385ca85b1fc79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 03/41] fix: tt2z_lin lost all digits for small non-zero z and
 broke for batched z containing 0

---
 gftool/fourier.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index b822959..e5a01e7 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1321,18 +1321,18 @@ def tt2z_lin(tt, gf_t, z):
     if not np.allclose(tt[1:] - tt[:-1], delta_tt):
         msg = "Equidistant `tt` required for current implementation."
         raise ValueError(msg)
-    zero = z == 0  # special case `z=0` has to be handled separately (due: 1/z)
-    if np.any(zero):
-        z = np.where(zero, 1, z)
     izdt = 1j*z*delta_tt
     phase = _phase(z[..., newaxis], tt[newaxis, :-1])
     g_dft = _gu_matvec(phase, gf_t[..., :-1])
     dg_dft = _gu_matvec(phase, gf_t[..., 1:] - gf_t[..., :-1])
-    weight1 = np.expm1(izdt)/izdt
-    weight2 = (np.exp(izdt) - weight1)/izdt
+    # small `z` (including `z=0`) suffer from cancellation, use the Taylor expansion instead
+    small = abs(izdt) < 1e-3
+    izdt_ = np.where(small, 1, izdt)
+    weight1 = np.where(small, 1 + izdt/2*(1 + izdt/3*(1 + izdt/4*(1 + izdt/5))),
+                       np.expm1(izdt_)/izdt_)
+    weight2 = np.where(small, 1/2 + izdt*(1/3 + izdt*(1/8 + izdt*(1/30 + izdt/144))),
+                       (np.exp(izdt_) - np.expm1(izdt_)/izdt_)/izdt_)
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
-    if np.any(zero):
-        gf_z[..., zero] = _trapezoid(gf_t, x=tt)[..., np.newaxis]
     return gf_z
 
 
-- 
2.43.0


From 22861170d14c007dad16a8d7895b09b7de46d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 04/41] fix: pole fits failed for batched weights (in-place
 multiplication)

---
 gftool/basis/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 1ee5c64..08f7e12 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -568,7 +568,7 @@ def gf_from_z(z, gf_z, n_pole, moments=(), width=1., weight=None) -> PoleFct:
     otype = np.result_type(gf_z, moments, poles)
     if weight is not None:
         weight = np.concatenate([weight, weight], axis=-1)
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_z = gf_z * weight
     if moments.shape[-1] > 0:
         if moments.shape[-1] > n_pole:
@@ -641,7 +641,7 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     moments = np.asarray(moments)
     otype = np.result_type(gf_tau, moments, poles)
     if weight is not None:
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
     if moments.shape[-1] > 0 or occ:  # constrained
         if moments.shape[-1] + int(occ) > n_pole:
-- 
2.43.0


From e485fcfd966eba7b05f33d617fb137825b291ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 05/41] fix: gf_from_tau with occ duplicated the constraint,
 ignored occ=0 and failed without moments

---
 gftool/basis/pole.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 08f7e12..c310a20 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -643,19 +643,23 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     if weight is not None:
         gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
-    if moments.shape[-1] > 0 or occ:  # constrained
-        if moments.shape[-1] + int(occ) > n_pole:
+    n_mom = moments.shape[-1]
+    fix_occ = occ is not False and occ is not None
+    if n_mom > 0 or fix_occ:  # constrained
+        if n_mom + int(fix_occ) > n_pole:
             msg = (
                 "Too many poles given, system is over constrained. "
-                f"poles: {n_pole}, moments: {moments.shape[-1]}"
+                f"poles: {n_pole}, moments: {n_mom}"
             )
             raise ValueError(msg)
-        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=moments.shape[-1]-1).T
-        if occ:
+        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=max(n_mom-1, 0)).T[:n_mom]
+        if fix_occ:
             constrain_mat = np.concatenate(
-                np.broadcast_arrays(constrain_mat, fermi_fct(poles, beta=beta)), axis=-2
+                [constrain_mat, fermi_fct(poles, beta=beta)[newaxis]], axis=-2
+            )
+            moments = np.concatenate(
+                [moments, np.broadcast_to(occ, (*moments.shape[:-1], 1))], axis=-1
             )
-            moments = np.concatenate(np.broadcast_arrays(moments, occ), axis=-1)
         _lstsq_ec = np.vectorize(linalg.lstsq_ec, signature="(m,n),(m),(l,n),(l)->(n)",
                                  otypes=[otype], excluded={"rcond"})
         resid = _lstsq_ec(gf_sp_mat, gf_tau, constrain_mat, moments)
-- 
2.43.0


From 58af1975710afc8c8cfe2c27f5f7d51338c6ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:01 +0000
Subject: [PATCH 06/41] fix: density_iw with n_fit failed for batched
 frequencies

---
 gftool/density.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gftool/density.py b/gftool/density.py
index 8f168c8..d561779 100644
--- a/gftool/density.py
+++ b/gftool/density.py
@@ -90,9 +90,9 @@ def density_iw(iws, gf_iw, beta, weights=1., moments=(1.,), n_fit=0):
     moments = np.asanyarray(moments, dtype=np.float64)[..., np.newaxis, :]
     if n_fit:
         n_mom = moments.shape[-1]
-        weight = iws.imag**(n_mom+n_fit)
-        mom_gf = PoleGf.from_z(iws, gf_iw[..., np.newaxis, :], n_pole=n_fit+n_mom,
-                               moments=moments, width=None, weight=weight)
+        weight = iws.imag[..., np.newaxis, :]**(n_mom+n_fit)
+        mom_gf = PoleGf.from_z(iws[..., np.newaxis, :], gf_iw[..., np.newaxis, :],
+                               n_pole=n_fit+n_mom, moments=moments, width=None, weight=weight)
     else:
         mom_gf = PoleGf.from_moments(moments, width=None)
     delta_gf_iw = gf_iw.real - mom_gf.eval_z(iws).real
-- 
2.43.0


From bcdf4c7c9d14ff28d2678070ef8b51358a1d7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:01 +0000
Subject: [PATCH 07/41] fix: check_convergence mixed up the axes for
 matrix=True

---
 gftool/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index b4d24dc..a148de1 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -579,7 +579,8 @@ def check_convergence(gf_iw, potential, beta, order=2, matrix=False, total=False
 
     if matrix:
         dec = gtmatrix.decompose_her(potential)
-        tail = dec.reconstruct(1./np.add.outer(dec.eig, iw), kind="diag")
+        tail = dec.reconstruct(1./np.add.outer(iw, dec.eig), kind="diag")
+        tail = np.moveaxis(tail, source=0, destination=-1)
     else:
         tail = 1/np.add.outer(potential, iw)
 
-- 
2.43.0


From 05d63501298fa8c514ff3588d55a294e09064331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 08/41] fix: density failed for complex Hermitian potentials
 (matrix=True)

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index a148de1..3cceba3 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -454,7 +454,7 @@ def density(gf_iw, potential, beta, return_err=True, matrix=False, total=False):
         eig = dec.eig
         tail = dec.reconstruct(1./np.add.outer(iw, eig), kind="diag")
         tail = np.moveaxis(tail, source=0, destination=-1)
-        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag")
+        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag").real
     else:
         tail = 1/np.add.outer(potential, iw)
         analytic = fermi_fct(-potential, beta=beta)
-- 
2.43.0


From 2bc6186e8220dab4122280f3a82c603350674dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:39 +0000
Subject: [PATCH 09/41] fix: triangular.gf_z wrong singularity test and failure
 for batched half_bandwidth

---
 gftool/lattice/triangular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index c410cf9..8c0a14a 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -73,10 +73,10 @@ def gf_z(z, half_bandwidth):
     D = half_bandwidth * 4 / 9
     z = 1.0 / D * np.asarray(z)
     shape = z.shape
-    z = z.reshape(-1)
+    z, D = z.reshape(-1), np.broadcast_to(D, shape).reshape(-1)
     advanced = z.imag < 0
     z = np.where(advanced, np.conj(z), z)  # calculate retarded only, and use symmetry
-    singular = D * z == -1  # try singularity which needs to be avoided
+    singular = z == -1  # try singularity which needs to be avoided
     z[singular] = 0  # mock value to avoid errors
     rr = _signed_sqrt(2*z + 3)
     gg = 4.0 / (_signed_sqrt(rr - 1)**3 * _signed_sqrt(rr + 3))  # eq (2.9)
-- 
2.43.0


From 465787db9416e7fc06a068a58c5314b824f5f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:54 +0000
Subject: [PATCH 10/41] fix: sc.dos_mp small-energy expansion ignored
 half_bandwidth

---
 gftool/lattice/sc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 9e12461..8d28a87 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -304,7 +304,7 @@ def gf_z_mp(z, half_bandwidth=1):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     z = D_inv * mp.mpc(z)
     z_sqr = 1 / z**2
     xi = mp.sqrt(1 - mp.sqrt(1 - z_sqr)) / mp.sqrt(1 + mp.sqrt(1 - 9*z_sqr))
@@ -364,11 +364,12 @@ def dos_mp(eps, half_bandwidth=1):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     eps = mp.fabs(eps)
-    if eps < 10**(-mp.dps/4):
+    eps_rel = D_inv * eps
+    if eps_rel < 10**(-mp.dps/4):
         km2 = 0.25 * (2 - mp.sqrt(3))
-        dos0 = D_inv * (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
+        dos0 = (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
         dos1 = 1 / (3 * mp.pi**4 * dos0)
         even_coeffs = [dos0*d0 - dos1*d1 for d0, d1 in zip(
             [1, mp.mpf("1/18"), mp.mpf("11/648"), mp.mpf("19/2160")],
@@ -376,6 +377,6 @@ def dos_mp(eps, half_bandwidth=1):
         )]
         coeffs = [0] * (2*len(even_coeffs) - 1)
         coeffs[::2] = even_coeffs
-        return mp.polyval(coeffs[::-1], eps)
+        return D_inv * mp.polyval(coeffs[::-1], eps_rel)
 
     return -mp.im(gf_z_mp(eps, half_bandwidth)) / mp.pi
-- 
2.43.0


From e35ca2ae80fb027251cbc110282bc4b82071744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:54 +0000
Subject: [PATCH 11/41] fix: fcc.dos_mp and triangular.dos_mp were limited to
 double precision

---
 gftool/lattice/fcc.py        | 4 ++--
 gftool/lattice/triangular.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index c0af611..30e5a47 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -315,7 +315,7 @@ def dos_mp(eps, half_bandwidth=1):
     """
     D = mp.mpf(half_bandwidth) * mp.mpf('1/2')
     eps = mp.mpf(eps) / D
-    if 3 < eps < -1:
+    if eps < -1 or eps > 3:
         return mp.mpf('0')
     if eps == -1:
         return mp.inf
@@ -328,4 +328,4 @@ def dos_mp(eps, half_bandwidth=1):
     kii = mp.ellipk(m_p)
     if m_p.imag < 0:
         kii += 2j * mp.ellipk(1 - m_p)  # eq (2.17)
-    return abs(4 / (mp.pi**3 * D * epsp1) * (_u_ellipk(m_m) * kii).imag)  # eq (2.16)
+    return abs(4 / (mp.pi**3 * D * epsp1) * (mp.ellipk(m_m) * kii).imag)  # eq (2.16)
diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 8c0a14a..030b051 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -334,4 +334,4 @@ def dos_mp(eps, half_bandwidth=1):
         else:
             msg = "Should be impossible. Please report this!"
             raise RuntimeError(msg)
-        return 2 / np.pi**2 / D * dos_
+        return 2 / mp.pi**2 / D * dos_
-- 
2.43.0


From e1f5aca8416de0b22f09c959b9dc713423e5fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:08 +0000
Subject: [PATCH 12/41] fix: bcc.dos and fcc.dos truncated or failed for
 integer energies

---
 gftool/lattice/bcc.py | 2 +-
 gftool/lattice/fcc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bcc.py b/gftool/lattice/bcc.py
index e44cc85..aa4fd4e 100644
--- a/gftool/lattice/bcc.py
+++ b/gftool/lattice/bcc.py
@@ -147,7 +147,7 @@ def dos(eps, half_bandwidth):
     """
     eps = np.asarray(eps)
     eps_rel = eps / half_bandwidth
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps_rel)
     singular = eps_rel == 0
     finite = (abs(eps_rel) <= 1) & ~singular
     # identity `K(m) = (1/m) [K(m) + iK'(1/m)]` could be used to avoid 1/0
diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 30e5a47..fbc6348 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -176,7 +176,7 @@ def dos(eps, half_bandwidth):
     eps = np.asarray(eps)
     singular = eps == -0.5*half_bandwidth
     finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps / half_bandwidth)
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
     dos_[singular] = np.inf
     return abs(dos_)  # at 0.5D wrong sign
-- 
2.43.0


From 31315d14afe4d1acf37a9c591fdb1dc0930edb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:08 +0000
Subject: [PATCH 13/41] fix: onedim.dos_mp raised ZeroDivisionError at the band
 edges

---
 gftool/lattice/onedim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/lattice/onedim.py b/gftool/lattice/onedim.py
index 5fbcb92..f03b0c5 100644
--- a/gftool/lattice/onedim.py
+++ b/gftool/lattice/onedim.py
@@ -266,5 +266,7 @@ def dos_mp(eps, half_bandwidth=1):
     eps, half_bandwidth = mp.mpf(eps), mp.mpf(half_bandwidth)
     if mp.fabs(eps) > half_bandwidth:
         return mp.mpf('0')
+    if mp.fabs(eps) == half_bandwidth:
+        return mp.inf
     eps_rel = eps / half_bandwidth
     return mp.mpf('1') / (mp.pi * half_bandwidth * mp.sqrt(-mp.powm1(eps_rel, mp.mpf('2'))))
-- 
2.43.0


From 7ecc119952aac7f7c30d4d32167d96cf93a23a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:07 +0000
Subject: [PATCH 14/41] fix: documentation of the unit of center in gf_ret_t
 (bethe, box)

---
 gftool/lattice/bethe.py | 2 +-
 gftool/lattice/box.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 8dc3809..63c7da0 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -384,7 +384,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
         The `half_bandwidth` corresponds to the nearest neighbor hopping `t=D/2`.
     center : float
         Position of the center of the Bethe DOS.
-        This parameter is **not** given in units of `half_bandwidth`.
+        This parameter is given in units of `half_bandwidth`.
 
     Returns
     -------
diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index 326d421..292cde3 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -123,7 +123,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
         Half-bandwidth of the box DOS.
     center : float
         Position of the center of the box DOS.
-        This parameter is **not** given in units of `half_bandwidth`.
+        This parameter is given in units of `half_bandwidth`.
 
     Returns
     -------
-- 
2.43.0


From 3d80c52f8f6f96a301e19c21830d786da854dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:51 +0000
Subject: [PATCH 15/41] fix: UDecomposition.s reversed the batch instead of the
 singular values for stacked matrices

---
 gftool/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 53ad61e..f0de731 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -257,7 +257,7 @@ class UDecomposition(Decomposition):
     @property
     def s(self):
         """Singular values in descending order, different from order of `eig`."""
-        return np.sort(abs(self.eig))[::-1]
+        return np.sort(abs(self.eig), axis=-1)[..., ::-1]
 
 
 def decompose_mat(mat) -> Decomposition:
-- 
2.43.0


From f4f08b81682e223628529b1cbe6225c42831dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:04 +0000
Subject: [PATCH 16/41] fix: siam.hamiltonian_matrix truncated the energies for
 integer hopping

---
 gftool/siam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/siam.py b/gftool/siam.py
index 5eec126..a95595e 100644
--- a/gftool/siam.py
+++ b/gftool/siam.py
@@ -176,7 +176,8 @@ def hamiltonian_matrix(e_onsite, e_bath, hopping):
     """
     broadcast = np.broadcast(e_onsite[..., np.newaxis], e_bath, hopping)
     n_bath = broadcast.shape[-1]
-    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1], dtype=hopping.dtype)
+    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1],
+                   dtype=np.result_type(e_onsite, e_bath, hopping))
     ham[..., 0, 0] = e_onsite
     ham[..., 0, 1:] = hopping
     ham[..., 1:, 0] = np.conj(hopping)
-- 
2.43.0


From 9c477ebfcf2ccfb628e65cdead4043d86c5fae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:08 +0000
Subject: [PATCH 17/41] fix: predict(stable=True) failed or dropped the wrong
 terms for batched x with shared coefficients

---
 gftool/linearprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 6e22b37..8e63b21 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -364,7 +364,7 @@ def _predict_stable(x, pcoeff, num: int):
     # drop exponential growing terms
     bad = abs(dec.eig) > 1
     # print(f'Bad {np.count_nonzero(bad)}/{bad.size}')
-    residues[bad] = 0
+    residues = np.where(bad, 0, residues)
 
     # predict
     start = x.shape[-1]
-- 
2.43.0


From 5ae904a54b5a723a68c174d6556bf545e17990d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:02 +0000
Subject: [PATCH 18/41] fix: pade.averaged dropped the last approximant of the
 kind and failed for batches without filter

---
 gftool/pade.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 01f991f..41acdc0 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -713,9 +713,10 @@ def averaged(z_out, z_in, *, valid_z=None, fct_z=None, coeff=None,
         Variance associated with the function values `pade.x` at points `z`.
     """
     assert fct_z is None or coeff is None
-    z_in = z_in[:kind.stop]
-    coeff = (coefficients(z_in, fct_z=fct_z[..., :kind.stop]) if coeff is None
-             else coeff[..., :kind.stop])
+    n_coeff = kind.stop + 1  # the approximant of index `ii` includes `ii + 2` coefficients
+    z_in = z_in[:n_coeff]
+    coeff = (coefficients(z_in, fct_z=fct_z[..., :n_coeff]) if coeff is None
+             else coeff[..., :n_coeff])
     if valid_z is None:
         valid_z = z_out
     valid_z = valid_z.reshape(-1)
@@ -727,7 +728,8 @@ def averaged(z_out, z_in, *, valid_z=None, fct_z=None, coeff=None,
             filters = (filter_valid,)
         is_valid = apply_filter(*filters, validity_iter=validity_iter)
     else:
-        is_valid = np.ones((len(kind), *coeff.shape[:-1]), dtype=bool)
+        n_pades = len(range(coeff.shape[-1] - 1)[kind.slice])
+        is_valid = np.ones((n_pades, *coeff.shape[:-1]), dtype=bool)
 
     assert is_valid.shape[1:] == coeff.shape[:-1]
 
-- 
2.43.0


From 8cb4bfae28eaf04126ee748f5551fdd46e6fcc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:02 +0000
Subject: [PATCH 19/41] fix: FilterNegImagNum with rel_num raised TypeError

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 41acdc0..78a2b15 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -171,7 +171,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
     def filter_neg_imag_num(pade_iter):
         badness = np.array([np.max(pade.imag, axis=-1) for pade in pade_iter])
-        abs_num_ = rel_num * badness.shape[0] if abs_num is None else abs_num
+        abs_num_ = int(rel_num * badness.shape[0]) if abs_num is None else abs_num
         if abs_num_ >= badness.shape[0]:
             LOGGER.warning("Skipping filter, not enough Padés (#Padés = %s)",
                            badness.shape[0])
-- 
2.43.0


From cd356ba497ca687597453f11c50e9800875f0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:20 +0000
Subject: [PATCH 20/41] fix: pader ignored the highest numerator coefficient in
 the zero test and failed for denominators of degree 0

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 089f668..4f57164 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -535,13 +535,13 @@ def pader(an, num_deg: int, den_deg: int, rcond: float = 1e-14) -> RatPol:
     an = an[:l_max]
     # TODO: do rescaling, haven't found it in the reference
     tol = rcond * np.linalg.norm(an)
-    if np.all(abs(an[:num_deg]) <= tol):  # up to tolerance function is 0
+    if np.all(abs(an[:num_deg+1]) <= tol):  # up to tolerance function is 0
         return RatPol(Polynom([0]), Polynom([1]))
     row = np.r_[an[0], np.zeros(den_deg)]
     col = an
     while True:
         if den_deg == 0:
-            pcoeff, qcoeff = an[:den_deg], np.array([1])
+            pcoeff, qcoeff = an[:num_deg+1], np.array([1])
             break
         # top = np.r_[an[num_deg+1:num_deg+1-den_deg:-1], [0]*(den_deg-num_deg)]
         # amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 8118a5e96bf3590734f6d2baf133aeb376aa43fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:20 +0000
Subject: [PATCH 21/41] fix: pade_lstsq ignored num_deg for denominators of
 degree 0

---
 gftool/hermpade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 4f57164..c00615a 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -452,7 +452,7 @@ def pade_lstsq(an, num_deg: int, den_deg: int, rcond=None, fix_q=None) -> RatPol
         msg = "Order of q+p (den_deg+num_deg) must be smaller than len(an)."
         raise ValueError(msg)
     if den_deg == 0:  # trivial case: no rational polynomial
-        return RatPol(Polynom(an), Polynom(np.array([1])))
+        return RatPol(Polynom(an[:num_deg+1]), Polynom(np.array([1])))
     # first solve the Toeplitz system for q, first row contains tailing zeros
     top = np.r_[an[num_deg+1::-1][:den_deg+1], [0]*(den_deg-num_deg-1)]
     amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 35db6980284977c6fa6b7a651bd638d3ab4b7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:20 +0000
Subject: [PATCH 22/41] fix: Hermite2.eval and eval_branches raised TypeError
 for scalar arguments

---
 gftool/hermpade.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index c00615a..2b8303c 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -723,8 +723,9 @@ class _Hermite2Base:
         """Evaluate the two branches."""
         pz, qz, rz = self.p(z), self.q(z), self.r(z)
         discriminant = np.emath.sqrt(qz**2 - 4*pz*rz)
-        p_branch = 0.5*(-qz + discriminant) / rz
-        m_branch = 0.5*(-qz - discriminant) / rz
+        # make sure we have arrays, necessary to use `out` for scalar `z`
+        p_branch = np.asarray(0.5*(-qz + discriminant) / rz)
+        m_branch = np.asarray(0.5*(-qz - discriminant) / rz)
         # more stable calculation of branches, using `out` for lazy evaluation
         # see [fasondini2019]_, 5.2 Evaluating the quadratic formula
         np.divide(pz, rz*m_branch, out=p_branch, where=abs(p_branch) < abs(m_branch))
-- 
2.43.0


From 9c25bc29a50f4deaa2d6704ec4747884d9cb7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 23/41] fix: polepade.number_poles raised AssertionError
 depending on the parity of the number of points

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c02656c..c660109 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -202,7 +202,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
        https://doi.org/10.1007/s00211-018-0948-4
     """
     tol = np.finfo(fct_z.dtype).eps
-    max_n_poles = abs_max_n_poles = (z.size - degree)//2
+    max_n_poles = abs_max_n_poles = (z.size - degree - 1)//2
     if n_poles0 is None:
         n_poles = min(max_n_poles, 50)
     else:
-- 
2.43.0


From ecea74135a49598e893be22b29d1328f466fce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 24/41] fix: polepade.zeros and poles failed for functions
 without zeros or poles

---
 gftool/polepade.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c660109..6e117be 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -289,6 +289,8 @@ def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvan
     """
     if n is None:
         n = m - 1
+    if m == 0:  # function has no poles
+        return np.zeros(0, dtype=complex)
     fct_z = fct_z/np.median(fct_z)
     vander = vandermond(z, deg=max(n+1, m))
     numer = -vander[..., :n+1]
@@ -343,6 +345,8 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
     """
     if n is None:
         n = poles.size - 1
+    if n == 0:  # function has no zeros
+        return np.zeros(0, dtype=complex)
     fct_z = fct_z/np.median(fct_z)
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
-- 
2.43.0


From b53bf06f06e5ef7850e0e21060efb3c5f8d66077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 25/41] fix: polepade.poles and zeros divided by the median,
 which can vanish

---
 gftool/polepade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 6e117be..2c4820c 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -291,7 +291,7 @@ def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvan
         n = m - 1
     if m == 0:  # function has no poles
         return np.zeros(0, dtype=complex)
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     vander = vandermond(z, deg=max(n+1, m))
     numer = -vander[..., :n+1]
     denom = vander[..., :m]
@@ -347,7 +347,7 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
         n = poles.size - 1
     if n == 0:  # function has no zeros
         return np.zeros(0, dtype=complex)
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
     scaling = 1./np.linalg.norm(numer, axis=-1, keepdims=True)
-- 
2.43.0


From dc7d4fdab6273f5727c13ce24500feebda2d6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 26/41] fix: polepade.asymptotic with weight returned the
 variance as standard deviation

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 2c4820c..b151c8a 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -389,7 +389,7 @@ def asymptotic(z, fct_z, zeros, poles, weight=None):
         std = np.std(ratios, ddof=1, axis=-1)
     else:
         asym = np.average(ratios, weights=weight, axis=-1)
-        std = np.average(abs(ratios - asym)**2, weights=weight, axis=-1)
+        std = np.sqrt(np.average(abs(ratios - asym)**2, weights=weight, axis=-1))
     return asym, std
 
 
-- 
2.43.0


From a18ff071d71d7b78bfe1c0f6e73341b4778e1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 27/41] fix: polepade.residues_ols without moments returned the
 squared norm of the residual

---
 gftool/polepade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index b151c8a..f479514 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -423,7 +423,8 @@ def residues_ols(z, fct_z, poles, weight=None, moments=()):
         fct_z = fct_z*weight
     moments = np.asarray(moments)
     if moments.shape[-1] == 0:
-        return np.linalg.lstsq(polematrix, fct_z, rcond=None)[:2]
+        resid = np.linalg.lstsq(polematrix, fct_z, rcond=None)[0]
+        return resid, [np.linalg.norm(np.sum(polematrix*resid, axis=-1) - fct_z, ord=2)]
     if moments.shape[-1] > poles.size:
         msg = (
             "Too many poles given, system is over constrained. "
-- 
2.43.0


From 4b4765f67b5965167c73f3ce183f0e498df1cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 28/41] fix: lstsq_ec ignored rcond if there are no constraints

---
 gftool/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index e6c943d..b0cb706 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -93,7 +93,7 @@ def lstsq_ec(a, b, c, d, rcond=None):
                 f"Expected (L, N), (L), got {c.shape}, {d.shape}."
             )
             raise ValueError(msg)
-        return np.linalg.lstsq(a, b, rcond=None)[0]
+        return np.linalg.lstsq(a, b, rcond=rcond)[0]
     constrains = d.shape[-1]
     q_ct, r_ct = np.linalg.qr(transpose(c).conj(), mode='complete')
     r_ct = r_ct[..., :constrains, :]
-- 
2.43.0


From be7e7e8f9bec33a74cd4224291f60a0ae3548264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:28 +0000
Subject: [PATCH 29/41] fix: polepade.number_poles never returned for positive
 degree

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index f479514..5b9fa06 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -251,7 +251,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
             n_poles = min(2*n_poles, max_n_poles)
         else:  # already too many poles
             max_n_poles = n_poles - 1
-            n_poles = n_poles - (null_dim - degree)//2
+            n_poles = n_poles - max(1, (null_dim - degree)//2)
 
 
 def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvander, weight=None):
-- 
2.43.0


From 16d0db86818863b29ad757e88dc2c21b3f01047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:16 +0000
Subject: [PATCH 30/41] fix: lstsq_ec silently violated inconsistent
 constraints (residual of lstsq is empty)

---
 gftool/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index b0cb706..4469d22 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -100,8 +100,8 @@ def lstsq_ec(a, b, c, d, rcond=None):
     try:
         y = spla.solve_triangular(r_ct, d, trans='C')
     except np.linalg.LinAlgError as lin_err:  # try fall back to pseudo-inverse for singular values
-        y, err, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
-        if not np.allclose(err, 0):
+        y, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
+        if not np.allclose(_gu_sum(transpose(r_ct).conj()*y), d):
             raise np.linalg.LinAlgError from lin_err
     aq = a @ q_ct
     z = np.linalg.lstsq(aq[:, constrains:], b - _gu_sum(aq[:, :constrains]*y),
-- 
2.43.0


From da7fd318b42b42f8aa8a4c42f1e90ae12691825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:16 +0000
Subject: [PATCH 31/41] fix: bethe.gf_z lost all digits for large abs(z) due to
 cancellation

---
 gftool/lattice/bethe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 63c7da0..e57db55 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -65,7 +65,7 @@ def gf_z(z, half_bandwidth):
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
     except AttributeError:
         complex_pres = complex
-    gf_z = 2./half_bandwidth*z_rel*(1 - np.sqrt(1 - z_rel**-2))
+    gf_z = 2./half_bandwidth/z_rel/(1 + np.sqrt(1 - z_rel**-2))
     return gf_z.astype(dtype=complex_pres, copy=False)
 
 
-- 
2.43.0


From abd1589370c46a85eb01157f035c0f789ffd80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:16 +0000
Subject: [PATCH 32/41] fix: ZeroPole.to_ratpol failed for functions without
 zeros or poles

---
 gftool/basis/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/__init__.py b/gftool/basis/__init__.py
index ab373d0..115b080 100644
--- a/gftool/basis/__init__.py
+++ b/gftool/basis/__init__.py
@@ -80,8 +80,9 @@ class ZeroPole(NamedTuple):
 
     def to_ratpol(self) -> "RatPol":
         """Represent the rational polynomial as fraction of two polynomial."""
-        numerator = np.polynomial.Polynomial.fromroots(self.zeros)*self.amplitude
-        denominator = np.polynomial.Polynomial.fromroots(self.poles)
+        polyfromroots = np.polynomial.polynomial.polyfromroots  # handles empty roots
+        numerator = np.polynomial.Polynomial(polyfromroots(self.zeros))*self.amplitude
+        denominator = np.polynomial.Polynomial(polyfromroots(self.poles))
         return RatPol(numer=numerator, denom=denominator)
 
 
-- 
2.43.0


From 16d263334a0e581db56563555b8907cdb5a48f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:16 +0000
Subject: [PATCH 33/41] fix: pole_gf_tau_b returned infinities instead of
 raising the documented error for poles.real == 0

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 3cceba3..8f1d926 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -338,7 +338,7 @@ def pole_gf_tau_b(tau, poles, weights, beta):
     poles = np.atleast_1d(poles)
     tau = np.asanyarray(tau)[..., newaxis]
     beta = np.asanyarray(beta)[..., newaxis]
-    if np.any(poles.real < 0):
+    if np.any(poles.real <= 0):
         msg = "Bosonic Green's function only well-defined for positive `poles`."
         raise ValueError(msg)
     # eps((beta-tau)*pole)*g(pole, beta) = -exp(-tau*pole)*g(pole, -beta)
-- 
2.43.0


From 042444500934c28fe9bcba86c6adf8a48657abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:44 +0000
Subject: [PATCH 34/41] fix: batched width of gf_from_moments and gf_from_z was
 broadcast against the poles

---
 gftool/basis/pole.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index c310a20..5afa557 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -489,9 +489,9 @@ def gf_from_moments(moments, width=1.) -> PoleFct:
         if n_mom <= 1:
             width = 1
         else:  # set width such that second moment is pole unless its very small
-            width = np.where(abs(moments[..., 1:2]) >= 0.1,  # arbitrarily chosen threshold
-                             abs(moments[..., 1:2])/max(poles), 1)
-    poles = width * poles
+            width = np.where(abs(moments[..., 1]) >= 0.1,  # arbitrarily chosen threshold
+                             abs(moments[..., 1])/max(poles), 1)
+    poles = np.asarray(width)[..., newaxis] * poles
     _poles, moments = np.broadcast_arrays(poles, moments)
     mat = np.swapaxes(np.polynomial.polynomial.polyvander(_poles, deg=poles.shape[-1]-1), -1, -2)
     resid = _vecsolve(mat, moments)
@@ -557,9 +557,9 @@ def gf_from_z(z, gf_z, n_pole, moments=(), width=1., weight=None) -> PoleFct:
         if moments.shape[-1] <= 1:
             width = 1
         else:  # set width such that second moment is pole unless its very small
-            width = np.where(abs(moments[..., 1:2]) >= 0.1,  # arbitrarily chosen threshold
-                             abs(moments[..., 1:2])/max(poles), 1)
-    poles = width * poles
+            width = np.where(abs(moments[..., 1]) >= 0.1,  # arbitrarily chosen threshold
+                             abs(moments[..., 1])/max(poles), 1)
+    poles = np.asarray(width)[..., newaxis] * poles
     # z -> newaxis for poles, which are axis=-1
     # poles -> newaxis for sum over axis=-1, newaxis for z which should be axis=-2
     gf_sp_mat = _gf_z(z[..., newaxis], poles[..., newaxis, :, newaxis], weights=1)
-- 
2.43.0


From 7e23b6e823dd4f18aa561994c7f02498d9f4b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:44 +0000
Subject: [PATCH 35/41] fix: pole_gf_tau and pole_gf_tau_b raised TypeError for
 array_like tau

---
 gftool/__init__.py   | 3 ++-
 gftool/basis/pole.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 8f1d926..b24adfa 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -334,9 +334,10 @@ def pole_gf_tau_b(tau, poles, weights, beta):
     >>> __ = plt.xlabel('τ')
     >>> plt.show()
     """
+    tau = np.asanyarray(tau)
     assert np.all((tau >= 0.) & (tau <= beta))
     poles = np.atleast_1d(poles)
-    tau = np.asanyarray(tau)[..., newaxis]
+    tau = tau[..., newaxis]
     beta = np.asanyarray(beta)[..., newaxis]
     if np.any(poles.real <= 0):
         msg = "Bosonic Green's function only well-defined for positive `poles`."
diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 5afa557..646b9c2 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -371,9 +371,10 @@ def gf_tau(tau, poles, weights, beta):
     --------
     pole_gf_z : Corresponding commutator Green's function.
     """
+    tau = np.asanyarray(tau)
     assert np.all((tau >= 0.) & (tau <= beta))
     poles = np.atleast_1d(poles)
-    tau = np.asanyarray(tau)[..., newaxis]
+    tau = tau[..., newaxis]
     beta = np.asanyarray(beta)[..., newaxis]
     return _gu_sum(weights*_single_pole_gf_tau(tau, poles, beta=beta))
 
-- 
2.43.0


From a34e5ffe1958ed5d328c0b89c809ea4d921bd647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:44 +0000
Subject: [PATCH 36/41] fix: gf_2x2_z failed for array_like on-site energies
 and on-site energies of different shape

---
 gftool/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index f0de731..9be205d 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -562,7 +562,8 @@ def gf_2x2_z(z, eps0, eps1, hopping, hilbert_trafo=None):
     -----
     For the trivial case `eps0==eps1 and hopping==0`, this implementation fails.
     """
-    mean_eps = np.mean([eps0, eps1], axis=0)
+    eps0, eps1 = np.asanyarray(eps0), np.asanyarray(eps1)
+    mean_eps = 0.5*(eps0 + eps1)
     sqrt_ = np.lib.scimath.sqrt(0.25*(eps0 - eps1)**2 + hopping*np.conj(hopping))
     if hilbert_trafo is None:
         gf_p, gf_m = 1./(z - mean_eps - sqrt_), 1./(z - mean_eps + sqrt_)
-- 
2.43.0


From 7bb4d9324b50f3d2dbc50453e1c12b484bb3007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:26 +0000
Subject: [PATCH 37/41] fix: bethe, box, bose_fct and hubbard_I_self_z failed
 or repeated lists (array_like arguments)

---
 gftool/__init__.py      | 1 +
 gftool/lattice/bethe.py | 7 ++++++-
 gftool/lattice/box.py   | 6 +++---
 gftool/statistics.py    | 2 +-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index b24adfa..7628ba7 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -282,6 +282,7 @@ def hubbard_I_self_z(z, U, occ):
     >>> __ = plt.plot(ww.real, -1./np.pi*gf_iw.imag)
     >>> plt.show()
     """
+    z, U, occ = np.asanyarray(z), np.asanyarray(U), np.asanyarray(occ)
     hartree = U * occ
     return hartree * z / (z - U + hartree)
 
diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index e57db55..fcb8a2b 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -60,6 +60,7 @@ def gf_z(z, half_bandwidth):
     >>> _ = plt.legend()
     >>> plt.show()
     """
+    z = np.asanyarray(z)
     z_rel = np.array(z / half_bandwidth, dtype=_complex256)
     try:
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
@@ -90,6 +91,7 @@ def gf_d1_z(z, half_bandwidth):
     --------
     gftool.lattice.bethe.gf_z
     """
+    z = np.asanyarray(z)
     z_rel_inv = np.array(half_bandwidth / z, dtype=_complex256)
     try:
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
@@ -121,6 +123,7 @@ def gf_d2_z(z, half_bandwidth):
     --------
     gftool.lattice.bethe.gf_z
     """
+    z = np.asanyarray(z)
     z_rel = np.array(z / half_bandwidth, dtype=_complex256)
     try:
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
@@ -168,6 +171,7 @@ def gf_z_inv(gf, half_bandwidth):
     >>> np.allclose(ww, gt.lattice.bethe.gf_z_inv(gf_ww, half_bandwidth=1))
     True
     """
+    gf = np.asanyarray(gf)
     return (0.5 * half_bandwidth)**2 * gf + 1./gf
 
 
@@ -247,6 +251,7 @@ def dos(eps, half_bandwidth):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
+    eps = np.asanyarray(eps)
     eps_rel = np.asarray(eps / half_bandwidth)
     dos = np.zeros_like(eps_rel)
     nonzero = (abs(eps_rel) < 1) | np.iscomplex(eps)
@@ -406,7 +411,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    tt = np.asarray(half_bandwidth*tt)
+    tt = np.asarray(half_bandwidth*np.asanyarray(tt))
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
     small = retard & (abs(tt) < _SMALL)
diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index 292cde3..01fb0ea 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -43,7 +43,7 @@ def gf_z(z, half_bandwidth):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    z_rel = z / half_bandwidth
+    z_rel = np.asanyarray(z) / half_bandwidth
     return 0.5 / half_bandwidth * np.emath.log((z_rel + 1) / (z_rel - 1))
 
 
@@ -77,7 +77,7 @@ def dos(eps, half_bandwidth):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    return np.where(abs(eps) < half_bandwidth, 0.5/half_bandwidth, 0)
+    return np.where(abs(np.asanyarray(eps)) < half_bandwidth, 0.5/half_bandwidth, 0)
 
 
 def dos_moment(m, half_bandwidth):
@@ -145,7 +145,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    tt = np.asarray(half_bandwidth*tt)
+    tt = np.asarray(half_bandwidth*np.asanyarray(tt))
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
     small = retard & (abs(tt) < _SMALL)
diff --git a/gftool/statistics.py b/gftool/statistics.py
index 7aa9a82..265f261 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -46,7 +46,7 @@ def bose_fct(eps, beta):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    betaeps = np.asanyarray(beta*eps)
+    betaeps = np.asanyarray(beta*np.asanyarray(eps))
     if not np.issubdtype(betaeps.dtype, np.inexact):  # avoid truncation of the result to integers
         betaeps = betaeps.astype(float)
     res = np.empty_like(betaeps)
-- 
2.43.0


From be4e8e238cdf2af097224b06c8c838d42434af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:08 +0000
Subject: [PATCH 38/41] fix: tau2izp with occ used contradicting constraints if
 the spread of the poles is zero

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index e5a01e7..4586835 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1657,7 +1657,7 @@ def _tau2polegf(gf_tau, beta, n_pole, moments=None, occ=False, weight=None) -> P
         pole_gf = PoleGf.from_tau(gf_tau, n_pole=n_pole, beta=beta,
                                   # if width is 0, no higher moments exist
                                   moments=moments if width else m1[..., newaxis],
-                                  occ=occ, width=width, weight=weight)
+                                  occ=occ if width else False, width=width, weight=weight)
         gf_fit = pole_gf.eval_tau(tau, beta=beta)
         return np.linalg.norm(gf_tau - gf_fit)
 
-- 
2.43.0


From 85b4467f98e51126fce75c05a4ef8fc77c5bbb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 39/41] fix: fermi_fct, fermi_fct_d1 and bose_fct were wrong
 for unsigned or narrow integer energies

---
 gftool/statistics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 265f261..d80126c 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -46,9 +46,10 @@ def bose_fct(eps, beta):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    betaeps = np.asanyarray(beta*np.asanyarray(eps))
-    if not np.issubdtype(betaeps.dtype, np.inexact):  # avoid truncation of the result to integers
-        betaeps = betaeps.astype(float)
+    eps = np.asanyarray(eps)
+    if not np.issubdtype(eps.dtype, np.inexact):  # avoid overflows and truncation to integers
+        eps = eps.astype(float)
+    betaeps = np.asanyarray(beta*eps)
     res = np.empty_like(betaeps)
     small = betaeps < 700
 
@@ -95,6 +96,8 @@ def fermi_fct(eps, beta):
     >>> _ = plt.ylim(bottom=0)
     >>> plt.show()
     """
+    if not np.issubdtype(np.asanyarray(eps).dtype, np.inexact):
+        eps = np.asanyarray(eps).astype(float)  # (unsigned) integers overflow or cannot be negated
     z = eps*beta
     try:
         return expit(-z)  # = 0.5 * (1. + tanh(-0.5 * beta * eps))
-- 
2.43.0


From 93b957cfaaa2ca6f16692816004b09f631eb0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 40/41] fix: predict and pcoeff_burg truncated integer data and
 complex predictions of real data

---
 gftool/linearprediction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 8e63b21..11c76e3 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -270,6 +270,7 @@ def pcoeff_burg(x, order: int):
     .. [Kay1988] Kay, S.M., 1988. Modern spectral estimation:
        theory and application. Pearson Education India.
     """
+    x = 1.0*x  # floating-point, integers would truncate the coefficients
     N = x.shape[-1]
     rho = np.full([*x.shape[:-1], order+1], np.nan)
     rho[..., 0] = _gu_sum(abs(x)**2) / N
@@ -338,7 +339,8 @@ def predict(x, pcoeff, num: int, stable=False):
     # Naive implementation of the sum
     start = x.shape[-1]
     order = pcoeff.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff)
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         xtended[..., ii] = -_gu_sum(pcoeff[..., ::-1] * xtended[..., ii-order:ii])
     return xtended
@@ -368,7 +370,8 @@ def _predict_stable(x, pcoeff, num: int):
 
     # predict
     start = x.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff)
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         residues *= dec.eig
         xtended[..., ii] = _gu_sum(residues)
-- 
2.43.0


From 5e805155342a254862c34f83dbac829c2e13eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 41/41] fix: pcoeff_covar was wrong for unsigned integer data

---
 gftool/linearprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 11c76e3..6df66d9 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -227,7 +227,7 @@ def pcoeff_covar(x, order: int, rcond=None):
         Xmat = toeplitz(x_[order-1:-1], x_[order-1::-1])
         xvec = x_[order:]
         # Xmat@coeff = -xvec
-        coeff, *__ = np.linalg.lstsq(Xmat, -xvec, rcond=rcond)
+        coeff, *__ = np.linalg.lstsq(Xmat, -1.0*xvec, rcond=rcond)
         error = np.linalg.norm(xvec + Xmat@coeff)
         return coeff, error
 
-- 
2.43.0

