From c99a9a8cf3e585a96b09ab3c55a8aa4e786b2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 01/40] fix: make intrep the inverse of binrep (site 0 first)

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From 2ba9f0e341647a89ee87c6bdbf7026af9a2af426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 02/40] fix: todense handles Hamiltonians made of the diagonal
 operator only

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..9b0c5ea 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,7 +86,7 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
-    out = ops.pop().todense()
+    out = (ops or diag_op).pop().todense()
     n = out.shape[0]
     for op in ops:
         out += op.todense()
-- 
2.43.0


From 2c444c7fad15076b16b2b3eb3fea9603ead428b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 03/40] fix: build pair hopping without exchange in the
 spin-resolved representation

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From ca9ca8c569605f8d5534a105428dcd3b9779723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 04/40] fix: sign of the spin-flip exchange in the
 spin-resolved representation

The matrix elements carried -Jx for c^+_i,up c_j,up c^+_j,dw c_i,dw, but
-Jx S+_i S-_j is +Jx in terms of these bilinears: the two symmetry
representations disagreed and spin multiplets were split.
---
 edpyt/ham_non_local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..f2fb64e 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -112,7 +112,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                 #             \sum_ij \sum_ss' 0.5 * Jx_ij [c^+_is c^+_js' c_is' c_js]
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
                 #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
-                #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #          :: \sum_ij - Jx_ij [S+_i S-_j] = \sum_ij Jx_ij [c^+_i,up c_j,up] [c^+_j,dw c_i,dw]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +124,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From 0054aa0df222c5d484a6289024c49381067b665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 05/40] fix: use the spin-up energies in the total-charge
 representation

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..e22f4a7 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += eupdiag[i]*nup[i] + edwdiag[i]*ndw[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From 9d396ac2b8dde46711c7b20d4dd36d7886c7bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 06/40] fix: matvec accepts a preallocated result vector

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 9b0c5ea..e18c82c 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From b69240fd3843d616d285bef22914201b80f9cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:44 +0000
Subject: [PATCH 07/40] fix: exact Green's function of the spin-down electron
 moves the spin-down sector

---
 edpyt/gf_exact.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..18589af 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -13,6 +13,10 @@ from edpyt.operators import (
     c, cdg, check_empty, check_full
 )
 
+from edpyt.sector import (
+    OutOfHilbertError, get_cdg_sector
+)
+
 
 # def Gf(q, l):
 #     """Green's function kernel wrapper.
@@ -110,11 +114,10 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
-        # Cannot have more spin than spin states
-        if nupJ > n: continue
+        try: # N+1 (one more spin of kind `ispin`)
+            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
+        except OutOfHilbertError: # More spin than spin states
+            continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From a9aeef6adacda7fb391600cea0e48ffeef9c24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 08/40] fix: build_gf_lanczos no longer replaces the (screened)
 states of the eigenspace it is given

---
 edpyt/gf_lanczos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..be2abbf 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -178,7 +178,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             pass
         else:
             # Arrival sector
-            sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
+            # (not the one in espace, whose states must be preserved)
+            sctJ = build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
@@ -213,7 +214,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             pass
         else:
             # Arrival sector
-            sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
+            # (not the one in espace, whose states must be preserved)
+            sctJ = build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
-- 
2.43.0


From c424f214f59e53f1dce23df0392118d13956c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 09/40] fix: off-diagonal Green's function skips excitations
 that vanish

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From c911b35c5d9b4609f014929f72f1ad53f3810ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 10/40] fix: element access to the lower triangle of the matrix
 Green's function

---
 edpyt/gf2_lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index 5ca46ed..8a98fa9 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -30,6 +30,7 @@ class _Gf2():
         i,j = ij
         if i==j:
             return self.gf[i,j]
+        i,j = sorted((i,j)) # only the upper triangle is stored
         return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
                                    -self.gf[i,i](e,eta)
                                    -self.gf[j,j](e,eta))
-- 
2.43.0


From 15dee914f9e6f26b08c89030a0acf0fc59f4fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 11/40] fix: sl_solve(eigvals_only=True) unpacked the
 eigenvalue array

eigh_tridiagonal returns only the eigenvalues in that case.
---
 edpyt/lanczos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..f97f9da 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,11 +167,11 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     else:
         assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+    w, U = eigh_tridiagonal(a, b[1:], select, select_range)
     lanc_step = sl_step(matvec, comm)
     v = v0
     l = np.zeros_like(v)
-- 
2.43.0


From 67e02ebc35c03414a86218b3f5636dbbe55ff99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 12/40] fix: get_occupation reshaped row-major eigenvectors of
 the caller in place

After computing occupations the eigenspace was left with three-dimensional
eigenvectors and could not be used any further.
---
 edpyt/observs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..ad10bfe 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -87,7 +87,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev) # do not reshape the caller's array
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 0aa9908f4157ce0094ca89f5199a38dd7b49d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:43 +0000
Subject: [PATCH 13/40] fix: a failed dseupd was reported with the status of
 dsaupd

With dsaupd info=1 (restarts exhausted) the lookup raised KeyError.
---
 edpyt/eigh_arpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eigh_arpack.py b/edpyt/eigh_arpack.py
index 47dfead..a8a2ae2 100644
--- a/edpyt/eigh_arpack.py
+++ b/edpyt/eigh_arpack.py
@@ -207,7 +207,7 @@ def eigsh(n, nev, matvec, v0=None, arpack_param=None):
                    # n=n, ncv=ncv, ldv=ldv, lworkl=lworkl)
 
     if ierr != 0:
-        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[info]}')
+        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[ierr]}')
 
     nconv = iparam[4]
     d = d[:nconv]
-- 
2.43.0


From fc169102f7db0a24c5208ba07ed1871038732251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 14/40] fix: init_bath left the middle energy of three bath
 sites unset

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From bcf5c55d0ddd4844f90ea6a15188c1e81d81fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 15/40] fix: fit_wrap.fit_hybrid minimised from uninitialised
 memory

---
 edpyt_backend/fit_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..d9a9b21 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -11,11 +11,16 @@ fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
                 ct.POINTER(ct.c_double),ct.c_int,ct.c_int,
                 ndpointer(np.complex128),ct.c_double]
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 441d9b1d9b0a6a3f1580d7307b69b626a3ec01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 16/40] fix: sequential transition elements left out the empty
 and the full charge sector

N+1 < N_max and N-1 > 0 exclude N_max = 2n and 0, so a singly occupied
one-site system had no transitions at all.
---
 edpyt/sqtnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From b176447c3618b9cd8ea7641358c6134bdbbb29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 17/40] fix: cotunnelling left out virtual states in the empty
 and the full charge sector

The Anderson impurity (one site, one electron) had no cotunnelling
amplitude at all, since both its virtual states were excluded.
---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..673fb3a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
-- 
2.43.0


From 010b41436cda3998696102a804bc614571d6d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 18/40] fix: the check for missing reverse transitions never
 failed

~odd is -1 or -2, both true.
---
 edpyt/sqtunneling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/sqtunneling.py b/edpyt/sqtunneling.py
index 0e34729..3ecc4ce 100644
--- a/edpyt/sqtunneling.py
+++ b/edpyt/sqtunneling.py
@@ -147,7 +147,7 @@ def build_rate_matrix(gfdict, beta, mu, A):
     #  |     |      |                          k!=1          |   |     |     
     #  |  :  |      |       :                :          \    |   |  :  |     
     sz, odd = np.divmod(len(gfdict), 2)
-    assert ~odd, """
+    assert not odd, """
         Invalid gf list. Each matrix element must contain 
         its complex conjugate.
     """
@@ -181,7 +181,7 @@ def build_transition_matrix(gfdict, beta, mu, a):
     #  |     |      |                           |    |     |     
     #  |  :  |      |       :       :      \    |    |  :  |  
     sz, odd = np.divmod(len(gfdict), 2)
-    assert ~odd, """
+    assert not odd, """
         Invalid gf list. Each matrix element must contain 
         its complex conjugate.
     """
-- 
2.43.0


From f00e52b013f92aecf4c7211b2d5c7c486ed1b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 19/40] fix: cotunnelling integral Gamma2 missed half of the
 interference term

The squared amplitude (A/(z-a) + B/(z-b))**2 has the cross term 2AB.
---
 edpyt/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..a84551f 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -102,7 +102,7 @@ Gamma1 = I1
 def Gamma2(A, B, epsA, epsB, mu, beta):
     return I1(A,epsA,mu,beta) \
          + I1(B,epsB,mu,beta) \
-         + I2(A,B,epsA,epsB,mu,beta)
+         + 2. * I2(A,B,epsA,epsB,mu,beta)
 
 
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
-- 
2.43.0


From 8a6479f6d4020df63349295bf31632bfcf2dee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 20/40] fix: I2 called Taylor without its expansion variable
 (TypeError)

---
 edpyt/integrals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index a84551f..651ecc1 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -66,10 +66,10 @@ def I2(A, B, epsA, epsB, mu, beta):
         return 0. # -1.
     if abs(x) < 1e-15:
         return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
+              Taylor(0,x,epsA,mu[1],beta) 
+            - Taylor(0,x,epsA,mu[0],beta) 
+            - Taylor(0,x,epsB,mu[1],beta)
+            + Taylor(0,x,epsB,mu[0],beta)
         )
     return A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
-- 
2.43.0


From 319d504716ff03a20e7ab448be24a055a10f9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 21/40] fix: exact cotunnelling integrals used poles of the
 wrong sign

---
 edpyt/cotnl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 673fb3a..d0a0127 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -249,7 +249,7 @@ class Sigma:
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
         Y = [Y for gf in self.gf2 for Y in gf.y(A, extract, inject)]
-        E = [-E for gf in self.gf2 for E in gf.E]
+        E = [E for gf in self.gf2 for E in gf.E]
         if len(Y) == 1:
             return Gamma1(*Y,*E,mu,beta)
         elif len(Y) == 2:
-- 
2.43.0


From 1c84afad820f8f84b34632e59053e6cc9ad92fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 22/40] fix: numerical cotunnelling integral nested one Fermi
 function in the other

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index d0a0127..0c60fec 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -265,8 +265,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From 452b2945076639f2db1ab8dc0c0f9e5693c3d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 23/40] fix: elastic cotunnelling rate at zero bias had the
 wrong limit

z/(exp(beta*z)-1) tends to 1/beta, not 1.
---
 edpyt/cotnl.py       | 2 +-
 edpyt/cotunneling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 0c60fec..9be93af 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -210,7 +210,7 @@ nF.__doc__ = "Fermi function."
 def G(beta, z):
     """Helper function for approximate solution."""
     if (beta*abs(z))<1e-18:
-        return 1.
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
     return z/(np.exp(beta*z)-1)
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..59ebbb8 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -230,7 +230,7 @@ class _Sigma:
     def G(beta, z):
         """Helper function for approximate solution."""
         if (beta*abs(z))<1e-18:
-            return 1.
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
         return z/(np.exp(beta*z)-1)
-- 
2.43.0


From 0e1a1795f50fdeb1af51a5576c4df0718e0828b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 24/40] fix: cotunnelling integrals were zero at zero bias
 instead of their finite limit

---
 edpyt/integrals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 651ecc1..8736846 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -36,7 +36,7 @@ nB = lambda x: 1./(np.exp(x)-1)
 def I1(C, eps, mu, beta):
     x = (mu[1]-mu[0]) * beta
     if abs(x) < 1e-16:
-        return 0. #np.sign(x)
+        return C**2 * beta/(2*np.pi)**2 * np.real(Psi(2,mu[0],eps,beta))
     if abs(x) < 1e-15:
         return C**2 * beta/(2*np.pi) * np.imag(
             Taylor(1,x,mu[1],eps,beta)
@@ -63,7 +63,10 @@ def I1(C, eps, mu, beta):
 def I2(A, B, epsA, epsB, mu, beta):
     x = (mu[1]-mu[0])*beta
     if abs(x) < 1e-16:
-        return 0. # -1.
+        return A * B / (2*np.pi) / (epsA-epsB) * np.imag(
+              Psi(1,epsA,mu[0],beta)
+            - Psi(1,epsB,mu[0],beta)
+        )
     if abs(x) < 1e-15:
         return A * B / (epsA-epsB) * np.real(
               Taylor(0,x,epsA,mu[1],beta) 
-- 
2.43.0


From 104bb3251c50d1ca21252f713b4b7d24ae51e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 25/40] fix: get_active_neig raised for sectors outside the
 Hilbert space

find_active_sectors does not know the number of sites and lists
sectors such as (-1,2); indexing them raised ValueError for practically
every ground state.
---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 59ebbb8..2ca605a 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -394,7 +394,8 @@ def find_active_sectors(ngs):
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)
+           if 0<=nup<=n and 0<=ndw<=n]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From 65abf6a4ae4a3d1f851f9c38a2a5b30cf3d3d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 26/40] fix: project_sector raised AttributeError when a spin
 flip leaves the Hilbert space

Neither an electron nor a hole amplitude exists then, e.g. flipping a
spin of the empty sector.
---
 edpyt/cotunneling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 2ca605a..01f36a2 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -151,6 +151,8 @@ def project_sector(n, nupI, ndwI, espace, sigmadict, ispin=None):
             gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
         except OutOfHilbertError:
             gf2hlist = (None,)
+        if gf2elist == gf2hlist == (None,):
+            continue # final state outside of Hilbert space
         sigmalist.extend([Sigma(gf2e,gf2h)
                           for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)])
     for sigma in sigmalist:
-- 
2.43.0


From 21f7932bbec0739fd94c1d71dddd4ea33f812dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 27/40] fix: cotunnelling amplitude mixed up energies and
 intermediate states for several energies

---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 01f36a2..e6c254a 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -214,7 +214,7 @@ class Gf2:
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
         res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
-                        np.reciprocal(z-self.E[None,:]))
+                        np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
 
-- 
2.43.0


From 06c866cf82f851b836780cdb4b271bf26b8fd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 28/40] fix: impurity Green's function could not be evaluated
 (integrated) at a single frequency

---
 edpyt/dmft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..0cdff83 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,8 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        z = np.asarray(z)
+        return _delta(self.x, np.atleast_1d(z)).reshape(z.shape)
 
 
 class Gfimp:
-- 
2.43.0


From 715b7ef4a4947324e1bb2cc805ae41725bebf14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 29/40] fix: SpinGfimp.integrate raised with its default
 chemical potential

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 0cdff83..55d4b6c 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -253,7 +253,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 83872c1b6b6d663387b8e17fed867934afc4c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 30/40] fix: non-causal hybridisations were clamped in a
 temporary copy only

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 55d4b6c..035a7ea 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -446,7 +446,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From 28c0b94e56c775e943ab132fe38c94ae835387ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 31/40] fix: integrate_gf mixed up the poles for several
 chemical potentials

---
 edpyt/integrate_gf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..c24d204 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -82,8 +82,7 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
     if np.isscalar(mu):
         a_p = mu + 1j*zp/beta
     else:
-        mu = np.broadcast_to(mu, (nzp,)+mu.shape)
-        zp = np.resize(zp, mu.shape)
+        zp = zp.reshape((nzp,)+(1,)*mu.ndim)
         a_p = mu + 1j*zp/beta
 
     R = 1e10
-- 
2.43.0


From 3844f27f151fe1d699a58fc44e055fbe270289d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 32/40] fix: integrate_gf ignored its radius argument

---
 edpyt/integrate_gf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index c24d204..bbdcb75 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -85,7 +85,6 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
         zp = zp.reshape((nzp,)+(1,)*mu.ndim)
         a_p = mu + 1j*zp/beta
 
-    R = 1e10
     mu_0 = 1j*R*gf(1.j*R)
 
     mu_1 = complex(0)
-- 
2.43.0


From dd0a33c51620d7dc456cd8b3e1995df8237d756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 33/40] fix: nano Gfloc indexed the inequivalent orbitals by
 their site and mixed frequencies of a single orbital

---
 edpyt/nano_dmft.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..6d3b76d 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,12 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        out = np.empty((len(self.idx_neq),)+sigma.shape[1:], complex)
+        for i in np.ndindex(sigma.shape[1:]): # ([spin,] z)
+            x = self.free(z[i[-1]], inverse=True)
+            x.flat[::(self.n+1)] -= sigma[(slice(None),)+i][self.idx_inv]
+            out[(slice(None),)+i] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return out
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From ba01f56adcadfb7e0983769e292d51c36362fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 34/40] fix: the DMFT loop without occupancy goal raised when
 printing the occupation

---
 edpyt/dmft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 035a7ea..ecf8cc5 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -435,6 +435,8 @@ class DMFT:
         else:
             dmft_step(delta, self.gfimp, self.gfloc)
             occp = self.occupancy_goal
+            if occp is None: # unknown, it is neither fixed nor computed.
+                occp = np.nan
         delta_new = self.gfloc.Delta(self.z)
         return np.sum(occp), delta_new
 
-- 
2.43.0


From d8ad620c98b5cc112ec6b1da21bcbd9285b03aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 35/40] fix: spin occupations of a single orbital were doubled
 instead of summed

---
 edpyt/nano_dmft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 6d3b76d..8d54ef3 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -30,11 +30,11 @@ def _get_occps_method(comm):
             self.comm.Allgather([occps_loc, occps_loc.size], [occps, occps_loc.size])
             shape = list(occps_loc.shape)
             shape[0] *= self.comm.size
-            return np.squeeze(occps.reshape(shape)[self.idx_inv,...])
+            return occps.reshape(shape)[self.idx_inv,...]
     else:
         def wrap(self, mu):
             occps = integrate_gf(self, mu)
-            return np.squeeze(occps[self.idx_inv,...])
+            return occps[self.idx_inv,...]
     return wrap
 
 
-- 
2.43.0


From 92701c18447f7b187c5551787ebd094daa65e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 36/40] fix: thermal impurity occupation of dedlib_dev raised
 and mixed up row-major eigenvectors

---
 edpyt/dedlib_dev.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1a0a6bd..1f44cc3 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -131,7 +131,7 @@ class Gfimp:
         return np.reciprocal(z-self.e0-self.delta(z).sum(1))
 
 # @njit(cache=True,fastmath=True)
-def get_evecs_occupation(evecs, exps, states, pos):
+def get_evecs_occupation(evecs, exps, states_up, states_dw, pos):
     """Count particles in sector eigen-state vectors (size=dup x dwn).
 
     """
@@ -142,9 +142,7 @@ def get_evecs_occupation(evecs, exps, states, pos):
     N = 0.
     dup = states_up.size
     dwn = states_dw.size
-    if evecs.flags.f_contiguous:
-        evecs = evecs.T
-    occps = (evecs**2).reshape(-1, dwn, dup)
+    occps = (evecs.T**2).reshape(-1, dwn, dup)
 
     for iup in range(dup):
         sup = states_up[iup]
-- 
2.43.0


From 33bff8fd7f32dea8a448a45e4a0eb0db270e2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 37/40] fix: moam_solve averaged every impurity over all
 realisations instead of its accepted ones

---
 edpyt/dedlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..3f11a3c 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -354,6 +354,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
         gfimp.append(Gfimp(nbath+1))
     neig1 = None #np.ones((n+1)*(n+1),int) * 3
     neig0 = None #np.ones((n+1)*(n+1),int) * 3
+    Q = np.zeros(nimp)               # # of accepted realisations.
     for _ in range(N):
         found = False
         while not found:
@@ -386,11 +387,14 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     sigma[i] += np.reciprocal(gf0[i](z))-np.reciprocal(gf(z.real,z.imag))
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
+                    Q[i] += 1
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    # Impurities may fulfill the DED condition in different realisations.
+    Q = np.where(Q > 0, Q, 1)
+    sigma /= Q[:,None]
+    imp_occp0 /= Q
+    imp_occp1 /= Q
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From da366bd994beccb912b3a15afa2070119510eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 38/40] fix: multi-orbital DED raised for the default (scalar)
 interaction

---
 edpyt/dedlib.py     | 3 +++
 edpyt/dedlib_dev.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 3f11a3c..8729548 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -339,6 +339,9 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
             V1[k][:nimp,:nimp] += U[k]
+    if np.isscalar(U):
+        V1 = V0.copy()
+        V1.flat[:nimp*(n+1):n+1] = U
     nbath = (n-nimp)//nimp          # # of bath sites per impurity.
     subsystem_pos = np.zeros((nimp,nbath+1),int) # site indices fo each subsytem.
     for i in range(nimp):
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1f44cc3..7d68a3a 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -382,6 +382,9 @@ def ded_solve_multi(dos, z, sigma=None, sigma0=None, n=8,
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
             V1[k][:nimp,:nimp] += U[k]
+    if np.isscalar(U):
+        V1 = V0.copy()
+        V1.flat[:nimp*(n+1):n+1] = U
     nbath = (n-nimp)//nimp
     subsystem_pos = np.zeros((nimp,nbath+1),int)
     for i in range(nimp):
-- 
2.43.0


From a48abe5a9c4a87cedb0558937bcef1ee2285f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 39/40] fix: eprint treated every spin-resolved sector as
 unresolved

---
 edpyt/eshow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eshow.py b/edpyt/eshow.py
index 02a21e9..85f9598 100644
--- a/edpyt/eshow.py
+++ b/edpyt/eshow.py
@@ -24,7 +24,7 @@ def eprint(espace, n):
     def fockstates(sct):
         
         states = []
-        if hasattr(states,'up'):
+        if hasattr(sct.states,'up'):
             for sdw in sct.states.dw:
                 for sup in sct.states.up:
                     states.append( fock(sup,sdw,n) )
-- 
2.43.0


From 4231645d3848123e931eefceb0129fc3c396211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 40/40] fix: draw_spin_density raised for a state given as a
 vector

---
 edpyt/cotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotools.py b/edpyt/cotools.py
index 48c9159..4223d20 100644
--- a/edpyt/cotools.py
+++ b/edpyt/cotools.py
@@ -54,7 +54,7 @@ def draw_spin_density(atoms, evec, states, n, subset=None, axes=None, plane='xy'
         """
     axes = draw_skeleton(atoms, axes, plane)
     nup, ndw = map(lambda nxx: nxx[:,0], 
-                   get_evecs_occupation(np.atleast_2d(evec),states.up,states.dw,n))
+                   get_evecs_occupation(np.atleast_2d(evec.T).T,states.up,states.dw,n))
     ax = 'xyz'.index(plane[0]), 'xyz'.index(plane[1])
     for i in range(n):
         circle = plt.Circle(positions[i,ax], nup[i], color='black', zorder=10)
-- 
2.43.0

