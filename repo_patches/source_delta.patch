From 3a2986a156774d20eebcc07294ecb2e2b853f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 01/46] fix: tridiagonal partial solve of a one-dimensional
 Krylov space

---
 edpyt/tridiag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 1d0573d..33ad427 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -13,6 +13,8 @@ gs_tridiag = lambda a, b: _solve_partial(a,b)
 def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     il = select_range[0] + 1
     iu = select_range[1] + 1
+    if a.size == 1: # stebz does not accept an empty off-diagonal.
+        return a.copy(), None if eigvals_only else np.ones((1,1))
     order = 'E' if eigvals_only else 'B'
     m, w, iblock, isplit, info = stebz(a,b,2,0.,1.,il,iu,0.,order)
     w = w[:m]
-- 
2.43.0


From 99045fe11eb717ec9009e98146e96b03e36fba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 02/46] fix: occupation count no longer reshapes the caller's
 eigenvectors

---
 edpyt/observs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..06469b9 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -87,7 +87,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 0fda0523b7aa760ec5b4a4f0a601a947de68f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 03/46] fix: nano local Green's function for any position and
 number of inequivalent sites

---
 edpyt/nano_dmft.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..ee7f845 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,14 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        out = np.empty((len(self.idx_neq),)+sigma.shape[1:], complex)
+        # Loop over frequency (last axis) and, if any, spin.
+        for idx in np.ndindex(*sigma.shape[1:]):
+            idx = (slice(None),) + idx
+            x = self.free(z[idx[-1]], inverse=True)
+            x.flat[::(self.n+1)] -= sigma[idx][self.idx_inv]
+            out[idx] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return out
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From 8d56a671849733deb664dfb064cc49e5b21a7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 04/46] fix: matsum_gf restores the chemical potential when the
 Green's function raises

---
 edpyt/integrate_gf.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..5f8f18d 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -113,12 +113,15 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
 
 def matsum_gf(gf, mu=0., nmats=3000, beta=70.):
     
-    mu_old = gf.mu
-    gf.mu = mu
-    
     z = 1.j*(2*np.arange(nmats)+1)*np.pi/beta
     w2 = z.imag**2
-    gf_z  = gf(z)
+    
+    mu_old = gf.mu
+    gf.mu = mu
+    try:
+        gf_z  = gf(z)
+    finally:
+        gf.mu = mu_old
     mu = - gf_z[...,-1].real * w2[-1]
     mu2 = mu**2
     
@@ -133,6 +136,4 @@ def matsum_gf(gf, mu=0., nmats=3000, beta=70.):
     # if np.any((mu*beta) < -30.): At = -np.exp(mu*beta)
     n = s * 2. / beta + At + 1.
     
-    gf.mu = mu_old
-    
     return n
\ No newline at end of file
-- 
2.43.0


From e4d3db0d16afb72f15326a98277946e716d984e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 05/46] fix: building the Hamiltonian never changes the
 caller's array flags

---
 edpyt/build_mb_ham.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index daba0ec..7287886 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -38,7 +38,8 @@ def build_mb_ham(H, V, sct, comm=None):
 
     """
     n = H.shape[-1]
-    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H
+    # Read-only view, the flags of the caller's array are left alone.
+    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H.view()
     H.flags.writeable = False
 
     if isinstance(V, np.ndarray):
@@ -71,8 +72,6 @@ def build_mb_ham(H, V, sct, comm=None):
     if (Jx is not None) or (Jp is not None):
         operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
 
-    H.flags.writeable = True
-
     return operators
 
 
-- 
2.43.0


From 470069e347ab657772be29164ec406bcb4ba1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 06/46] fix: pair hopping without spin exchange in Sz sectors

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From d69c3768b04c1df6c0b03c8dc5e7e3a730e6e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 07/46] fix: only forbidden excitations are skipped when
 building the non-local Hamiltonian

---
 edpyt/ham_non_local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..49a63ac 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -218,7 +218,7 @@ def _N_build_ham_non_local(Jx, Jp, states, vec_diag):
                             sgn[1], f = c(f,i+gamma*n,2*n)
                             sgn[2], f = cdg(f,j+gamma*n,2*n)
                             sgn[3], f = cdg(f,i+sigma*n,2*n)
-                        except:
+                        except AssertionError:
                             continue
                         data.append(np.prod(sgn) * Jx.data[p] / 2.)
                         indices.append(binsearch(states, f))                
@@ -233,7 +233,7 @@ def _N_build_ham_non_local(Jx, Jp, states, vec_diag):
                             sgn[1], f = c(f,j+gamma*n,2*n)
                             sgn[2], f = cdg(f,i+gamma*n,2*n)
                             sgn[3], f = cdg(f,i+sigma*n,2*n)
-                        except:
+                        except AssertionError:
                             continue
                         data.append(np.prod(sgn) * Jp.data[p] / 2.)
                         indices.append(binsearch(states, f))       
-- 
2.43.0


From 27a02b821abe5cd36e3bae16bb7fcf1d3349629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 08/46] fix: spin-up on-site energies in N-symmetry sectors

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..e22f4a7 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += eupdiag[i]*nup[i] + edwdiag[i]*ndw[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From 2202585551c7c6526ad5a47f5f7e86da174a23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 09/46] fix: dense form of a purely local Hamiltonian

---
 edpyt/matvec_product.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..bb698ba 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,6 +86,8 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
+    if not ops: # Purely local Hamiltonian.
+        return np.diag(sum(np.asarray(dop) for dop in diag_op))
     out = ops.pop().todense()
     n = out.shape[0]
     for op in ops:
-- 
2.43.0


From 0082b20fcea55b05bcdbfd15c95d44d4812ce0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:13 +0000
Subject: [PATCH 10/46] fix: concurrent ARPACK solves wait for each other

---
 edpyt/eigh_arpack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/eigh_arpack.py b/edpyt/eigh_arpack.py
index 47dfead..205c375 100644
--- a/edpyt/eigh_arpack.py
+++ b/edpyt/eigh_arpack.py
@@ -67,6 +67,8 @@ class ArpackParams:
         self.ipntr = np.zeros(11, arpack_int)
 
 
+# ARPACK keeps its state between the calls of one reverse communication.
+@_ARPACK_LOCK.decorate
 def eigsh(n, nev, matvec, v0=None, arpack_param=None):
 
     #    %-------------------------------------------------%
-- 
2.43.0


From 2e4477fbc2d6fa3bd278b5985dd629fd1ac8917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:13 +0000
Subject: [PATCH 11/46] fix: report the error code of the ARPACK extraction

---
 edpyt/eigh_arpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eigh_arpack.py b/edpyt/eigh_arpack.py
index 205c375..eb7498c 100644
--- a/edpyt/eigh_arpack.py
+++ b/edpyt/eigh_arpack.py
@@ -209,7 +209,7 @@ def eigsh(n, nev, matvec, v0=None, arpack_param=None):
                    # n=n, ncv=ncv, ldv=ldv, lworkl=lworkl)
 
     if ierr != 0:
-        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[info]}')
+        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[ierr]}')
 
     nconv = iparam[4]
     d = d[:nconv]
-- 
2.43.0


From db5b2a9c74647f5923bd5ac53bf2993deec07204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 12/46] fix: concurrent bath fits wait for each other

---
 edpyt_backend/fit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edpyt_backend/fit.c b/edpyt_backend/fit.c
index cd6abed..9b29924 100644
--- a/edpyt_backend/fit.c
+++ b/edpyt_backend/fit.c
@@ -1,5 +1,9 @@
+#include <pthread.h>
 #include "fit.h"
 
+// The fit works on the globals below: one call at a time.
+static pthread_mutex_t fit_lock = PTHREAD_MUTEX_INITIALIZER;
+
 int nbath, nmats;
 double beta;
 double complex* vals_true;
@@ -11,6 +15,7 @@ double complex** ddelta;
 void fit(double x[], int *iter, double *fret, int _nbath, 
          int _nmats, double complex *_vals_true, double _beta) {
     
+    pthread_mutex_lock(&fit_lock);
     nmats = _nmats;
     nbath = _nbath;
     vals_true = _vals_true;
@@ -31,4 +36,5 @@ void fit(double x[], int *iter, double *fret, int _nbath,
     free(z);
     free(delta);
     free_cmatrix(ddelta, nmats);
+    pthread_mutex_unlock(&fit_lock);
 }
-- 
2.43.0


From 160ef0865540efb33fd978fad358012936bdab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 13/46] fix: allocation failure in cmatrix is reported

---
 edpyt_backend/util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt_backend/util.c b/edpyt_backend/util.c
index 75185b5..cd49aae 100644
--- a/edpyt_backend/util.c
+++ b/edpyt_backend/util.c
@@ -41,10 +41,11 @@ double complex **cmatrix(long m, long n)
 	double complex **v;
 
 	v = (double complex**)malloc((size_t) (m*sizeof(double complex*)));
+	if (!v) nrerror("allocation failure in cmatrix()");
     for (int i=0; i<m; i++) {
         v[i] = (double complex*)malloc((size_t) (n*sizeof(double complex)));
+		if (!v[i]) nrerror("allocation failure in cmatrix()");
 	}
-	if (!v) nrerror("allocation failure in vector()");
 	return v;
 }
 
-- 
2.43.0


From 6aae6bf96d13d47caadd4d8fe1cb8e8ca2f8f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 14/46] fix: initial bath of three sites in the C backend

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From 94fbbe79e90a7a0634bc69902f908b9953a0fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 15/46] fix: ctypes bath fit starts from the initial bath
 instead of uninitialised memory

---
 edpyt_backend/fit.c       | 9 +++++++++
 edpyt_backend/fit.h       | 1 +
 edpyt_backend/fit_wrap.py | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/edpyt_backend/fit.c b/edpyt_backend/fit.c
index 9b29924..8ad77b2 100644
--- a/edpyt_backend/fit.c
+++ b/edpyt_backend/fit.c
@@ -12,6 +12,15 @@ double complex* z;
 double complex** ddelta;
 
 
+void fit_init(double x[], int _nbath) {
+
+    pthread_mutex_lock(&fit_lock);
+    nbath = _nbath;
+    init_bath(x);
+    pthread_mutex_unlock(&fit_lock);
+}
+
+
 void fit(double x[], int *iter, double *fret, int _nbath, 
          int _nmats, double complex *_vals_true, double _beta) {
     
diff --git a/edpyt_backend/fit.h b/edpyt_backend/fit.h
index 486ede4..79f620f 100644
--- a/edpyt_backend/fit.h
+++ b/edpyt_backend/fit.h
@@ -5,6 +5,7 @@
 #include "header.h"
 #include "util.h"
 
+void fit_init(double x[], int _nbath);
 void fit(double x[], int *iter, double *fret, int _nbath, 
          int _nmats, double complex *_vals_true, double _beta);
 
diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..8dc6c69 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -12,10 +12,15 @@ fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
                 ct.POINTER(ct.c_double),ct.c_int,ct.c_int,
                 ndpointer(np.complex128),ct.c_double]
 
+fit_init = lib.fit_init
+fit_init.restype = None
+fit_init.argtypes = [ndpointer(ct.c_double),ct.c_int]
+
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    fit_init(x, ct.c_int(nbath))
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From ea9b0e5809d96a9bf7aab89b42271975e4b84d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 16/46] fix: cffi bath fit of arrays that are not contiguous
 complex128

---
 edpyt/fit_cffi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edpyt/fit_cffi.py b/edpyt/fit_cffi.py
index ee8d3a2..ceed660 100644
--- a/edpyt/fit_cffi.py
+++ b/edpyt/fit_cffi.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from edpyt_backend._fit import lib, ffi
 
 _cfit = lib.fit
@@ -6,9 +8,12 @@ def fit_hybrid(x, nmats, delta, beta):
     nbath = x.size//2
     it = ffi.new('int*')
     fret = ffi.new('double* ')
-    x_ptr = ffi.cast('double*', x.ctypes.data)
+    p = np.ascontiguousarray(x, dtype=np.float64)
+    delta = np.ascontiguousarray(delta, dtype=np.complex128)
+    x_ptr = ffi.cast('double*', p.ctypes.data)
     delta_ptr = ffi.cast('double _Complex*', delta.ctypes.data)
     lib.fit(x_ptr, it, fret, nbath, nmats, delta_ptr, beta)
+    x[:] = p
     return it[0], fret[0]
 
 
-- 
2.43.0


From 7bb177d50c85488bdae4965a06126b0d9071e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 17/46] fix: DMFT step makes the hybridisation causal instead
 of changing a copy

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..ae08c97 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -445,7 +445,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From 677e749deebe58ccc0ca879a7324c0027b3a5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 18/46] fix: DMFT loop without an occupancy goal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index ae08c97..772a3bb 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -433,7 +433,7 @@ class DMFT:
             occp = self.gfloc.integrate(self.gfloc.mu)
         else:
             dmft_step(delta, self.gfimp, self.gfloc)
-            occp = self.occupancy_goal
+            occp = np.nan if self.occupancy_goal is None else self.occupancy_goal
         delta_new = self.gfloc.Delta(self.z)
         return np.sum(occp), delta_new
 
-- 
2.43.0


From 814f74295e53a71e4c27a5d7df27ac567e49299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 19/46] fix: local Green's functions of the DMFT module have an
 on-site energy

---
 edpyt/dmft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 772a3bb..5601b87 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -267,6 +267,9 @@ class Gfloc:
     """Parent local green's function.
     """
 
+    ed = 0.0  # on-site energy
+
+
     def update(self, mu):
         """Update chemical potential."""
         self.mu = mu
-- 
2.43.0


From 5940a47b87aa0dac7586e7d99c2884f621a50af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 20/46] fix: occupation of the impurity Green's functions

---
 edpyt/dmft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 5601b87..db0678b 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,7 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        return _delta(self.x, np.atleast_1d(z))
 
 
 class Gfimp:
@@ -252,7 +252,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From f502d456461778d092db157af5d66dea2c7bd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 21/46] fix: building a Green's function leaves the
 eigen-states of the spectrum alone

---
 edpyt/gf_lanczos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..8149683 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -181,6 +181,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # espace keeps its own eigen-states
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
@@ -216,6 +218,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # espace keeps its own eigen-states
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
-- 
2.43.0


From abc79ec9252eadd33b97e425bc37c43db9e2bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 22/46] fix: exact Green's function of spin-down electrons

---
 edpyt/gf_exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..c7f8fd4 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -110,11 +110,11 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
+        # N+1 (one more spin)
+        nupJ = nupI+1 if ispin==0 else nupI
+        ndwJ = ndwI+1 if ispin==1 else ndwI
         # Cannot have more spin than spin states
-        if nupJ > n: continue
+        if nupJ > n or ndwJ > n: continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From 313953e30f6825f5be01237afd69734860226365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:03 +0000
Subject: [PATCH 23/46] fix: failure of the tridiagonal solver is not taken for
 a result

---
 edpyt/tridiag.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 33ad427..08b1148 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -5,6 +5,7 @@ stebz = get_lapack_funcs('stebz', dtype=np.float64)
 stein = get_lapack_funcs('stein', dtype=np.float64)
 stemr = get_lapack_funcs('stemr', dtype=np.float64)
 stemr_lwork = get_lapack_funcs('stemr_lwork', dtype=np.float64)
+stev = get_lapack_funcs('stev', dtype=np.float64)
 
 
 egs_tridiag = lambda a, b: _solve_partial(a,b,eigvals_only=True)[0][0] #stebz(a,b,2,0.,1.,1,1,0.,'E')[1][0]
@@ -30,6 +31,10 @@ def _solve_full(a, b, eigvals_only=False):
     compute_v = not eigvals_only
     lwork, liwork, info = stemr_lwork(a,b_,0,0.,1.,1,1,compute_v=compute_v)
     m, w, v, info = stemr(a,b_,0,0.,1.,1,1,compute_v=compute_v,lwork=lwork,liwork=liwork)
+    if info != 0: # stemr can fail for (numerically) degenerate eigenvalues.
+        w, v, info = stev(a,b,compute_v=compute_v)
+        if info != 0:
+            raise np.linalg.LinAlgError(f"Tridiagonal solver failed (info={info}).")
     return w, v
 
 
-- 
2.43.0


From 80371b03947f6bd8f3dc2ebfe83dad60bc81e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 24/46] fix: off-diagonal Green's function of states the
 excitation annihilates

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From 685e7e9f55e0322d30426988e3fb45a243ba6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 25/46] fix: lower triangle of the matrix Green's function

---
 edpyt/gf2_lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index 5ca46ed..a0fb5ce 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -27,7 +27,7 @@ class _Gf2():
         return G
     
     def __getitem__(self, ij):
-        i,j = ij
+        i,j = sorted(ij) # symmetric, only the upper triangle is stored.
         if i==j:
             return self.gf[i,j]
         return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
-- 
2.43.0


From 0b389fe5762ac78ecc1a6ca2a853dafbb0535118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 26/46] fix: DED sampler: a draw close to 1 fell off the end of
 the cumulative distribution

---
 edpyt/dedlib.py     | 1 +
 edpyt/dedlib_dev.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..7b287dd 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -54,6 +54,7 @@ class RandomSampler:
         cdf = p(self.eners)
         cdf /= cdf.sum()
         cumsum(cdf)
+        cdf /= cdf[-1] # rounding : a draw close to 1 must stay in range.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1a0a6bd..d980c88 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -54,6 +54,7 @@ class RandomSampler:
         cdf = p(self.eners)
         cdf /= cdf.sum()
         cumsum(cdf)
+        cdf /= cdf[-1] # rounding : a draw close to 1 must stay in range.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
-- 
2.43.0


From ad1ef337c642901a8db0d2dbef3f9562279fe139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 27/46] fix: DED sampler overwrote the array returned by the
 caller's distribution

---
 edpyt/dedlib.py     | 2 +-
 edpyt/dedlib_dev.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 7b287dd..3a0b272 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -51,7 +51,7 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
+        cdf = np.array(p(self.eners), float) # keep the caller's array.
         cdf /= cdf.sum()
         cumsum(cdf)
         cdf /= cdf[-1] # rounding : a draw close to 1 must stay in range.
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index d980c88..dc95566 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -51,7 +51,7 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
+        cdf = np.array(p(self.eners), float) # keep the caller's array.
         cdf /= cdf.sum()
         cumsum(cdf)
         cdf /= cdf[-1] # rounding : a draw close to 1 must stay in range.
-- 
2.43.0


From 64e11aa4e8e8d229298a3779cfadcdd934b5a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 28/46] fix: moam_solve failed with a scalar interaction (the
 default)

---
 edpyt/dedlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 3a0b272..4d73f1c 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -336,10 +336,13 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if isinstance(U, np.ndarray):    # interacting e-e interaction.
         V1 = V0.copy()              
         V1[:nimp,:nimp] = U
-    if isinstance(U, dict):
+    elif isinstance(U, dict):
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
             V1[k][:nimp,:nimp] += U[k]
+    else:
+        V1 = V0.copy()
+        V1[range(nimp),range(nimp)] = U
     nbath = (n-nimp)//nimp          # # of bath sites per impurity.
     subsystem_pos = np.zeros((nimp,nbath+1),int) # site indices fo each subsytem.
     for i in range(nimp):
-- 
2.43.0


From aac596cdeef197cfd2928932cfdd94c26723be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 29/46] fix: moam_solve averaged over all steps, also those an
 impurity did not fulfill

---
 edpyt/dedlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 4d73f1c..8a95f5e 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -330,6 +330,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
+    Q = np.zeros(nimp)               # # of steps that count for each impurity
     # imp_entropy = 0.                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
@@ -391,10 +392,12 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
+                    Q[i] += 1
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    Q = np.where(Q > 0, Q, 1)
+    sigma /= Q[:,None]
+    imp_occp0 /= Q
+    imp_occp1 /= Q
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From 2558a422b6164cc505304e077912955f339d8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 30/46] fix: DED solvers added to what the caller's self-energy
 array held before

---
 edpyt/dedlib.py     | 4 ++++
 edpyt/dedlib_dev.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 8a95f5e..2f8c23e 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -229,6 +229,8 @@ def siam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
@@ -327,6 +329,8 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros((nimp,z.size),complex)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index dc95566..9c8061d 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -255,6 +255,8 @@ def ded_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
-- 
2.43.0


From d395286e7a7dee15b62dfad3f89a1618397bd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 31/46] fix: sign of the spin flips of the exchange interaction
 in Sz sectors

---
 edpyt/ham_non_local.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 49a63ac..99c3e30 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -113,6 +113,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
                 #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
                 #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #          :: \sum_ij Jx_ij [c^+_iu c_ju] [c^+_jd c_id]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +125,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From cff86fb6891dbe5925c3e262d1c43bca9d67f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 32/46] fix: cotunneling matrices dropped rates whose
 evaluation failed and grew the caller's transition elements

---
 edpyt/cotunneling.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..97ede15 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -332,12 +332,9 @@ def build_rate_matrix(sigmadict, beta, mu, A, approx_integral=False):
     for extract, inject in np.ndindex(2, 2):
         for i, f in np.ndindex(sz, sz):
             if i != f:
-                try:
-                    gamma = 0.
-                    for sigma in sigmadict[map[f],map[i]]:
-                        gamma += integrate(sigma)(A, extract, inject, beta, mu)
-                except:
-                    continue
+                gamma = 0.
+                for sigma in sigmadict.get((map[f],map[i]), ()):
+                    gamma += integrate(sigma)(A, extract, inject, beta, mu)
                 W[i,i] -= gamma
                 W[f,i] += gamma
     return W
@@ -355,13 +352,10 @@ def build_transition_matrix(sigmadict, beta, mu, A, extract, inject, approx_inte
     sz = len(idF)
     T = np.zeros((sz, sz))
     for i, f in np.ndindex(sz, sz):
-        try:
-            gamma = 0.
-            for sigma in sigmadict[map[f],map[i]]:
-                gamma += integrate(sigma)(A, extract, inject, beta, mu)
-                gamma -= integrate(sigma)(A, inject, extract, beta, mu)
-        except:
-            continue
+        gamma = 0.
+        for sigma in sigmadict.get((map[f],map[i]), ()):
+            gamma += integrate(sigma)(A, extract, inject, beta, mu)
+            gamma -= integrate(sigma)(A, inject, extract, beta, mu)
         T[f,i] = gamma
     return T
 
-- 
2.43.0


From f2ddc4792526d522a7cbadcba9d9d02be06b20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 33/46] fix: sequential tunneling matrices dropped rates whose
 evaluation failed

---
 edpyt/sqtunneling.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/edpyt/sqtunneling.py b/edpyt/sqtunneling.py
index 0e34729..50b9e11 100644
--- a/edpyt/sqtunneling.py
+++ b/edpyt/sqtunneling.py
@@ -160,9 +160,9 @@ def build_rate_matrix(gfdict, beta, mu, A):
             if i != f:
                 try:
                     gf = gfdict[map[f],map[i]]
-                    gamma = gf(A[lead], beta, mu[lead])
-                except:
+                except KeyError:
                     continue
+                gamma = gf(A[lead], beta, mu[lead])
                 W[i,i] -= gamma
                 W[f,i] += gamma
     return W
@@ -193,14 +193,14 @@ def build_transition_matrix(gfdict, beta, mu, a):
         if i != f:
             try:
                 gf = gfdict[map[f],map[i]]
-                if isinstance(gf, Gfe):
-                    gamma = gf(a, beta, mu)
-                elif isinstance(gf, Gfh):
-                    gamma = - gf(a, beta, mu)
-                else:
-                    raise RuntimeError(f"Green function (type(gf)) not recognized.")
-            except:
+            except KeyError:
                 continue
+            if isinstance(gf, Gfe):
+                gamma = gf(a, beta, mu)
+            elif isinstance(gf, Gfh):
+                gamma = - gf(a, beta, mu)
+            else:
+                raise RuntimeError(f"Green function {type(gf)} not recognized.")
             T[f,i] = gamma
     return T
 
-- 
2.43.0


From 161c7e8592b5ceb79e17574c0f82cd8655903164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 34/46] fix: cotunneling from a sector with no final state for
 some spins

---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 97ede15..3b5cd99 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -152,7 +152,8 @@ def project_sector(n, nupI, ndwI, espace, sigmadict, ispin=None):
         except OutOfHilbertError:
             gf2hlist = (None,)
         sigmalist.extend([Sigma(gf2e,gf2h)
-                          for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)])
+                          for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)
+                          if (gf2e is not None) or (gf2h is not None)])
     for sigma in sigmalist:
         sigmadict[(sigma.idF,sigma.idI)].append(sigma)
     return sigmadict
-- 
2.43.0


From 3e6ccf340fa1160697114aff3106dad87f758f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 35/46] fix: active sectors of cotunneling reached outside of
 the Hilbert space

---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 3b5cd99..44e3a3c 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -389,7 +389,8 @@ def find_active_sectors(ngs):
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)
+           if (0<=nup<=n) and (0<=ndw<=n)]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From 7d04ae6e257e4f69456db6d74e60ad323a0bab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 36/46] fix: cotnl imported packages it does not use and the
 installation does not require

---
 edpyt/cotnl.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..0efb09a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -1,14 +1,9 @@
-from functools import lru_cache
-from numba.core.decorators import njit
 import numpy as np
 from numba import vectorize
 from itertools import product
 from collections import defaultdict
 from operator import attrgetter
 
-from numpy.lib.function_base import extract
-from traitlets.traitlets import default
-
 from edpyt.integrals import I1, I2, Gamma1, Gamma2, Gamma4
 from edpyt.lookup import binsearch
 from edpyt.operators import cdg, c
-- 
2.43.0


From 4feec793acf18ea98b20d56f35933aaebefb7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 37/46] fix: only forbidden excitations are skipped when
 projecting sectors

---
 edpyt/cotnl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 0efb09a..d6119d7 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -35,7 +35,7 @@ def project(spin, position, operator, n, sctI, sctJ):
         s = sctI.states[i]
         try:
             sgn, f = operator(s, position+spin*n, 2*n)
-        except:
+        except AssertionError:
             continue
         j = binsearch(sctJ.states, f)
         v_JI += sgn * np.outer(sctJ.eigvecs[j,:],sctI.eigvecs[i,:])
-- 
2.43.0


From 1059c85ee2520cc01d2de75017c371f4116e6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 38/46] fix: tunneling through the empty and the full sector
 was left out

---
 edpyt/cotnl.py | 4 ++--
 edpyt/sqtnl.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index d6119d7..276b300 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -123,11 +123,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From d587d1dc44896f093e6fb29ea83ac1e3ecc5af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 39/46] fix: misplaced parenthesis in the cotunneling integral

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 276b300..616e1fc 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -260,8 +260,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From d49f4ddab0876c2852cac10170c52d645e713062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 40/46] fix: cotunneling occupation factor infinite between
 degenerate states and not 1/beta at no bias

---
 edpyt/cotnl.py       | 4 ++--
 edpyt/cotunneling.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 616e1fc..4dd969c 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -205,10 +205,10 @@ nF.__doc__ = "Fermi function."
 def G(beta, z):
     """Helper function for approximate solution."""
     if (beta*abs(z))<1e-18:
-        return 1.
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
-    return z/(np.exp(beta*z)-1)
+    return z/np.expm1(beta*z)
 
 # from numba import vectorize, guvectorize
 
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 44e3a3c..3393f08 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -231,10 +231,10 @@ class _Sigma:
     def G(beta, z):
         """Helper function for approximate solution."""
         if (beta*abs(z))<1e-18:
-            return 1.
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
-        return z/(np.exp(beta*z)-1)
+        return z/np.expm1(beta*z)
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-- 
2.43.0


From b4c9e3a27b32d6ae4c957c31d0b3983a159c8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 41/46] fix: stationary solution of slow rates picked an
 arbitrary eigenvector

---
 edpyt/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/rates.py b/edpyt/rates.py
index ad787a0..549cd49 100644
--- a/edpyt/rates.py
+++ b/edpyt/rates.py
@@ -11,7 +11,7 @@ def stationary_solution(W):
     """
     w, v = np.linalg.eig(W)
 
-    j_stationary = np.argmin(abs(w - 1.0))
+    j_stationary = np.argmin(abs(w))
     p_stationary = v[:,j_stationary].real
     p_stationary /= p_stationary.sum()
     return p_stationary
-- 
2.43.0


From 3a6ef2c9b2345fa41b5dcb136646a267adb0a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 42/46] fix: DED bath energy between poles that mirror each
 other

---
 edpyt/dedlib.py     | 6 +++++-
 edpyt/dedlib_dev.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 2f8c23e..741f0bd 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -121,7 +121,11 @@ class Gfimp:
         poles = gf0.poles
         n = poles.size
         for i in range(n-1):
-            self.ek[i] = fsolve(gf0, (poles[i+1]+poles[i])/2)
+            # Relative to the center : fsolve makes no progress from a start
+            # that is tiny but not zero.
+            center = (poles[i+1]+poles[i])/2
+            half = (poles[i+1]-poles[i])/2
+            self.ek[i] = center + half*fsolve(lambda x: gf0(center+half*x), 0.)
             self.vk2[i] = -1/gf0.derivative(self.ek[i])
         self.e0 = poles.mean()
 
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 9c8061d..3c27586 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -121,7 +121,11 @@ class Gfimp:
         poles = gf0.poles
         n = poles.size
         for i in range(n-1):
-            self.ek[i] = fsolve(gf0, (poles[i+1]+poles[i])/2)
+            # Relative to the center : fsolve makes no progress from a start
+            # that is tiny but not zero.
+            center = (poles[i+1]+poles[i])/2
+            half = (poles[i+1]-poles[i])/2
+            self.ek[i] = center + half*fsolve(lambda x: gf0(center+half*x), 0.)
             self.vk2[i] = -1/gf0.derivative(self.ek[i])
         self.e0 = poles.mean()
 
-- 
2.43.0


From ebe374a8b1429835751314f48c5e70f940174ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 43/46] fix: distributed DMFT loop decides convergence from all
 impurities

---
 edpyt/dmft.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index db0678b..4af550e 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -454,6 +454,10 @@ class DMFT:
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
         )
         eps = np.linalg.norm(delta_new - delta)
+        comm = getattr(self.gfloc, "comm", None)
+        if comm is not None:
+            # Impurities are distributed: all ranks must leave the loop together.
+            eps = np.sqrt(comm.allreduce(eps ** 2))
         print(f"Error : {eps:.5f}")
         if eps < self.tol:
             raise Converged("Converged!")
-- 
2.43.0


From 38c6fc762134842032446d717e172fe336adc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 44/46] fix: second Lanczos pass for eigenvalues only

---
 edpyt/lanczos.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..5657d07 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,11 +167,10 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
-    else:
-        assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
+    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
+    assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
     lanc_step = sl_step(matvec, comm)
     v = v0
     l = np.zeros_like(v)
-- 
2.43.0


From ff98d6c05c35abdcb03881dbd9024823cd1ac814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 45/46] fix: occupation of a magnetic lattice with a single
 site

---
 edpyt/nano_dmft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index ee7f845..b329e5d 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -30,11 +30,11 @@ def _get_occps_method(comm):
             self.comm.Allgather([occps_loc, occps_loc.size], [occps, occps_loc.size])
             shape = list(occps_loc.shape)
             shape[0] *= self.comm.size
-            return np.squeeze(occps.reshape(shape)[self.idx_inv,...])
+            return occps.reshape(shape)[self.idx_inv,...]
     else:
         def wrap(self, mu):
             occps = integrate_gf(self, mu)
-            return np.squeeze(occps[self.idx_inv,...])
+            return occps[self.idx_inv,...]
     return wrap
 
 
-- 
2.43.0


From 89a552f51912b919d2ed4017fee523f8c94d0dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 46/46] fix: cotnl screening raised StopIteration when no
 transition is below the cutoff

---
 edpyt/cotnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 4dd969c..216dba8 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -327,6 +327,8 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
                 and(abs(espace[idF[:1]].eigvals[idF[1]]-egs)<cutoff)
                 and(abs(espace[idI[:1]].eigvals[idI[1]]-egs)<cutoff)}
     # return sigmadict
+    if not sigmadict: # nothing below the cutoff.
+        return sigmadict
     n = sigmadict[next(iter(sigmadict))][0].gf2[0].vF.shape[1]
     A = np.ones((2,n))
     screened = {}
-- 
2.43.0

