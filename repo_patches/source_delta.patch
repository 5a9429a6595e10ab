From 7cc902dab605f86c5c5e3126c310783adc6d464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 01/53] fix: diffraction_efficiencies(return_dict=True)
 returned T for R and corrupted the order index

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..ba68182 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,8 +480,8 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
+            Rdict = {i1: {} for i1 in self.harmidx_dict}
+            Tdict = {i1: {} for i1 in self.harmidx_dict}
             for i1, i2 in self.harmonics.T:
                 i1 = int(i1)
                 i2 = int(i2)
-- 
2.43.0


From 6f0ab310212e26c7e1fd82bd044a3ce55da975f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 02/53] fix: complex diffraction orders required layers named
 Superstrate and Substrate

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index ba68182..2c06f92 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -508,8 +508,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From 2c96ecaa1149db73b74bff73f0235d5cc7744a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 03/53] fix: Lattice.area failed with the torch and jax
 backends

---
 nannos/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..d41e22d 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,8 +72,7 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        return bk.abs(bk.linalg.det(self.matrix))
 
     @property
     def matrix(self):
-- 
2.43.0


From 65721f96265dd7a11b57215b51220abfd9e802e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 04/53] fix: get_field_grid failed in uniform and anisotropic
 layers without an explicit shape

---
 nannos/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 2c06f92..191710a 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -375,7 +375,12 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        if shape is None:
+            shape = (
+                self.lattice.discretization
+                if layer.is_uniform
+                else tuple(layer.epsilon.shape[-2:])
+            )
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From ec518c6e9696ace252a6c6e6bba97e099f10ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 05/53] fix: S-matrix of an empty range of layers is the
 identity

---
 nannos/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 191710a..5ae3513 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -253,6 +253,7 @@ class Simulation:
         try:
             S = self._intermediate_S[f"{stack[0]},{stack[-1]}"]
         except Exception:
+            S = [[S11, S12], [S21, S22]]
             for i in stack:
                 layer, layer_next = self.layers[i], self.layers[i + 1]
                 z = layer.thickness or 0
-- 
2.43.0


From 5df193c3a2029a2ca4344c0ddcca3ffdd2cc5257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 06/53] fix: circular truncation used a wrong metric unless the
 lattice is square

---
 nannos/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index d41e22d..7b68dd1 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -317,6 +317,8 @@ def _parallelogramic_truncation(nh, Lk):
 
 
 def _circular_truncation(nh, Lk):
+    # the reciprocal lattice vectors are the columns
+    Lk = Lk.T
     u = bk.array([bk.linalg.norm(value) for value in Lk])
     udot = bk.dot(Lk[0], Lk[1])
     ucross = bk.array(Lk[0][0] * Lk[1][1] - Lk[0][1] * Lk[1][0])
@@ -337,7 +339,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
-- 
2.43.0


From e21358be63e0859b8a961d7b95d8942fce8ed084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 07/53] fix: circular truncation to a single harmonic returned
 an empty set

---
 nannos/lattice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 7b68dd1..a4c1d3d 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -350,9 +350,12 @@ def _circular_truncation(nh, Lk):
         nGtmp = nh
 
     tol = 1e-10 * max(u[0] ** 2, u[1] ** 2)
-    for i in bk.arange(nGtmp - 1, -1, -1):
+    for i in range(int(nGtmp) - 1, 0, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
+    else:
+        # only the zeroth order
+        i = 1
     nh = i
 
     G = bk.vstack(Gsorted)[:, :nh]
-- 
2.43.0


From ee21c69f2decf6dd69e408f58bbd8bf664c9c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 08/53] fix: TopologyOptimizer with scipy returned a point that
 does not match the stop value

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..ebfcd9f 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = npo.array(x)
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 883d09e2e3bb0720d12506f3f09cbccc6d7bfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 09/53] fix: torch backend dropped gradients with respect to
 the incidence angles

---
 nannos/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..dbfc564 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -279,9 +279,21 @@ elif "_TORCH" in globals():
 
         backend = torch
 
+        def _has_tensor(a):
+            if isinstance(a, (list, tuple)):
+                return any(_has_tensor(v) for v in a)
+            return isinstance(a, backend.Tensor)
+
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
                 return a.to(torch.device(DEVICE))
+            elif _has_tensor(a):
+                # torch.tensor would detach the elements
+                items = [_array(v) for v in a]
+                if len({v.shape for v in items}) > 1:
+                    items = [v.reshape(()) if v.numel() == 1 else v for v in items]
+                out = backend.stack(items)
+                return out.to(kwargs.get("dtype", out.dtype))
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
-- 
2.43.0


From ef65b20e736966977c450a457f91700524abf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 10/53] fix: torch backend computed the excitation, grids and
 filters in single precision

---
 nannos/excitation.py    | 2 +-
 nannos/geometry.py      | 4 ++--
 nannos/lattice.py       | 4 ++--
 nannos/optimize.py      | 4 ++--
 nannos/simulation.py    | 2 +-
 nannos/utils/helpers.py | 9 +++++----
 6 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..7079ed1 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -64,7 +64,7 @@ class PlaneWave:
         kt = self.wavevector
         omega = k0
         K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        Q = omega**2 * bk.array(bk.eye(2, dtype=FLOAT)) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
         et = bk.array([-self.amplitude[1], self.amplitude[0]])
diff --git a/nannos/geometry.py b/nannos/geometry.py
index 7b67b04..3da4eca 100644
--- a/nannos/geometry.py
+++ b/nannos/geometry.py
@@ -106,8 +106,8 @@ def shape_mask(shp, x, y, m=None):
 
 
 def geometry_mask(geom, lattice, Nx, Ny):
-    x0 = bk.linspace(0, 1.0, Nx)
-    y0 = bk.linspace(0, 1.0, Ny)
+    x0 = bk.linspace(0, 1.0, Nx, dtype=bk.float64)
+    y0 = bk.linspace(0, 1.0, Ny, dtype=bk.float64)
     x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
     grid = bk.stack([x_, y_])
     x, y = grid[0][:, 0], grid[1][0, :]
diff --git a/nannos/lattice.py b/nannos/lattice.py
index a4c1d3d..23d1238 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -154,8 +154,8 @@ class Lattice:
 
         """
         Nx, Ny = self.discretization
-        x0 = bk.array(bk.linspace(0, 1.0, Nx))
-        y0 = bk.array(bk.linspace(0, 1.0, Ny))
+        x0 = bk.array(bk.linspace(0, 1.0, Nx, dtype=bk.float64))
+        y0 = bk.array(bk.linspace(0, 1.0, Ny, dtype=bk.float64))
         x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
         return bk.stack([x_, y_])
 
diff --git a/nannos/optimize.py b/nannos/optimize.py
index ebfcd9f..3ce8e6c 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -34,7 +34,7 @@ def project(x, beta=1, thres=0.5):
 
 
 def multi_project(x, beta=1, Nthres=2):
-    thresholds = bk.linspace(0, 1, Nthres + 1)[1:-1]
+    thresholds = bk.linspace(0, 1, Nthres + 1, dtype=bk.float64)[1:-1]
     out = sum(project(x, beta, thres) for thres in thresholds)
     return out / len(thresholds)
 
@@ -45,7 +45,7 @@ def multi_simp(x, epsilons, p=1):
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=bk.float64)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 5ae3513..ba57ac7 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -516,7 +516,7 @@ class Simulation:
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-        o0 = bk.array(bk.zeros(self.nh))
+        o0 = bk.array(bk.zeros(self.nh, dtype=FLOAT))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
         return r, t
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..eeae61e 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -141,12 +141,13 @@ def _apply_filter(x, rfilt, vectors=None):
     Nx, Ny = x.shape
 
     if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny))
+        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=bk.float64))
+        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=bk.float64))
 
     else:
-        tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-        ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
+        Lx, Ly = vectors[0][0], vectors[1][1]
+        tx = bk.array(bk.linspace(-0.5 * Lx, 0.5 * Lx, Nx, dtype=bk.float64))
+        ty = bk.array(bk.linspace(-0.5 * Ly, 0.5 * Ly, Ny, dtype=bk.float64))
     bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
     bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
     bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-- 
2.43.0


From 44955b107853a08df84190b8154a58f915950ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 11/53] fix: tangent, jones and pol formulations swapped the x
 and y axes of the tangent field

---
 nannos/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index ba57ac7..d20c3ce 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -837,7 +837,8 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            # normal projector in the (-Ey, Ex) basis
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From e14f6893e96449ab5a4a41d6b0ae3d3ed50930e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 12/53] fix: in-plane components of anisotropic permittivities
 were assigned to the wrong axes

---
 nannos/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index d20c3ce..aafa109 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -652,7 +652,9 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                eps_para_hat = _to_et_basis(
+                    self._get_toeplitz_matrix(epsilon, transverse=True)
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -782,7 +784,7 @@ class Simulation:
             # nu = _inv(epsilon[2,2])
             nu1 = bk.array(block2list(nu, N))
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
-            nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
+            nuhat_inv = _to_et_basis(block2list(_inv(block(nuhat)), self.nh))
 
         else:
             N = epsilon.shape[0]
@@ -859,6 +861,11 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _to_et_basis(M):
+    # in-plane tensor from the (Ex, Ey) to the (-Ey, Ex) basis used for the fields
+    return [[M[1][1], -M[1][0]], [-M[0][1], M[0][0]]]
+
+
 def phasor(q, z):
     return bk.exp(1j * q * z)
 
-- 
2.43.0


From 8e67efd44dc1d1057c1bf3563481c6d4b7b188c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 13/53] fix: optimized tangent field failed on grids that are
 not square or not a multiple of 64

---
 nannos/formulations/tangent.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..de6dd70 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -104,13 +104,13 @@ def _get_tangent_field_min(
     grid = bk.abs(grid)
     grid = grid / bk.max(grid)
     Nx, Ny = grid.shape
-    Nx_ds = min(2**6, Nx)
-    Ny_ds = min(2**6, Ny)
+    downsample_x = max(Nx // 2**6, 1)
+    downsample_y = max(Ny // 2**6, 1)
+    Nx_ds = len(range(0, Nx, downsample_x))
+    Ny_ds = len(range(0, Ny, downsample_y))
     # Nx_ds = min(int(Nx/2**3), Nx)
     # Ny_ds = min(int(Nx/2**3), Ny)
 
-    downsample_x = int(Nx / Nx_ds)
-    downsample_y = int(Ny / Ny_ds)
     shape_small = (Nx_ds, Ny_ds)
 
     xi = npg.linspace(0, 1, Nx)
@@ -172,8 +172,8 @@ def _get_tangent_field_min(
     def minifun(x):
         coefx = x[:nh] + 1j * x[nh : 2 * nh]
         coefy = x[2 * nh : 3 * nh] + 1j * x[3 * nh :]
-        ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-        ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+        ax = _get_amps(coefx, shape_small)
+        ay = _get_amps(coefy, shape_small)
         da = npg.real(npg.array([ax, ay]))
         obj = npg.mean(npg.abs(da - dgrid_f_downspl) ** 2)
         ### smoothness
@@ -198,8 +198,8 @@ def _get_tangent_field_min(
     coefx = xopt[:nh] + 1j * xopt[nh : 2 * nh]
     coefy = xopt[2 * nh : 3 * nh] + 1j * xopt[3 * nh :]
 
-    ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-    ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+    ax = _get_amps(coefx, shape_small)
+    ay = _get_amps(coefy, shape_small)
 
     # points_dsx = xi[::downsample_x]
     # points_dsy = yi[::downsample_y]
-- 
2.43.0


From 80fcc04e79aead82e691559139c223b117dca433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 14/53] fix: TopologyOptimizer with the scipy method failed
 with the torch backend

---
 nannos/optimize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 3ce8e6c..041f992 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -150,7 +150,16 @@ class TopologyOptimizer:
                     if self.callback is not None:
                         self.callback(x, y, *args)
                     self.current_iteration += 1
-                    return y
+                    return float(y)
+
+                def jac_scipy(x, *args):
+                    dy = self.grad_fun(bk.array(x, dtype=FLOAT), *args)
+                    dy = (
+                        dy.cpu()
+                        if (get_backend() == "torch" and DEVICE == "cuda")
+                        else dy
+                    )
+                    return npo.array(dy, dtype=npo.float64)
 
                 bounds = [(0, 1) for _ in range(self.nvar)]
                 options = {"maxiter": self.maxiter}
@@ -164,7 +173,7 @@ class TopologyOptimizer:
                         x0,
                         args=args,
                         method="L-BFGS-B",
-                        jac=self.grad_fun,
+                        jac=jac_scipy,
                         bounds=bounds,
                         options=options,
                     )
-- 
2.43.0


From 9734a2e555470fcd854e4f703f67c8ec66ffc2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 15/53] fix: layer copies crashed or used wrong matrices when
 uniform, modified, or not preceded by the original

---
 nannos/layers.py     |  6 +++++-
 nannos/simulation.py | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..7ab274c 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -187,7 +187,11 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if (
+            self.iscopy
+            and self.original.is_solved
+            and matrix is getattr(self.original, "matrix", None)
+        ):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
diff --git a/nannos/simulation.py b/nannos/simulation.py
index aafa109..b844bc9 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -591,11 +591,25 @@ class Simulation:
         delta = self.harmonics[:, jx] - self.harmonics[:, jy]
         return uft[delta[0], delta[1]]
 
+    def _shares_matrix(self, layer, layer_index):
+        # a copy can use the matrices of the original only if these have been
+        # built for this stack, and for the same material
+        original = layer.original
+        return (
+            layer.iscopy
+            and not layer.is_uniform
+            and any(lay is original for lay in self.layers[:layer_index])
+            and layer.epsilon is original.epsilon
+            and layer.mu is original.mu
+            and layer.tangent_field is original.tangent_field
+            and layer.tangent_field_type == original.tangent_field_type
+        )
+
     def build_matrix(self, layer):
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        if self._shares_matrix(layer, layer_index):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
             layer.eps_hat = layer.original.eps_hat
-- 
2.43.0


From 345c237728c7b08fd4adea7ff718f4938425babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 16/53] fix: simulations sharing layers gave wrong results once
 another one was solved

---
 nannos/simulation.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b844bc9..499fa88 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -151,7 +151,10 @@ class Simulation:
 
         # This is a boolean checking that the eigenproblems are solved for all layers
         # TODO: This is to avoid solving again, but could be confusing
-        self.is_solved = False
+        # The eigenpairs are stored on the layers, so the token identifies which
+        # simulation they have been computed for
+        self._is_solved = False
+        self._token = object()
         # dictionary to store intermediate S-matrices
         # TODO: check memory consumption of doing that, maybe make it optional.
         self._intermediate_S = {}
@@ -176,6 +179,13 @@ class Simulation:
     def get_layer_by_name(self, id):
         return self.get_layer(id)[0]
 
+    @property
+    def is_solved(self):
+        return self._is_solved and all(
+            getattr(layer, "_solved_token", None) is self._token
+            for layer in self.layers
+        )
+
     def solve(self):
         """Solve the grating problem."""
         _t0 = timer.tic()
@@ -195,6 +205,7 @@ class Simulation:
                 # out = bk.conj(layer.eigenvectors).T @ layer.Qeps @ layer.eigenvectors
                 # layer.eigenvectors /= bk.diag(out)**0.5
 
+            layer._solved_token = self._token
             layers_solved.append(layer)
 
             _t1lay = timer.toc(_t0lay, verbose=False)
@@ -202,7 +213,7 @@ class Simulation:
                 f"Done computing eigenpairs for layer {layer} in {_t1lay:0.3e}s"
             )
         self.layers = layers_solved
-        self.is_solved = True
+        self._is_solved = True
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
 
@@ -211,7 +222,7 @@ class Simulation:
             _reseter(self, "S")
             self._intermediate_S = {}
         if param == "solve":
-            self.is_solved = False
+            self._is_solved = False
         if param == "all":
             self.reset("S")
             self.reset("solve")
-- 
2.43.0


From 50d0ce870ef34db37b8d089c3ced9ed2b96bb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 17/53] fix: negative harmonics were ignored when checking the
 discretization against the Nyquist criterion

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 499fa88..ba0a6b4 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(self.harmonics))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
-- 
2.43.0


From 06ffd06f9885824989f5ba8784c26967e43bb62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 18/53] fix: harmonics without the zeroth order silently put
 the incident wave on another order

---
 nannos/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index ba0a6b4..6de6ab9 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -136,6 +136,8 @@ class Simulation:
         for index_zeroth_order, h in enumerate(self.harmonics.T):
             if h[0] == 0 and h[1] == 0:
                 break
+        else:
+            raise ValueError("harmonics must include the zeroth order (0, 0)")
         self.a0 = []
         for i in range(self.nh * 2):
             if i == index_zeroth_order:
-- 
2.43.0


From 031fd35221a5a36442222b462a87f00ae3033012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 19/53] fix: TopologyOptimizer failed with the default args

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 041f992..f19aa3f 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -137,7 +137,7 @@ class TopologyOptimizer:
             self.print("-----------------------")
 
             proj_level = 2**iopt
-            args = list(self.args)
+            args = list(self.args or [None])
             args[0] = proj_level
             args = tuple(args)
             if self.method == "scipy":
-- 
2.43.0


From f087451c9e36ba286d2a7ec8771d90ea84c46b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 20/53] fix: adaptive_sampler mixed up the samples when the
 initial points are not sorted

---
 nannos/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..0667676 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -102,6 +102,8 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
                     new_x.append(x_new)
         return np.unique(new_x)
 
+    # the refinement and the merging of new points need increasing samples
+    x = np.unique(x)
     y = _function_adapted(x)
     if hasattr(y[0], "__len__") and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
-- 
2.43.0


From 52c8f8c23f11aeaefd572526384af5859b196f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 21/53] fix: apply_filter shifted its input, was not normalized
 for wide kernels and failed for a single row

---
 nannos/utils/helpers.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index eeae61e..f6e4489 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -140,18 +140,16 @@ def _apply_filter(x, rfilt, vectors=None):
         return x
     Nx, Ny = x.shape
 
-    if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=bk.float64))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=bk.float64))
+    Lx, Ly = (Nx, Ny) if vectors is None else (vectors[0][0], vectors[1][1])
 
-    else:
-        Lx, Ly = vectors[0][0], vectors[1][1]
-        tx = bk.array(bk.linspace(-0.5 * Lx, 0.5 * Lx, Nx, dtype=bk.float64))
-        ty = bk.array(bk.linspace(-0.5 * Ly, 0.5 * Ly, Ny, dtype=bk.float64))
-    bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
-    bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
-    bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-    bumpy /= bk.trapz(bumpy)  # normalize the integral to 1
+    def _bump(N, L, r):
+        # centered on a pixel, with weights summing to 1
+        t = bk.array([(i - N // 2) * L / N for i in range(N)], dtype=bk.float64)
+        bump = bk.exp(-(t**2) / r**2) if r != 0 else 1.0 * (t == 0)
+        return bump / bk.sum(bump)
+
+    bumpx = _bump(Nx, Lx, rfilt[0])
+    bumpy = _bump(Ny, Ly, rfilt[1])
     # make a 2-D kernel out of it
     kernel = bumpx[:, None] * bumpy[None, :]
     kernel_ft = fourier_transform(kernel, s=x.shape[:2], axes=(0, 1))
@@ -159,7 +157,7 @@ def _apply_filter(x, rfilt, vectors=None):
     # convolve
     img2_ft = kernel_ft * img_ft
     out = bk.real(inverse_fourier_transform(img2_ft, axes=(0, 1)))
-    return bk.fft.fftshift(out) * (Nx * Ny)
+    return bk.fft.ifftshift(out) * (Nx * Ny)
 
 
 apply_filter = jit(_apply_filter, static_argnums=(1))
-- 
2.43.0


From c3585948b21f13400492f98408c08543106870d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 22/53] fix: tangent, jones and pol formulations failed for
 anisotropic layers on non square grids

---
 nannos/simulation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6de6ab9..a6b7cf3 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -806,11 +806,15 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
-            nu = inv2by2block(eb, N)
-            # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
-            nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
+            # the unit cell is not always discretized with a square grid
+            det = epsilon[0, 0] * epsilon[1, 1] - epsilon[1, 0] * epsilon[0, 1]
+            nu = bk.stack(
+                [
+                    bk.stack([epsilon[1, 1] / det, -epsilon[0, 1] / det]),
+                    bk.stack([-epsilon[1, 0] / det, epsilon[0, 0] / det]),
+                ]
+            )
+            nuhat = self._get_toeplitz_matrix(nu, transverse=True)
             nuhat_inv = _to_et_basis(block2list(_inv(block(nuhat)), self.nh))
 
         else:
-- 
2.43.0


From df60958c44d1e4a38c1aa0639ecb423288ac4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 23/53] fix: rounding turned propagating modes of patterned
 layers into backward modes

---
 nannos/layers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 7ab274c..92806cc 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -212,7 +212,10 @@ class Layer:
             else:
                 w, v = eig_func(matrix)
             q = w**0.5
-            q = bk.where(bk.imag(q) < 0.0, -q, q)
+            # a propagating mode has a real eigenvalue: the sign of its imaginary
+            # part is only rounding, and must not turn it into a backward mode
+            tol = float(bk.finfo(FLOAT).eps) ** 0.5
+            q = bk.where(bk.imag(q) < -tol * bk.abs(q), -q, q)
             self.eigenvalues, self.eigenvectors = q, v
         return self.eigenvalues, self.eigenvectors
 
-- 
2.43.0


From 7b0da2614c90b4292e309f3e2f6418592ade786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 24/53] fix: lattice grids failed with the torch backend in
 single precision

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 23d1238..6f95473 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -186,7 +186,7 @@ class Lattice:
 
         """
         if get_backend() == "torch":
-            return bk.tensordot(self.matrix, grid.double(), dims=([1], [0]))
+            return bk.tensordot(self.matrix, grid.to(self.matrix.dtype), dims=([1], [0]))
         else:
             return bk.tensordot(self.matrix, grid, axes=(1, 0))
 
-- 
2.43.0


From dc277d70b441b8bcde36bddf2700a306044d752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 25/53] fix: diffraction_efficiencies(complex=True,
 return_dict=True) mixed up components and orders

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index a6b7cf3..aa4a597 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -505,8 +505,8 @@ class Simulation:
                 i1 = int(i1)
                 i2 = int(i2)
                 idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+                Rdict[i1][i2] = R[..., idx]
+                Tdict[i1][i2] = T[..., idx]
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 41c6b9677ff9a50a2a9992103988d645b6760d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 26/53] fix: build_matrix on a shared or copied layer left
 simulations with mismatched matrices

---
 nannos/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index aa4a597..24b32bb 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -612,6 +612,7 @@ class Simulation:
             layer.iscopy
             and not layer.is_uniform
             and any(lay is original for lay in self.layers[:layer_index])
+            and getattr(original, "_matrix_token", None) is self._token
             and layer.epsilon is original.epsilon
             and layer.mu is original.mu
             and layer.tangent_field is original.tangent_field
@@ -622,6 +623,8 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
+        # eigenpairs computed before do not correspond to the new matrices
+        layer._solved_token = None
         if self._shares_matrix(layer, layer_index):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
@@ -736,6 +739,7 @@ class Simulation:
 
         Qeps = self.omega**2 * Pmu - Keps
         layer.Qeps = Qeps
+        layer._matrix_token = self._token
 
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done building matrix for layer {layer} in {_t1:0.3e}s")
-- 
2.43.0


From d7553f81b35b8b74832fe945b3be92fe4085237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 27/53] fix: user given harmonics failed with the torch backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 6f95473..d1d9f9b 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -122,7 +122,7 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
+            nh = len(self.harmonics_array[0])
             return self.harmonics_array, nh
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
-- 
2.43.0


From 6d13dcf63dfbab1326531293db4a3de09fe6282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 28/53] fix: multi_simp mixed precisions with the torch backend

---
 nannos/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index f19aa3f..3f28401 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -40,7 +40,8 @@ def multi_project(x, beta=1, Nthres=2):
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    epsilons = bk.array(epsilons, dtype=bk.complex128)
+    epsilons = epsilons + bk.zeros_like(epsilons, dtype=bk.complex128)
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
-- 
2.43.0


From 78ac03cdb1376afd54dca653a1137b6aa3f6750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 29/53] fix: project computed its normalization in single
 precision with the torch backend

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 3f28401..a5f9df1 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -26,7 +26,7 @@ def project(x, beta=1, thres=0.5):
     x = bk.array(x)
 
     def tanh(z):
-        return bk.tanh(bk.array(z))
+        return bk.tanh(bk.array(z, dtype=bk.float64))
 
     return ((tanh(thres * beta)) + tanh(beta * (x - thres))) / (
         tanh(thres * beta) + (tanh((1 - thres) * beta))
-- 
2.43.0


From 01ee5cb9031e0a91c7ef31b0470e3cec81a0b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 30/53] fix: complex amplitudes of evanescent orders could be
 NaN in single precision

---
 nannos/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 24b32bb..10fa3a9 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -524,8 +524,9 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        norma_t = (norma_t2.real) ** 0.5
-        norma_r = (norma_r2.real) ** 0.5
+        # zero up to rounding, of any sign, for evanescent orders
+        norma_t = bk.abs(norma_t2.real) ** 0.5
+        norma_r = bk.abs(norma_r2.real) ** 0.5
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-- 
2.43.0


From 0c4d7300f87584dc401ff176a20d36955a15030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 31/53] fix: circular truncation split shells of equivalent
 harmonics in single precision

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index d1d9f9b..536ab8f 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -349,7 +349,7 @@ def _circular_truncation(nh, Lk):
     if nh < nGtmp:
         nGtmp = nh
 
-    tol = 1e-10 * max(u[0] ** 2, u[1] ** 2)
+    tol = max(1e-10, 100 * float(bk.finfo(FLOAT).eps)) * max(u[0] ** 2, u[1] ** 2)
     for i in range(int(nGtmp) - 1, 0, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-- 
2.43.0


From f87a2232b125d65c38322bc66ae8271db705d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 32/53] fix: stress tensor ignored anisotropy and the
 formulation in patterned layers

---
 nannos/simulation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 10fa3a9..1bbe47c 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -551,12 +551,9 @@ class Simulation:
             dx = ex * layer.epsilon
             dy = ey * layer.epsilon
         else:
+            # same in-plane constitutive relation as the one used for the fields
             exy = bk.hstack((-ey, ex))
-
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.Peps @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-- 
2.43.0


From b17d569ddd40fc89b8fae1177c312d9365cd3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 33/53] fix: get_tangent_field ignored its type argument

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 92806cc..030bd58 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -277,7 +277,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 50bbac2c67001623be67b89fcfadefbc72871a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 34/53] fix: fields, stress and complex orders were not
 differentiable (autograd: errors, torch: NaN)

---
 nannos/simulation.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1bbe47c..cb9b5ca 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -319,8 +319,9 @@ class Simulation:
             self.solve()
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
         Z = z if hasattr(z, "__len__") else [z]
-        fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
-        for iz, z_ in enumerate(Z):
+        # not assigned in place, so that autograd can differentiate them
+        fields = []
+        for z_ in Z:
             ai, bi = _translate_amplitudes(layer, z_, ai0, bi0)
             ht_fourier = layer.eigenvectors @ (ai + bi)
             hx, hy = ht_fourier[: self.nh], ht_fourier[self.nh :]
@@ -335,11 +336,8 @@ class Simulation:
             else:
                 # ez = layer.eps_hat_inv @ ez
                 ez = bk.linalg.solve(layer.eps_hat, ez)
-            for i, comp in enumerate([ex, ey, ez]):
-                fields = set_index(fields, [iz, 0, i], comp)
-            for i, comp in enumerate([hx, hy, hz]):
-                fields = set_index(fields, [iz, 1, i], comp)
-        fields_fourier = bk.array(fields)
+            fields.append(bk.stack([bk.stack([ex, ey, ez]), bk.stack([hx, hy, hz])]))
+        fields_fourier = bk.stack(fields)
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(
             f"Done retrieving fields in k-space for layer {layer} in {_t1:0.3e}s"
@@ -524,9 +522,15 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        # zero up to rounding, of any sign, for evanescent orders
-        norma_t = bk.abs(norma_t2.real) ** 0.5
-        norma_r = bk.abs(norma_r2.real) ** 0.5
+        def _sqrt(x):
+            # zero up to rounding, of any sign, for evanescent orders: the square
+            # root is not differentiable there
+            propagating = x > float(bk.finfo(FLOAT).eps)
+            x = bk.where(propagating, x, bk.ones_like(x)) ** 0.5
+            return bk.where(propagating, x, bk.zeros_like(x))
+
+        norma_t = _sqrt(bk.real(norma_t2))
+        norma_r = _sqrt(bk.real(norma_r2))
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
@@ -557,11 +561,10 @@ class Simulation:
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-        Tx = bk.sum(ex * bk.conj(dz) + hx * bk.conj(hz), axis=-1).real
-        Ty = bk.sum(ey * bk.conj(dz) + hy * bk.conj(hz), axis=-1).real
-        Tz = (
-            0.5
-            * bk.sum(
+        Tx = bk.real(bk.sum(ex * bk.conj(dz) + hx * bk.conj(hz), axis=-1))
+        Ty = bk.real(bk.sum(ey * bk.conj(dz) + hy * bk.conj(hz), axis=-1))
+        Tz = 0.5 * bk.real(
+            bk.sum(
                 ez * bk.conj(dz)
                 + hz * bk.conj(hz)
                 - ex * bk.conj(dx)
@@ -569,7 +572,7 @@ class Simulation:
                 - hx * bk.conj(hx)
                 - hy * bk.conj(hy),
                 axis=-1,
-            ).real
+            )
         )
         return Tx, Ty, Tz
 
-- 
2.43.0


From afdea25056bee5763d5e8f6a7dd1187f0f8ba8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 35/53] fix: computed tangent fields were not tangent to the
 interfaces unless the pixels are square

---
 nannos/formulations/tangent.py | 24 +++++++++++++++---------
 nannos/layers.py               | 10 ++++++++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index de6dd70..029c113 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -32,7 +32,15 @@ def _ft_filt(x, expo):
     return bk.array(bk.where(x == 0.0, 0.0 * x, f))
 
 
-def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
+def _to_cartesian(t, vectors=None):
+    # t is tangent to the interfaces in units of pixels, and ``vectors`` are the sides
+    # of a pixel
+    if vectors is None:
+        return t
+    return [t[0] * vectors[0][i] + t[1] * vectors[1][i] for i in range(2)]
+
+
+def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5, vectors=None):
     Nx, Ny = grid.shape
 
     grid = bk.hstack([grid, grid, grid])
@@ -53,7 +61,7 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     Nstar = [(inverse_fourier_transform(Nhat[i] * ghat)) for i in range(2)]
 
     Nstar = [Nstar[i][Nx : 2 * Nx, Ny : 2 * Ny] for i in range(2)]
-    t = [Nstar[1].real, -Nstar[0].real]
+    t = _to_cartesian([Nstar[1].real, -Nstar[0].real], vectors)
     # t = bk.array(t).real
     if normalize:
         norm_t = norm(t)
@@ -70,6 +78,7 @@ def _get_tangent_field_min(
     rfilt=0,
     opt_backend="autograd",
     maxiter=1,
+    vectors=None,
 ):
     if opt_backend == "jax":
         from jax import grad
@@ -214,18 +223,15 @@ def _get_tangent_field_min(
     ax = interpx(points).T
     ay = interpy(points).T
 
-    t = bk.real(bk.stack([bk.array(ay), -bk.array(ax)]))
+    t = _to_cartesian([bk.array(ay), -bk.array(ax)], vectors)
+    t = bk.real(bk.stack(t))
+    norm_t = bk.sqrt(npg.finfo(float).eps + t[0] ** 2 + t[1] ** 2)
 
     if normalize:
-        try:
-            t1 = t.detach().cpu().numpy()
-        except Exception:
-            t1 = t
-        norm_t = bk.array(norm(t1))
         t = _normalize_vec(t, norm_t)
     else:
         # t *= norm_dgrid_f
-        t = [t[i] / bk.max(norm(t)) for i in range(2)]
+        t = [t[i] / bk.max(norm_t) for i in range(2)]
 
     return t
 
diff --git a/nannos/layers.py b/nannos/layers.py
index 030bd58..e8201fe 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -273,11 +273,21 @@ class Layer:
         epsilon = self.epsilon
         epsilon_zz = epsilon[2, 2] if self.is_epsilon_anisotropic else epsilon
         type = type or self.tangent_field_type
+        vectors = None
+        if self.lattice is not None:
+            # sides of a pixel, scaled so that they are unit vectors for square pixels
+            shape = epsilon_zz.shape
+            size = (self.lattice.area / (shape[0] * shape[1])) ** 0.5
+            vectors = [
+                [v / (n * size) for v in vector]
+                for vector, n in zip(self.lattice.basis_vectors, shape)
+            ]
         return get_tangent_field(
             epsilon_zz,
             harmonics,
             normalize=normalize,
             type=type,
+            vectors=vectors,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 3d20bf8555fb3508a17472be75d48951cab62106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 36/53] fix: negative layer indices silently gave the
 amplitudes of another layer

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index e8201fe..662fc3f 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -320,7 +320,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], range(len(layers))[id]
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From db776e9a10b91eaa3091dfa5a404c18a0681ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 37/53] fix: orders of the wrong length were accepted

---
 nannos/simulation.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index cb9b5ca..85b9ee7 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -577,15 +577,12 @@ class Simulation:
         return Tx, Ty, Tz
 
     def get_order_index(self, order):
-        try:
-            len(order) == 2
-        except Exception as e:
-            if self.lattice.is_1D and isinstance(order, int):
-                order = (order, 0)
-            else:
-                raise ValueError(
-                    "order must be a tuple of integers length 2 for bi-periodic gratings"
-                ) from e
+        if self.lattice.is_1D and isinstance(order, int):
+            order = (order, 0)
+        if not hasattr(order, "__len__") or len(order) != 2:
+            raise ValueError(
+                "order must be a tuple of integers length 2 for bi-periodic gratings"
+            )
         # return [
         #     k for k, i in enumerate(self.harmonics.T) if bk.allclose(i, bk.array(order))
         # ][0]
-- 
2.43.0


From 27394b8f9b52b75f84e4fceb347628422c34d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 38/53] fix: plot_structure failed with recent pyvista

---
 nannos/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 3dcb6bb..b128d7f 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -138,7 +138,7 @@ def plot_structure(
                         val = layer.epsilon.real
                         grid.cell_data[name] = bk.array(val)
                         mesh = grid.extract_surface()
-                        mesh = mesh.transform(transform_matrix)
+                        mesh = mesh.transform(transform_matrix, inplace=True)
                         if layer_colors is not None:
                             kwargs["color"] = layer_colors[ilayer]
                         if layer_metallic is not None:
@@ -177,7 +177,9 @@ def plot_structure(
                                 [v - 1e-7 * abs(v), v + 1e-7 * abs(v)]
                             )
 
-                            threshed = threshed.transform(transform_matrix)
+                            threshed = threshed.transform(
+                                transform_matrix, inplace=True
+                            )
 
                             if layer_colors is not None:
                                 kwargs["color"] = layer_colors[ilayer][ival]
-- 
2.43.0


From 541961442e9ce061d9045860d5f8ecfa962cc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 39/53] fix: plot_structure mixed up the axes of grids that are
 not square

---
 nannos/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index b128d7f..492b29f 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -166,7 +166,7 @@ def plot_structure(
                     values = epsgrid[:, :, None]
                     # Create the spatial reference
                     grid = pyvista.ImageData()
-                    grid.dimensions = bk.array(values.shape) + 1
+                    grid.dimensions = (Nx + 1, Ny + 1, 2)
                     grid.origin = (x0, y0, z)  # The bottom left corner of the data set
                     grid.spacing = (1 / Nx, 1 / Ny, thickness)
                     grid.cell_data[name] = values.flatten()  # Flatten the array!
-- 
2.43.0


From ac547431670cf50e103967adee877a94462d3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 40/53] fix: plot_layer cut cells that extend to negative
 coordinates

---
 nannos/plot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 492b29f..681f177 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -76,8 +76,13 @@ def plot_layer(
     lx, ly = [bk.linalg.norm(bk.array(v, dtype=FLOAT)) for v in lattice.basis_vectors]
     lmax = max(lx, ly)
     delta = 0.1 * lmax
-    ax.set_xlim(-delta, nperx * bv[0][0] + npery * bv[1][0] + delta)
-    ax.set_ylim(-delta, nperx * bv[0][1] + npery * bv[1][1] + delta)
+    # the cells can extend on both sides of the origin
+    corners = [
+        [i * bv[0][k] + j * bv[1][k] for i in (0, nperx) for j in (0, npery)]
+        for k in range(2)
+    ]
+    ax.set_xlim(min(corners[0]) - delta, max(corners[0]) + delta)
+    ax.set_ylim(min(corners[1]) - delta, max(corners[1]) + delta)
     if show_cell:
         plot_unit_cell(ax, bv, cellstyle)
     ax.set_aspect("equal")
-- 
2.43.0


From 05776b3b17430a152d6b9313d9072e59cba0ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 41/53] fix: fields in Fourier space were double precision
 arrays in single precision

The stack that replaced the array assigned in place (50bbac2) lost the precision selected.
---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 85b9ee7..b9711c9 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -337,7 +337,7 @@ class Simulation:
                 # ez = layer.eps_hat_inv @ ez
                 ez = bk.linalg.solve(layer.eps_hat, ez)
             fields.append(bk.stack([bk.stack([ex, ey, ez]), bk.stack([hx, hy, hz])]))
-        fields_fourier = bk.stack(fields)
+        fields_fourier = bk.array(bk.stack(fields), dtype=COMPLEX)
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(
             f"Done retrieving fields in k-space for layer {layer} in {_t1:0.3e}s"
-- 
2.43.0


From c511e7870a2ff83577329758a9c52dd57b0eed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 42/53] fix: the log level was reset when switching backend,
 precision or device

---
 nannos/log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nannos/log.py b/nannos/log.py
index 314f933..8a250f1 100644
--- a/nannos/log.py
+++ b/nannos/log.py
@@ -33,8 +33,9 @@ def set_log_level(level):
 
     """
 
-    global logger
+    global logger, CURRENT_LEVEL
     LOG_LEVEL = LEVELS[level]
+    CURRENT_LEVEL = level
     LOGFORMAT = (
         "  %(log_color)s%(levelname)-8s%(reset)s | %(log_color)s%(message)s%(reset)s"
     )
@@ -51,4 +52,5 @@ def set_log_level(level):
     logger.addHandler(stream)
 
 
-set_log_level("WARNING")
+# modules are reloaded when switching backend, precision or device: keep the level
+set_log_level(globals().get("CURRENT_LEVEL", "WARNING"))
-- 
2.43.0


From 828aa5fc8c8777806d86bd2452dad3c9914e5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 43/53] fix: simulations do not change with the list of layers
 they were built from

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b9711c9..d81e3e6 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -49,7 +49,7 @@ class Simulation:
         formulation="original",
     ):
         # Layers
-        self.layers = layers
+        self.layers = list(layers)
         self.layer_names = [layer.name for layer in self.layers]
         if not unique(self.layer_names):
             raise ValueError("Layers must have different names")
-- 
2.43.0


From b73d397d66e86558f99b8e164e60685916faa8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 44/53] fix: changes of the superstrate or of the excitation
 were ignored when solving again

---
 nannos/simulation.py | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index d81e3e6..8320ab3 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -103,6 +103,32 @@ class Simulation:
 
         # Set the excitation (plane wave)
         self.excitation = excitation
+
+        # Some useful matrices
+        self.IdG = bk.array(bk.eye(self.nh, dtype=COMPLEX))
+        self.ZeroG = bk.array(bk.zeros_like(self.IdG, dtype=COMPLEX))
+
+        # Initialize amplitudes
+        for index_zeroth_order, h in enumerate(self.harmonics.T):
+            if h[0] == 0 and h[1] == 0:
+                break
+        else:
+            raise ValueError("harmonics must include the zeroth order (0, 0)")
+        self.bN = bk.array(bk.zeros(2 * self.nh, dtype=COMPLEX))
+        self.index_zeroth_order = index_zeroth_order
+        self._set_incidence()
+
+        # This is a boolean checking that the eigenproblems are solved for all layers
+        # TODO: This is to avoid solving again, but could be confusing
+        # The eigenpairs are stored on the layers, so the token identifies which
+        # simulation they have been computed for
+        self._is_solved = False
+        self._token = object()
+        # dictionary to store intermediate S-matrices
+        # TODO: check memory consumption of doing that, maybe make it optional.
+        self._intermediate_S = {}
+
+    def _set_incidence(self):
         self.omega = 2 * bk.pi * self.excitation.frequency_scaled
         self.incident_flux = bk.real(
             bk.cos(self.excitation.theta)
@@ -128,38 +154,16 @@ class Simulation:
         self.Kx = bk.diag(self.kx)
         self.Ky = bk.diag(self.ky)
 
-        # Some useful matrices
-        self.IdG = bk.array(bk.eye(self.nh, dtype=COMPLEX))
-        self.ZeroG = bk.array(bk.zeros_like(self.IdG, dtype=COMPLEX))
-
-        # Initialize amplitudes
-        for index_zeroth_order, h in enumerate(self.harmonics.T):
-            if h[0] == 0 and h[1] == 0:
-                break
-        else:
-            raise ValueError("harmonics must include the zeroth order (0, 0)")
         self.a0 = []
         for i in range(self.nh * 2):
-            if i == index_zeroth_order:
+            if i == self.index_zeroth_order:
                 a0 = self.excitation.a0[0]
-            elif i == self.nh + index_zeroth_order:
+            elif i == self.nh + self.index_zeroth_order:
                 a0 = self.excitation.a0[1]
             else:
                 a0 = 0
             self.a0.append(a0)
         self.a0 = bk.array(self.a0, dtype=COMPLEX)
-        self.bN = bk.array(bk.zeros(2 * self.nh, dtype=COMPLEX))
-        self.index_zeroth_order = index_zeroth_order
-
-        # This is a boolean checking that the eigenproblems are solved for all layers
-        # TODO: This is to avoid solving again, but could be confusing
-        # The eigenpairs are stored on the layers, so the token identifies which
-        # simulation they have been computed for
-        self._is_solved = False
-        self._token = object()
-        # dictionary to store intermediate S-matrices
-        # TODO: check memory consumption of doing that, maybe make it optional.
-        self._intermediate_S = {}
 
     def get_layer(self, id):
         """Helper to get layer index and name.
@@ -192,6 +196,8 @@ class Simulation:
         """Solve the grating problem."""
         _t0 = timer.tic()
         logger.info("Solving")
+        # the superstrate or the excitation may have changed
+        self._set_incidence()
         layers_solved = []
         for layer in self.layers:
             _t0lay = timer.tic()
-- 
2.43.0


From 240a06fd8eff8cc6fbe84ca9124d361330fd61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 45/53] fix: simulations solve again the layers that were reset

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 8320ab3..38632e8 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -188,7 +188,7 @@ class Simulation:
     @property
     def is_solved(self):
         return self._is_solved and all(
-            getattr(layer, "_solved_token", None) is self._token
+            layer.is_solved and getattr(layer, "_solved_token", None) is self._token
             for layer in self.layers
         )
 
-- 
2.43.0


From 05996f70de997daf83121a7412ce52bc586e7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 46/53] fix: get_order selects the order of complex amplitudes

---
 nannos/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 38632e8..dbd8b79 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -595,7 +595,9 @@ class Simulation:
         return self.harmidx_dict[order[0]][order[1]]
 
     def get_order(self, A, order):
-        return A[self.get_order_index(order)]
+        index = self.get_order_index(order)
+        # the last axis of arrays, that is one row for each component of amplitudes
+        return A[..., index] if hasattr(A, "shape") else A[index]
 
     def _get_toeplitz_matrix(self, u, transverse=False):
         if transverse:
-- 
2.43.0


From 9087180b97bc9089fd9bd0ca49550d1270263fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 47/53] fix: inverse Fourier transform on a given grid was not
 normalized

---
 nannos/formulations/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/formulations/fft.py b/nannos/formulations/fft.py
index 9bbfeb5..6401e8e 100644
--- a/nannos/formulations/fft.py
+++ b/nannos/formulations/fft.py
@@ -36,7 +36,7 @@ def inverse_fourier_transform(uft, s=None, axes=(-2, -1)):
         u = _ifft2_torch(uft, s=s, dim=axes)
     else:
         u = bk.fft.ifft2(uft, s=s, axes=axes)
-    nx, ny = uft.shape[axes[0]], uft.shape[axes[1]]
+    nx, ny = u.shape[axes[0]], u.shape[axes[1]]
     return bk.array(u) * (nx * ny)
 
 
-- 
2.43.0


From f69f2774c05fd98b9c1133ab0097e523dc089ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 48/53] fix: lossless metals with a negative zero imaginary
 part had growing modes

---
 nannos/layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 662fc3f..8d5e359 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -163,7 +163,8 @@ class Layer:
 
         q = (
             bk.array(
-                _epsilon * _mu * omega**2 - kx**2 - ky**2,
+                # adding zero removes negative zeros, that give growing modes
+                _epsilon * _mu * omega**2 - kx**2 - ky**2 + 0j,
                 dtype=COMPLEX,
             )
             ** 0.5
-- 
2.43.0


From efd5b2b6625ab8f2b4bbea525e9c2dceae3adfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 49/53] fix: bk.array ignored the type asked for torch tensors

---
 nannos/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index dbfc564..df58e18 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -286,7 +286,7 @@ elif "_TORCH" in globals():
 
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
-                return a.to(torch.device(DEVICE))
+                return a.to(torch.device(DEVICE), kwargs.get("dtype", a.dtype))
             elif _has_tensor(a):
                 # torch.tensor would detach the elements
                 items = [_array(v) for v in a]
-- 
2.43.0


From 49f412ba3f35ff37b50872a170c101489848168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 50/53] fix: torch in single precision failed with tangent
 fields in double precision

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index dbd8b79..a74aae3 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -604,7 +604,7 @@ class Simulation:
             return [
                 [self._get_toeplitz_matrix(u[i, j]) for j in range(2)] for i in range(2)
             ]
-        uft = fft.fourier_transform(u)
+        uft = bk.array(fft.fourier_transform(u), dtype=COMPLEX)
         ix = bk.array(bk.arange(self.nh))
         jx, jy = bk.meshgrid(ix, ix, indexing="ij")
         delta = self.harmonics[:, jx] - self.harmonics[:, jy]
-- 
2.43.0


From ffd228f8fea7237b825f7be48ab6dde015965a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 51/53] fix: computed tangent fields ignored interfaces between
 materials of the same modulus or the same real part

---
 nannos/formulations/tangent.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 029c113..c2e6a7c 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -40,14 +40,22 @@ def _to_cartesian(t, vectors=None):
     return [t[0] * vectors[0][i] + t[1] * vectors[1][i] for i in range(2)]
 
 
+def _get_phase(grid):
+    # rotates to the real axis the direction of the complex plane in which the grid
+    # varies: materials can differ only by their imaginary part, or by their phase
+    v = bk.gradient(grid)
+    return bk.exp(-0.5j * bk.angle(bk.sum(v[0] ** 2 + v[1] ** 2)))
+
+
 def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5, vectors=None):
     Nx, Ny = grid.shape
 
     grid = bk.hstack([grid, grid, grid])
     grid = bk.vstack([grid, grid, grid])
 
-    xf = apply_filter(grid, rfilt)
-    v = bk.gradient(grid)
+    phase = _get_phase(grid)
+    xf = apply_filter(bk.real(grid * phase), rfilt)
+    v = [bk.real(vi * phase) for vi in bk.gradient(grid)]
     vf = bk.gradient(xf)
     norma = norm(v)
     N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
@@ -110,8 +118,7 @@ def _get_tangent_field_min(
     # except Exception:
     #     pass
 
-    grid = bk.abs(grid)
-    grid = grid / bk.max(grid)
+    phase = _get_phase(grid)
     Nx, Ny = grid.shape
     downsample_x = max(Nx // 2**6, 1)
     downsample_y = max(Ny // 2**6, 1)
@@ -138,7 +145,7 @@ def _get_tangent_field_min(
     # xf = apply_filter(grid, rfilt=rfilt)
     xf = grid
 
-    dgrid = bk.stack(bk.gradient(xf))
+    dgrid = bk.stack([bk.real(vi * phase) for vi in bk.gradient(xf)])
     dgrid_fx = apply_filter(dgrid[0], rfilt=rfilt)
     dgrid_fy = apply_filter(dgrid[1], rfilt=rfilt)
     dgrid_f = bk.stack([dgrid_fx, dgrid_fy])
-- 
2.43.0


From 4d8a09439ca8c2cd39db7dbb93499785970cc933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 52/53] fix: optimizers using nlopt were never freed, nor
 anything their objective refers to

---
 nannos/optimize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index a5f9df1..190404e 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -227,7 +227,12 @@ class TopologyOptimizer:
                 for k, v in self.options.items():
                     self.opt.set_param(k, v)
                 self.opt.set_min_objective(fun_nlopt)
-                xopt = self.opt.optimize(x0)
-                fopt = self.opt.last_optimum_value()
+                try:
+                    xopt = self.opt.optimize(x0)
+                    fopt = self.opt.last_optimum_value()
+                finally:
+                    # the garbage collector cannot see the cycle self -> opt ->
+                    # objective -> self, which would keep all of them alive
+                    self.opt.set_min_objective(lambda x, gradn: 0.0)
             x0 = xopt
         return xopt, fopt
-- 
2.43.0


From 9eedabbddc3675e3fe88ca354d2424a062cc4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:57 +0000
Subject: [PATCH 53/53] fix: adaptive sampler with the jax backend, and with
 functions returning arrays without dimension

---
 nannos/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index 0667676..374c7e8 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -8,7 +8,8 @@
 
 __all__ = ["adaptive_sampler"]
 
-from . import numpy as np
+import numpy as np
+
 from .parallel import parloop
 
 
@@ -105,7 +106,8 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
     # the refinement and the merging of new points need increasing samples
     x = np.unique(x)
     y = _function_adapted(x)
-    if hasattr(y[0], "__len__") and len(y[0]) > 0:
+    # arrays without dimension are scalars
+    if np.shape(y[0]) != () and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
         multi_output = True
     else:
-- 
2.43.0

