From 38eb0da6223cd88cf19fbb7c2086124d946ffad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 01/18] fix: HayhurstLeckie derivatives omit the chain-rule
 factors

---
 pyoptmat/damage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..3ad5ead 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,9 +111,9 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
-            self.xi(T) - self.phi(T) - 1
-        )
+        ), -(self.xi(T) - self.phi(T)) * (
+            (torch.abs(s) / self.A(T)) ** self.xi(T)
+        ) * (1 - d) ** (self.xi(T) - self.phi(T) - 1)
 
     def d_damage_rate_d_s(self, s, d, t, T, e):
         """
@@ -126,7 +126,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From 0ccc3d3b8f0f196ef1a228feb298ec44c71b3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 02/18] fix: DamagedInelasticModel damage Jacobian ignores the
 effective stress

---
 pyoptmat/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..2dc3cdf 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -237,7 +237,12 @@ class DamagedInelasticModel(nn.Module):
                     / (1 - d)
                 )[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (
+                    ddrate
+                    + self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
+                    * stress
+                    / (1 - d) ** 2
+                )[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From 34cc8be20d049bf0c945770bc7639537fe163abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 03/18] fix: stress control Jacobian omits the strain rate
 coupling of the history rates

---
 pyoptmat/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 2dc3cdf..605731d 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -556,7 +556,8 @@ class StressBasedModel(nn.Module):
         ydot, J, Je, _ = self.model(t, yp, erate[..., 0], cT)
 
         # Rescale the jacobian
-        J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        de = -J[..., :1, :] / Je[..., :1, None]
+        J = torch.cat([de, J[..., 1:, :] + Je[..., 1:, None] * de], dim=-2)
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From c722c06b7725154bbedee902cebbbc719925c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 04/18] fix: Kocks-Mecking activation energy uses the unscaled
 shear modulus

---
 pyoptmat/flowrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 249ba36..9af4224 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -208,7 +208,7 @@ class KocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -473,7 +473,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -490,7 +490,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
             torch.tensor:       derivative of the activation energy
         """
         return -(
-            self.k * T / (self.mu.value(T) * self.b**3.0) / (torch.abs(e) + self.eps)
+            self.k * T / (self.mu(T) * self.b**3.0) / (torch.abs(e) + self.eps)
         ) * torch.sign(e)
 
     def f(self, T, e):
-- 
2.43.0


From a70a2061ca1706e2e71c2beaff89cf6d83889ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 05/18] fix: PiecewiseScaling reports the wrong parameter shape

---
 pyoptmat/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/temperature.py b/pyoptmat/temperature.py
index 52ddc3f..1f64f57 100644
--- a/pyoptmat/temperature.py
+++ b/pyoptmat/temperature.py
@@ -576,7 +576,7 @@ class PiecewiseScaling(TemperatureParameter):
         """
         Shape of the underlying parameter
         """
-        return self.values.shape[1:]
+        return self.values.shape[:-1]
 
 
 class ArrheniusScaling(TemperatureParameter):
-- 
2.43.0


From 2ca9891c6c06e1c1f9be07f21f611403ce5f0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 06/18] fix: Newton solvers report a residual that is not a
 number instead of returning quietly

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..a2c4034 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,7 +53,7 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or torch.any(torch.isnan(nR)):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..5d653e6 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,7 +69,7 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if i == miter or torch.any(torch.isnan(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +119,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or torch.any(torch.isnan(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +425,7 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if i == miter or torch.any(torch.isnan(nR)):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0


From 394f8fc1fed8199a87b21ec3c3461cd31c45332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 07/18] fix: previous-step initial guess when the first block
 is shorter than the block size

---
 pyoptmat/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..83ecca4 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -402,8 +402,8 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
-            guess = guess[blk:]
+                blk = self.n - result[k : k + self.n].shape[0]
+                guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
 
-- 
2.43.0


From 8aa0121fcd064a35648ce71da9212e4065df1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 08/18] fix: keep the batch axis when interpolating one time
 for a single sample

---
 pyoptmat/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..a5adfd9 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -337,7 +337,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         )
 
         if squeeze:
-            return poss[locs].squeeze(-1).t()
+            return poss[locs]
 
         return poss[locs].reshape(t.shape).t()
 
-- 
2.43.0


From f4f5b4abfb37625aaee3ed2ea166835199e20ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 09/18] fix: numerical derivative at a zero scalar state (0/0)

---
 pyoptmat/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index a5adfd9..10c6827 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -258,6 +258,7 @@ def differentiate(fn, x0, eps=1.0e-6):
         dx = torch.zeros_like(x0)
         if len(s2) == 0:
             dx = torch.abs(x0) * eps
+            dx[dx < eps] = eps
         else:
             inc = torch.abs(x0[..., i2]) * eps
             inc[inc < eps] = eps
-- 
2.43.0


From 3cf1bd8278adbbe137d8509589f341dce367168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 10/18] fix: relaxation and cyclic results use each
 experiment's own cycle labels

---
 pyoptmat/experiments.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..05b39ab 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -252,15 +252,12 @@ def format_relaxation(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
-
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    # Each experiment starts its hold at its own time step
+    rcurve = cycles == 1
+    _, index = torch.max(rcurve, 0)
+    start = predictions.gather(0, index.view(1, -1))
 
-    result[rcurve] = curve
-
-    return result
+    return torch.where(rcurve, predictions - start, 0.0)
 
 
 def format_cyclic(cycles, predictions):
@@ -281,11 +278,11 @@ def format_cyclic(cycles, predictions):
     """
     # If this is slow we can probably remove the for loop
     result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
+    for i in range(int(torch.max(cycles)) + 1):
+        # Each experiment divides its time steps into cycles on its own
+        curr = cycles == i
+        vals, _ = torch.max(predictions.masked_fill(~curr, -torch.inf), 0)
+        result = torch.where(curr, vals, result)
 
     return result
 
-- 
2.43.0


From abb1e3bb4fe9026a271ad86432e4f64e21536099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 11/18] fix: creep tests hold for the requested time after
 loading

---
 pyoptmat/experiments.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 05b39ab..4414dd1 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -353,11 +353,15 @@ def make_creep_tests(
         temperatures[:, i] = T
         if logspace:
             times[nsteps_load:, i] = torch.logspace(
-                torch.log10(times[nsteps_load - 1, i]), torch.log10(t), nsteps_hold + 1
+                torch.log10(times[nsteps_load - 1, i]),
+                torch.log10(times[nsteps_load - 1, i] + t),
+                nsteps_hold + 1,
             )[1:]
         else:
             times[nsteps_load:, i] = torch.linspace(
-                times[nsteps_load - 1, i], t, nsteps_hold + 1
+                times[nsteps_load - 1, i],
+                times[nsteps_load - 1, i] + t,
+                nsteps_hold + 1,
             )[1:]
 
     cycles = torch.ones_like(times, dtype=int)
-- 
2.43.0


From e497a494d2f4796213f6b88a9651253760dfb0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 12/18] fix: block-bidiagonal solves no longer overwrite the
 right-hand side

---
 pyoptmat/chunktime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a2c4034..210b439 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -163,7 +163,7 @@ class LUFactorization(BidiagonalOperator):
                 v.reshape((self.sbat, self.nblk, self.sblk))
                 .transpose(0, 1)
                 .unsqueeze(-1)
-                .contiguous()
+                .clone(memory_format=torch.contiguous_format)
             )
             .squeeze(-1)
             .transpose(0, 1)
-- 
2.43.0


From 9f63b1d23ddd8d3360e320359cb3965655195fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 13/18] fix: cyclic-reduction solves leave the operator
 unchanged

---
 pyoptmat/chunktime.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 210b439..6a9b555 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -228,18 +228,15 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        # Padded working copy, the reduction modifies it in place
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
     def _solve_block(self, lu, pivots, B, v):
@@ -354,21 +351,18 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        # Padded working copy, the reduction modifies it in place
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
         # Do PCR
         for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         # We still need to solve the first block even if last is 0
 
         # The actual LU solve for the solution
-- 
2.43.0


From 6f4be6c7d410baf5ad6f905a0c9647772d95fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 14/18] fix: to_unrolled_csr keeps the full matrix size when
 the main diagonal is absent

---
 pyoptmat/chunktime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 6a9b555..b4fe120 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -705,6 +705,8 @@ class SquareBatchedBlockDiagonalMatrix:
         """
         coo = self.to_batched_coo()
         return [
-            torch.sparse_coo_tensor(coo.indices(), coo.values()[:, i]).to_sparse_csr()
+            torch.sparse_coo_tensor(
+                coo.indices(), coo.values()[:, i], size=(self.n, self.n)
+            ).to_sparse_csr()
             for i in range(self.sbat)
         ]
-- 
2.43.0


From 8b400c4ef434430ee3b492685a102f5eac1f313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 15/18] fix: gmres divided by a zero residual norm for a sample
 that is already solved

---
 pyoptmat/solvers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5d653e6..6654631 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -313,9 +313,12 @@ def gmres(
     # Initial residual
     r = b - A.bmm(x.unsqueeze(-1)).squeeze(-1)
 
-    # Basis
+    # Residual norm
+    nR = torch.linalg.vector_norm(r, dim=-1)
+
+    # Basis, a sample that is already solved has no direction to start with
     V = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-    V[..., :, 0] = r / torch.linalg.norm(r, dim=-1)[:, None]
+    V[..., :, 0] = r / torch.where(nR > 0, nR, torch.ones_like(nR))[:, None]
 
     # Preconditioned basis
     Z = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
@@ -324,9 +327,6 @@ def gmres(
     # Hessenberg matrix
     H = torch.zeros((nbatch, maxiter + 1, maxiter), device=A.device)
 
-    # Residual norm
-    nR = torch.linalg.vector_norm(r, dim=-1)
-
     # Check for an initial zero
     if torch.all(nR < tol):
         if return_iters:
-- 
2.43.0


From dbcfcd0de27041eceb43a74f39212a2030aa894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 16/18] fix: differentiate vector functions and functions of
 vectors

The increment of the perturbed entry is the divisor, not the (partly zero)
perturbation vector
---
 pyoptmat/utility.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 10c6827..db6c875 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -257,8 +257,9 @@ def differentiate(fn, x0, eps=1.0e-6):
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0)
         if len(s2) == 0:
-            dx = torch.abs(x0) * eps
-            dx[dx < eps] = eps
+            inc = torch.abs(x0) * eps
+            inc[inc < eps] = eps
+            dx = inc
         else:
             inc = torch.abs(x0[..., i2]) * eps
             inc[inc < eps] = eps
@@ -266,13 +267,13 @@ def differentiate(fn, x0, eps=1.0e-6):
         v1 = fn(x0 + dx)
 
         if len(s1) == 0 and len(s2) == 0:
-            d = (v1 - v0) / dx
+            d = (v1 - v0) / inc
         elif len(s2) == 0:
-            d[...] = (v1 - v0) / dx.reshape(v1.shape)
+            d[...] = (v1 - v0) / inc[:, None]
         elif len(s1) == 0:
-            d[..., i2] = ((v1 - v0) / dx.reshape(v1.shape))[:, None]
+            d[..., i2] = (v1 - v0)[:, None] / inc
         else:
-            d[..., i2] = ((v1 - v0) / dx)[..., None]
+            d[..., i2] = ((v1 - v0) / inc)[..., None]
 
     return d
 
-- 
2.43.0


From aaf63a53abe76a47675afccb032e401e3f9f7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:37 +0000
Subject: [PATCH 17/18] fix: cyclic reduction of right-hand sides that are not
 contiguous in memory

---
 pyoptmat/chunktime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index b4fe120..748930a 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -228,6 +228,9 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
+        # The reduction works on strided views of contiguous data
+        v = v.contiguous()
+
         # Padded working copy, the reduction modifies it in place
         B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
@@ -351,6 +354,9 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
+        # The reduction works on strided views of contiguous data
+        v = v.contiguous()
+
         # Padded working copy, the reduction modifies it in place
         B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
-- 
2.43.0


From 522d643c4c34c574694d803ebb5792dee18ef162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:48 +0000
Subject: [PATCH 18/18] fix: block-bidiagonal product of operators and vectors
 that are not contiguous in memory

---
 pyoptmat/chunktime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 748930a..afa2dd3 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -458,16 +458,16 @@ class BidiagonalForwardOperator(BidiagonalOperator):
         """
         # Reshaped v
         vp = (
-            v.view(self.sbat, self.nblk, self.sblk)
+            v.reshape(self.sbat, self.nblk, self.sblk)
             .transpose(0, 1)
             .reshape(self.sbat * self.nblk, self.sblk)
             .unsqueeze(-1)
         )
 
         # Actual calculation
-        b = torch.bmm(self.A.view(-1, self.sblk, self.sblk), vp)
+        b = torch.bmm(self.A.reshape(-1, self.sblk, self.sblk), vp)
         b[self.sbat :] += torch.bmm(
-            self.B.view(-1, self.sblk, self.sblk), vp[: -self.sbat]
+            self.B.reshape(-1, self.sblk, self.sblk), vp[: -self.sbat]
         )
 
         return (
-- 
2.43.0

