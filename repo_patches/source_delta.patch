From 58dfa8c6f58d2df6ed2439e4f2c7398e9f40bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:04 +0000
Subject: [PATCH 01/37] fix: covariant conversion across the south edge of
 panel 2 used the wrong component

---
 wx_factory/process_topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/process_topology.py b/wx_factory/process_topology.py
index 2f23b91..cf498a5 100644
--- a/wx_factory/process_topology.py
+++ b/wx_factory/process_topology.py
@@ -188,7 +188,7 @@ class ProcessTopology:
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
             ],
             [  # Panel 2
-                lambda a1, a2, x: (-a2, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
+                lambda a1, a2, x: (-a1, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
                 lambda a1, a2, x: (-a1, -a2 - 2.0 * x / (1.0 + x**2) * a1),  # North neighbor
                 lambda a1, a2, x: (a1 - 2.0 * x / (1.0 + x**2) * a2, a2),  # West neighbor
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
-- 
2.43.0


From 0f99754307e91a8db524a51f75a1cc779388d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 02/37] fix: newton_krylov used numpy.float_, which numpy 2
 removed (Imex2 could not run)

---
 wx_factory/solvers/nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/nonlin.py b/wx_factory/solvers/nonlin.py
index f8a408f..bcfb5f7 100644
--- a/wx_factory/solvers/nonlin.py
+++ b/wx_factory/solvers/nonlin.py
@@ -33,7 +33,7 @@ def newton_krylov(
     eta = 1e-3
 
     if f_tol is None:
-        f_tol = numpy.finfo(numpy.float_).eps ** (1.0 / 3)
+        f_tol = numpy.finfo(numpy.float64).eps ** (1.0 / 3)
     if f_rtol is None:
         f_rtol = numpy.inf
     if x_tol is None:
-- 
2.43.0


From 7908818188a3985b44ee691827734633b5356a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 03/37] fix: the backward Euler start of Bdf2 advanced by half
 the right-hand side

---
 wx_factory/integrators/bdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index fa9b458..5053004 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -20,7 +20,7 @@ class Bdf2(Integrator):
             newQ = Q.copy()
             for _ in range(self.init_substeps):
                 init_dt = dt / self.init_substeps
-                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
+                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - self.rhs(Q_plus)
 
                 newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol)
         else:
-- 
2.43.0


From 81f076325b61a43834d4e787f95019aa597555f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 04/37] fix: Bdf2 applied its constant-step formula after a
 change of time step

---
 wx_factory/integrators/bdf2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index 5053004..3daccce 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -12,9 +12,16 @@ class Bdf2(Integrator):
         self.tol = param.tolerance
         self.init_substeps = init_substeps
         self.Qprev = None
+        self.dt = 0.0
 
     def __step__(self, Q, dt):
         t0 = time()
+
+        # The constant-step formula only holds if the previous step had the same length. If dt changes, redo initialization
+        if self.dt and abs(self.dt - dt) > 1e-10:
+            self.Qprev = None
+        self.dt = dt
+
         if self.Qprev is None:
             # Initialize with the backward Euler method
             newQ = Q.copy()
-- 
2.43.0


From 55d2027368f20b59effca918a5a42f5c611f1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 05/37] fix: misspelled names in the norm fallback of cwy_ne

---
 wx_factory/solvers/cwy_ne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5efd894..0681976 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -231,9 +231,9 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             if global_temp_vec[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                global_sum_nrm = numpy.empty_link(local_sum)
+                global_sum_nrm = numpy.empty_like(local_sum)
                 MPI.COMM_WORLD.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
-                nrm = math.sqrt(gloal_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = math.sqrt(global_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 # compute norm estimate in quad precision
-- 
2.43.0


From a113640178fa0c51c899c1929c0977de836f32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 06/37] fix: the DP5(4) tableau missed its last column and was
 rejected

---
 wx_factory/integrators/butcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index 382240d..f2f5058 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -151,12 +151,12 @@ class DP54(RungeKutta):
     C = numpy.array([0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1])
     A = numpy.array(
         [
-            [0, 0, 0, 0, 0],
-            [1 / 5, 0, 0, 0, 0],
-            [3 / 40, 9 / 40, 0, 0, 0],
-            [44 / 45, -56 / 15, 32 / 9, 0, 0],
-            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0],
-            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
+            [0, 0, 0, 0, 0, 0],
+            [1 / 5, 0, 0, 0, 0, 0],
+            [3 / 40, 9 / 40, 0, 0, 0, 0],
+            [44 / 45, -56 / 15, 32 / 9, 0, 0, 0],
+            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0, 0],
+            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656, 0],
         ]
     )
     B = numpy.array([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84])
-- 
2.43.0


From 73665390b265c1a52b9f44970a6b93c651d513b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 07/37] fix: DP8(7) advanced with its 7th-order weights

---
 wx_factory/integrators/butcher.py | 34 +++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index f2f5058..77d2a5e 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -1797,23 +1797,6 @@ class DP87(RungeKutta):
     C = tableau[:, 0]
     A = tableau[:, 1:]
     B = numpy.array(
-        [
-            13451932 / 455176623,
-            0.0,
-            0.0,
-            0.0,
-            0.0,
-            -808719846 / 976000145,
-            1757004468 / 5645159321,
-            656045339 / 265891186,
-            -3867574721 / 1518517206,
-            465885868 / 322736535,
-            53011238 / 667516719,
-            2 / 45,
-            0.0,
-        ]
-    )
-    E = numpy.array(
         [
             14005451 / 335480064,
             0.0,
@@ -1828,6 +1811,23 @@ class DP87(RungeKutta):
             118820643 / 751138087,
             -528747749 / 2220607170,
             1 / 4,
+        ]
+    )
+    E = numpy.array(
+        [
+            13451932 / 455176623,
+            0.0,
+            0.0,
+            0.0,
+            0.0,
+            -808719846 / 976000145,
+            1757004468 / 5645159321,
+            656045339 / 265891186,
+            -3867574721 / 1518517206,
+            465885868 / 322736535,
+            53011238 / 667516719,
+            2 / 45,
+            0.0,
             0.0,
         ]
     )
-- 
2.43.0


From ff4606a8bd873ab0e47277abe3cd62b3d7b47560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 08/37] fix: EpiStiff took the past nodes with the wrong sign
 and lost its order above 3

---
 wx_factory/integrators/epi_stiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index f6eb23f..2946096 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -24,7 +24,7 @@ class EpiStiff(Integrator):
 
         if order < 2:
             raise ValueError("Unsupported order for EPI method")
-        self.A = alpha_coeff([-i for i in range(-1, 1 - order, -1)])
+        self.A = alpha_coeff(list(range(-1, 1 - order, -1)))
 
         m, self.n_prev = self.A.shape
 
-- 
2.43.0


From 84721c5e94a489c74a9bd4226b22dbce538e22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 09/37] fix: Runge-Kutta methods without FSAL evaluated the
 next first stage at the wrong time

---
 wx_factory/integrators/explicit_runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/explicit_runge_kutta.py b/wx_factory/integrators/explicit_runge_kutta.py
index 1f8002e..7c7434a 100644
--- a/wx_factory/integrators/explicit_runge_kutta.py
+++ b/wx_factory/integrators/explicit_runge_kutta.py
@@ -419,7 +419,7 @@ class RungeKutta:
 
         if not self.FSAL:
             # evaluate output point for the next step
-            self.K[self.n_stages] = self.fun(t + h, y_new)
+            self.K[self.n_stages] = self.fun(t_new, y_new)
 
         # store for next step, interpolation and stepsize control
         self.y_old = y
-- 
2.43.0


From 079e94fafed61d1fcb051eab81a155562d0fe8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 10/37] fix: exponential solvers restarted substeps with the
 wrong powers of the elapsed time

---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index bdb7901..ccf98ee 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -159,7 +159,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 0681976..5975509 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -147,7 +147,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index d22fe38..2055dbc 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -142,7 +142,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 9ac2edd..98a289f 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -142,7 +142,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 06c3010..a8f5793 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -153,7 +153,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 075f316..086aeeb 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -142,7 +142,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index f220e7e..61f1c84 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -144,7 +144,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 907fed3..f16774d 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -142,7 +142,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 34a724b..3fa344d 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -158,7 +158,7 @@ def kiops(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[0, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[0, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1021819..1caee69 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -142,7 +142,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 16d1c7c..9c7a30a 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -141,7 +141,7 @@ def pmex(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 04641fb..8456cc1 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -129,7 +129,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index b292a09..d1065e6 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -115,7 +115,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
-- 
2.43.0


From 862536d6473c05fefdcd4f460fb8d8008ed33131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 11/37] fix: a happy breakdown dropped the last column of H in
 pmex, cwy_ne, icwy_ne and icwy_neiop

---
 wx_factory/solvers/cwy_ne.py     | 3 ++-
 wx_factory/solvers/icwy_ne.py    | 3 ++-
 wx_factory/solvers/icwy_neiop.py | 3 ++-
 wx_factory/solvers/pmex.py       | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5975509..b60eb28 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -244,6 +244,8 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
                 # nrm = math.sqrt(global_temp_vec[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
@@ -251,7 +253,6 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # 7. Normalize
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 086aeeb..e7e321d 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -197,13 +197,14 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
                 # nrm = math.sqrt(global_temp[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index f16774d..691b834 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -199,13 +199,14 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             else:
                 nrmish = math.sqrt(global_temp[-1, 1] - sum_sqrd)
 
+            H[indx:j, j - 1] = tmp
+
             # Happy breakdown
             if nrmish < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrmish
-            H[indx:j, j - 1] = tmp
             V[j, :] /= nrmish
 
             krystep += 1
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 9c7a30a..970ead7 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -219,6 +219,8 @@ def pmex(
                 # compute norm estimate in quad precision
                 curr_nrm = device.xp.array(device.xp.sqrt(global_vec[-1, 1] - sum_sqrd), device.xp.float64)
 
+            H[0:j, j - 1] = sol
+
             # Happy breakdown
             if curr_nrm < tol:
                 happy = True
@@ -227,7 +229,6 @@ def pmex(
             # Normalize vector and set norm to H matrix
             V[j, :] /= curr_nrm
             H[j, j - 1] = curr_nrm
-            H[0:j, j - 1] = sol
 
             krystep += 1
 
-- 
2.43.0


From 403242db8e110cac7b18093238f4a3ad1534390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 12/37] fix: exponential solvers failed when given a single
 vector

---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/exode.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index ccf98ee..957d79b 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -65,7 +65,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index b60eb28..27e1aa3 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -62,7 +62,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index 2055dbc..4ae5f9e 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -62,7 +62,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 98a289f..ef6cd5d 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -63,7 +63,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 81f6d61..1b6dfa4 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -31,7 +31,7 @@ def exode(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     y0 = u[0].copy()
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index a8f5793..691e7dc 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -63,7 +63,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index e7e321d..defc84d 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -62,7 +62,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index 61f1c84..4418fff 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -61,7 +61,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 691b834..ad0bc4e 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -62,7 +62,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 3fa344d..1571375 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -80,7 +80,7 @@ def kiops(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = xp.row_stack((u, xp.zeros(len(u))))
+        u = xp.vstack((u, xp.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1caee69..2a23817 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -63,7 +63,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 970ead7..aa4a17a 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -53,7 +53,7 @@ def pmex(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = device.xp.row_stack((u, device.xp.zeros(len(u))))
+        u = device.xp.vstack((u, device.xp.zeros_like(u)))
 
     step = 0
     krystep = 0
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 8456cc1..e309482 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -19,7 +19,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     step = 0
     krystep = 0
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index d1065e6..1d4b237 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -17,7 +17,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros_like(u)))
 
     step = 0
     krystep = 0
-- 
2.43.0


From 68f636e1bddd9fb70f8e435398acf3ca7075f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 13/37] fix: fgmres divided by zero when the initial
 approximation is exact

---
 wx_factory/solvers/fgmres.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 6cf5ce7..1006e96 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -175,6 +175,10 @@ def fgmres(
 
     residuals.append(((norm_r / norm_b).item(), time() - t_start, 0.0))
 
+    # The initial approximation is already the solution
+    if norm_r == 0.0:
+        return x, norm_r, norm_b, 0, 0, residuals
+
     for outer in range(maxiter):
         # NOTE: We are dealing with row-major matrices, but we store the transpose of H and V.
         H = xp.zeros((restart + 2, restart + 2))
-- 
2.43.0


From e1da2781ec8d9ee460e087e4da83f4554f461b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 14/37] fix: fgmres reported convergence for a NaN residual

---
 wx_factory/solvers/fgmres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 1006e96..f9dbbe3 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -274,9 +274,9 @@ def fgmres(
 
     # end outer loop
 
-    flag = 0
-    if norm_r >= tol_relative:
-        flag = -1
+    flag = -1
+    if norm_r < tol_relative:
+        flag = 0
     return x, norm_r, norm_b, niter, flag, residuals
 
 
-- 
2.43.0


From 48213da5fc9a79090c77272b4f707db895214494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 15/37] fix: gcrot recycled products with the operator of an
 earlier call

---
 wx_factory/solvers/gcrot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/gcrot.py b/wx_factory/solvers/gcrot.py
index b4da699..1dd74b7 100644
--- a/wx_factory/solvers/gcrot.py
+++ b/wx_factory/solvers/gcrot.py
@@ -126,7 +126,7 @@ def _fgmres(matvec, v0, m, tol, lpsolve=None, rpsolve=None, cs=(), outer_v=(), p
     return Q, R, B, vs, zs, y, res, niter
 
 
-def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C=False, truncate="oldest"):
+def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C=True, truncate="oldest"):
 
     N = b.shape[0]
 
-- 
2.43.0


From 9ae03d449f111e3cce39ccf1a75bb9822c709956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 16/37] fix: gcrot always reported convergence

---
 wx_factory/solvers/gcrot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wx_factory/solvers/gcrot.py b/wx_factory/solvers/gcrot.py
index 1dd74b7..d920450 100644
--- a/wx_factory/solvers/gcrot.py
+++ b/wx_factory/solvers/gcrot.py
@@ -351,4 +351,7 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
 
     gcrot.CU = CU
 
-    return x, beta, niter, 0, 0
+    # j_outer is set to -1 on convergence
+    flag = 0 if j_outer == -1 else -1
+
+    return x, beta, niter, flag, 0
-- 
2.43.0


From b41374836419e24b7ba917a2549a8ed0983de23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 17/37] fix: keep the advective part of the normal momentum
 flux in the AUSM kernel

---
 wx_factory/pde/kernels/riemann_flux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/pde/kernels/riemann_flux.hpp b/wx_factory/pde/kernels/riemann_flux.hpp
index cf7d5c3..6e31178 100644
--- a/wx_factory/pde/kernels/riemann_flux.hpp
+++ b/wx_factory/pde/kernels/riemann_flux.hpp
@@ -62,13 +62,13 @@ DEVICE_SPACE void riemann_eulercartesian_ausm_2d_kernel(
   *params_l.flux[dir].rho = rhol * Mmax + rhor * Mmin;
   if (dir == 0)
   {
-    *params_l.flux[dir].rho_u = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin + 0.5 * (Ml * pl - Mr * pr);
     *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin;
   }
   else
   {
     *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin;
-    *params_l.flux[dir].rho_w = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin + 0.5 * (Ml * pl - Mr * pr);
   }
   *params_l.flux[dir].rho_theta = rho_thetal * Mmax + rho_thetar * Mmin;
 
-- 
2.43.0


From c63f39d8261f21c630342f2adeeab5b2aa6b8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 18/37] fix: correct the rotation Christoffel symbols (1,02)
 and (2,02) of the 3D metric

---
 wx_factory/geometry/metric3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 80cafeb..66e9d7d 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -679,7 +679,7 @@ class Metric3DTopo:
                 Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (R_int * (1 + X_int**2)) * rot2
 
@@ -689,7 +689,7 @@ class Metric3DTopo:
         else:  # Shallow atmosphere, R->A
             Christoffel_1_01 = Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + X_int**2)) * rot2
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (A * (1 + X_int**2)) * rot2
 
@@ -708,7 +708,7 @@ class Metric3DTopo:
                 Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_02 = (
-                -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
+                -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_03 = dRdeta_int * Omega / (R_int * (1 + Y_int**2)) * rot3
 
@@ -720,7 +720,7 @@ class Metric3DTopo:
             Christoffel_2_23 = dRdeta_int / R_int
         else:  # Shallow
             Christoffel_2_01 = Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + Y_int**2)) * rot3
-            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
+            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
             Christoffel_2_03 = dRdeta_int * Omega / (A * (1 + Y_int**2)) * rot3
 
             Christoffel_2_11 = 0
-- 
2.43.0


From 7914517795fc352826bb9f47a326f78686c7134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 19/37] fix: correct the contravariant metric used for the
 interface slopes of the 3D metric

---
 wx_factory/geometry/metric3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 66e9d7d..008ca80 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -215,7 +215,7 @@ class Metric3DTopo:
         ):
             delta2 = 1 + X**2 + Y**2
             metric_contra[0, 0, :, :, :] = delta2 / (1 + X**2)
-            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) + (1 + Y**2))
+            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) * (1 + Y**2))
             metric_contra[1, 0, :, :, :] = metric_contra[0, 1, :, :, :]
             metric_contra[1, 1, :, :, :] = delta2 / (1 + Y**2)
 
-- 
2.43.0


From 2685780a17d5397110081a25a52069f83e14b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 20/37] fix: scale the 2D area element to the [-1, 1]^2
 reference element

---
 wx_factory/geometry/metric2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/geometry/metric2d.py b/wx_factory/geometry/metric2d.py
index 04f67a1..ce5bd60 100644
--- a/wx_factory/geometry/metric2d.py
+++ b/wx_factory/geometry/metric2d.py
@@ -127,9 +127,9 @@ class Metric2D:
         # x1 and x2 run from -pi/4 to pi/4 and x3 runs from 0 to htop, but inside each elemenet
         # (from the perspective of the differentiation matrices) each coordinate runs from -1 to 1.
 
-        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 8.0
+        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 4.0
 
         self.inv_sqrtG = 1.0 / self.sqrtG
 
-- 
2.43.0


From 3b225ee21398e46635bf3e52069bb4f5d3085f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 21/37] fix: differentiate the right covariant component in
 relative_vorticity

---
 wx_factory/output/diagnostic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index a5b1844..bf865fa 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,8 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u2_dual @ mtrx.derivative_y
-    du2dx1 = u1_dual @ mtrx.derivative_x
+    du1dx2 = u1_dual @ mtrx.derivative_y
+    du2dx1 = u2_dual @ mtrx.derivative_x
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 3d6c63909051c7ebd25e546b58fa396b0e3fd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 22/37] fix: keep all axes of interface fields when a tile has
 a single element

---
 wx_factory/geometry/cubed_sphere_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/geometry/cubed_sphere_2d.py b/wx_factory/geometry/cubed_sphere_2d.py
index 8f944ea..99f8b31 100644
--- a/wx_factory/geometry/cubed_sphere_2d.py
+++ b/wx_factory/geometry/cubed_sphere_2d.py
@@ -532,7 +532,7 @@ class CubedSphere2D(CubedSphere):
             new[self.east_edge] = 0.0
             new[self.west_edge] = 0.0
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
@@ -557,7 +557,7 @@ class CubedSphere2D(CubedSphere):
 
             # raise ValueError(f'a = \n{a[0]}\nnew_tmp = \n{new_tmp[0]}\nnew = \n{new[0]}')
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
-- 
2.43.0


From c7b731611791968f7617ec0dc45f5800e80bb408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 23/37] fix: the sponge assumed a 2D layout of the planar grid
 and failed on creation

---
 wx_factory/geometry/operators.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index e939154..69d2a20 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -123,19 +123,12 @@ class DFROperators:
         if param.apply_sponge:
             if not isinstance(grd, Cartesian2D):
                 raise TypeError(f"The sponge can only be applied on a Cartesian2D geometry")
-            nk, ni = grd.X1.shape
             zs = param.z1 - param.sponge_zscale  # zs is bottom of layer
             self.beta = xp.zeros_like(grd.X1)  # used as our damping profile
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    if grd.X3[k, i] >= zs:
-                        self.beta[k, i] = (
-                            self.beta[k, i]
-                            + (1.0 / param.sponge_tscale)
-                            * xp.sin((0.5 * xp.pi) * (grd.X3[k, i] - zs) / (param.z1 - zs)) ** 2
-                        )
+            in_layer = grd.X3 >= zs
+            self.beta[in_layer] = (1.0 / param.sponge_tscale) * xp.sin(
+                (0.5 * xp.pi) * (grd.X3[in_layer] - zs) / (param.z1 - zs)
+            ) ** 2
 
         if check_skewcentrosymmetry(self.diff_ext) is False:
             raise ValueError("Something horribly wrong has happened in the creation of the differentiation matrix")
@@ -240,17 +233,11 @@ class DFROperators:
 
         # Apply Sponge (if desired)
         if self.apply_sponge:
-            nk, ni = geom.X1.shape
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    # !!!!!!!!
-                    # !!! Important Note:
-                    #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
-                    # !!!!!!!!
-                    ww = (1.0 / (1.0 + self.beta[k, i] * dt)) * Q[idx_2d_rho_w, k, i]
-                    Q[idx_2d_rho_w, k, i] = ww
+            # !!!!!!!!
+            # !!! Important Note:
+            #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
+            # !!!!!!!!
+            Q[idx_2d_rho_w] = (1.0 / (1.0 + self.beta * dt)) * Q[idx_2d_rho_w]
 
         return Q
 
-- 
2.43.0


From 26f63667b396994c86526fd6d0993c85ebd7c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 24/37] fix: writing shallow-water results added the topography
 to the model state

---
 wx_factory/output/output_cubesphere_netcdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 882e7dd..5a3476f 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -312,9 +312,9 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # Unpack physical variables
             h = Q[idx_h, :, :]
-            if self.topo is not None:
-                h += self.topo.hsurf
-            self.store_field(geom.to_single_block(prepare(h)), "h", idx)
+            # Height of the fluid surface. Don't add in place, h is a view of the model state
+            surface = h + self.topo.hsurf if self.topo is not None else h
+            self.store_field(geom.to_single_block(prepare(surface)), "h", idx)
 
             if self.config.case_number >= 2:
                 u1 = Q[idx_hu1, :, :] / h
-- 
2.43.0


From a6ab2210ff63c301725fce019ed118ab32d41ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 25/37] fix: the time axis of netCDF files is in seconds

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 5a3476f..1329fe2 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -90,7 +90,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # create time axis
             tme = self.ncfile.createVariable("time", numpy.float64, ("time",))
-            tme.units = "hours since 1800-01-01"
+            tme.units = "seconds since 1800-01-01"
             tme.long_name = "time"
             tme.set_collective(False)
 
-- 
2.43.0


From cab3cecd0e9108831d37e998597a4f7b361f815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 26/37] fix: the topography is a 2D field, netCDF output of it
 failed with more than 6 processes

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 1329fe2..4d66cf9 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -287,7 +287,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         lats = self._gather_field(prepare(self.geometry.block_lat * 180 / math.pi), 2)
         if self.config.equations == "euler":
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
-            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 3)
+            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
         if self.rank == 0:
             for i in range(6):
-- 
2.43.0


From 74a7d364f5ebe468288b4f7a4204a4ace41cc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 27/37] fix: gather the y coordinates of a panel along its
 columns of tiles

---
 wx_factory/output/output_cubesphere.py        | 7 ++++---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/wx_factory/output/output_cubesphere.py b/wx_factory/output/output_cubesphere.py
index b790527..16b612b 100644
--- a/wx_factory/output/output_cubesphere.py
+++ b/wx_factory/output/output_cubesphere.py
@@ -126,8 +126,9 @@ class OutputCubesphere(OutputManager):
         if self.rank == 0:
             print("================================================================================================")
 
-    def _gather_panel(self, field: NDArray) -> Optional[NDArray]:
-        """ """
+    def _gather_panel(self, field: NDArray, along_y: bool = False) -> Optional[NDArray]:
+        """Gather the tiles of a panel on its root PE. A 1D field is gathered along the first row of tiles
+        of the panel, or along its first column if along_y is True."""
         panel_comm = self.process_topology.panel_comm
         xp = self.device.xp
 
@@ -144,7 +145,7 @@ class OutputCubesphere(OutputManager):
 
         side = self.process_topology.num_lines_per_panel
         if field.ndim == 1:
-            panel_field = xp.concatenate(panel_fields[:side])
+            panel_field = xp.concatenate(panel_fields[::side] if along_y else panel_fields[:side])
         else:
             panel_field = xp.concatenate(
                 [xp.concatenate(panel_fields[i * side : (i + 1) * side], axis=-1) for i in range(side)], axis=-2
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 4d66cf9..6bd1a29 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -273,7 +273,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         prepare = self.device.to_host
 
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
-        panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
+        panel_y = self._gather_panel(prepare(self.geometry.x2[...]), along_y=True)
 
         if self.rank == 0:
             xxx[:] = panel_x
-- 
2.43.0


From 82ff94d4b72d0f5e7a0d33d1a1cd432985155f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 28/37] fix: create the netCDF file on the root of the
 simulation's communicator

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 6bd1a29..4624983 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -56,7 +56,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         import netCDF4
 
         # creating the netcdf file(s)
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.ncfile = netCDF4.Dataset(self.filename, "w", format="NETCDF4")
 
         # create dimensions
-- 
2.43.0


From 66559724f86678e78c53da77b2426089762802ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 29/37] fix: durations of more than 1000 s could not be printed
 at the end of a run

---
 wx_factory/output/output_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index f75db46..a2538ac 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -26,11 +26,10 @@ def _readable_time(seconds):
     elif seconds < 1.0:
         return f"{seconds * 1e3:.1f} ms"
     elif seconds > 1000:
-        h_s = int(seconds)
-        h = h_s // 3600
-        rem = seconds - h_s
-        m = rem // 60
-        s = rem % 60
+        total = int(seconds)
+        h = total // 3600
+        m = total % 3600 // 60
+        s = total % 60
         return f"{h}:{m:02d}:{s:02d}"
     else:
         return f"{seconds:.2f}"
-- 
2.43.0


From 84dd22840da8c64beb80db809f267c074ae4cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 30/37] fix: relative vorticity ignored the element boundary
 part of the derivatives

---
 wx_factory/output/diagnostic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index bf865fa..adf382c 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,9 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u1_dual @ mtrx.derivative_y
-    du2dx1 = u2_dual @ mtrx.derivative_x
+    # The derivative matrices also need the values at the element boundaries, extrapolated from each element
+    du1dx2 = u1_dual @ mtrx.derivative_y + (u1_dual @ mtrx.extrap_y) @ mtrx.correction_SN
+    du2dx1 = u2_dual @ mtrx.derivative_x + (u2_dual @ mtrx.extrap_x) @ mtrx.correction_WE
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 09f620b1f4717afe9b67bdc6c39e46f682f5f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 31/37] fix: planar cases 1 and 3 still used the old data
 layout

---
 wx_factory/init/initialize.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/wx_factory/init/initialize.py b/wx_factory/init/initialize.py
index df2e009..fb80866 100644
--- a/wx_factory/init/initialize.py
+++ b/wx_factory/init/initialize.py
@@ -234,11 +234,8 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
 
         pert = 0.5
 
-        for k in range(nk):
-            for i in range(ni):
-                r = (geom.X1[k, i] - xc) ** 2 + (geom.X3[k, i] - zc) ** 2
-                if r < param.bubble_rad**2:
-                    θ[k, i] += pert
+        r = (geom.X1 - xc) ** 2 + (geom.X3 - zc) ** 2
+        θ = xp.where(r < param.bubble_rad**2, θ + pert, θ)
 
     elif param.case_number == 2:
         # Gaussian bubble
@@ -272,26 +269,16 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
         s = 50
         x0 = 500
         z0 = 300
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt((geom.X1[k, i] - x0) ** 2 + (geom.X3[k, i] - z0) ** 2)
-                if r <= a:
-                    θ[k, i] += A
-                else:
-                    θ[k, i] += A * xp.exp(-(((r - a) / s) ** 2))
+        r = xp.sqrt((geom.X1 - x0) ** 2 + (geom.X3 - z0) ** 2)
+        θ = xp.where(r <= a, θ + A, θ + A * xp.exp(-(((r - a) / s) ** 2)))
 
         A = -0.15
         a = 0
         s = 50
         x0 = 560
         z0 = 640
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt((geom.X1[k, i] - x0) ** 2 + (geom.X3[k, i] - z0) ** 2)
-                if r <= a:
-                    θ[k, i] += A
-                else:
-                    θ[k, i] += A * xp.exp(-(((r - a) / s) ** 2))
+        r = xp.sqrt((geom.X1 - x0) ** 2 + (geom.X3 - z0) ** 2)
+        θ = xp.where(r <= a, θ + A, θ + A * xp.exp(-(((r - a) / s) ** 2)))
 
     elif param.case_number == 4:
         # Cold density current
-- 
2.43.0


From f326d0432a720cd1f59c4370ee86a24cca19e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 32/37] fix: DCMIP case 20 still used the old data layout

---
 wx_factory/init/dcmip.py | 49 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/wx_factory/init/dcmip.py b/wx_factory/init/dcmip.py
index ccb8cb7..c799d70 100644
--- a/wx_factory/init/dcmip.py
+++ b/wx_factory/init/dcmip.py
@@ -464,42 +464,41 @@ def dcmip_steady_state_mountain(geom: CubedSphere3D, metric, mtrx, param):
     # -----------------------------------------------------------------------
     #    Set topography
     # -----------------------------------------------------------------------
-    zbot = numpy.zeros(geom.coordVec_latlon.shape[2:])
-    zbot_itf_i = numpy.zeros(geom.coordVec_latlon_itf_i.shape[2:])
-    zbot_itf_j = numpy.zeros(geom.coordVec_latlon_itf_j.shape[2:])
-
-    for z, coord in zip(
-        [zbot, zbot_itf_i, zbot_itf_j], [geom.coordVec_latlon, geom.coordVec_latlon_itf_i, geom.coordVec_latlon_itf_j]
-    ):
-        lat = coord[1, 0, :, :]
-        lon = coord[0, 0, :, :]
+    def build_topo(lon, lat):
         r = numpy.arccos(math.sin(phim) * numpy.sin(lat) + math.cos(phim) * numpy.cos(lat) * numpy.cos(lon - lambdam))
+        z = numpy.zeros_like(r)
         z[r < Rm] = (
             (h0 / 2.0) * (1.0 + numpy.cos(math.pi * r[r < Rm] / Rm)) * numpy.cos(math.pi * r[r < Rm] / zetam) ** 2
         )  # mountain height
+        return z
+
+    zbot = build_topo(*geom.coordVec_latlon[:2, 0, :, :])
+    zbot_itf_i = build_topo(*geom.coordVec_latlon_itf_i[:2, 0, :, :])
+    zbot_itf_j = build_topo(*geom.coordVec_latlon_itf_j[:2, 0, :, :])
+
+    zbot_new = build_topo(*geom.get_floor(geom.polar)[:2])
+    zbot_itf_i_new = build_topo(*geom.get_itf_i_floor(geom.polar_itf_i)[:2])
+    zbot_itf_j_new = build_topo(*geom.get_itf_j_floor(geom.polar_itf_j)[:2])
+    zbot_itf_i_new[geom.floor_west_edge] = 0.0
+    zbot_itf_i_new[geom.floor_east_edge] = 0.0
+    zbot_itf_j_new[geom.floor_south_edge] = 0.0
+    zbot_itf_j_new[geom.floor_north_edge] = 0.0
 
     # Update the geometry object with the new bottom topography
-    geom.apply_topography(zbot, zbot_itf_i, zbot_itf_j)
+    geom.apply_topography(zbot, zbot_itf_i, zbot_itf_j, zbot_new, zbot_itf_i_new, zbot_itf_j_new)
     # And regenerate the metric to take this new topography into account
     metric.build_metric()
 
-    # -----------------------------------------------------------------------
-    #    PS (surface pressure)
-    # -----------------------------------------------------------------------
-
-    if gamma == 0.0:
-        ps = p0 * numpy.exp(-gravity * zbot / (Rd * T0))
-    else:
-        ps = p0 * (1.0 - gamma / T0 * zbot) ** exponent
+    height = geom.polar[2, ...]
 
     # -----------------------------------------------------------------------
     #    PRESSURE
     # -----------------------------------------------------------------------
 
     if gamma != 0:
-        p = p0 * (1.0 - gamma / T0 * geom.height) ** exponent
+        p = p0 * (1.0 - gamma / T0 * height) ** exponent
     else:
-        p = p0 * numpy.exp(-gravity / Rd * geom.height / T0)
+        p = p0 * numpy.exp(-gravity / Rd * height / T0)
 
     # -----------------------------------------------------------------------
     #    THE VELOCITIES ARE ZERO (STATE AT REST)
@@ -507,23 +506,23 @@ def dcmip_steady_state_mountain(geom: CubedSphere3D, metric, mtrx, param):
 
     # Zonal Velocity
 
-    u = 0.0
+    u = numpy.zeros_like(height)
 
     # Meridional Velocity
 
-    v = 0.0
+    v = numpy.zeros_like(height)
 
     # Vertical Velocity
 
-    w = 0.0
+    w = numpy.zeros_like(height)
 
-    u1_contra, u2_contra = wind2contra_2d(u, v, geom)
+    u1_contra, u2_contra, w = geom.wind2contra(u, v, w, metric)
 
     # -----------------------------------------------------------------------
     #    TEMPERATURE WITH CONSTANT LAPSE RATE
     # -----------------------------------------------------------------------
 
-    t = T0 - gamma * geom.height
+    t = T0 - gamma * height
 
     # -----------------------------------------------------------------------
     #    RHO (density)
-- 
2.43.0


From 0da487a718ded8daf18bcf3f3b087973bcd44316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:24 +0000
Subject: [PATCH 33/37] fix: the vertical profile of the acoustic wave (case
 77) used the horizontal distance

---
 wx_factory/init/dcmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/init/dcmip.py b/wx_factory/init/dcmip.py
index c799d70..f2c92d4 100644
--- a/wx_factory/init/dcmip.py
+++ b/wx_factory/init/dcmip.py
@@ -942,7 +942,7 @@ def acoustic_wave(geom: CubedSphere3D, metric: Metric3DTopo):
     lon = geom.polar[0, ...]
     r = re * xp.arccos(xp.cos(lat) * xp.cos(lon))
     f = numpy.where(r > rc, 0.0, (Δp / 2) * (1 + numpy.cos((math.pi * r) / rc)))
-    g = numpy.sin((eta_v * math.pi * r) / ztop)
+    g = numpy.sin((eta_v * math.pi * geom.height_new) / ztop)
     p_perturb = f * g
     pressure = p_mean + p_perturb
     # pdb.set_trace()
-- 
2.43.0


From d4661c920bd1b3f642790d8e75f983223aa2262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:58 +0000
Subject: [PATCH 34/37] fix: fgmres decided on stagnation per process, leaving
 the other processes waiting

---
 wx_factory/solvers/fgmres.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index f9dbbe3..222402b 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -261,12 +261,13 @@ def fgmres(
 
         # TODO : End cpu calculation here
         # Has GMRES stagnated?
+        # All processes must agree, otherwise some would leave while the others keep waiting for them
         indices = x != 0
-        if indices.any():
-            change = xp.max(xp.abs(update[indices] / x[indices]))
-            if change < 1e-12:
-                # No change, halt
-                return x, norm_r, norm_b, niter, -1, residuals
+        local_change = xp.max(xp.abs(update[indices] / x[indices])).item() if indices.any() else -1.0
+        change = comm.allreduce(local_change, op=MPI.MAX)
+        if 0.0 <= change < 1e-12:
+            # No change, halt
+            return x, norm_r, norm_b, niter, -1, residuals
 
         # test for convergence
         if norm_r < tol_relative:
-- 
2.43.0


From 077392620c54d32ca975448c61c04c4fa684bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 35/37] fix: the database of solver statistics repeated the
 right-hand side timings of earlier steps

---
 wx_factory/integrators/integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wx_factory/integrators/integrator.py b/wx_factory/integrators/integrator.py
index bc036b1..6a86e2e 100644
--- a/wx_factory/integrators/integrator.py
+++ b/wx_factory/integrators/integrator.py
@@ -105,6 +105,10 @@ class Integrator(ABC):
                 t1 - t0, self.sim_time, dt, solver_info, self.preconditioner, rhs_times
             )
 
+            # The next step must only report its own evaluations
+            if rhs_times is not None:
+                self.rhs.clear_timings()
+
         self.solver_info = None
 
         self.sim_time += dt
-- 
2.43.0


From 332be1a9dfe6f54b849e0c4e7281934582365d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:02 +0000
Subject: [PATCH 36/37] fix: Dirichlet advection operators failed on a single
 process

---
 wx_factory/stiff_pdes/JTV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/stiff_pdes/JTV.py b/wx_factory/stiff_pdes/JTV.py
index 7044606..86775b4 100644
--- a/wx_factory/stiff_pdes/JTV.py
+++ b/wx_factory/stiff_pdes/JTV.py
@@ -750,7 +750,7 @@ def advectionDirichlet(vec, alpha, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX]
 
@@ -1034,7 +1034,7 @@ def nonLinAdvecDirichlet(vec, u, alpha, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX] * u[indx - world.numPointsX]
 
@@ -1249,7 +1249,7 @@ def advectionUsquaredDir(vec, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX] ** 2
 
-- 
2.43.0


From a7d815279227c874c9c9fc45fba5d2c9008f72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 37/37] fix: periodic operators of the stiff test problems
 failed on a single process

---
 wx_factory/stiff_pdes/JTV.py | 123 +++++++++++++++++------------------
 1 file changed, 61 insertions(+), 62 deletions(-)

diff --git a/wx_factory/stiff_pdes/JTV.py b/wx_factory/stiff_pdes/JTV.py
index 86775b4..7c56d13 100644
--- a/wx_factory/stiff_pdes/JTV.py
+++ b/wx_factory/stiff_pdes/JTV.py
@@ -257,6 +257,15 @@ def getNeighData(vec, world, topData, bottomData, leftData, rightData):
 
 def getExtraPeriodicData(vec, world, topData, bottomData, leftData, rightData):
 
+    # a single processor is its own neighboor in every direction
+    if world.size == 1:
+        topData[:] = vec[: world.numPointsX]
+        bottomData[:] = vec[-world.numPointsX :]
+        leftData[:] = vec[world.numPointsX - 1 :: world.numPointsX]
+        rightData[:] = vec[:: world.numPointsX]
+
+        return topData, bottomData, leftData, rightData
+
     # sending top neighboor data
     sendPerData(vec, "top", world)
     recievePerData("top", world, topData)
@@ -490,23 +499,21 @@ def nonLinLapPeriodic(vec, u, epsilon, world):
     jacleftData = np.zeros(world.numPointsX)
     jacrightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
-
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
     # 2. matrix free application of matrix times vector
     N = world.numPointsX
@@ -566,15 +573,13 @@ def laplacianPeriodic(vec, epsilon, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
-
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     # 2. matrix free application of matrix times vector
     for j in range(0, world.numPointsY):  # depth of processor
@@ -629,15 +634,13 @@ def laplacianUsquared(vec, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
-
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     # 2. compute stencil
     N = world.numPointsX
@@ -870,14 +873,13 @@ def advectionPeriodic(vec, alpha, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     N = world.numPointsX
 
@@ -1084,27 +1086,25 @@ def nonLinAdvecPeriodic(vec, u, alpha, world):
     jacleftData = np.zeros(world.numPointsX)
     jacrightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
-
-        # print("---calling regular data---")
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    # print("---calling regular data---")
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        # print("---calling extra periodic data---")
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    # print("---calling extra periodic data---")
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        # print("---calling regular data---")
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    # print("---calling regular data---")
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
-        # print("---calling extra periodic data---")
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    # print("---calling extra periodic data---")
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
     N = world.numPointsX
 
@@ -1281,14 +1281,13 @@ def advectionUsquared(vec, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     N = world.numPointsX
 
-- 
2.43.0

