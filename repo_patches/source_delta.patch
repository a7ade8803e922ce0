From 4d2efcaf700bfbea5edb9f925d6ea2c9aa5d9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:48 +0000
Subject: [PATCH 1/9] fix: rv2coe lost the quadrant of the argument of
 periapsis and of the true anomaly

---
 src/astrodynx/twobody/_orb_elements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..b628dee 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -95,13 +95,13 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         $$
         \omega = \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e})
         $$
-        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
+        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector. If $e_z < 0$, the periapsis lies below the equatorial plane and $\omega$ is replaced by $2\pi - \omega$.
     """
     argp = jnp.arctan2(
         vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
         jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
     )
-    return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
+    return jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
 
 
 def rv2coe(
@@ -171,6 +171,8 @@ def rv2coe(
     raan = right_ascension(N)
     argp = argument_of_periapsis(N, e_vec)
     true_anom = true_anomaly(pos_vec, e_vec)
+    r_dot_v = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True)
+    true_anom = jnp.where(r_dot_v < 0, 2 * jnp.pi - true_anom, true_anom)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From 5086ceb8183fe281966a43cb81161cf6bceabfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:03 +0000
Subject: [PATCH 2/9] fix: prop.kepler could not be traced (jit, vmap, grad)
 because of .item()

---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..43c98f1 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, sigma0[0], mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From 5e7448c71691269e247a42d8f0a73793dfab5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:24 +0000
Subject: [PATCH 3/9] fix: coe2rv rejected batched eccentricities with a scalar
 true anomaly

---
 src/astrodynx/twobody/_orb_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index b628dee..dde38fa 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -257,6 +257,7 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    e, true_anom = jnp.broadcast_arrays(e, true_anom)
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From 036ea233b09640c3e21270f603a49f3f47053f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 4/9] fix: solve_kepler_hypb returned NaN for large negative
 mean anomalies (cancellation in the starting value)

---
 src/astrodynx/twobody/_kep_equ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..6f6e44a 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -431,7 +431,7 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, H, _ = val
-- 
2.43.0


From f123c11fe93af5a6f56e4842ebf7e35747ad0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:34 +0000
Subject: [PATCH 5/9] fix: solve_kepler_uni started exponentially far from the
 root on hyperbolic orbits and ran out of iterations

---
 src/astrodynx/twobody/_kep_equ.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 6f6e44a..a15af50 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -498,7 +498,14 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
+    # A linear guess is exponentially far off on hyperbolic orbits; use the asymptote.
+    beta = jnp.sqrt(jnp.where(alpha < 0, -alpha, 1.0))
+    scale = 1 + jnp.sign(deltat) * sigma0 * beta + r0 * beta**2
+    chi0 = jnp.where(
+        alpha < 0,
+        jnp.arcsinh(jnp.sqrt(mu) * deltat * beta**3 / scale) / beta,
+        jnp.sqrt(mu) * jnp.abs(alpha) * deltat,
+    )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, chi, _ = val
-- 
2.43.0


From d55978ad544cd77fb6a51b4a6653665258fdfb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:59 +0000
Subject: [PATCH 6/9] fix: ufunc0 and ufunc1 rejected a whole-number
 generalized anomaly

---
 src/astrodynx/twobody/_uniformulas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..e003c9f 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -97,7 +97,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(chi),
+            lambda: jnp.ones_like(jnp.sqrt(alpha) * chi),
         ),
     )
 
@@ -149,7 +149,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.sinh(jnp.sqrt(-alpha) * chi) / jnp.sqrt(-alpha),
-            lambda: chi,
+            lambda: chi * jnp.ones_like(jnp.sqrt(alpha)),
         ),
     )
 
-- 
2.43.0


From ab2bcf31a316b64dea805de538af6f81912c42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:00 +0000
Subject: [PATCH 7/9] fix: make at least one Newton step in the hyperbolic and
 universal Kepler solvers

When the start value already satisfied the tolerance (zero or tiny time of
flight), the solvers returned it without a step. The value is right, but its
derivative is that of the guess: jax.jacfwd of prop.kepler with respect to
time at t = 0 gave (r0 * alpha) * v0 instead of v0.
---
 src/astrodynx/twobody/_kep_equ.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a15af50..61c4595 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -437,7 +437,8 @@ def solve_kepler_hypb(
         iter_count, H, _ = val
         not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
         under_max_iter = iter_count < max_iter
-        return not_converged & under_max_iter
+        # One step at least: the derivative of the start value is not that of the root.
+        return (not_converged | (iter_count == 0)) & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, H, _ = val
@@ -513,7 +514,8 @@ def solve_kepler_uni(
             jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
         )
         under_max_iter = iter_count < max_iter
-        return not_converged & under_max_iter
+        # One step at least: the derivative of the start value is not that of the root.
+        return (not_converged | (iter_count == 0)) & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, chi, _ = val
-- 
2.43.0


From 4df0a95ebc56680243ace7655bd8444dd9146fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:54 +0000
Subject: [PATCH 8/9] fix: vmapped hyperbolic and universal Kepler solvers
 could loop for ever

Under vmap the loop test is evaluated in the loop's condition and again in
its body; the residual, rounded differently in the two, could fall on either
side of tol, so that the loop went on and changed nothing. Test it once, in
the body, and carry the result.
---
 src/astrodynx/twobody/_kep_equ.py | 38 ++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 61c4595..83be352 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -434,18 +434,21 @@ def solve_kepler_hypb(
     H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
+        # vmap evaluates this twice per step: a residual rounded differently each time
+        # could fall on either side of tol and never end, so it is tested in body_fn.
+        iter_count, _, not_converged = val
         under_max_iter = iter_count < max_iter
-        # One step at least: the derivative of the start value is not that of the root.
-        return (not_converged | (iter_count == 0)) & under_max_iter
+        return not_converged & under_max_iter
 
-    def body_fn(val: tuple[int, Array, Array]) -> Array:
+    def body_fn(val: tuple[int, Array, Array]) -> tuple[int, Array, Array]:
         iter_count, H, _ = val
         H_new = H - kepler_equ_hypb(H, e, N) / dH(H, e)
-        return (iter_count + 1, H_new, H)
+        not_converged = jnp.abs(kepler_equ_hypb(H_new, e, N)) > tol
+        return (iter_count + 1, H_new, not_converged)
 
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, H0 + 2 * tol))
+    # One step at least: the derivative of the start value is not that of the root.
+    init = (0, H0, jnp.ones_like(H0, dtype=bool))
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, init)
     return H
 
 
@@ -509,20 +512,23 @@ def solve_kepler_uni(
     )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
-        )
+        # vmap evaluates this twice per step: a residual rounded differently each time
+        # could fall on either side of tol and never end, so it is tested in body_fn.
+        iter_count, _, not_converged = val
         under_max_iter = iter_count < max_iter
-        # One step at least: the derivative of the start value is not that of the root.
-        return (not_converged | (iter_count == 0)) & under_max_iter
+        return not_converged & under_max_iter
 
-    def body_fn(val: tuple[int, Array, Array]) -> Array:
+    def body_fn(val: tuple[int, Array, Array]) -> tuple[int, Array, Array]:
         iter_count, chi, _ = val
         chi_new = chi - kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu) / dchi(
             chi, alpha, r0, sigma0
         )
-        return (iter_count + 1, chi_new, chi)
+        not_converged = (
+            jnp.abs(kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu)) > tol
+        )
+        return (iter_count + 1, chi_new, not_converged)
 
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, chi0 + 2 * tol))
+    # One step at least: the derivative of the start value is not that of the root.
+    init = (0, chi0, jnp.ones_like(chi0, dtype=bool))
+    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, init)
     return chi
-- 
2.43.0


From 45b8dcc6a67f5eaf700cff7e9363495da59883ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 9/9] fix: solve_kepler_elps returned its starting value for a
 small tolerance or a large anomaly

The loop was entered through |E0 - (E0 + 2 tol)| > tol, which rounds to false
once tol is below the spacing of floating-point numbers at E0 (M above some
30 rad in single precision with the default tolerance).
---
 src/astrodynx/twobody/_kep_equ.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 83be352..1a0655d 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -393,7 +393,8 @@ def solve_kepler_elps(
         E_new = E - f / dE(E, e)
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
+    # E0 + 2 * tol would round back to E0 for a small tolerance or a large anomaly.
+    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))
     return E
 
 
-- 
2.43.0

