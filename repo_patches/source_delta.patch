From cd7bac8a8cff53aff5054fc6c92881cbc58b2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:08 +0000
Subject: [PATCH 01/11] fix: batched anomaly solves no longer loop forever

Under vmap the loop condition re-evaluated the Kepler residual; compiled into a
different fusion than the copy in the loop body it could disagree at round-off
level, so that a lane was kept unconverged by the condition while the body left
it (and its iteration count) untouched. adx.prop.kepler never returned, e.g. for
a high-eccentricity orbit in km units with 12 epochs in float32. Carry the
residual in the loop state instead.
---
 src/astrodynx/twobody/_kep_equ.py | 37 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..10b0175 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -434,17 +434,20 @@ def solve_kepler_hypb(
     H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        H_new = H - kepler_equ_hypb(H, e, N) / dH(H, e)
-        return (iter_count + 1, H_new, H)
-
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, H0 + 2 * tol))
+        iter_count, H, f = val
+        H_new = H - f / dH(H, e)
+        return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
+
+    # The residual is carried so that the loop condition is never recomputed: under
+    # vmap a residual re-evaluated at round-off level may otherwise differ between
+    # the condition and the body, and the loop would never end.
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N)))
     return H
 
 
@@ -501,19 +504,21 @@ def solve_kepler_uni(
     chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
-        )
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        chi_new = chi - kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu) / dchi(
-            chi, alpha, r0, sigma0
+        iter_count, chi, f = val
+        chi_new = chi - f / dchi(chi, alpha, r0, sigma0)
+        return (
+            iter_count + 1,
+            chi_new,
+            kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu),
         )
-        return (iter_count + 1, chi_new, chi)
 
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, chi0 + 2 * tol))
+    # The residual is carried, see solve_kepler_hypb.
+    f0 = kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)
+    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f0))
     return chi
-- 
2.43.0


From a0ecdd0d31776a0bf270348233eb812c5ad34d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 02/11] fix: universal Kepler solver converges for long
 hyperbolic arcs

Starting Newton at sqrt(mu)*|alpha|*deltat puts the generalized anomaly far above
the root of a hyperbolic orbit; one unit is gained per iteration, so arcs beyond
about 50 (or an overflow of cosh) silently returned a wrong state. Start from an
upper bound of the hyperbolic anomaly instead.
---
 src/astrodynx/twobody/_kep_equ.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 10b0175..1446687 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -451,6 +451,25 @@ def solve_kepler_hypb(
     return H
 
 
+def _chi0_hypb(
+    deltat: DTypeLike, alpha: DTypeLike, r0: DTypeLike, sigma0: DTypeLike, mu: DTypeLike
+) -> Array:
+    r"""Initial guess of the generalized anomaly for a hyperbolic orbit.
+
+    With $H = H_0 + \sqrt{-\alpha}\chi$ the universal equation reads
+    $e \sinh H - H = N$. The guess is an upper bound of $|H|$, from which Newton's
+    method converges monotonically for every time since the initial time.
+    """
+    k = jnp.sqrt(jnp.where(alpha < 0, -alpha, 1.0))
+    e_cosh, e_sinh = 1 - r0 * alpha, sigma0 * k
+    e = jnp.sqrt(jnp.maximum((e_cosh - e_sinh) * (e_cosh + e_sinh), 1.0))
+    H0 = jnp.arcsinh(e_sinh / e)
+    N = jnp.sqrt(mu) * deltat * k**3 + e_sinh - H0
+    H_bound = jnp.cbrt(6 * jnp.abs(N) / e)
+    H = jnp.sign(N) * jnp.arcsinh((jnp.abs(N) + H_bound) / e)
+    return (H - H0) / k
+
+
 def solve_kepler_uni(
     deltat: DTypeLike,
     alpha: DTypeLike,
@@ -501,7 +520,11 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
+    chi0 = jnp.where(
+        alpha < 0,
+        _chi0_hypb(deltat, alpha, r0, sigma0, mu),
+        jnp.sqrt(mu) * jnp.abs(alpha) * deltat,
+    )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, _, f = val
-- 
2.43.0


From 48ed3600329078afc97dbcf4dbc5a0bc926ec1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:15 +0000
Subject: [PATCH 03/11] fix: universal functions keep their digits for
 near-parabolic orbits

The closed forms of U2..U5 cancel for small |alpha*chi^2|; an exactly parabolic
orbit, whose alpha is round-off instead of 0, was propagated with errors up to
100 %. Use the power series there.
---
 src/astrodynx/twobody/_uniformulas.py | 30 +++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..f1e60e5 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -1,3 +1,4 @@
+import math
 import jax.numpy as jnp
 import jax
 from jax.typing import ArrayLike, DTypeLike
@@ -50,6 +51,23 @@ def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array
     return jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) / jnp.sqrt(mu)
 
 
+def _near_parabolic(
+    n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: ArrayLike
+) -> Array:
+    r"""The universal function Un, from its power series where $|\alpha \chi^2| < 1$.
+
+    There the closed forms subtract nearly equal numbers, so that near-parabolic
+    orbits (and those with $\alpha = 0$ up to round-off) would lose all digits.
+    """
+    z = alpha * chi**2
+    small = jnp.abs(z) < 1
+    z = jnp.where(small, z, 0)
+    series = 0.0
+    for k in reversed(range(10)):
+        series = 1 / math.factorial(2 * k + n) - z * series
+    return jnp.where(small, chi**n * series, closed_form)
+
+
 def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U0
 
@@ -195,7 +213,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc2(chi, alpha)
         Array([0.4596..., 1.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (1 - jnp.cos(jnp.sqrt(alpha) * chi)) / alpha,
         lambda: jax.lax.cond(
@@ -204,6 +222,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**2 / 2,
         ),
     )
+    return _near_parabolic(2, chi, alpha, closed_form)
 
 
 def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -247,7 +266,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc3(chi, alpha)
         Array([0.1585..., 1.0907...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (jnp.sqrt(alpha) * chi - jnp.sin(jnp.sqrt(alpha) * chi))
         / alpha
@@ -260,6 +279,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**3 / 6,
         ),
     )
+    return _near_parabolic(3, chi, alpha, closed_form)
 
 
 def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -303,7 +323,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc4(chi, alpha)
         Array([0.0403..., 0.5838...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (alpha * chi**2 - 2 + 2 * jnp.cos(jnp.sqrt(alpha) * chi))
         / (2 * alpha**2),
@@ -314,6 +334,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**4 / 24,
         ),
     )
+    return _near_parabolic(4, chi, alpha, closed_form)
 
 
 def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -357,7 +378,7 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc5(chi, alpha)
         Array([0.2426..., 1.6411...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (
             alpha**2 * chi**3
@@ -376,3 +397,4 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**5 / 120,
         ),
     )
+    return _near_parabolic(5, chi, alpha, closed_form)
-- 
2.43.0


From d134bc5d8bdff6b91edb17bf5f73f87fa3b332fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:03 +0000
Subject: [PATCH 04/11] fix: rv2coe puts the argument of periapsis and true
 anomaly in the right half

Both angles were always in [0, pi], so coe2rv(rv2coe(r, v)) returned another
state whenever r.v < 0 or the periapsis lies below the reference plane.
---
 src/astrodynx/twobody/_orb_elements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..cc9f429 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -131,7 +131,7 @@ def rv2coe(
         f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. The argument of periapsis is replaced by $2\pi - \omega$ if $e_z < 0$, and the true anomaly by $2\pi - f$ if $\boldsymbol{r} \cdot \boldsymbol{v} < 0$.
 
     References
         Vallado, 2013, pp.114.
@@ -170,7 +170,10 @@ def rv2coe(
     N = node_vec(h_vec)
     raan = right_ascension(N)
     argp = argument_of_periapsis(N, e_vec)
+    argp = jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
     true_anom = true_anomaly(pos_vec, e_vec)
+    rdotv = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True)
+    true_anom = jnp.where(rdotv < 0, 2 * jnp.pi - true_anom, true_anom)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From 31c4a38a76952cf6b08e9f1772e1f0999ad00313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:25 +0000
Subject: [PATCH 05/11] fix: radius_islow works with a root-finding event

diffrax evaluates the condition function by keyword (t, y, args) when an
event has a root finder, so the state parameter has to be called y; before,
Event(radius_islow, root_finder=...) raised TypeError in every mode.
---
 src/astrodynx/events/radius.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/events/radius.py b/src/astrodynx/events/radius.py
index f426e0a..7884b4b 100644
--- a/src/astrodynx/events/radius.py
+++ b/src/astrodynx/events/radius.py
@@ -6,13 +6,13 @@ from typing import Any
 
 
 def radius_islow(
-    t: DTypeLike, x: ArrayLike, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
+    t: DTypeLike, y: ArrayLike, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
 ) -> Array:
     r"""Returns the difference between the radius and the minimum radius.
 
     Args:
         t: The time.
-        x: (N,) The state vector, where the first 3 elements are the position vector.
+        y: (N,) The state vector, where the first 3 elements are the position vector.
         args: Static arguments, which must contain a key "rmin" with the minimum radius.
         kwargs: Any additional arguments.
 
@@ -30,4 +30,4 @@ def radius_islow(
         This event can be used to terminate the propagation of an orbit when the radius falls below a certain threshold.
     """
     rmin = args["rmin"]
-    return jnp.linalg.vector_norm(x[:3]) - rmin
+    return jnp.linalg.vector_norm(y[:3]) - rmin
-- 
2.43.0


From 975a5ab6442f247887a70b79745300c479eb339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:47 +0000
Subject: [PATCH 06/11] fix: fixed_steps takes steps of exactly dt, the last
 one shortened

ConstantStepSize only takes the first step with dt0 when dt0 does not divide
the span and shrinks all the following ones (0, .3, .5, .75, 1 for dt=.3),
contrary to the documented behaviour.
---
 src/astrodynx/prop/_cowell_method.py | 43 +++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_cowell_method.py b/src/astrodynx/prop/_cowell_method.py
index 7e37b33..b86e7de 100644
--- a/src/astrodynx/prop/_cowell_method.py
+++ b/src/astrodynx/prop/_cowell_method.py
@@ -1,4 +1,5 @@
 from astrodynx import diffeq
+from diffrax import RESULTS
 from jaxtyping import ArrayLike, DTypeLike, PyTree
 from typing import Any, NamedTuple
 
@@ -145,6 +146,46 @@ def cowell_method(
     )
 
 
+class _FixedStepSize(diffeq.AbstractStepSizeController):
+    """Steps of exactly ``dt0``, the last one shortened to end at the final time.
+
+    :class:`diffeq.ConstantStepSize` shrinks every step after the first one when the
+    step size does not divide the time span.
+    """
+
+    def wrap(self, direction: Any) -> "_FixedStepSize":
+        return self
+
+    def init(
+        self,
+        terms: Any,
+        t0: Any,
+        t1: Any,
+        y0: Any,
+        dt0: Any,
+        args: Any,
+        func: Any,
+        error_order: Any,
+    ) -> tuple[Any, Any]:
+        # Epochs are t0 + n * dt0, so that rounding does not accumulate.
+        return t0 + dt0, (t0, dt0, 1)
+
+    def adapt_step_size(
+        self,
+        t0: Any,
+        t1: Any,
+        y0: Any,
+        y1_candidate: Any,
+        args: Any,
+        y_error: Any,
+        error_order: Any,
+        controller_state: Any,
+    ) -> tuple[bool, Any, Any, bool, Any, Any]:
+        t0_sim, dt0, n = controller_state
+        t1_next = t0_sim + (n + 1) * dt0
+        return True, t1, t1_next, False, (t0_sim, dt0, n + 1), RESULTS.successful
+
+
 def fixed_steps(
     orbdyn: OrbDynx,
     x0: ArrayLike,
@@ -217,7 +258,7 @@ def fixed_steps(
         y0=x0,
         args=orbdyn.args,
         max_steps=max_steps,
-        stepsize_controller=diffeq.ConstantStepSize(),
+        stepsize_controller=_FixedStepSize(),
         saveat=diffeq.SaveAt(t0=True, steps=True),
         event=orbdyn.event,
     )
-- 
2.43.0


From b00d43fab637228f29b0725a9b2c5e88a03c6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:41 +0000
Subject: [PATCH 07/11] fix: elliptic universal Kepler solver converges for
 every time

From the guess sqrt(mu)*|alpha|*dt Newton's method sometimes wandered for all
of its 50 iterations on eccentric orbits (e > 0.88) and the unconverged anomaly
was returned, e.g. r off by 3e-4 for e=0.953 and 1/6 of a period. Start from an
upper bound of the eccentric anomaly, from which convergence is monotone.
---
 src/astrodynx/twobody/_kep_equ.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 1446687..744d634 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -470,6 +470,28 @@ def _chi0_hypb(
     return (H - H0) / k
 
 
+def _chi0_elps(
+    deltat: DTypeLike, alpha: DTypeLike, r0: DTypeLike, sigma0: DTypeLike, mu: DTypeLike
+) -> Array:
+    r"""Initial guess of the generalized anomaly for an elliptic orbit.
+
+    With $E = E_0 + \sqrt{\alpha}\chi$ the universal equation reads
+    $E - e \sin E = M$. With whole revolutions taken off, the guess is an upper bound
+    of $|E|$ not above $\pi$, from which Newton's method converges monotonically.
+    """
+    k = jnp.sqrt(jnp.where(alpha > 0, alpha, 1.0))
+    e_cos, e_sin = 1 - r0 * alpha, sigma0 * k
+    e_sq = e_cos**2 + e_sin**2
+    circular = e_sq < jnp.finfo(jnp.result_type(e_sq, float)).tiny
+    e = jnp.where(circular, 0.0, jnp.sqrt(jnp.where(circular, 1.0, e_sq)))
+    E0 = jnp.arctan2(e_sin, jnp.where(circular, 1.0, e_cos))
+    M = jnp.sqrt(mu) * deltat * k**3 + E0 - e_sin
+    M_rev = 2 * jnp.pi * jnp.round(M / (2 * jnp.pi))
+    M_rem = M - M_rev
+    E = M_rev + jnp.sign(M_rem) * jnp.minimum(jnp.abs(M_rem) + e, jnp.pi)
+    return (E - E0) / k
+
+
 def solve_kepler_uni(
     deltat: DTypeLike,
     alpha: DTypeLike,
@@ -523,7 +545,7 @@ def solve_kepler_uni(
     chi0 = jnp.where(
         alpha < 0,
         _chi0_hypb(deltat, alpha, r0, sigma0, mu),
-        jnp.sqrt(mu) * jnp.abs(alpha) * deltat,
+        jnp.where(alpha > 0, _chi0_elps(deltat, alpha, r0, sigma0, mu), 0.0),
     )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-- 
2.43.0


From ebba93076accb9e7a8bd639452f27dc9e240c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 08/11] fix: coe2rv broadcasts every element as documented

An eccentricity given per orbit with one common true anomaly raised, and one
orbit with several mu gave positions and velocities of different shapes.
---
 src/astrodynx/twobody/_orb_elements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index cc9f429..32363e4 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -258,6 +258,9 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    p, e, incl, raan, argp, true_anom, mu = jnp.broadcast_arrays(
+        p, e, incl, raan, argp, true_anom, mu
+    )
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From b962c9ebf452868c34722b48c69bb95034eab61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 09/11] fix: derivatives of solve_kepler_hypb and
 solve_kepler_uni are those of the root

They were those of the Newton iteration: of the initial guess where it is
accepted at once (circular orbits, periapsis, no time elapsed), NaN for a
hyperbola at periapsis, and far off near the parabola. Property C17.
---
 src/astrodynx/twobody/_kep_equ.py | 32 +++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 744d634..18bbc66 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -1,3 +1,5 @@
+from collections.abc import Callable
+
 import jax.numpy as jnp
 from jax.typing import ArrayLike, DTypeLike
 from jax import Array
@@ -447,8 +449,18 @@ def solve_kepler_hypb(
     # The residual is carried so that the loop condition is never recomputed: under
     # vmap a residual re-evaluated at round-off level may otherwise differ between
     # the condition and the body, and the loop would never end.
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N)))
-    return H
+    def solve_fn(f: Callable[[Array], Array], H0: Array) -> Array:
+        _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, f(H0)))
+        return H
+
+    # The derivative is that of the root (implicit function theorem), not that of
+    # the iteration, which may have ended at the initial guess.
+    return jax.lax.custom_root(
+        lambda H: kepler_equ_hypb(H, e, N),
+        H0,
+        solve_fn,
+        lambda g, y: y / g(jnp.ones_like(y)),
+    )
 
 
 def _chi0_hypb(
@@ -563,7 +575,15 @@ def solve_kepler_uni(
             kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu),
         )
 
-    # The residual is carried, see solve_kepler_hypb.
-    f0 = kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f0))
-    return chi
+    # The residual is carried, and the derivative that of the root, see
+    # solve_kepler_hypb.
+    def solve_fn(f: Callable[[Array], Array], chi0: Array) -> Array:
+        _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f(chi0)))
+        return chi
+
+    return jax.lax.custom_root(
+        lambda chi: kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu),
+        chi0,
+        solve_fn,
+        lambda g, y: y / g(jnp.ones_like(y)),
+    )
-- 
2.43.0


From 5a3e617cf4517876ddc5fd915895ff8f8703083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 10/11] fix: derivatives of ufunc0 and ufunc1 with respect to
 alpha near the parabola

They were zero at alpha = 0 and lost all digits close to it, as those of
kepler_equ_uni did with them. Property C17.
---
 src/astrodynx/twobody/_uniformulas.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index f1e60e5..2d7e042 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -57,7 +57,8 @@ def _near_parabolic(
     r"""The universal function Un, from its power series where $|\alpha \chi^2| < 1$.
 
     There the closed forms subtract nearly equal numbers, so that near-parabolic
-    orbits (and those with $\alpha = 0$ up to round-off) would lose all digits.
+    orbits (and those with $\alpha = 0$ up to round-off) would lose all digits,
+    of their value or of their derivative with respect to $\alpha$.
     """
     z = alpha * chi**2
     small = jnp.abs(z) < 1
@@ -109,7 +110,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc0(chi, alpha)
         Array([ 0.5403..., -0.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.cos(jnp.sqrt(alpha) * chi),
         lambda: jax.lax.cond(
@@ -118,6 +119,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: jnp.ones_like(chi),
         ),
     )
+    return _near_parabolic(0, chi, alpha, closed_form)
 
 
 def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -161,7 +163,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc1(chi, alpha)
         Array([0.8414..., 0.9092...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.sin(jnp.sqrt(alpha) * chi) / jnp.sqrt(alpha),
         lambda: jax.lax.cond(
@@ -170,6 +172,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi,
         ),
     )
+    return _near_parabolic(1, chi, alpha, closed_form)
 
 
 def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
-- 
2.43.0


From 331e3f47ea0a394078566f64fde7c39ade8af7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 11/11] fix: rv2coe has derivatives at the apsides and the
 nodes

The angles came from the norm of a cross product, whose derivative is NaN
where the vectors are in line. Property C17.
---
 src/astrodynx/twobody/_orb_elements.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 32363e4..92aa87b 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -127,11 +127,11 @@ def rv2coe(
         i &= \arccos(h_z / h) \\
         \boldsymbol{N} &= \boldsymbol{k} \times \boldsymbol{h} \\
         \Omega &= \arctan2(N_y, N_x) \\
-        \omega &= \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e}) \\
-        f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
+        \omega &= \arctan2(\boldsymbol{h} \cdot (\boldsymbol{N}\times \boldsymbol{e}), h \, \boldsymbol{N} \cdot \boldsymbol{e}) \\
+        f &= \arctan2(\boldsymbol{h} \cdot (\boldsymbol{e}\times \boldsymbol{r}), h \, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. The argument of periapsis is replaced by $2\pi - \omega$ if $e_z < 0$, and the true anomaly by $2\pi - f$ if $\boldsymbol{r} \cdot \boldsymbol{v} < 0$.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. The angles are in $[0, 2\pi)$.
 
     References
         Vallado, 2013, pp.114.
@@ -169,11 +169,18 @@ def rv2coe(
     incl = inclination(h_vec)
     N = node_vec(h_vec)
     raan = right_ascension(N)
-    argp = argument_of_periapsis(N, e_vec)
-    argp = jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
-    true_anom = true_anomaly(pos_vec, e_vec)
-    rdotv = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True)
-    true_anom = jnp.where(rdotv < 0, 2 * jnp.pi - true_anom, true_anom)
+
+    def angle(a: Array, b: ArrayLike) -> Array:
+        # Signed by the angular momentum: a norm has no derivative where the
+        # vectors are in line, that is at the apsides and the nodes.
+        ang = jnp.arctan2(
+            jnp.sum(h_vec * jnp.cross(a, b), axis=-1, keepdims=True),
+            h_mag * jnp.sum(a * b, axis=-1, keepdims=True),
+        )
+        return jnp.where(ang < 0, 2 * jnp.pi + ang, ang)
+
+    argp = angle(N, e_vec)
+    true_anom = angle(e_vec, pos_vec)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0

