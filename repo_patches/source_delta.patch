From b8528c92a6a2916aed1966ee490b68e9ee7cdbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 01/29] fix: BufferedSampler skipped every second buffered draw

The index was advanced once when selecting the branch and once more after
indexing, so only every other pre-computed draw was returned (and the last
index could run past the buffer, where it is clamped and repeats a draw).
---
 src/bijx/samplers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 982fc21..0abf32f 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -192,7 +192,11 @@ class BufferedSampler(Distribution):
                     **kwargs,
                 ),
             ),
-            lambda sampler: (sampler, self.buffer_index + 1, self.buffer.get_value()),
+            lambda sampler: (
+                sampler,
+                self.buffer_index.get_value(),
+                self.buffer.get_value(),
+            ),
             self.dist,
         )
 
-- 
2.43.0


From dc01fbba5a78e0949cfd1df6a3a06dbcf26ce3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 02/29] fix: BufferedSampler could return stale or
 uninitialised draws after an interrupt

The index was reset before the new buffer was stored. An exception arriving
in between (e.g. KeyboardInterrupt) left an index of zero pointing into the
old buffer, or into uninitialised memory on the first fill.
---
 src/bijx/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 0abf32f..071ea40 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -200,8 +200,9 @@ class BufferedSampler(Distribution):
             self.dist,
         )
 
-        self.buffer_index.set_value(new_buffer_index)
+        # buffer first: the index must never point into draws not yet stored
         self.buffer.set_value(new_buffer)
+        self.buffer_index.set_value(new_buffer_index)
 
         draw = jax.tree.map(lambda x: x[self.buffer_index.get_value()], self.buffer)
         self.buffer_index.set_value(self.buffer_index + 1)
-- 
2.43.0


From 24ee47ce0e3e317bccce6114b20303e2ac18d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 03/29] fix: ContFlowRK4 ignored the length of the integration
 interval

Time is rescaled to [0, 1] but the velocity was only multiplied by the sign
of the interval, not by its length, so any interval of length other than
one gave the wrong flow.
---
 src/bijx/bijections/continuous.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 63e6336..b25d4cf 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -219,13 +219,12 @@ class ContFlowRK4(Bijection):
         steps = steps if steps is not None else self.steps
 
         delta_t = t_end - t_start
-        sgn = jnp.where(delta_t < 0, -1.0, 1.0)
 
         def vf(s, state, args):
             x, log_density = state
             t = t_start + s * delta_t
             dx_dt, dld_dt = jax.tree.map(
-                lambda x: sgn * x,
+                lambda x: delta_t * x,
                 self.vf(t, x, **args),
             )
             return dx_dt, dld_dt
-- 
2.43.0


From 180496f10bc5f5e805bcfdf438a9d0db225a2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 04/29] fix: continuous flows could not reverse over an
 overridden time interval

reverse() passed its own t_start/t_end to solve_flow, so the documented
overrides raised a TypeError. As for every bijection, reverse() with the same
arguments now undoes forward().
---
 src/bijx/bijections/continuous.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index b25d4cf..dddd05d 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -130,7 +130,7 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(x, log_density, **kwargs)
         return jax.tree.map(lambda x: x[-1], sol.ys)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         """Solve the ODE flow in reverse and return the final state.
 
         Note that the same optional overrides as in :meth:`solve_flow`
@@ -142,8 +142,8 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(
             x,
             log_density,
-            t_start=self.config.t_end,
-            t_end=self.config.t_start,
+            t_start=self.config.t_end if t_end is None else t_end,
+            t_end=self.config.t_start if t_start is None else t_start,
             **kwargs,
         )
         return jax.tree.map(lambda x: x[-1], sol.ys)
@@ -243,12 +243,12 @@ class ContFlowRK4(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=self.t_end if t_end is None else t_end,
+            t_end=self.t_start if t_start is None else t_start,
             **kwargs,
         )
 
@@ -347,12 +347,12 @@ class ContFlowCG(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=self.t_end if t_end is None else t_end,
+            t_end=self.t_start if t_start is None else t_start,
             **kwargs,
         )
 
-- 
2.43.0


From defcf88e7af552e6de87504e318252fd1c9145cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 05/29] fix: CondInverse.invert() was shadowed by an attribute
 of the same name

---
 src/bijx/bijections/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/base.py b/src/bijx/bijections/base.py
index 36a727b..be32345 100644
--- a/src/bijx/bijections/base.py
+++ b/src/bijx/bijections/base.py
@@ -154,12 +154,12 @@ class CondInverse(Bijection):
     """
 
     def __init__(self, bijection: Bijection, invert: bool = True):
-        self.invert = Const(jnp.array(invert, dtype=bool))
+        self.inverted = Const(jnp.array(invert, dtype=bool))
         self.bijection = bijection
 
     def forward(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted,
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             x,
@@ -169,7 +169,7 @@ class CondInverse(Bijection):
 
     def reverse(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted,
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             x,
@@ -178,7 +178,7 @@ class CondInverse(Bijection):
         )
 
     def invert(self):
-        return CondInverse(self.bijection, ~self.invert)
+        return CondInverse(self.bijection, ~self.inverted.get_value())
 
 
 class Inverse(Bijection):
-- 
2.43.0


From 31d000aca01f5c6c0aedf63ced321b9e72635a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 06/29] fix: Transformed.log_density dropped keyword arguments
 for the bijection

---
 src/bijx/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 071ea40..d3dec0e 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -113,7 +113,7 @@ class Transformed(Distribution):
             Log density values at the input points.
         """
         log_density = jnp.zeros(self.get_batch_shape(x))
-        x, delta = self.bijection.reverse(x, log_density)
+        x, delta = self.bijection.reverse(x, log_density, **kwargs)
         return self.prior.log_density(x, **kwargs) - delta
 
 
-- 
2.43.0


From 99ef8ea902fb5a97811021bce054b2e4523221dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 07/29] fix: HaarDistribution.sample lacked the default batch
 shape of the interface

---
 src/bijx/lie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 3138d93..326f577 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -258,7 +258,7 @@ class HaarDistribution(ArrayDistribution):
         base_shape = (*lat_shape, len(lat_shape))
         return cls(n, base_shape, rngs)
 
-    def sample(self, batch_shape, rng=None, **kwargs):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Sample SU(N) matrices from Haar measure.
 
         Args:
-- 
2.43.0


From e34c1c290b8a0d4ba5dd4f81957f6adeb85d497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 08/29] fix: normal and mixture distributions rejected the
 keyword arguments of the interface

Transformed passes sampling keyword arguments to its prior, so conditional
flows over these priors raised a TypeError.
---
 src/bijx/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 86d5253..2999556 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -405,7 +405,7 @@ class MultivariateNormal(ArrayDistribution):
         cholesky = _cov_to_cholesky(cov)
         return cls(mean, cholesky, rngs=rngs, var_cls=var_cls, epsilon=epsilon)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -425,7 +425,7 @@ class MultivariateNormal(ArrayDistribution):
         safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
         return log_density - jnp.log(safe_diagonal).sum(-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -580,7 +580,7 @@ class DiagonalNormal(ArrayDistribution):
     def scales(self):
         return jnp.abs(self.scales_bare) + self.epsilon
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -595,7 +595,7 @@ class DiagonalNormal(ArrayDistribution):
         log_density -= 0.5 * self.dim * jnp.log(2 * jnp.pi)
         return log_density - jnp.sum(jnp.log(self.scales), axis=-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -653,7 +653,7 @@ class MixtureStack(Distribution):
     def get_batch_shape(self, x):
         return self._dist(0).get_batch_shape(x)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
@@ -667,7 +667,7 @@ class MixtureStack(Distribution):
         )
         return self._dist(component_indices).sample((), rng=rng_sample)[0]
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         total = int(np.prod(batch_shape) if batch_shape else 1)
         rng = self._get_rng(rng)
         samples = self._sample(jax.random.split(rng, total))
@@ -736,8 +736,8 @@ class GaussianMixture(Distribution):
     def weights(self):
         return self.mixture.weights_normalized
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         return self.mixture.log_density(x)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         return self.mixture.sample(batch_shape, rng)
-- 
2.43.0


From 9658597aa42044352a5a3d3482e9fe5a88350fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 09/29] fix: meta layers and masks rejected the common keyword
 arguments passed by Chain

---
 src/bijx/bijections/coupling.py | 4 ++--
 src/bijx/bijections/meta.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 07ceaf0..1927748 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -221,7 +221,7 @@ class BinaryMask(Bijection):
 
         return output
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         """Split input as bijection forward pass.
 
         When used as a bijection, forward pass splits the input into
@@ -236,7 +236,7 @@ class BinaryMask(Bijection):
         """
         return self.split(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         """Merge parts as bijection reverse pass.
 
         When used as a bijection, reverse pass merges the split parts
diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index be5beb0..0acba97 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -43,10 +43,10 @@ class MetaLayer(Bijection):
         self._forward = forward
         self._reverse = reverse
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         return self._forward(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         return self._reverse(x), log_density
 
 
-- 
2.43.0


From c01b28c9e020f9fc778717c735761fdf828669c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 10/29] fix: SpectrumScaling changed the log density with the
 wrong sign

---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 98042f2..4edd204 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -89,7 +89,7 @@ class SpectrumScaling(ApplyBijection):
 
     def apply(self, x, log_density, reverse=False, **kwargs):
         x, delta = self.scale(x, reverse=reverse)
-        return x, log_density - delta if reverse else log_density + delta
+        return x, log_density + delta if reverse else log_density - delta
 
 
 class FreeTheoryScaling(SpectrumScaling):
-- 
2.43.0


From b3cd5933e4e26587bcd465e23dc80391db76e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 11/29] fix: MultivariateNormal.log_density did not match its
 samples for negative Cholesky diagonals

Sampling uses the absolute value of the diagonal, the density used the raw
factor in the quadratic form; once training drives a diagonal entry negative
the two described different covariances.
---
 src/bijx/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 2999556..3b0bc2e 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -415,14 +415,15 @@ class MultivariateNormal(ArrayDistribution):
             Log density values with batch dimensions matching input.
         """
         cholesky = _cholesky_unfold(self.cholesky)
+        # Apply epsilon regularization to prevent NaN from log(0) or log(negative)
+        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
+        cholesky = cholesky.at[jnp.diag_indices(cholesky.shape[-1])].set(safe_diagonal)
         whitened = jnp.vectorize(
             partial(jax.lax.linalg.triangular_solve, lower=True, transpose_a=True),
             signature="(n,n),(n)->(n)",
         )(cholesky, x - self.mean)
         log_density = -1 / 2 * jnp.einsum("...i,...i->...", whitened, whitened)
         log_density -= self.dim / 2 * jnp.log(2 * jnp.pi)
-        # Apply epsilon regularization to prevent NaN from log(0) or log(negative)
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
         return log_density - jnp.log(safe_diagonal).sum(-1)
 
     def sample(self, batch_shape=(), rng=None, **kwargs):
-- 
2.43.0


From eb58b610b7e86cb0c9b6431154922283ebdca747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 12/29] fix: BufferedSampler.sample returned an nnx.Variable
 instead of a tuple

---
 src/bijx/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index d3dec0e..5ea87f5 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -204,7 +204,9 @@ class BufferedSampler(Distribution):
         self.buffer.set_value(new_buffer)
         self.buffer_index.set_value(new_buffer_index)
 
-        draw = jax.tree.map(lambda x: x[self.buffer_index.get_value()], self.buffer)
+        draw = jax.tree.map(
+            lambda x: x[self.buffer_index.get_value()], self.buffer.get_value()
+        )
         self.buffer_index.set_value(self.buffer_index + 1)
 
         return draw  # (x, log_density)
-- 
2.43.0


From c2c5100623d902b7a4250f453caaf244debbfbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 13/29] fix: stacked DiagonalNormal reported a wrong event
 shape, so diagonal mixtures had no batch shape

---
 src/bijx/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 3b0bc2e..d239526 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -509,7 +509,7 @@ class DiagonalNormal(ArrayDistribution):
             scales, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.ones
         )
 
-        super().__init__(rngs=rngs, event_shape=(self.mean.size,))
+        super().__init__(rngs=rngs, event_shape=(self.mean.shape[-1],))
         self.epsilon = epsilon
         assert self.mean.size == self.scales.size
 
-- 
2.43.0


From a496237ffcd1580eed1e249e321e0e3dbcad4750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 14/29] fix: an interrupted buffered draw could leave the
 wrapped distribution without its attributes

---
 src/bijx/samplers.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 5ea87f5..c7ac9f2 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -181,24 +181,26 @@ class BufferedSampler(Distribution):
         if batch_shape != ():
             return self.dist.sample(batch_shape, rng=rng, **kwargs)
 
-        _, new_buffer_index, new_buffer = nnx.cond(
+        dist_graph, dist_state = nnx.split(self.dist)
+
+        def refill(dist_state):
+            dist = nnx.merge(dist_graph, dist_state)
+            buffer = dist.sample((self.buffer_size,), rng=rng, **kwargs)
+            return nnx.state(dist), jnp.zeros_like(self.buffer_index), buffer
+
+        new_dist_state, new_buffer_index, new_buffer = jax.lax.cond(
             self.buffer_index.get_value() >= self.buffer_size,
-            lambda sampler: (
-                sampler,
-                jnp.zeros_like(self.buffer_index),
-                sampler.sample(
-                    (self.buffer_size,),
-                    rng=rng,
-                    **kwargs,
-                ),
-            ),
-            lambda sampler: (
-                sampler,
+            refill,
+            lambda dist_state: (
+                dist_state,
                 self.buffer_index.get_value(),
                 self.buffer.get_value(),
             ),
-            self.dist,
+            dist_state,
         )
+        # only values are updated: unlike nnx.cond, which rebuilds the object in
+        # place, an interrupt cannot leave the distribution half-constructed
+        nnx.update(self.dist, new_dist_state)
 
         # buffer first: the index must never point into draws not yet stored
         self.buffer.set_value(new_buffer)
-- 
2.43.0


From a9c88388ffa9d29d08a656a8e4eb51ed2c27b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 15/29] fix: flows with binary masks could not be restored with
 nnx.update nor split by filters

---
 src/bijx/bijections/coupling.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 1927748..6e5dcc4 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -29,6 +29,7 @@ import numpy as np
 from flax import nnx
 from jax_autovmap import autovmap
 
+from ..utils import Const
 from .base import Bijection
 
 
@@ -83,10 +84,10 @@ class BinaryMask(Bijection):
             masks = (mask, ~mask)
         if secondary_indices is None:
             secondary_indices = np.where(masks[1])
-        self.primary_indices = nnx.data(primary_indices)
+        self.primary_indices = Const(primary_indices)
         self.event_shape = nnx.static(event_shape)
-        self.masks = nnx.data(masks)
-        self.secondary_indices = nnx.data(secondary_indices)
+        self.masks = Const(masks)
+        self.secondary_indices = Const(secondary_indices)
 
     @property
     def count_primary(self):
@@ -154,7 +155,8 @@ class BinaryMask(Bijection):
             Indexing tuple suitable for array subscripting.
         """
         ind = (...,) if batch_safe else ()
-        ind += self.primary_indices if primary else self.secondary_indices
+        indices = self.primary_indices if primary else self.secondary_indices
+        ind += indices.get_value()
         ind += (np.s_[:],) * extra_channel_dims
         return ind
 
@@ -165,10 +167,10 @@ class BinaryMask(Bijection):
             New BinaryMask with primary and secondary regions swapped.
         """
         return self.__class__(
-            self.secondary_indices,
+            self.secondary_indices.get_value(),
             self.event_shape,
             masks=self.masks[::-1],
-            secondary_indices=self.primary_indices,
+            secondary_indices=self.primary_indices.get_value(),
         )
 
     def split(self, array, extra_channel_dims: int = 0, batch_safe: bool = True):
-- 
2.43.0


From 1713c3e07e97ac32dc9c751fd99cbd72c8a73343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 16/29] fix: converted FlowJAX modules could not be passed
 through jit (functions and shapes stored as parameters)

---
 src/bijx/flowjax.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index 6414e01..0d07bec 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -23,6 +23,7 @@ Main differences between the two frameworks include:
     - General keywords (bijx) vs specific ``condition`` parameter (flowjax)
 """
 
+import equinox as eqx
 import flowjax
 import flowjax.bijections
 import flowjax.distributions
@@ -35,6 +36,13 @@ from .bijections.base import Bijection
 from .distributions import Distribution
 
 
+def _partition(flowjax_module):
+    """Separate arrays from static leaves (functions, shapes), which must not be traced."""
+    params, static = eqx.partition(flowjax_module, eqx.is_array)
+    params, treedef = jax.tree.flatten(params)
+    return params, treedef, static
+
+
 class FlowjaxToBijxBijection(Bijection):
     """Adapter to use FlowJAX bijections with bijx interface.
 
@@ -58,8 +66,9 @@ class FlowjaxToBijxBijection(Bijection):
             flowjax_bijection: FlowJAX bijection to wrap.
             cond_name: Keyword argument name for passing conditional inputs.
         """
-        params, self.treedef = jax.tree.flatten(flowjax_bijection)
+        params, self.treedef, static = _partition(flowjax_bijection)
         self.params = nnx.Param(params)
+        self.static = nnx.static(static)
         self.cond_name = cond_name
 
         conditional_shape = flowjax_bijection.cond_shape
@@ -84,7 +93,8 @@ class FlowjaxToBijxBijection(Bijection):
         Returns:
             The FlowJAX bijection with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        params = jax.tree.unflatten(self.treedef, self.params)
+        return eqx.combine(params, self.static)
 
     def forward(self, x, log_density, **kwargs):
         """Apply forward transformation using FlowJAX bijection.
@@ -262,8 +272,9 @@ class FlowjaxToBijxDistribution(Distribution):
             rngs: Random number generators for bijx compatibility.
         """
         super().__init__(rngs)
-        params, self.treedef = jax.tree.flatten(flowjax_dist)
+        params, self.treedef, static = _partition(flowjax_dist)
         self.params = nnx.Param(params)
+        self.static = nnx.static(static)
         self.cond_name = cond_name
 
         self.event_shape = flowjax_dist.shape
@@ -276,7 +287,8 @@ class FlowjaxToBijxDistribution(Distribution):
         Returns:
             The FlowJAX distribution with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        params = jax.tree.unflatten(self.treedef, self.params)
+        return eqx.combine(params, self.static)
 
     def get_batch_shape(self, x):
         """Infer batch shape from input array and known event shape.
-- 
2.43.0


From b0d258e09841a4c465246e36f5b6b60fe4e36ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 17/29] fix: mixture densities could not be evaluated inside
 jit, vmap or scan when closed over

---
 src/bijx/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index d239526..0688a28 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -655,7 +655,12 @@ class MixtureStack(Distribution):
         return self._dist(0).get_batch_shape(x)
 
     def log_density(self, x, **kwargs):
-        lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
+        # plain vmap over the state: nnx.vmap refuses variables of outer trace levels,
+        # as met when this method is closed over in jit, vmap or scan
+        lds = jax.vmap(
+            lambda dist_vars: nnx.merge(self.dist_graph, dist_vars).log_density(x),
+            out_axes=-1,
+        )(self.dist_vars)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
     @partial(jax.vmap, in_axes=(None, 0))
-- 
2.43.0


From c3f3955ff96c33f55256d002676bce7a92d32e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 18/29] fix: keyword arguments of scalar bijections did not
 reach log_jac, so conditional ones reported a wrong density

---
 src/bijx/bijections/analytic.py | 6 +++---
 src/bijx/bijections/scalar.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 1a01bce..11a3d03 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -89,7 +89,7 @@ class CubicRational(ScalarBijection):
             transform=loc_transform,
         )
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         x = x - self.loc.get_value()
         bx1 = self.beta.get_value() * x**2 + 1
         return -jnp.log(bx1) + jnp.log(
@@ -281,7 +281,7 @@ class SinhConjugation(ScalarBijection):
         nu = self.nu.get_value()
         return alpha, beta, loc, mu, nu
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         alpha, beta, loc, mu, nu = self._params()
         a = (x - loc) / alpha
         return log_grad_sinh_nonlinearity(a, beta, mu, nu)
@@ -359,7 +359,7 @@ class CubicConjugation(ScalarBijection):
         b = self.b.get_value()
         return beta, loc, a, b
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         beta, loc, a, b = self._params()
         return log_grad_cubic_nonlinearity(x - loc, a, b, beta)
 
diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 8334975..228f128 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -155,7 +155,7 @@ class ScalarBijection(Bijection):
             Tuple of (transformed_data, updated_log_density).
         """
         y = self.fwd(x, **kwargs)
-        return y, sum_log_jac(x, log_density, -self.log_jac(x, y))
+        return y, sum_log_jac(x, log_density, -self.log_jac(x, y, **kwargs))
 
     def reverse(self, y, log_density, **kwargs):
         """Apply reverse transformation with log-density update.
@@ -172,7 +172,7 @@ class ScalarBijection(Bijection):
             Tuple of (inverse_transformed_data, updated_log_density).
         """
         x = self.rev(y, **kwargs)
-        return x, sum_log_jac(x, log_density, self.log_jac(x, y))
+        return x, sum_log_jac(x, log_density, self.log_jac(x, y, **kwargs))
 
 
 class GaussianCDF(ScalarBijection):
@@ -289,7 +289,7 @@ class Sigmoid(ScalarBijection):
         >>> y, log_det = bijection.forward(x, jnp.zeros(3))
     """
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         return jnp.log(y) + jnp.log(1 - y)
 
     def fwd(self, x, **kwargs):
-- 
2.43.0


From a53f1e627bbcc3c265d90e81f3cd504a07c2991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 19/29] fix: RayTransform rejected the common keyword arguments
 passed by Chain

---
 src/bijx/bijections/radial.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 23c656d..897074a 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -31,14 +31,14 @@ class RayTransform(Bijection):
     def __init__(self, bijection: Bijection):
         self.bijection = bijection
 
-    def forward(self, x, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        y, ld = self.bijection.forward(x, ld)
+    def forward(self, x, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        y, ld = self.bijection.forward(x, ld, **kwargs)
         return y - offset, ld
 
-    def reverse(self, y, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        return self.bijection.reverse(y + offset, ld)
+    def reverse(self, y, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        return self.bijection.reverse(y + offset, ld, **kwargs)
 
 
 class Radial(ApplyBijection):
-- 
2.43.0


From 09d9cfbbad2c0c4e568f4a287bccf755d3024a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 20/29] fix: flows with ConvVF rejected the common keyword
 arguments passed by Chain

---
 src/bijx/bijections/conv_cnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 82a015f..66c89f5 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -89,7 +89,7 @@ class ConvVF(nnx.Module):
         self.feature_map = feature_map
         self.feature_superposition = feature_superposition
 
-    def __call__(self, t, x):
+    def __call__(self, t, x, **kwargs):
         """Compute vector field and divergence for Conv-CNF.
 
         Args:
-- 
2.43.0


From a83f4cd5046d39b6f3ddaa860ea91b094eb580aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 21/29] fix: the configured projection to the group was never
 applied by the Crouch-Grossmann integrator

---
 src/bijx/cg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 50185ff..511ec9f 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -486,7 +486,7 @@ def cg_stage(y0, vect, manifold_types, ai, step_size):
     if len(deltas) == 0:
         return y0
     return jax.tree.map(
-        lambda state, mtype, *deltas: mtype.reduce(state, *deltas),
+        lambda state, mtype, *deltas: mtype.post_stage(mtype.reduce(state, *deltas)),
         y0,
         manifold_types,
         *deltas,
@@ -526,7 +526,8 @@ def crouch_grossmann_step(manifold_types, tableau, vector_field, step_size, t, y
         # evaluate vector field
         vectors[i] = vector_field(ti, intermediate)
 
-    return cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    y1 = cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    return jax.tree.map(lambda y, mtype: mtype.post_step(y), y1, manifold_types)
 
 
 def crouch_grossmann(
-- 
2.43.0


From 1c2ea951bc44408ebcc7453ba894dae2bdb82b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 22/29] fix: the su(n) projection of UnitaryDeriv subtracted
 the trace from every matrix entry

---
 src/bijx/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 511ec9f..5311025 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -375,7 +375,7 @@ class UnitaryDeriv(ManifoldType):
     def project(self, x):
         if self.special:
             trace = jnp.linalg.trace(x)
-            x = x - trace / x.shape[-1]
+            x = x - trace / x.shape[-1] * jnp.eye(x.shape[-1], dtype=x.dtype)
         x = (x - x.mT.conj()) / 2
         return x
 
-- 
2.43.0


From c7fcf2948b64c333086afa937d0ea590b6cbafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 23/29] fix: odeint_rk4 silently returned the initial state
 when integrating backwards in time

---
 src/bijx/solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bijx/solvers.py b/src/bijx/solvers.py
index 00c5ef3..eb6265e 100644
--- a/src/bijx/solvers.py
+++ b/src/bijx/solvers.py
@@ -315,6 +315,9 @@ def _odeint_grid_wrapper(fun, step_size, y0, ts, *args):
 @partial(jax.custom_vjp, nondiff_argnums=(0, 1))
 def _rk4_odeint(fun, step_size, y0, ts, *args):
 
+    # end time may lie before start time; step size is always positive
+    direction = jnp.where(ts[1] < ts[0], -1.0, 1.0)
+
     def func_(y, t):
         return fun(y, t, *args)
 
@@ -329,12 +332,13 @@ def _rk4_odeint(fun, step_size, y0, ts, *args):
     def cond_fun(carry):
         """Check if we've reached the last timepoint."""
         cur_y, cur_t = carry
-        return cur_t < ts[1]
+        return direction * cur_t < direction * ts[1]
 
     def body_fun(carry):
         """Take one step of RK4."""
         cur_y, cur_t = carry
-        next_t = jnp.minimum(cur_t + step_size, ts[1])
+        next_t = cur_t + direction * step_size
+        next_t = direction * jnp.minimum(direction * next_t, direction * ts[1])
         dt = next_t - cur_t
         dy = step_func(cur_t, dt, cur_y)
         return cur_y + dy, next_t
-- 
2.43.0


From 0e66c81784a43a3b2fd8460118b3bb92acc6450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 24/29] fix: gradients of complex group integrations with
 respect to the real end times were complex

---
 src/bijx/cg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 5311025..af514d8 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -737,7 +737,8 @@ def _crouch_grossmann_rev(
         args,
     )
 
-    ts_bar = jnp.array([t0_bar, t_bar])
+    # times are real, also if the state is complex
+    ts_bar = jnp.real(jnp.array([t0_bar, t_bar]))
     return (ts_bar, y_bar, *args_bar)
 
 
-- 
2.43.0


From c9d16853de9bfb136a0bbd5348b1eb7aec206d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 25/29] fix: Reshape between scalar events and shaped events
 kept no batch dimensions

---
 src/bijx/bijections/meta.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 0acba97..7bc7ae2 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -138,15 +138,17 @@ class Reshape(MetaLayer):
 
     def _forward(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.from_shape)]
-        from_shape = shape[-len(self.from_shape) :]
+        batch_ndim = len(shape) - len(self.from_shape)
+        batch_shape = shape[:batch_ndim]
+        from_shape = shape[batch_ndim:]
         assert from_shape == self.from_shape
         return jnp.reshape(x, batch_shape + self.to_shape)
 
     def _reverse(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.to_shape)]
-        to_shape = shape[-len(self.to_shape) :]
+        batch_ndim = len(shape) - len(self.to_shape)
+        batch_shape = shape[:batch_ndim]
+        to_shape = shape[batch_ndim:]
         assert to_shape == self.to_shape
         return jnp.reshape(x, batch_shape + self.from_shape)
 
-- 
2.43.0


From 6d7b78635fd313e9faf346044f1ce4e97455fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 26/29] fix: continuum momenta above the Nyquist frequency were
 not folded, so FreeTheoryScaling(finite_size=False) was not invertible

---
 src/bijx/fourier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index f52f1be..7c4cd7d 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -65,6 +65,10 @@ def fft_momenta(
     ks = np.mgrid[tuple(np.s_[:s] for s in shape)]
     if unit:
         return np.moveaxis(ks, 0, -1)
+    if not lattice:
+        # continuum momenta are not periodic: k and k - 2 pi are the same mode, which
+        # has to be assigned the momentum of smallest magnitude (as in np.fft.fftfreq)
+        ks = np.where(2 * ks > shape_factor, ks - shape_factor, ks)
     ks = 2 * jnp.pi * ks / shape_factor
     if lattice:
         # with this true, (finite) lattice spectrum ~ 1 / m^2 + k^2
-- 
2.43.0


From de31f16a1f9e251ae17aa03ffe1a860b1af690da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 27/29] fix: Reshape contained itself, so copying it recursed
 without end

---
 src/bijx/bijections/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 7bc7ae2..4004daa 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -134,7 +134,8 @@ class Reshape(MetaLayer):
     ):
         self.from_shape = from_shape
         self.to_shape = to_shape
-        super().__init__(self._forward, self._reverse)
+        # the methods below take the place of the callables given to MetaLayer; storing
+        # them bound to this instance would make it contain itself
 
     def _forward(self, x):
         shape = jnp.shape(x)
-- 
2.43.0


From 9dd00994f60d0fbe16d0844c46badff85cb53198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 28/29] fix: ToFourierData failed when passed through jax
 transformations (index masks became tracers)

---
 src/bijx/bijections/fourier.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 4edd204..c809ac8 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -202,10 +202,17 @@ class ToFourierData(Bijection):
     """
 
     def __init__(self, real_shape, rep=None, channel_dim=0, unpack=False):
-        self.meta = FourierMeta.create(real_shape, channel_dim)
+        self.real_shape = real_shape
+        self.channel_dim = channel_dim
         self.rep = rep
         self.unpack = unpack
 
+    @property
+    def meta(self):
+        # created on demand, as the index masks have to stay concrete when the
+        # bijection is passed through jax transformations
+        return FourierMeta.create(self.real_shape, self.channel_dim)
+
     def forward(self, x, log_density, **kwargs):
         fft_data = FourierData(x, FFTRep.real_space, self.meta).to(self.rep)
         if self.unpack:
@@ -215,4 +222,6 @@ class ToFourierData(Bijection):
     def reverse(self, x, log_density, **kwargs):
         if self.unpack:
             x = FourierData(x, self.rep, self.meta)
+        else:
+            x = x.replace(meta=self.meta)
         return x.to(FFTRep.real_space).data, log_density
-- 
2.43.0


From 81fc526aa59883549b2d8859453e06cd8768ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 29/29] fix: unpacked ToFourierData without a representation
 could not be reversed

---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index c809ac8..454dfb4 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -204,7 +204,7 @@ class ToFourierData(Bijection):
     def __init__(self, real_shape, rep=None, channel_dim=0, unpack=False):
         self.real_shape = real_shape
         self.channel_dim = channel_dim
-        self.rep = rep
+        self.rep = FFTRep.real_space if rep is None else rep
         self.unpack = unpack
 
     @property
-- 
2.43.0

