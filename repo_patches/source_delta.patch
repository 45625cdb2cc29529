From 6ccbf3271c67451f5f5f4037bb0884dc282454e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 01/40] fix: a negative i0 indexing the first timeline point
 started a void backwards leg

With i0 == -len(timeline) a backwards simulation of the first point alone
was run before the forwards one, which failed for depth > 2 (StopIteration).
---
 sdepy/integration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..c6f901b 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -522,6 +522,8 @@ class paths_generator:
                 'i0 should be an integer indexing an element of the '
                 'integration timeline, but {} was given'
                 .format(i0))
+        if i0 < 0:
+            i0 += tt.size
         # NOTE:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
-- 
2.43.0


From 7f574d158c73e253ecefa8c7b3f25bcd150b2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 02/40] fix: carry out simulations along unsigned integer
 timelines using floats

As documented for data-types of integer kind: steps were truncated to
integers, and backwards time steps wrapped around.
---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index c6f901b..7cc5a6d 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -528,7 +528,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iu' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From 4babbd043d4b677b7a9ce90cf7895763feb3ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 03/40] fix: accept arrays, lists and other unhashable objects
 as SDE parameter defaults

Class definitions like 'def sde(self, t, x, theta=[1., 2.])' failed at
instantiation with 'TypeError: unhashable type'.
---
 sdepy/integration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 7cc5a6d..f8034f9 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1017,8 +1017,11 @@ class SDE:
                    expected_more_args)):
             for k, z in D.items():
                 defaults[k].append(z)
-        repeated = {k for k in defaults
-                    if len(set(defaults[k])) > 1}
+        # (defaults may be unhashable, or arrays)
+        repeated = {k for k, z in defaults.items()
+                    if any(not (z[0] is other or
+                                np.array_equal(z[0], other))
+                           for other in z[1:])}
         if repeated:
             raise TypeError(
                     'two or more incompatible defaults found '
-- 
2.43.0


From 934dc713c319c632c6137bc6f6682351d2fb51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 04/40] fix: systems of SDEs with log=True were exponentiated
 twice

SDE.exit already exponentiates the integration output before serving it
to the result method, as documented.
---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index f8034f9..40b1bb1 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1834,8 +1834,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From 37ad9d29dfcc594dcb2c85ef95763de2cae57f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 05/40] fix: compound Poisson jumps with array-like
 distribution parameters were mixed up among components

---
 sdepy/infrastructure.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..17da229 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1643,11 +1643,14 @@ def _make_rv_params_variable(rv, **params):
     to accept time-dependent parameters.
     """
     if any(callable(x) for x in params.values()):
-        return lambda t: rv(
-            **{k: (x(t) if callable(x) else x)
-               for k, x in params.items()})
+        return lambda t: _make_rv_params_variable(
+            rv, **{k: (x(t) if callable(x) else x)
+                   for k, x in params.items()})
     else:
-        return rv(**params)
+        y = rv(**params)
+        # used by cpoisson_source to handle array-like parameters
+        y._params_shape = np.broadcast(*params.values()).shape
+        return y
 
 
 def norm_rv(a=0, b=1):
@@ -1843,6 +1846,8 @@ def rvmap(f, y):
             yt = y(t) if callable(y) else y
 
             class new_yt_class:
+                _params_shape = getattr(yt, '_params_shape', ())
+
                 def rvs(self, size, random_state=None):
                     yt_rvs = yt.rvs(size=size, random_state=random_state)
                     return (f(t, yt_rvs) if time_dependent_f
@@ -1854,6 +1859,8 @@ def rvmap(f, y):
     else:
 
         class new_y_class:
+            _params_shape = getattr(y, '_params_shape', ())
+
             def rvs(self, size, random_state=None):
                 return f(y.rvs(size=size, random_state=random_state))
 
@@ -2029,10 +2036,17 @@ class cpoisson_source(source):
             dn_positive_i = sign_dt[i]*dn[i]
             nmax = (dn_positive_i).max()
             rv = y(t[i] + dt[i]/2) if callable(y) else y
+            # if y parameters are arrays, y variates differ by element
+            by_element = np.prod(getattr(rv, '_params_shape', ())) > 1
             for j in range(1, nmax+1):
                 index = (dn_positive_i == j)
                 if index.any():
-                    y_sample = self._y_rvs(rv.rvs, (index.sum(), j), self.rng)
+                    if by_element:
+                        y_sample = self._y_rvs(rv.rvs, (j,) + shape, self.rng)
+                        y_sample = np.moveaxis(y_sample, 0, -1)[index]
+                    else:
+                        y_sample = self._y_rvs(
+                            rv.rvs, (index.sum(), j), self.rng)
                     dz[i][index] = sign_dt[i]*y_sample.sum(axis=-1)
                     y_value.append(y_sample)
         self.dn_value = dn
-- 
2.43.0


From 7d214f789fa1110c501bc7fd2e12f39569c96b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 06/40] fix: compound Poisson sources failed with a floating
 point data-type of Poisson increments

---
 sdepy/infrastructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 17da229..8d0f646 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2034,11 +2034,11 @@ class cpoisson_source(source):
         y_value = []
         for i in np.ndindex(dt.shape):
             dn_positive_i = sign_dt[i]*dn[i]
-            nmax = (dn_positive_i).max()
+            nmax = int(dn_positive_i.max())
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             # if y parameters are arrays, y variates differ by element
             by_element = np.prod(getattr(rv, '_params_shape', ())) > 1
-            for j in range(1, nmax+1):
+            for j in range(1, nmax + 1):
                 index = (dn_positive_i == j)
                 if index.any():
                     if by_element:
-- 
2.43.0


From 478a41aad5591afe5b2251eb295b2e7be450bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 07/40] fix: jump-diffusion info failed with a floating point
 data-type of Poisson increments

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 40b1bb1..5c622fc 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -2618,7 +2618,7 @@ class jumpdiff_SDE(SDE):
         if hasattr(dj, 'dn_value'):
             self.info['jump_rate'][i - 1] += \
                 dj.dn_value.sum()/(tt[i] - tt[i - 1])/self.paths
-            self.info['jump_count'] += dj.dn_value
+            self.info['jump_count'] += dj.dn_value.astype(int, copy=False)
 
     def info_end(self):
         if self.itervars['tt'].size > 1:
-- 
2.43.0


From e8b32706b07054247c9d2498e41c4709accfd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 08/40] fix: sources with memory missed realized times slightly
 above the requested one

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 8d0f646..0f94803 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2287,8 +2287,10 @@ class true_source(source):
 
         def f(s):
             k = bisect.bisect_right(t, s)
-            if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
+            if k > 0 and np.isclose(s, t[k-1], rtol=rtol, atol=0.):
                 return getvalue(z[k-1])
+            elif k < len(t) and np.isclose(s, t[k], rtol=rtol, atol=0.):
+                return getvalue(z[k])
             elif k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
-- 
2.43.0


From 7c33b41abf9db6a9eaceedd14fac2f9fb4b33dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 09/40] fix: indexed sources with memory indexed times instead
 of values when called with arrays

---
 sdepy/infrastructure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0f94803..6640617 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2174,15 +2174,21 @@ class _indexed_true_source:
 
     def __init__(self, source, vindex):
         self._source = source
-        self._index = np.index_exp[vindex] + np.index_exp[..., :]
+        # positions, along the flattened values, of the values addressed
+        vshape = source.vshape
+        self._vsize = int(np.prod(vshape))
+        self._index = np.arange(self._vsize).reshape(vshape)[vindex]
 
         self.paths = source.paths
-        self.vshape = source(source.t0)[self._index][..., 0].shape
+        self.vshape = self._index.shape
         self.dtype = source.dtype
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        z = self._source(t, dt)
+        tshape = z.shape[:z.ndim - len(self._source.vshape) - 1]
+        z = z.reshape(tshape + (self._vsize, self.paths))
+        return z.take(self._index, axis=-2)
 
     @property
     def size(self):
-- 
2.43.0


From d72fb9b0f7334466fc5d56271aa5e0120293d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 10/40] fix: Wiener sources with memory failed with
 correlations given as processes, or time dependent and singular

---
 sdepy/infrastructure.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6640617..7b0623a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2444,7 +2444,7 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
       - ``A`` is the expected covariance matrix of ``w(s) - w(t1)``,
       - ``B`` is the expected covariance matrix of ``w(t2) - w(s)``.
 
-    Let ``Z = B @ np.linalg.inv(A + B)``, and let ``y`` be a random
+    Let ``Z = B @ np.linalg.pinv(A + B)``, and let ``y`` be a random
     normal variate, independent from ``w(t1)`` and ``w(t2)``,
     with covariance matrix ``Z @ A`` (note that the latter is a symmetric
     matrix, as a consequence of the symmetry of ``A`` and ``B``).
@@ -2487,9 +2487,14 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
 
         # hack - restore needed self._dw correlations (new_inside
         # may leave here the wrong value)
-        dw.corr = corr((t + s)/2) if callable(corr) else corr
+        dw.corr = self._get_corr((t + s)/2) if callable(corr) else corr
         return w + dw(t, s - t)
 
+    def _get_corr(self, t):
+        # correlation matrix at t, dropping a trailing paths axis if any
+        corr = self.corr(t)
+        return corr[..., 0] if corr.ndim == 3 else corr
+
     @staticmethod
     def _mult(x, y):
         return np.einsum('ij,...jk->...ik', x, y)
@@ -2507,8 +2512,9 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         # (avoid instantiating a new wiener_source at each call)
         if callable(corr):
             a, b = (s - t1), (t2 - s)
-            A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
-            Z = B @ np.linalg.inv(A + B)
+            A = self._get_corr((t1 + s)/2)*a
+            B = self._get_corr((s + t2)/2)*b
+            Z = B @ np.linalg.pinv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
             ws = self._mult(Z, w1) + self._mult((Id - Z), w2) + dw(0, 1)
-- 
2.43.0


From d3c59da49de14f1af6749a68b3c3d36c7614fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 11/40] fix: Poisson sources with memory failed with a floating
 point data-type

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 7b0623a..edb1617 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2579,7 +2579,7 @@ class true_poisson_source(true_source):
         if (n1 == n2).all():
             return None
         p = (s - t1)/(t2 - t1)
-        n = n2 - n1
+        n = np.rint(n2 - n1).astype(int)
         return n1 + self.rng.binomial(n, p, n.shape)
 
 
-- 
2.43.0


From 0e4cfe38d1353a2c787e9bb85f2097094df6da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 12/40] fix: compound Poisson sources with memory failed or
 misplaced jumps with null or opposite jump variates

---
 sdepy/infrastructure.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index edb1617..ba2c0cd 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2668,14 +2668,11 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
-
         y_value = []
         for i in range(1, nmax + 1):
             index = (dn_value == i)
             if index.any():
                 y = yy[index, :i]
-                assert (yy[index, i:] == 0).all()
                 y_value.append(y)
         return y_value
 
@@ -2691,17 +2688,17 @@ class true_cpoisson_source(true_source):
 
     def new_inside(self, z1, z2, t1, t2, s):
         j1, y1_value = z1
-        j2, _ = z2  # y2_value not needed
 
-        if (j1 == j2).all():
-            return None
+        dn = self._dj.dn  # use memory of dn
+        n1, n2 = dn(t1), dn(t2)
 
-        dn = self._dj.dn
-        n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
+        if (n1 == n2).all():
+            return None
 
-        dn_t2_t1 = n2 - n1
-        dn_s_t1 = ns - n1
-        dn_t2_s = n2 - ns
+        ns = dn(s)
+        dn_t2_t1 = np.rint(n2 - n1).astype(int)
+        dn_s_t1 = np.rint(ns - n1).astype(int)
+        dn_t2_s = dn_t2_t1 - dn_s_t1
         nmax = dn_t2_t1.max()
 
         # decode y_value
-- 
2.43.0


From 6cb2722a00d10a394fa2d968aeeaf753f0be183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 13/40] fix: NumPy integers other than int64, and tuples, were
 accepted as a random number generator

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ba2c0cd..3d264f4 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1341,7 +1341,7 @@ class source:
     def __init__(self, *, paths=1, vshape=(), dtype=None, rng=None):
         self.paths, self.dtype = paths, dtype
         self.vshape = _shape_setup(vshape)
-        if isinstance(rng, (int, np.int64, list, np.ndarray)):
+        if isinstance(rng, (int, np.integer, list, tuple, np.ndarray)):
             # catch some possible attempts to pass a seed value as `rng`
             raise TypeError(
                 f'`rng` must be an instance of a random number generator, '
-- 
2.43.0


From c53ef22a4fba0e9e1824ed551f63f7bd4e2b8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 14/40] fix: compound Poisson sources failed with Poisson
 sources broadcastable to their shape

---
 sdepy/infrastructure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 3d264f4..d255f42 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2033,7 +2033,7 @@ class cpoisson_source(source):
         y = self.y
         y_value = []
         for i in np.ndindex(dt.shape):
-            dn_positive_i = sign_dt[i]*dn[i]
+            dn_positive_i = np.broadcast_to(sign_dt[i]*dn[i], shape)
             nmax = int(dn_positive_i.max())
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             # if y parameters are arrays, y variates differ by element
@@ -2696,8 +2696,9 @@ class true_cpoisson_source(true_source):
             return None
 
         ns = dn(s)
-        dn_t2_t1 = np.rint(n2 - n1).astype(int)
-        dn_s_t1 = np.rint(ns - n1).astype(int)
+        shape = self.vshape + (self.paths,)
+        dn_t2_t1 = np.broadcast_to(np.rint(n2 - n1).astype(int), shape)
+        dn_s_t1 = np.broadcast_to(np.rint(ns - n1).astype(int), shape)
         dn_t2_s = dn_t2_t1 - dn_s_t1
         nmax = dn_t2_t1.max()
 
-- 
2.43.0


From 2720b489ab704ddcf6bca33618d60925cc875c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 15/40] fix: array views of a process without a timeline failed
 to be viewed or copied

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d255f42..bc0ace5 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -476,10 +476,11 @@ class process(np.ndarray):
             self.t = None
         elif isinstance(obj, process):
             # handle new from template
-            if not hasattr(obj, 't') or obj.t.shape != self.shape[:1]:
+            t = getattr(obj, 't', None)
+            if t is None or t.shape != self.shape[:1]:
                 self.t = None
             else:
-                self.t = obj.t
+                self.t = t
         else:
             # view casting - unsafe unless
             # self.t is taken care of afterwards
-- 
2.43.0


From c1bb5441e07e8b35e5867c78648f5ee83e34e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 16/40] fix: constant processes along a timeline lost their
 data-type

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index bc0ace5..42663be 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -441,7 +441,7 @@ class process(np.ndarray):
             if t.size == 1:
                 x = c[np.newaxis, ..., np.newaxis]
             else:
-                x = np.empty(shape=t.shape + c.shape + (1,), dtype=dtype)
+                x = np.empty(shape=t.shape + c.shape + (1,), dtype=c.dtype)
                 x[...] = c[np.newaxis, ..., np.newaxis]
         else:
             assert False
-- 
2.43.0


From 16621ea7ae544ef53a8db6c44fc3c2e144f6ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 17/40] fix: operations on processes and arrays, or on three
 processes, could mix time and values axes or timelines

---
 sdepy/infrastructure.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 42663be..6d079d1 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -491,18 +491,25 @@ class process(np.ndarray):
         ufunc, inputs, domain = context
         assert hasattr(self, 't')
         assert any(self is a for a in inputs)
-        for a in inputs:
-            if isinstance(a, process):
-                if not hasattr(a, 't') or a.t is None:
-                    raise ValueError(
-                        'cannot operate on a process without a timeline. '
-                        'if this results from array operations on processes, '
-                        'try using their array views instead (x attribute)')
-                if not a._is_compatible(self):
+        p_inputs = [a for a in inputs if isinstance(a, process)]
+        for a in p_inputs:
+            if not hasattr(a, 't') or a.t is None:
+                raise ValueError(
+                    'cannot operate on a process without a timeline. '
+                    'if this results from array operations on processes, '
+                    'try using their array views instead (x attribute)')
+        for i, a in enumerate(p_inputs):
+            for b in p_inputs[:i]:
+                if not a._is_compatible(b):
                     raise ValueError(
                         'processes could not be broadcast '
                         'together due to incompatible shapes {}, {} and/or '
-                        'timelines'.format(a.shape, self.shape))
+                        'timelines'.format(a.shape, b.shape))
+            if a.t.size > 1 and np.ndim(out_array) > a.ndim:
+                raise ValueError(
+                    'process shaped {} could not be broadcast to an array '
+                    'with {} dimensions, as its timeline would be mixed '
+                    'with other axes'.format(a.shape, np.ndim(out_array)))
         return out_array
 
     def __array_wrap__(self, out_array, context=None):
-- 
2.43.0


From 609a9d53f545f99be6d60eb8ec5690df0f140898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 18/40] fix: NumPy integers indexing times or paths dropped the
 axis, out of range ones returned empty processes

---
 sdepy/infrastructure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6d079d1..1193c26 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -698,9 +698,13 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
-            i = key[0]
+            i = int(key[0])
+            n = self.shape[0] if a == 't' else self.shape[-1]
+            if not -n <= i < n:
+                raise IndexError('process indexing error - index {} is out '
+                                 'of bounds for size {}'.format(i, n))
             key = (slice(i, None, None),) if i == -1 else \
                   (slice(i, i+1, None),)
         if a == 't':
-- 
2.43.0


From 834ccba27a1e0e2b8ead67590547332ed6441411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 19/40] fix: interpolating a process at its own time points
 returned values altered by rounding

---
 sdepy/infrastructure.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 1193c26..38e8328 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -617,7 +617,15 @@ class process(np.ndarray):
                 )
 
             def f(s):
-                return g(s).astype(x.dtype, copy=False)
+                y = g(s)
+                if kind not in ('nearest', 'nearest-up', 'zero',
+                                'previous', 'next'):
+                    # get rid of rounding at the process time points
+                    s = np.asarray(s)
+                    i = np.asarray(np.minimum(t.searchsorted(s), t.size - 1))
+                    j = np.asarray(t[i] == s)
+                    y[j] = x[i[j]]
+                return y.astype(x.dtype, copy=False)
             return f
 
     def __call__(self, s, ds=None, *, kind=None):
-- 
2.43.0


From b62f43317c2315c5521eebd5d9da1aacfaa5494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 20/40] fix: sums and statistics of integer and boolean
 processes were truncated, or overflowed

---
 sdepy/infrastructure.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 38e8328..29a59a1 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -873,7 +873,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the sum of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.sum(axis=-1, dtype=dtype, out=out,
                                   keepdims=True))
@@ -883,7 +882,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the mean of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.mean(axis=-1, dtype=dtype, out=out,
                                    keepdims=True))
@@ -893,7 +891,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the variance of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.var(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -903,7 +900,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the standard deviation of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.std(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1002,7 +998,6 @@ class process(np.ndarray):
         Constant process exposing for each path the sum of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.sum(axis=0, dtype=dtype, out=out,
                                   keepdims=True))
@@ -1012,7 +1007,6 @@ class process(np.ndarray):
         Process exposing for each path and time point
         the cumulative sum of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.cumsum(axis=0, dtype=dtype, out=out))
 
@@ -1021,7 +1015,6 @@ class process(np.ndarray):
         Constant process exposing for each path the mean of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.mean(axis=0, dtype=dtype, out=out,
                                    keepdims=True))
@@ -1031,7 +1024,6 @@ class process(np.ndarray):
         Constant process exposing for each path the variance of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.var(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1041,7 +1033,6 @@ class process(np.ndarray):
         Constant process exposing for each path the standard
         deviation of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.std(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
-- 
2.43.0


From ea897ce98f50504286e9a0d84fb9fa7fe2c1a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 21/40] fix: derivative and integral of integer processes were
 truncated or failed

---
 sdepy/infrastructure.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 29a59a1..8403db5 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1085,9 +1085,12 @@ class process(np.ndarray):
         is a 1-path process that estimates ``sigma(t)``.
         """
         t = self.t[:-1] if fwd else self.t[1:]
-        x = np.diff(self, axis=0)
+        x = np.diff(self.x, axis=0)
         if dt_exp:
-            np.divide(x, self.dtx**dt_exp, out=x)
+            if x.dtype.kind in 'fc':
+                np.divide(x, self.dtx**dt_exp, out=x)
+            else:
+                x = x / self.dtx**dt_exp
         return process(t=t, x=x)
 
     def tder(self):
@@ -1124,7 +1127,9 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=self.dtype)
+        dtype = self.dtype if self.dtype.kind in 'fc' \
+            else np.result_type(self.dtype, self.dt.dtype)
+        x = np.empty(self.shape, dtype=dtype)
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
         return process(t=self.t,
-- 
2.43.0


From 475a56124279e31076217986e17258e67a615414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 22/40] fix: warnings when creating piecewise processes with
 integer timeline or values

---
 sdepy/infrastructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 8403db5..6990625 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1275,8 +1275,8 @@ def piecewise(t=0., *, x=None, v=None, dtype=None, mode='mid'):
     if mode == 'mid':
         s, y = t, x
     else:
-        s = np.full(t.size*2, np.nan, dtype=t.dtype)
-        y = np.full((x.shape[0]*2,) + x.shape[1:], np.nan, dtype=x.dtype)
+        s = np.empty(t.size*2, dtype=t.dtype)
+        y = np.empty((x.shape[0]*2,) + x.shape[1:], dtype=x.dtype)
         s[::2] = t
         s[1::2] = t
         if mode == 'forward':
-- 
2.43.0


From af8ebcce43181ab112ae0854edd7ba156427bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:42 +0000
Subject: [PATCH 23/40] fix: weighted increments with negative exponent failed
 along an integer timeline

---
 sdepy/infrastructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6990625..a9415bb 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1088,9 +1088,9 @@ class process(np.ndarray):
         x = np.diff(self.x, axis=0)
         if dt_exp:
             if x.dtype.kind in 'fc':
-                np.divide(x, self.dtx**dt_exp, out=x)
+                np.divide(x, self.dtx**float(dt_exp), out=x)
             else:
-                x = x / self.dtx**dt_exp
+                x = x / self.dtx**float(dt_exp)
         return process(t=t, x=x)
 
     def tder(self):
-- 
2.43.0


From a859a75ecd7f50c5a0bbae10454da1b4cd905490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 24/40] fix: samples broadcasting to the shape of the first one
 were rejected by montecarlo.update

---
 sdepy/infrastructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a9415bb..387b314 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2958,6 +2958,10 @@ class montecarlo:
         # set flag to identify first run
         isfirst = (self.paths == 0)
 
+        # after first run, broadcasting rules apply
+        if not isfirst:
+            sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
+
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
         self._update_histogram(isfirst, sample)
-- 
2.43.0


From 0cc52ebdbc74415bd2a3f3ac3ca105c256684345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 25/40] fix: updating a montecarlo instance with an empty
 sample set its statistics to nan

---
 sdepy/infrastructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 387b314..e24dcfa 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2962,6 +2962,10 @@ class montecarlo:
         if not isfirst:
             sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
 
+        # an empty sample adds nothing
+        if sample_paths == 0:
+            return
+
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
         self._update_histogram(isfirst, sample)
-- 
2.43.0


From 95a6a9d58083281dc320a14dd8729f88f63536fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 26/40] fix: montecarlo updates failed if counts are cumulated
 using an unsigned ctype

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e24dcfa..0ba40e2 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3059,7 +3059,7 @@ class montecarlo:
             #   previously stored bins and cumulated
             for i in np.ndindex(vshape):
                 counts, bins = np.histogram(sample[i], bins=self._bins[i])
-                self._counts[i] += counts
+                self._counts[i] += counts.astype(self.ctype, copy=False)
                 self._paths_outside[i] += (M - counts.sum())
 
         # a final consistency check
-- 
2.43.0


From 6d05ee290ea0928c63878c18174ed54550e49c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 27/40] fix: component views of montecarlo instances missed
 updates, or failed if empty or without bins

---
 sdepy/infrastructure.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0ba40e2..049165d 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2877,10 +2877,10 @@ class montecarlo:
         self._bins = bins
         self._range = range
         self._use = use
+        self._mean = self._moments = None
+        self._counts = self._paths_outside = None
         if sample is not None:
             self.update(sample=sample, axis=axis)
-        else:
-            self._mean = self._moments = self._counts = None
 
     @property
     def paths(self):
@@ -3074,20 +3074,34 @@ class montecarlo:
     # ------------------------------
     def __getitem__(self, i):
         """See montecarlo class documentation"""
+        if self.paths != 0:
+            self._mean[i]  # raises error if i is not a valid index
         a = montecarlo()
         a._paths = self._paths
-        if (self._bins is None) or isinstance(self._bins, (int, str)):
-            a._bins = self._bins
-            a._range = self._range
-        else:
-            a._bins = self._bins[i]
-        if self.paths != 0:
-            a._mean = self._mean[i]
-            a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+        a._range = self._range
+        # statistics are referenced and not stored, see __getattr__
+        del a._mean, a._moments, a._counts, a._paths_outside, a._bins
+        a._source = self, i
         return a
 
+    def __getattr__(self, name):
+        # invoked for missing attributes only: data of an instance
+        # returned by __getitem__ are taken from the instance
+        # being indexed, at each access
+        if '_source' not in self.__dict__ or name not in (
+                '_mean', '_moments', '_counts', '_paths_outside', '_bins'):
+            raise AttributeError(
+                '{!r} object has no attribute {!r}'
+                .format(type(self).__name__, name))
+        source, i = self._source
+        data = getattr(source, name)
+        if data is None or source.paths == 0 or isinstance(data, (int, str)):
+            return data
+        elif name == '_moments':
+            return tuple(moment[i] for moment in data)
+        else:
+            return data[i]
+
     # user access to statistics
     # -------------------------
     def mean(self):
-- 
2.43.0


From 17776fc17e0068d7145837df4b756fb68b88e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 28/40] fix: mean, histogram and outpaths returned by a
 montecarlo instance changed at later updates

---
 sdepy/infrastructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 049165d..76cb8a0 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3106,7 +3106,7 @@ class montecarlo:
     # -------------------------
     def mean(self):
         """Mean of cumulated sample data points."""
-        return self._mean
+        return self._mean.copy()
 
     def var(self):
         """Variance of cumulated sample data points."""
@@ -3176,7 +3176,7 @@ class montecarlo:
             counts = counts.flatten()[0]
             bins = bins.flatten()[0]
 
-        return counts, bins
+        return counts.copy(), bins
 
     def density_histogram(self):
         """
@@ -3202,7 +3202,7 @@ class montecarlo:
         Data points fallen outside of the bins' boundaries.
         """
         counts, bins = self.histogram()  # raises error if not single valued
-        return self._paths_outside
+        return self._paths_outside.copy()
 
     def outerr(self):
         """Fraction of cumulated data points fallen outside
-- 
2.43.0


From a68a4a785200fbdf1ece38cc24832d86ee7d29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 29/40] fix: a failed montecarlo update left moments, histogram
 and bins partially updated

---
 sdepy/infrastructure.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 76cb8a0..6dbb271 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2967,9 +2967,23 @@ class montecarlo:
             return
 
         # compute/cumulate value, error and stats
-        self._update_moments(isfirst, sample)
-        self._update_histogram(isfirst, sample)
-        self._paths[0] += sample_paths
+        # (a failed update leaves no trace)
+        attributes, data = self.__dict__.copy(), []
+        if not isfirst:
+            data += [self._mean, *self._moments]
+            if self._bins is not None:
+                data += [self._paths_outside, *self._counts.flat]
+        data = [(x, x.copy()) for x in data]
+        try:
+            self._update_moments(isfirst, sample)
+            self._update_histogram(isfirst, sample)
+            self._paths[0] += sample_paths
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(attributes)
+            for x, backup in data:
+                x[...] = backup
+            raise
 
     def _update_moments(self, isfirst, sample, max_moment=4):
         if isfirst:
-- 
2.43.0


From a38b1db2cef52d4b1cacec3227666955d430701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:30 +0000
Subject: [PATCH 30/40] fix: antithetic averages of booleans and small integers
 were evaluated in their own arithmetics

---
 sdepy/infrastructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6dbb271..4e03ccf 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2952,8 +2952,8 @@ class montecarlo:
                     .format(sample_paths))
             sample_paths //= 2
             sign = 1 if use == 'even' else -1
-            sample = (sample[..., :sample_paths] +
-                      sign*sample[..., sample_paths:])/2
+            sample = (sample[..., :sample_paths]/2 +
+                      sign*(sample[..., sample_paths:]/2))
 
         # set flag to identify first run
         isfirst = (self.paths == 0)
-- 
2.43.0


From 7f5213d2254f9b75f4ddf4e7a68df45972087956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:01 +0000
Subject: [PATCH 31/40] fix: a kfunc class reading its params while
 initializing failed upon derivation

---
 sdepy/kfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/kfun.py b/sdepy/kfun.py
index e3406d5..305590e 100644
--- a/sdepy/kfun.py
+++ b/sdepy/kfun.py
@@ -168,9 +168,9 @@ def _kfunc_decorate_class(f):
                 # instantiate a derived object with merged parameters
                 cls = type(self)
                 new = object.__new__(cls)
-                new.__init__(**new_init_args)
                 new._kfunc_params = new_init_args
                 new._kfunc_parent = self
+                new.__init__(**new_init_args)
 
                 # handle evaluation/instantiation
                 # with merged parameters
-- 
2.43.0


From c2639328ebbbe5b4f327414f8e168a522f4b715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 32/40] fix: exp_mean of double_exp_rv failed with array-like
 parameters, and was infinite for a null pa

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 4e03ccf..0fc3d88 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1807,7 +1807,9 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        finite = np.logical_or(a < 1, pa == 0)
+        exp_mean_plus = pa/np.where(finite, 1 - np.where(pa == 0, 0, a), 1)
+        return np.where(finite, exp_mean_plus, np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From f42c3d3c243d7e60ff31a7fad4d2ba0855bf3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 33/40] fix: double_exp_rv accepted nan probabilities

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0fc3d88..d568476 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1781,7 +1781,7 @@ class _double_exp_rv:
             self._a, self._b, self._pa, self._pb = \
             np.broadcast_arrays(a, b, pa, 1-np.asarray(pa))
         if (a <= 0).any() or (b <= 0).any() \
-           or (pa > 1).any() or (pa < 0).any():
+           or not (pa <= 1).all() or not (pa >= 0).all():
             raise ValueError('domain error in arguments')
         self._rvxa = scipy.stats.expon(scale=a)
         self._rvxb = scipy.stats.expon(scale=b)
-- 
2.43.0


From 2a48d98957e3ab692694d28abad8fa8d0854ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 34/40] fix: bsd1d2 altered the global numpy error settings in
 case of errors

---
 sdepy/analytical.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..0888f8d 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -921,9 +921,8 @@ def bsd1d2(k, t, *, x0=1., r=0., q=0., sigma=1.):
     # and/or sigma==0
     A = log(x0/k) + (r - q + 0.5 * sigma**2) * t
     B = sigma * sqrt(t)
-    old_settings = np.seterr(divide='ignore', invalid='ignore')
-    d1 = np.where(B == 0, np.where(A == 0, 0., np.inf * A), A / B)
-    np.seterr(**old_settings)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        d1 = np.where(B == 0, np.where(A == 0, 0., np.inf * A), A / B)
     assert not np.isnan(d1).any()
     d2 = d1 - B
 
-- 
2.43.0


From f599e7c3b1dd7b4b640e1d49a13ba489087f213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 35/40] fix: Black-Scholes functions failed with lists of
 strikes, maturities or prices

---
 sdepy/analytical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 0888f8d..07c2c70 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -979,7 +979,7 @@ def bscall(k, t, *, x0=1., r=0., q=0., sigma=1.):
 
         d2 = d1 - sigma*sqrt(t)
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = map(np.asarray, (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return x0 * exp(-q*t) * scipy.stats.norm.cdf(d1) - \
         k * exp(-r*t) * scipy.stats.norm.cdf(d2)
@@ -996,7 +996,7 @@ def bscall_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = map(np.asarray, (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return exp(-q*t) * scipy.stats.norm.cdf(d1)
 
@@ -1012,7 +1012,7 @@ def bsput(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = map(np.asarray, (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return k * exp(-r*t) * scipy.stats.norm.cdf(-d2) - \
         x0 * exp(-q*t) * scipy.stats.norm.cdf(-d1)
@@ -1029,6 +1029,6 @@ def bsput_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = map(np.asarray, (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return -exp(-q*t) * scipy.stats.norm.cdf(-d1)
-- 
2.43.0


From 087568499919a2477a610c08c18eccdbd70451c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 36/40] fix: cir_pdf returned nan for small xi or t, and for
 negative values

---
 sdepy/analytical.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 07c2c70..ec3fb9a 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -543,13 +543,15 @@ def cir_pdf(t, x, *, x0=1., theta=1., k=1., xi=1.):
     --------
     cox_ingersoll_ross_process
     """
-    t, x0, theta, k, xi = np.broadcast_arrays(t, x0, theta, k, xi)
+    t, x, x0, theta, k, xi = np.broadcast_arrays(t, x, x0, theta, k, xi)
     alpha = exp(-k*t)
     c = 2*k / (1 - alpha) / (xi*xi)
     q = 2*k * theta / (xi*xi) - 1
-    return c*exp(-c * (x0*alpha + x)) * \
-        (x / (x0*alpha))**(q/2) * \
-        scipy.special.iv(q, 2*c * sqrt(x*x0*alpha))
+    # noncentral chi-squared distribution: unlike its expression via
+    # scipy.special.iv, it does not overflow for small xi or t
+    pdf = 2*c * scipy.stats.ncx2.pdf(2*c * x, df=2*q + 2, nc=2*c * x0*alpha)
+    pdf0 = np.where(q == 0, c*exp(-c * x0*alpha), np.where(q > 0, 0., np.inf))
+    return np.where(x == 0, pdf0, pdf) + 0.
 
 
 # --------------------
-- 
2.43.0


From 5b104926a27d4335b6a5087c71133ba1d7d783df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 37/40] fix: *_log_pdf functions failed with array parameters

---
 sdepy/analytical.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index ec3fb9a..8a659db 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -668,24 +668,17 @@ def _chf_to_pdf(t, x, chf, **chf_args):
     Estimate by numerical integration, using ``scipy.integrate.quad``,
     of the probability distribution described by the given characteristic
     function. Integration errors are not reported/checked.
-    Either ``t`` or ``x`` must be a scalar.
-    """
-    t = np.asarray(t)
-    x = np.asarray(x)
-
-    def f(u, t, x):
-        return np.real(
-            exp(-1j*u*x) / (2*np.pi) * chf(t, u, **chf_args))
-    if t.shape != ():
-        pdf = np.empty(t.shape)
-        for i in np.ndindex(t.shape):
-            pdf[i] = scipy.integrate.quad(
-                lambda u: f(u, t[i], x), -np.inf, np.inf)[0]
-    else:
-        pdf = np.empty(x.shape)
-        for i in np.ndindex(x.shape):
-            pdf[i] = scipy.integrate.quad(
-                lambda u: f(u, t, x[i]), -np.inf, np.inf)[0]
+    """
+    t, x, *values = np.broadcast_arrays(t, x, *chf_args.values())
+    pdf = np.empty(t.shape)
+
+    for i in np.ndindex(t.shape):
+        args = {k: z[i] for k, z in zip(chf_args, values)}
+
+        def f(u):
+            return np.real(
+                exp(-1j*u*x[i]) / (2*np.pi) * chf(t[i], u, **args))
+        pdf[i] = scipy.integrate.quad(f, -np.inf, np.inf)[0]
     return pdf
 
 
@@ -705,8 +698,7 @@ def heston_log_pdf(t, logx, *, x0=1., mu=0., sigma=1.,
     -----
     Estimate by numerical integration, using ``scipy.integrate.quad``,
     of the closed-form characteristic function ``heston_log_chf``.
-    Integration errors are not reported/checked. Either ``t`` or ``logx``
-    must be a scalar.
+    Integration errors are not reported/checked.
 
     See Also
     --------
@@ -793,8 +785,7 @@ def mjd_log_pdf(t, logx, *, x0=1., mu=0., sigma=1., lam=1., a=0.0, b=1.):
     -----
     Estimate by numerical integration, using ``scipy.integrate.quad``,
     of the closed-form characteristic function ``mjd_log_chf``.
-    Integration errors are not reported/checked. Either ``t`` or ``logx``
-    must be a scalar.
+    Integration errors are not reported/checked.
 
     See Also
     --------
@@ -886,8 +877,7 @@ def kou_log_pdf(t, logx, *, x0=1., mu=0., sigma=1., lam=1.,
     -----
     Estimate by numerical integration, using ``scipy.integrate.quad``,
     of the closed-form characteristic function ``kou_log_chf``.
-    Integration errors are not reported/checked. Either ``t`` or ``logx``
-    must be a scalar.
+    Integration errors are not reported/checked.
 
     See Also
     --------
-- 
2.43.0


From f2c02b289206f7a7139c6c93c12f995ccf4f6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 38/40] fix: kou_mean was finite for infinite mean jumps

---
 sdepy/analytical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 8a659db..0bea58c 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -821,11 +821,13 @@ def kou_mean(t, *, x0=1., mu=0., sigma=1., lam=1., a=0.5, b=0.5, pa=0.5):
     pb = 1 - pa
 
     # martingale correction *NOT* applied
-    exp_mean = pa/(1 - a) + pb/(1 + b)
+    exp_mean = pa/(1 - np.where(a < 1, a, 0)) + pb/(1 + b)
     nu = lam*(exp_mean - 1)
     mu1 = mu + nu
+    # the mean of positive jumps, if any, is infinite if a >= 1
+    infinite = (a >= 1) & (lam*pa*t > 0)
 
-    return x0*exp(mu1*t)
+    return np.where(infinite, np.inf, x0*exp(mu1*t)) + 0.
 
 
 # @kfunc(nvar=2)
-- 
2.43.0


From a01a4bd7dbe084178fa01a7d4b2b0ba4194f91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 39/40] fix: increments, derivative and integral of boolean and
 small integer processes overflowed or lost their sign

---
 sdepy/infrastructure.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d568476..70ba14f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1085,7 +1085,11 @@ class process(np.ndarray):
         is a 1-path process that estimates ``sigma(t)``.
         """
         t = self.t[:-1] if fwd else self.t[1:]
-        x = np.diff(self.x, axis=0)
+        x = self.x
+        if x.dtype.kind in 'biu':
+            # signed differences, avoid overflows of small integers
+            x = x.astype(np.result_type(x.dtype, int), copy=False)
+        x = np.diff(x, axis=0)
         if dt_exp:
             if x.dtype.kind in 'fc':
                 np.divide(x, self.dtx**float(dt_exp), out=x)
@@ -1128,10 +1132,10 @@ class process(np.ndarray):
         ``p['t', :-1]``
         """
         dtype = self.dtype if self.dtype.kind in 'fc' \
-            else np.result_type(self.dtype, self.dt.dtype)
+            else np.result_type(self.dtype, self.dt.dtype, int)
         x = np.empty(self.shape, dtype=dtype)
         x[0] = 0
-        x[1:] = self[:-1]*self.dtx
+        x[1:] = self.x[:-1].astype(dtype, copy=False)*self.dtx
         return process(t=self.t,
                        x=x.cumsum(axis=0, out=x))
 
-- 
2.43.0


From 768beef04d1e6d6bb956a6ce4c417a1704de3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 40/40] fix: compound Poisson sources with no paths or no
 values

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 70ba14f..205862f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2056,7 +2056,7 @@ class cpoisson_source(source):
         y_value = []
         for i in np.ndindex(dt.shape):
             dn_positive_i = np.broadcast_to(sign_dt[i]*dn[i], shape)
-            nmax = int(dn_positive_i.max())
+            nmax = int(dn_positive_i.max(initial=0))
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             # if y parameters are arrays, y variates differ by element
             by_element = np.prod(getattr(rv, '_params_shape', ())) > 1
-- 
2.43.0

