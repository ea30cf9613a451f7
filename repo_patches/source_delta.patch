From 410043674e3ad86dbdf3a8ba43714d30d4e71ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 01/23] fix: do not exponentiate twice the results of SDEs with
 log=True

SDE.exit already applies exp when self.log is set.
---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..c26958f 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1829,8 +1829,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From 8fddb816cfd0d81f15b10d4d7e1364de6d0442a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 02/23] fix: compute in floats on unsigned integer and boolean
 timelines too

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index c26958f..8efc5c0 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -526,7 +526,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iub' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From 441e6c6fdcf80dc7413215edb3ad9c7920f2ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 03/23] fix: do not sum SDEs terms in set iteration order

The order of float summation depended on the string hash seed.
---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 8efc5c0..330f5c1 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1726,7 +1726,7 @@ class SDEs(SDE):
         for a in As:
             A_ids.update(a.keys())
         A = {id: self.pack(tuple(a.get(id, 0) for a in As))
-             for id in A_ids}
+             for id in sorted(A_ids)}
         return A
 
     # public interface vs subclasses
-- 
2.43.0


From 0a5f25420d39ee37c6db7b25e8cc762a44972e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 04/23] fix: restore the numpy error state in bsd1d2 if an
 exception occurs

---
 sdepy/analytical.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..0888f8d 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -921,9 +921,8 @@ def bsd1d2(k, t, *, x0=1., r=0., q=0., sigma=1.):
     # and/or sigma==0
     A = log(x0/k) + (r - q + 0.5 * sigma**2) * t
     B = sigma * sqrt(t)
-    old_settings = np.seterr(divide='ignore', invalid='ignore')
-    d1 = np.where(B == 0, np.where(A == 0, 0., np.inf * A), A / B)
-    np.seterr(**old_settings)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        d1 = np.where(B == 0, np.where(A == 0, 0., np.inf * A), A / B)
     assert not np.isnan(d1).any()
     d2 = d1 - B
 
-- 
2.43.0


From 2f72289da16f8836a1af0ba1e33e8b6386209e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 05/23] fix: index the values, not the times, of an indexed
 true source

With array times, the index was applied to the time axis.
---
 sdepy/infrastructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..d77ee03 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2168,7 +2168,10 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        z = self._source(t, dt)
+        # leave the leading axes, enumerating times, untouched
+        times = (slice(None),)*(z.ndim - len(self._source.vshape) - 1)
+        return z[times + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From 01528f0efb0598b71c61e4a83c08624d20b05cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 06/23] fix: handle null and mutually cancelling jumps in
 true_cpoisson_source

Whether an interval has jumps depends on its counts, not on jump values.
---
 sdepy/infrastructure.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d77ee03..6f6d2dc 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2643,7 +2643,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
 
         y_value = []
         for i in range(1, nmax + 1):
@@ -2665,15 +2664,15 @@ class true_cpoisson_source(true_source):
             return [j + dj, y_new]
 
     def new_inside(self, z1, z2, t1, t2, s):
+        # z2 not needed
         j1, y1_value = z1
-        j2, _ = z2  # y2_value not needed
-
-        if (j1 == j2).all():
-            return None
 
         dn = self._dj.dn
         n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
 
+        if (n1 == n2).all():
+            return None
+
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
         dn_t2_s = n2 - ns
-- 
2.43.0


From 5d0e3d9301142984b64022201f9c836d8e33fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 07/23] fix: do not truncate summaries, derivatives and
 integrals of int processes

---
 sdepy/infrastructure.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6f6d2dc..edb178a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -827,6 +827,12 @@ class process(np.ndarray):
         return cls(t=self.t.copy(**args),
                    x=self.view(np.ndarray))
 
+    @property
+    def _float_dtype(self):
+        """dtype of real valued results, given process values (floats are
+        used in case of integer or boolean values)"""
+        return self.dtype if self.dtype.kind in 'fc' else np.dtype(float)
+
     # summary operations across paths
     # -------------------------------
 
@@ -863,7 +869,7 @@ class process(np.ndarray):
         One path process exposing for each time point
         the mean of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
+        dtype = self._float_dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.mean(axis=-1, dtype=dtype, out=out,
                                    keepdims=True))
@@ -873,7 +879,7 @@ class process(np.ndarray):
         One path process exposing for each time point
         the variance of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
+        dtype = self._float_dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.var(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -883,7 +889,7 @@ class process(np.ndarray):
         One path process exposing for each time point
         the standard deviation of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
+        dtype = self._float_dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.std(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1001,7 +1007,7 @@ class process(np.ndarray):
         Constant process exposing for each path the mean of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
+        dtype = self._float_dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.mean(axis=0, dtype=dtype, out=out,
                                    keepdims=True))
@@ -1011,7 +1017,7 @@ class process(np.ndarray):
         Constant process exposing for each path the variance of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
+        dtype = self._float_dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.var(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1021,7 +1027,7 @@ class process(np.ndarray):
         Constant process exposing for each path the standard
         deviation of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
+        dtype = self._float_dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.std(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1076,7 +1082,7 @@ class process(np.ndarray):
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
         if dt_exp:
-            np.divide(x, self.dtx**dt_exp, out=x)
+            x = x/self.dtx**dt_exp
         return process(t=t, x=x)
 
     def tder(self):
@@ -1113,7 +1119,7 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=self.dtype)
+        x = np.empty(self.shape, dtype=self._float_dtype)
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
         return process(t=self.t,
-- 
2.43.0


From 457120fabb25975bd43eba1e8eefcd09e91f853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 08/23] fix: treat numpy integers as integers in special
 process indexing

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index edb178a..b3a364f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -690,7 +690,7 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
             i = key[0]
             key = (slice(i, None, None),) if i == -1 else \
-- 
2.43.0


From 93157b420d4f0c90d5311aec5995aac86e8ac21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 09/23] fix: let indexed montecarlo instances reference the
 stored statistics

Single values were copied, and indexing failed if bins is None.
---
 sdepy/infrastructure.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b3a364f..a48a89c 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3037,13 +3037,20 @@ class montecarlo:
         if (self._bins is None) or isinstance(self._bins, (int, str)):
             a._bins = self._bins
             a._range = self._range
-        else:
+        elif self.paths == 0:
             a._bins = self._bins[i]
         if self.paths != 0:
-            a._mean = self._mean[i]
-            a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            # make sure that indexing always returns views of the arrays,
+            # as single values too should be referenced, not copied
+            key = i if isinstance(i, tuple) else (i,)
+            if not any(k is Ellipsis for k in key):
+                key += (Ellipsis,)
+            a._mean = self._mean[key]
+            a._moments = tuple(moment[key] for moment in self._moments)
+            if self._bins is not None:
+                a._bins = self._bins[key]
+                a._counts = self._counts[key]
+                a._paths_outside = self._paths_outside[key]
         return a
 
     # user access to statistics
-- 
2.43.0


From b48a718decefd65047756c3e34a3a4610d62be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 10/23] fix: broadcast subsequent montecarlo samples, as
 documented

---
 sdepy/infrastructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a48a89c..b898d10 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2924,6 +2924,10 @@ class montecarlo:
         # set flag to identify first run
         isfirst = (self.paths == 0)
 
+        # broadcast subsequent samples to the shape of the first one
+        if not isfirst and sample.ndim <= len(self.shape):
+            sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
+
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
         self._update_histogram(isfirst, sample)
-- 
2.43.0


From 11cb995535f1ff23752367c1aaa396878b6541ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 11/23] fix: allow for lists and arrays as SDE parameter
 defaults

---
 sdepy/integration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 330f5c1..265da52 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1015,8 +1015,8 @@ class SDE:
                    expected_more_args)):
             for k, z in D.items():
                 defaults[k].append(z)
-        repeated = {k for k in defaults
-                    if len(set(defaults[k])) > 1}
+        repeated = {k for k, (first, *others) in defaults.items()
+                    if any(z is not first and z != first for z in others)}
         if repeated:
             raise TypeError(
                     'two or more incompatible defaults found '
-- 
2.43.0


From 860ae49704104626d1e10d371e9492c53c8f44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 12/23] fix: allow for a paths axis in the correlations of
 true_wiener_source

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b898d10..3b2018b 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2494,7 +2494,9 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         # (avoid instantiating a new wiener_source at each call)
         if callable(corr):
             a, b = (s - t1), (t2 - s)
-            A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
+            A, B = corr((t1+s)/2), corr((s+t2)/2)
+            # drop the trailing paths axis, if any (e.g. if corr is a process)
+            A, B = A.reshape(A.shape[:2])*a, B.reshape(B.shape[:2])*b
             Z = B @ np.linalg.inv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
-- 
2.43.0


From 5ea0d49f08ca6d7c8a2a54c5052cb6bade86a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 13/23] fix: keep the type of the values of constant processes

process(t, c=c) with more than one time point stored c as float,
discarding the imaginary part of complex constants.
---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 3b2018b..a86221f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -441,7 +441,7 @@ class process(np.ndarray):
             if t.size == 1:
                 x = c[np.newaxis, ..., np.newaxis]
             else:
-                x = np.empty(shape=t.shape + c.shape + (1,), dtype=dtype)
+                x = np.empty(shape=t.shape + c.shape + (1,), dtype=c.dtype)
                 x[...] = c[np.newaxis, ..., np.newaxis]
         else:
             assert False
-- 
2.43.0


From 63898d94fa62649289a9d013ab25958bb3852aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 14/23] fix: do not sum boolean and small integer processes in
 their own type

psum, tsum and tcumsum of a boolean process returned its logical or,
and sums of small integers overflowed.
---
 sdepy/infrastructure.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a86221f..898df96 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -859,7 +859,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the sum of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.sum(axis=-1, dtype=dtype, out=out,
                                   keepdims=True))
@@ -988,7 +987,6 @@ class process(np.ndarray):
         Constant process exposing for each path the sum of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.sum(axis=0, dtype=dtype, out=out,
                                   keepdims=True))
@@ -998,7 +996,6 @@ class process(np.ndarray):
         Process exposing for each path and time point
         the cumulative sum of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.cumsum(axis=0, dtype=dtype, out=out))
 
-- 
2.43.0


From 0bf983fdf7859ca971bb2484643814b2d5b02538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 15/23] fix: montecarlo mean, counts and outpaths altered by
 subsequent updates

The internal arrays, updated in place, were handed out: a.m or a.h, once
stored, changed upon a.update.
---
 sdepy/infrastructure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 898df96..a7fa6d9 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3060,7 +3060,7 @@ class montecarlo:
     # -------------------------
     def mean(self):
         """Mean of cumulated sample data points."""
-        return self._mean
+        return None if self._mean is None else self._mean.copy()
 
     def var(self):
         """Variance of cumulated sample data points."""
@@ -3127,8 +3127,8 @@ class montecarlo:
                 )
         if (counts.dtype == object and counts.size == 1):
             assert bins.dtype == object and bins.size == 1
-            counts = counts.flatten()[0]
-            bins = bins.flatten()[0]
+            counts = counts.flatten()[0].copy()
+            bins = bins.flatten()[0].copy()
 
         return counts, bins
 
@@ -3156,7 +3156,7 @@ class montecarlo:
         Data points fallen outside of the bins' boundaries.
         """
         counts, bins = self.histogram()  # raises error if not single valued
-        return self._paths_outside
+        return self._paths_outside.copy()
 
     def outerr(self):
         """Fraction of cumulated data points fallen outside
-- 
2.43.0


From 570fda608f3015c40445d14296242a605af17acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 16/23] fix: montecarlo pdf interpolates at truncated midpoints
 of integer bins

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a7fa6d9..e7c1f3a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3200,7 +3200,7 @@ class montecarlo:
                 pp[0], pp[1:] = (0, (deltas*ncounts).cumsum())
                 fill_value = (0., 1.)
             else:
-                xx = np.empty((bins.size+1,), dtype=bins.dtype)
+                xx = np.empty((bins.size+1,), dtype=ncounts.dtype)
                 xx[0], xx[1:-1], xx[-1] = (bins[0], (bins[:-1] + bins[1:])/2,
                                            bins[-1])
                 pp = np.empty((bins.size+1,), dtype=ncounts.dtype)
-- 
2.43.0


From a044f7cdbb9665176e9ebd237272265459e002f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 17/23] fix: accept lists as strikes, maturities and prices in
 Black-Scholes formulae

---
 sdepy/analytical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 0888f8d..a02fbe1 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -979,7 +979,7 @@ def bscall(k, t, *, x0=1., r=0., q=0., sigma=1.):
 
         d2 = d1 - sigma*sqrt(t)
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return x0 * exp(-q*t) * scipy.stats.norm.cdf(d1) - \
         k * exp(-r*t) * scipy.stats.norm.cdf(d2)
@@ -996,7 +996,7 @@ def bscall_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return exp(-q*t) * scipy.stats.norm.cdf(d1)
 
@@ -1012,7 +1012,7 @@ def bsput(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return k * exp(-r*t) * scipy.stats.norm.cdf(-d2) - \
         x0 * exp(-q*t) * scipy.stats.norm.cdf(-d1)
@@ -1029,6 +1029,6 @@ def bsput_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q = (np.asarray(z) for z in (k, t, x0, r, q))
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return -exp(-q*t) * scipy.stats.norm.cdf(-d1)
-- 
2.43.0


From 24cfa31de69ef285ce33b1f6149d6b667e6c6269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 18/23] fix: double_exp_rv.exp_mean fails with array parameters

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e7c1f3a..50e35fe 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1791,7 +1791,7 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From e6d4fe1a3b53a6f7cd30ffd98d7efc41ff302508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 19/23] fix: true_source misses stored realizations next to t
 from above

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 50e35fe..779f43e 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2281,6 +2281,8 @@ class true_source(source):
             k = bisect.bisect_right(t, s)
             if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
                 return getvalue(z[k-1])
+            elif k < len(t) and np.isclose(s, t[k], rtol=rtol, atol=0.):
+                return getvalue(z[k])
             elif k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
-- 
2.43.0


From 9c9bb81c4fbc1f07f6968062a4d90d53af9bbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 20/23] fix: indexing true_source by Ellipsis or separated
 index arrays

---
 sdepy/infrastructure.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 779f43e..0e309c6 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2163,18 +2163,21 @@ class _indexed_true_source:
 
     def __init__(self, source, vindex):
         self._source = source
-        self._index = np.index_exp[vindex] + np.index_exp[..., :]
+        # index, among the flattened values of source, of each value
+        ids = np.arange(np.prod(source.vshape, dtype=int))
+        self._index = np.asarray(ids.reshape(source.vshape)[vindex])
 
         self.paths = source.paths
-        self.vshape = source(source.t0)[self._index][..., 0].shape
+        self.vshape = self._index.shape
         self.dtype = source.dtype
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
         z = self._source(t, dt)
         # leave the leading axes, enumerating times, untouched
-        times = (slice(None),)*(z.ndim - len(self._source.vshape) - 1)
-        return z[times + self._index]
+        times = z.shape[:z.ndim - len(self._source.vshape) - 1]
+        z = z.reshape(times + (-1, self.paths))
+        return z[..., self._index, :]
 
     @property
     def size(self):
-- 
2.43.0


From b55ed09cc3a4275253f4baad0d42d68c521c0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 21/23] fix: accept floating counts in compound Poisson and
 true Poisson sources

---
 sdepy/infrastructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 0e309c6..115db05 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2030,7 +2030,7 @@ class cpoisson_source(source):
         y_value = []
         for i in np.ndindex(dt.shape):
             dn_positive_i = sign_dt[i]*dn[i]
-            nmax = (dn_positive_i).max()
+            nmax = int((dn_positive_i).max())
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             for j in range(1, nmax+1):
                 index = (dn_positive_i == j)
@@ -2565,7 +2565,7 @@ class true_poisson_source(true_source):
             return None
         p = (s - t1)/(t2 - t1)
         n = n2 - n1
-        return n1 + self.rng.binomial(n, p, n.shape)
+        return n1 + self.rng.binomial(n.astype(int), p, n.shape)
 
 
 class true_cpoisson_source(true_source):
@@ -2638,7 +2638,7 @@ class true_cpoisson_source(true_source):
         return [super().init(), None]
 
     def _decode_y(self, dn_value, y_value):
-        nmax = dn_value.max()
+        nmax = int(dn_value.max())
         yy = np.zeros(dn_value.shape + (nmax,),
                       dtype=self.dtype)
         for y in y_value:
@@ -2652,7 +2652,7 @@ class true_cpoisson_source(true_source):
         return yy
 
     def _encode_y(self, dn_value, yy):
-        nmax = dn_value.max()
+        nmax = int(dn_value.max())
 
         y_value = []
         for i in range(1, nmax + 1):
@@ -2686,7 +2686,7 @@ class true_cpoisson_source(true_source):
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
         dn_t2_s = n2 - ns
-        nmax = dn_t2_t1.max()
+        nmax = int(dn_t2_t1.max())
 
         # decode y_value
         yy1 = self._decode_y(dn_t2_t1, y1_value)
@@ -2694,7 +2694,7 @@ class true_cpoisson_source(true_source):
         # split y_value
         yy1_updated = yy1.copy()
         yy_new = np.zeros_like(yy1)
-        for i in range(dn_s_t1.max() + 1):
+        for i in range(int(dn_s_t1.max()) + 1):
             index = (dn_s_t1 == i)
             yy1_updated[index, i:] = 0
             yy_new[index, :nmax-i] = yy1[index, i:]
-- 
2.43.0


From b8c158e8455c6e434d5cb4d5d8faea87e10b0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 22/23] fix: true_wiener_source fails for time-dependent
 perfect correlations

---
 sdepy/infrastructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 115db05..5370939 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2433,7 +2433,7 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
       - ``A`` is the expected covariance matrix of ``w(s) - w(t1)``,
       - ``B`` is the expected covariance matrix of ``w(t2) - w(s)``.
 
-    Let ``Z = B @ np.linalg.inv(A + B)``, and let ``y`` be a random
+    Let ``Z = B @ np.linalg.pinv(A + B)``, and let ``y`` be a random
     normal variate, independent from ``w(t1)`` and ``w(t2)``,
     with covariance matrix ``Z @ A`` (note that the latter is a symmetric
     matrix, as a consequence of the symmetry of ``A`` and ``B``).
@@ -2499,7 +2499,7 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
             A, B = corr((t1+s)/2), corr((s+t2)/2)
             # drop the trailing paths axis, if any (e.g. if corr is a process)
             A, B = A.reshape(A.shape[:2])*a, B.reshape(B.shape[:2])*b
-            Z = B @ np.linalg.inv(A + B)
+            Z = B @ np.linalg.pinv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
             ws = self._mult(Z, w1) + self._mult((Id - Z), w2) + dw(0, 1)
-- 
2.43.0


From e15215c807a10afc08287a4cd3a91024bf7fb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 23/23] fix: cir_pdf is nan for short times

The modified Bessel function overflows, and the exponential multiplying it
underflows, if t is small: use the exponentially scaled Bessel function.
---
 sdepy/analytical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index a02fbe1..c510194 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -547,9 +547,12 @@ def cir_pdf(t, x, *, x0=1., theta=1., k=1., xi=1.):
     alpha = exp(-k*t)
     c = 2*k / (1 - alpha) / (xi*xi)
     q = 2*k * theta / (xi*xi) - 1
-    return c*exp(-c * (x0*alpha + x)) * \
+    z = 2*c * sqrt(x*x0*alpha)
+    # scipy.special.ive(q, z) is iv(q, z)*exp(-z): does not overflow
+    # as t goes to 0, when c and z are large
+    return c*exp(z - c * (x0*alpha + x)) * \
         (x / (x0*alpha))**(q/2) * \
-        scipy.special.iv(q, 2*c * sqrt(x*x0*alpha))
+        scipy.special.ive(q, z)
 
 
 # --------------------
-- 
2.43.0

