From ea6c21802edc5991d52bf498921d0e7c0d33574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 01/31] fix: Gauss rules of order 1 and 2 no longer crash

A Newton step of exactly zero never met the stopping criterion, and the
warning issued instead had an invalid format string.
---
 src/sparse_ir/_gauss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 44113d0..594a77c 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -142,11 +142,11 @@ def rule_from_recurrence(alpha, beta, a, b):
         # check convergence without relying on ATOL
         currdiff = np.abs(diff).max()
         #print(currdiff)
-        if not (2 * currdiff <= prevdiff):
+        if currdiff == 0 or not (2 * currdiff <= prevdiff):
             break
         prevdiff = currdiff
     else:
-        warnings.warn("Newton iteration did not converge, error = {.2g}"
+        warnings.warn("Newton iteration did not converge, error = {:.2g}"
                       .format(currdiff))
 
     # Now we know that the weights are proportional to the following:
-- 
2.43.0


From d23fce840c9b59378d0d2ea0542833bad4fe44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 02/31] fix: AugmentedBasis.statistics returns instead of
 raising

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 71353cb..aa5dbb7 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -69,7 +69,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def statistics(self):
-        raise self._basis.statistics
+        return self._basis.statistics
 
     def __getitem__(self, index):
         stop = basis._slice_to_size(index)
-- 
2.43.0


From cdf2c81ab4c8806deeee94bf875d3b4b5a752446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 03/31] fix: TauConst.hat works with current numpy

np.complex has been removed from numpy.
---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index aa5dbb7..c6328d1 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -247,7 +247,7 @@ class TauConst(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        return np.sqrt(self._beta) * (n == 0).astype(np.complex)
+        return np.sqrt(self._beta) * (n == 0).astype(complex)
 
 
 class TauLinear(AbstractAugmentation):
-- 
2.43.0


From 158231d0fdbeaee8f39e81e51a3528ba2ec3b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 04/31] fix: AugmentedTauFunction.xmax returns upper bound

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index c6328d1..893e109 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -180,7 +180,7 @@ class AugmentedTauFunction(_AugmentedFunction):
 
     @property
     def xmax(self):
-        return self._fbasis.xmin
+        return self._fbasis.xmax
 
     def deriv(self, n=1):
         """Get polynomial for the n'th derivative"""
-- 
2.43.0


From 257988918e66266d8a0cc8d713ae84037bb726c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 05/31] fix: AugmentedTauFunction.deriv passes list of
 functions

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 893e109..8727c50 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -186,7 +186,7 @@ class AugmentedTauFunction(_AugmentedFunction):
         """Get polynomial for the n'th derivative"""
         dbasis = self._fbasis.deriv(n)
         daug = [faug_l.deriv(n) for faug_l in self._faug]
-        return AugmentedTauFunction(dbasis, *daug)
+        return AugmentedTauFunction(dbasis, daug)
 
 
 class AugmentedMatsubaraFunction(_AugmentedFunction):
-- 
2.43.0


From ee39d259a59c608da2e80bdfa7c2d168a993f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 06/31] fix: TauLinear.hat accepts a single frequency

np.reciprocal cannot write into a numpy scalar.
---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 8727c50..43688c9 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -279,7 +279,7 @@ class TauLinear(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        inv_w = np.pi/self._beta * n
+        inv_w = np.asarray(np.pi/self._beta * n)
         inv_w = np.reciprocal(inv_w, out=inv_w, where=n.astype(bool))
         return self._norm * 2/1j * inv_w
 
-- 
2.43.0


From 27f295d3aa757aed02183fde098b904f80f19f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 07/31] fix: TauLinear.deriv is not truncated for integer tau

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 43688c9..37d722e 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -273,7 +273,7 @@ class TauLinear(AbstractAugmentation):
             return self
         elif n == 1:
             c = self._norm * 2/self._beta
-            return lambda tau: np.full_like(tau, c)
+            return lambda tau: np.full(np.shape(tau), c)
         else:
             return lambda tau: np.zeros_like(tau)
 
-- 
2.43.0


From 1c978c98ff6510e8dd7e25170453265025c461c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 08/31] fix: slices are relative to the basis that is sliced

basis[:], basis[:100] and basis[:-1] of a basis that was already truncated
referred to the full SVE result, and thus returned a larger basis.  If a
basis was created with a lower eps than its SVE result, then slicing and
rescaling dropped basis functions.  For augmented bases, [:] failed.
---
 src/sparse_ir/augment.py |  4 ++--
 src/sparse_ir/basis.py   | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 37d722e..d4054d5 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -72,7 +72,7 @@ class AugmentedBasis(abstract.AbstractBasis):
         return self._basis.statistics
 
     def __getitem__(self, index):
-        stop = basis._slice_to_size(index)
+        stop = basis._slice_to_size(index, self.size)
         if stop <= self._naug:
             raise ValueError("Cannot truncate to only augmentation")
         return AugmentedBasis(self._basis[:stop - self._naug],
@@ -161,7 +161,7 @@ class _AugmentedFunction:
     def __getitem__(self, l):
         # TODO make this more general
         if isinstance(l, slice):
-            stop = basis._slice_to_size(l)
+            stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 0a4a223..fa839d3 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -91,10 +91,12 @@ class FiniteTempBasis(abstract.AbstractBasis):
         self._uhat = self._uhat_full[:s.size]
 
     def __getitem__(self, index):
+        # The slice is relative to this basis, not to the underlying SVE, so
+        # the size alone must determine where to cut.
         return FiniteTempBasis(
-                    self._statistics, self._beta, self._wmax, None,
-                    max_size=_slice_to_size(index), kernel=self._kernel,
-                    sve_result=self._sve_result)
+                    self._statistics, self._beta, self._wmax, 0,
+                    max_size=_slice_to_size(index, self.size),
+                    kernel=self._kernel, sve_result=self._sve_result)
 
     @property
     def statistics(self): return self._statistics
@@ -204,7 +206,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         since ``lambda_ == beta * wmax`` stays constant.
         """
         new_wmax = self._kernel.lambda_ / new_beta
-        return FiniteTempBasis(self._statistics, new_beta, new_wmax, None,
+        return FiniteTempBasis(self._statistics, new_beta, new_wmax, 0,
                                max_size=self.size, kernel=self._kernel,
                                sve_result=self._sve_result)
 
@@ -329,11 +331,11 @@ def _get_kernel(statistics, lambda_, kernel):
     return kernel
 
 
-def _slice_to_size(index):
+def _slice_to_size(index, size):
     if not isinstance(index, slice):
         raise ValueError("argument must be a slice (`n:m`)")
     if index.start is not None and index.start != 0:
         raise ValueError("slice must start at zero")
     if index.step is not None and index.step != 1:
         raise ValueError("slice must step in ones")
-    return index.stop
+    return len(range(size)[index])
-- 
2.43.0


From c0d024445baa83dcadaebe9ec64dc945eba99bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 09/31] fix: slices of augmented functions keep their type

Otherwise, attributes such as xmin, deriv, and zeta are lost.
---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index d4054d5..8d9ac2a 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -164,7 +164,7 @@ class _AugmentedFunction:
             stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
-            return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
+            return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
             l = int(l)
             if l < self._naug:
-- 
2.43.0


From dd937380a22987d4859d2bac9fb261a435a4f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 10/31] fix: AugmentedBasis.significance covers augmentations

There must be one value for each basis function.  For augmentations, there
is no a-priori bound.
---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 8d9ac2a..6721a55 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -88,7 +88,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def significance(self):
-        return self._basis.significance
+        return np.hstack([np.ones(self._naug), self._basis.significance])
 
     @property
     def accuracy(self):
-- 
2.43.0


From d0204b974578598dc744afada9514ae7bc58cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 11/31] fix: derivative of piecewise polynomial has correct
 order

The order was copied from the original polynomial, which broke the Fourier
transform of derivatives.
---
 src/sparse_ir/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index bc178e0..861cb11 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -27,6 +27,7 @@ class PiecewiseLegendrePoly:
             self.__dict__.update(knots.__dict__)
             self.data = data
             self.symm = symm
+            self.polyorder = data.shape[0]
             return
 
         data = np.array(data)
-- 
2.43.0


From f5e4266beb8760b4997ce4ec216fede5be37a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 12/31] fix: high-frequency model does not infer parity from
 index

The model assumed that the l-th polynomial had parity (-1)**l, which only
holds for the full set of singular functions, not for a single polynomial
(e.g., u[1]) or a subset.  Use the derivatives at both ends instead.
---
 src/sparse_ir/poly.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 861cb11..1c82f90 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -429,21 +429,21 @@ def _derivs(ppoly, x):
         yield ppoly(x)
 
 
-def _power_moments(stat, deriv_x1):
-    """Return moments"""
+def _power_moments(stat, deriv_x1, deriv_x0):
+    """Return moments from derivatives at x=1 and x=-1"""
     statsign = {'odd': -1, 'even': 1}[stat]
-    mmax, lmax = deriv_x1.shape
-    m = np.arange(mmax)[:,None]
-    l = np.arange(lmax)[None,:]
-    coeff_lm = ((-1.0)**(m+1) + statsign * (-1.0)**l) * deriv_x1
-    return -statsign/np.sqrt(2.0) * coeff_lm
+    m = np.arange(deriv_x1.shape[0])[:,None]
+    coeff_lm = (-1.0)**m * (statsign * deriv_x1 - deriv_x0)
+    return coeff_lm / np.sqrt(2.0)
 
 
 def _power_model(stat, poly):
     deriv_x1 = np.asarray(list(_derivs(poly, x=1)))
+    deriv_x0 = np.asarray(list(_derivs(poly, x=-1)))
     if deriv_x1.ndim == 1:
         deriv_x1 = deriv_x1[:,None]
-    moments = _power_moments(stat, deriv_x1)
+        deriv_x0 = deriv_x0[:,None]
+    moments = _power_moments(stat, deriv_x1, deriv_x0)
     return _PowerModel(moments)
 
 
-- 
2.43.0


From cae67815f5f98522732e38d2774d14f865c39db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 13/31] fix: ravel_argument does not share bound instance

The decorator stored the instance it was last accessed from, which is shared
by all objects of the class.  So, e.g., giw = model.giw gave the results of
a different object later on, and evaluation was not thread-safe.
---
 src/sparse_ir/_util.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index e2ae6d9..80bf163 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -16,21 +16,21 @@ def ravel_argument(last_dim=False):
 
 class RavelArgumentDecorator(object):
     def __init__(self, inner, last_dim=False):
-        self.instance = None
         self.inner = inner
         self.last_dim = last_dim
         functools.update_wrapper(self, inner)
 
-    def __get__(self, instance, _owner=None):
-        self.instance = instance
-        return self
+    def __get__(self, instance, owner=None):
+        if instance is None:
+            return self
+        # Bind to the instance without touching self, which is shared by all
+        # instances of the class.
+        bound = self.inner.__get__(instance, owner)
+        return RavelArgumentDecorator(bound, self.last_dim)
 
     def __call__(self, x):
         x = np.asarray(x)
-        if self.instance is None:
-            res = self.inner(x.ravel())
-        else:
-            res = self.inner(self.instance, x.ravel())
+        res = self.inner(x.ravel())
         if self.last_dim:
             return res.reshape(res.shape[:-1] + x.shape)
         else:
-- 
2.43.0


From cc6fe0f0c930acd0ca8a15b2e6bddd50d6374561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 14/31] fix: DLR default_tau_sampling_points accepts npoints

It is part of the interface for bases.
---
 src/sparse_ir/dlr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 91e4d65..0e7885f 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -118,8 +118,8 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
         """
         return self.matrix.matmul(g_dlr, axis)
 
-    def default_tau_sampling_points(self):
-        return self.basis.default_tau_sampling_points()
+    def default_tau_sampling_points(self, **kwargs):
+        return self.basis.default_tau_sampling_points(**kwargs)
 
     def default_matsubara_sampling_points(self, **kwargs):
         return self.basis.default_matsubara_sampling_points(**kwargs)
-- 
2.43.0


From a8f6e8eea12388434e57765157ee7f53c423c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 15/31] fix: bosonic DLR pole at zero is finite at zero
 frequency

It returned NaN instead of the limit, which is also what the corresponding
function in imaginary time integrates to.
---
 src/sparse_ir/dlr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 0e7885f..f1bb033 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -142,8 +142,12 @@ class MatsubaraPoles:
         if self._statistics == 'F':
             return 1 /(iv[None, :] - self._poles[:, None])
         else:
-            return np.tanh(0.5 * self._beta * self._poles)[:, None]\
-                /(iv[None, :] - self._poles[:, None])
+            # For a pole at zero, the ratio at zero frequency has a finite
+            # limit of -beta/2.
+            enum = np.tanh(0.5 * self._beta * self._poles)[:, None]
+            denom = iv[None, :] - self._poles[:, None]
+            limit = np.full_like(denom, -0.5 * self._beta)
+            return np.divide(enum, denom, out=limit, where=denom != 0)
 
 
 class TauPoles:
-- 
2.43.0


From ae812896a0561dde09c9b2ba070fca9330b03060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 16/31] fix: symmetrized kernel can be called without x_plus

The argument is optional, but omitting it raised a TypeError.
---
 src/sparse_ir/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 9624dad..445938d 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -386,7 +386,7 @@ class ReducedKernel(AbstractKernel):
         # The reduced kernel is defined only over the interval [0, 1], which
         # means we must add one to get the x_plus for the inner kernels.  We
         # can compute this as 1 + x, since we are away from -1.
-        x_plus = 1 + x_plus
+        x_plus = 1 + (x if x_plus is None else x_plus)
 
         K_plus = self.inner(x, y, x_plus, x_minus)
         K_minus = self.inner(x, -y, x_plus, x_minus)
-- 
2.43.0


From 165432e4be984f8dbf7b0491f3fa306b54a0fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 17/31] fix: bosonic and odd kernels can be evaluated at a
 single point

For scalar arguments, numpy returns scalars, which cannot be used as output
of a ufunc.  Lists failed as well for the odd kernels.
---
 src/sparse_ir/kernel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 445938d..98e4b37 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -285,7 +285,7 @@ class RegularizedBoseKernel(AbstractKernel):
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
         not_tiny = abs_v >= 1e-200
-        denom = -np.ones_like(abs_v)
+        denom = np.full_like(abs_v, -1)
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
         return -1/dtype.type(self.lambda_) * enum * denom
@@ -446,7 +446,8 @@ class _LogisticKernelOdd(ReducedKernel):
         K(x, y) == -sinh(Λ/2 * x * y) / cosh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        x, y = _check_domain(self, x, y)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
@@ -469,7 +470,8 @@ class _RegularizedBoseKernelOdd(ReducedKernel):
             K(x, y) = -y * sinh(Λ/2 * x * y) / sinh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        x, y = _check_domain(self, x, y)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
-- 
2.43.0


From 2def8a38002a66632679f969c47c77ebcea3b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 18/31] fix: SplitDecomposedMatrix.lstsq accepts any array-like

A list failed unless an axis was given.
---
 src/sparse_ir/sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 52b274d..7ff1f7f 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -339,6 +339,7 @@ class SplitDecomposedMatrix:
         return _matop_along_axis(self._a.__matmul__, x, axis)
 
     def _lstsq(self, x):
+        x = np.asarray(x)
         r = self._urealT @ x.real
         r += self._uimagT @ x.imag
         r = r / (self._s[:, None] if r.ndim > 1 else self._s)
-- 
2.43.0


From 2b91e0ed5607a96a24c14fee2a57e4c8854b96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 19/31] fix: check for statistics does not accept substrings

'' and 'BF' are substrings of 'BF' and were thus accepted.
---
 src/sparse_ir/basis.py  | 2 +-
 src/sparse_ir/kernel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index fa839d3..9efc61f 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -315,7 +315,7 @@ def _fence_matsubara_sampling(wn, positive_only):
 
 
 def _get_kernel(statistics, lambda_, kernel):
-    if statistics not in 'BF':
+    if statistics not in ('B', 'F'):
         raise ValueError("statistics must either be 'B' (for bosonic basis) "
                          "or 'F' (for fermionic basis)")
     if kernel is None:
diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 98e4b37..c64fb3b 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -93,7 +93,7 @@ class AbstractKernel:
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """Return the weight function for given statistics"""
-        if statistics not in 'FB':
+        if statistics not in ('F', 'B'):
             raise ValueError("statistics must be 'F' for fermions or 'B' for bosons")
         return lambda x: np.ones_like(x)
 
@@ -200,7 +200,7 @@ class LogisticKernel(AbstractKernel):
          - Fermion: `w(x) == 1`
          - Boson: `w(y) == 1/tanh(Λ*y/2)`
         """
-        if statistics not in "FB":
+        if statistics not in ('F', 'B'):
             raise ValueError("invalid value of statistics argument")
         if statistics == "F":
             return lambda y: np.ones_like(y)
-- 
2.43.0


From 2f7f1ba50d6f5b00ff741fdcab910fb217837f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 20/31] fix: MatsubaraSampling retains order of sampling points

The points were sorted, so the n-th value in evaluate() and fit() did not
correspond to the n-th sampling point handed in, as documented for `points`.
---
 src/sparse_ir/sampling.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 7ff1f7f..2482660 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -174,8 +174,7 @@ class MatsubaraSampling(AbstractSampling):
             sampling_points = _util.check_reduced_matsubara(sampling_points)
             if sampling_points.ndim != 1:
                 raise ValueError("sampling points must be vector")
-            sampling_points = np.sort(sampling_points)
-            if positive_only and not sampling_points[0] >= 0:
+            if positive_only and not (sampling_points >= 0).all():
                 raise ValueError("invalid negative sampling frequencies")
 
         matrix = basis.uhat(sampling_points).T
@@ -184,7 +183,7 @@ class MatsubaraSampling(AbstractSampling):
         self._positive_only = positive_only
 
         if positive_only:
-            ssvd_result = _split_complex(matrix, sampling_points[0] == 0)
+            ssvd_result = _split_complex(matrix, sampling_points == 0)
             self._matrix = SplitDecomposedMatrix(matrix, ssvd_result)
         else:
             self._matrix = DecomposedMatrix(matrix)
@@ -401,22 +400,22 @@ def _matop_along_axis(op, x, axis=None):
     return np.moveaxis(r, target_axis, axis)
 
 
-def _split_complex(mat, has_zero=False, svd_algo=np.linalg.svd):
+def _split_complex(mat, is_zero=False, svd_algo=np.linalg.svd):
     mat = np.asarray(mat)
     n, _l = mat.shape
     if not np.issubdtype(mat.dtype, np.complexfloating):
         raise ValueError("mat must be complex matrix")
 
-    # split real and imaginary part into separate matrices
-    offset_imag = 1 if has_zero else 0
-    rmat = np.vstack((mat.real, mat[offset_imag:].imag))
+    # split real and imaginary part into separate matrices, where we drop the
+    # imaginary part at zero frequency
+    has_imag = ~np.broadcast_to(is_zero, n)
+    rmat = np.vstack((mat.real, mat[has_imag].imag))
 
     # perform real-valued SVD
     ur, s, vT = svd_algo(rmat, full_matrices=False)
 
     # undo the split of the resulting vT vector
-    u = np.empty((n, s.size), mat.dtype)
+    u = np.zeros((n, s.size), mat.dtype)
     u.real = ur[:n]
-    u[:offset_imag].imag = 0
-    u[offset_imag:].imag = ur[n:]
+    u.imag[has_imag] = ur[n:]
     return u, s, vT
-- 
2.43.0


From f13ab1e084b38490d2529bc983e5c7642fe88bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 21/31] fix: singular values scale with positive power of
 cutoff

The regularized bosonic kernel has an extra power of y = w/wmax, which means
that K(tau,w) = wmax * K(x,y), so the singular values must be multiplied
with wmax rather than divided by it for sum_l s[l] u[l](tau) v[l](w) to
reproduce the kernel w * exp(-tau*w) / (1 - exp(-beta*w)).
---
 src/sparse_ir/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 9efc61f..e27fcbc 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -77,7 +77,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         # The singular values are scaled to match the change of variables, with
         # the additional complexity that the kernel may have an additional
         # power of w.
-        self._s = np.sqrt(beta/2 * wmax) * (wmax**(-self.kernel.ypower)) * s
+        self._s = np.sqrt(beta/2 * wmax) * (wmax**self.kernel.ypower) * s
 
         # HACK: as we don't yet support Fourier transforms on anything but the
         # unit interval, we need to scale the underlying data.
-- 
2.43.0


From 61f5a58f347874c4f07f61e11c50db2047c1e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 22/31] fix: overlap() with a vanishing function converges

---
 src/sparse_ir/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 1c82f90..bda637c 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -504,9 +504,9 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         intmagn = np.abs(int10)
 
         magn = res_magn + intmagn.sum(1).max(1)
-        relerror = intdiff.max(2) / magn[:, None]
 
-        xconverged = (relerror <= rtol).all(0)
+        # avoid relative errors: overlaps may be identically zero
+        xconverged = (intdiff.max(2) <= rtol * magn[:, None]).all(0)
         res_value += int10[:, xconverged].sum(1)
         res_error += intdiff[:, xconverged].sum(1)
         res_magn += intmagn[:, xconverged].sum(1).max(1)
-- 
2.43.0


From 5f5c1454dad1d047cc951494e05f5431221393aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 23/31] fix: transforms of any frequency can be indexed

---
 src/sparse_ir/poly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index bda637c..e8088c7 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -237,8 +237,10 @@ class PiecewiseLegendreFT:
     def ndim(self): return self.poly.ndim
 
     def __getitem__(self, l):
-        model = self._model if self._model is None else self._model[l]
-        return self.__class__(self.poly[l], self.freq, self.n_asymp, model)
+        if self._model is None:
+            return self.__class__(self.poly[l], self.freq)
+        return self.__class__(self.poly[l], self.freq, self.n_asymp,
+                              self._model[l])
 
     @_util.ravel_argument(last_dim=True)
     def __call__(self, n):
-- 
2.43.0


From a1f6c8ab01fcead8117e0dbecd1fa0126a8fb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 24/31] fix: fence both ends of Matsubara sampling alike

---
 src/sparse_ir/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index e27fcbc..ee95839 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -306,7 +306,7 @@ def _fence_matsubara_sampling(wn, positive_only):
     # frequency with two carefully chosen oversampling points, which brings
     # the two sampling problems within a factor of 2.
     wn_outer = wn[-1:] if positive_only else wn[[0, -1]]
-    wn_diff = 2 * np.round(0.025 * wn_outer).astype(int)
+    wn_diff = 2 * np.round(0.025 * np.abs(wn_outer)).astype(int)
     if wn.size >= 20:
         wn = np.hstack([wn, wn_outer - np.sign(wn_outer) * wn_diff])
     if wn.size >= 42:
-- 
2.43.0


From 5fa58d9a2866495cd421bbdb02629816de6e3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 25/31] fix: singular functions may vanish at the upper end

The sign convention u(1) > 0 divided by zero for any function which
vanishes there, filling it with NaN.
---
 src/sparse_ir/sve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 3e94cf1..37963c4 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -345,7 +345,7 @@ def _canonicalize(ulx, vly):
     fix that gauge by demanding u_l(1) > 0.  This ensures a diffeomorphic
     connection to the Legendre polynomials for lambda_ -> 0.
     """
-    gauge = np.sign(ulx(1))
+    gauge = np.where(ulx(1) < 0, -1.0, 1.0)
     ulx.data[None, None, :] *= 1/gauge
     vly.data[None, None, :] *= gauge
 
-- 
2.43.0


From ff53cb10fa06590cbbc739ab157a4f1617163d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 26/31] fix: negative index into augmented functions

---
 src/sparse_ir/augment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 6721a55..f0c2770 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -166,7 +166,8 @@ class _AugmentedFunction:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
-            l = int(l)
+            # resolve negative indices relative to all the functions
+            l = range(self.size)[int(l)]
             if l < self._naug:
                 return self._faug[l]
             else:
-- 
2.43.0


From 1f58aebe57665f32ba845f14f25024e7963887c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 27/31] fix: DLR with all poles at zero

---
 src/sparse_ir/dlr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index f1bb033..1f842b9 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -155,7 +155,8 @@ class TauPoles:
         self._beta = beta
         self._statistics = statistics
         self._poles = np.array(poles)
-        self._wmax = np.abs(poles).max()
+        # If all poles are at zero, any positive cutoff will do
+        self._wmax = np.abs(poles).max() or 1.0
 
     @_util.ravel_argument(last_dim=True)
     def __call__(self, tau):
-- 
2.43.0


From a23fb45445242a924d95cef5ce8184540052d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 28/31] fix: double-double SVD of tall matrices

---
 src/sparse_ir/svd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index f32c59f..290044a 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -98,5 +98,12 @@ def _ddouble_svd_trunc(a):
     """Truncated SVD with double double precision"""
     if _xprec_linalg is None:
         raise RuntimeError("require xprec package for this precision")
+
+    # svd_trunc can only handle wide or square matrices of full rank
+    m, n = a.shape
+    if m > n:
+        u, s, v = _ddouble_svd_trunc(a.T)
+        return v, s, u
+
     u, s, vh = _xprec_linalg.svd_trunc(a)
     return u, s, vh.T
-- 
2.43.0


From ca29c1780ffd40cb5fd3ac894ef65771d812be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 29/31] fix: evaluate the regularized Bose kernel at
 whole-number arguments

---
 src/sparse_ir/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index c64fb3b..54232fc 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -285,7 +285,7 @@ class RegularizedBoseKernel(AbstractKernel):
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
         not_tiny = abs_v >= 1e-200
-        denom = np.full_like(abs_v, -1)
+        denom = np.full_like(abs_v, -1, dtype=enum.dtype)
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
         return -1/dtype.type(self.lambda_) * enum * denom
-- 
2.43.0


From 72aadeb774465ac495d02c4a6bbe00a294137126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 30/31] fix: convert frequencies of any integer type to default
 integers

Unsigned frequencies were rejected by the transforms, and the
magnitude of the smallest number of a narrow type overflowed.
---
 src/sparse_ir/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index 80bf163..3ba55bb 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -50,7 +50,7 @@ def check_reduced_matsubara(n, zeta=None):
     we expect an even one.  If ``zeta`` is omitted, any one is fine.
     """
     n = np.asarray(n)
-    if not np.issubdtype(n.dtype, np.integer):
+    if n.dtype != int:
         nfloat = n
         n = nfloat.astype(int)
         if not (n == nfloat).all():
-- 
2.43.0


From b9b7da9963792d6ac9356712bc68b7b32c0236a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 31/31] fix: check frequencies handed to the DLR basis
 functions

Those of the wrong parity and fractions were silently accepted, unlike
in the IR and augmented bases.
---
 src/sparse_ir/dlr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 1f842b9..22183f8 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -138,6 +138,8 @@ class MatsubaraPoles:
     @_util.ravel_argument(last_dim=True)
     def __call__(self, n):
         """Evaluate basis functions at given frequency n"""
+        zeta = {'F': 1, 'B': 0}[self._statistics]
+        n = _util.check_reduced_matsubara(n, zeta)
         iv = 1j*n * np.pi/self._beta
         if self._statistics == 'F':
             return 1 /(iv[None, :] - self._poles[:, None])
-- 
2.43.0

