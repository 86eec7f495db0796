From 77dd2cfde4c39c71bbd75781fa96bd52c8ea4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 01/26] fix: bound functions that contain nested jit calls
 soundly

jit was treated as a linear primitive and applied separately to each
coefficient, so a nested jax.jit of a nonlinear function gave bounds that
do not hold. Inline the called Jaxpr (after rewriting it) instead.
---
 autobound/jax/jax_bound.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0eb54a0..50a8b7c 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -299,7 +299,6 @@ _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.reduce_window_sum_p,
     jax.lax.squeeze_p,
     jax.lax.transpose_p,
-    jex.core.primitives.jit_p,
     # TODO(mstreeter): add more of these
 ])
 
@@ -309,7 +308,41 @@ def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   for rule_generator in _JAXPR_REWRITE_RULES:
     pattern, replacement = rule_generator()
     jaxpr = jaxpr_editor.replace(pattern, replacement, jaxpr)
-  return jaxpr
+  return _inline_jit_eqns(jaxpr)
+
+
+def _inline_jit_eqns(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
+  """Replaces each jit equation by the (rewritten) equations it calls."""
+  if all(eqn.primitive != jex.core.primitives.jit_p for eqn in jaxpr.eqns):
+    return jaxpr
+  env = {}
+  def read(v):
+    return env.get(v, v) if isinstance(v, jex.core.Var) else v
+
+  eqns = []
+  for eqn in jaxpr.eqns:
+    invars = [read(v) for v in eqn.invars]
+    if eqn.primitive != jex.core.primitives.jit_p:
+      eqns.append(eqn.replace(invars=invars))
+      continue
+    closed_callee = eqn.params['jaxpr']
+    callee = _rewrite_jaxpr(closed_callee.jaxpr)
+    callee_env = dict(zip(callee.invars, invars))
+    for v, val in zip(callee.constvars, closed_callee.consts):
+      callee_env[v] = jex.core.Literal(val, v.aval)
+    for e in callee.eqns:
+      # A callee can be called more than once, so its variables are renamed.
+      outvars = [jex.core.Var(aval=v.aval) for v in e.outvars]
+      eqns.append(e.replace(
+          invars=[callee_env[v] if isinstance(v, jex.core.Var) else v
+                  for v in e.invars],
+          outvars=outvars))
+      callee_env.update(zip(e.outvars, outvars))
+    for v, w in zip(eqn.outvars, callee.outvars):
+      env[v] = callee_env[w] if isinstance(w, jex.core.Var) else w
+
+  return jex.core.Jaxpr(jaxpr.constvars, jaxpr.invars,
+                        [read(v) for v in jaxpr.outvars], eqns)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 467e38584f29000e497d9d20c5ff1374fc2a15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 02/26] fix: include end points in the extremum of a function
 over an interval

With several local extrema, the extremum over an interval whose best local
extremum lies outside of it ignored the end points, giving a range that is
too small (e.g. for swish at degree 3 over (-1, 5)). Comparing the extrema
by sorting also failed when the back end is being traced by jax.jit.
---
 autobound/elementwise_functions.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 07efe06..8967350 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -206,14 +206,11 @@ def maximum_value(f,
                   local_maxima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns maximum value of `f` over `[x_min, x_max]`."""
-  if not local_maxima:
-    return np_like.maximum(f(x_min), f(x_max))
-  sorted_maxima = list(sorted(local_maxima, key=f, reverse=True))
-  x = sorted_maxima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      maximum_value(f, x_min, x_max, sorted_maxima[1:], np_like))
+  result = np_like.maximum(f(x_min), f(x_max))
+  for x in local_maxima:
+    inside = np_like.logical_and(x_min <= x, x <= x_max)
+    result = np_like.where(inside, np_like.maximum(result, f(x)), result)
+  return result
 
 
 def minimum_value(f,
@@ -222,14 +219,11 @@ def minimum_value(f,
                   local_minima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns minimum value of `f` over `[x_min, x_max]`."""
-  if not local_minima:
-    return np_like.minimum(f(x_min), f(x_max))
-  sorted_minima = list(sorted(local_minima, key=f))
-  x = sorted_minima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      minimum_value(f, x_min, x_max, sorted_minima[1:], np_like))
+  result = np_like.minimum(f(x_min), f(x_max))
+  for x in local_minima:
+    inside = np_like.logical_and(x_min <= x, x <= x_max)
+    result = np_like.where(inside, np_like.minimum(result, f(x)), result)
+  return result
 
 
 def _get_range(f,
-- 
2.43.0


From 643322163a22e0a269e81fb600e512964c22f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 03/26] fix: treat a trust region that ends at a pole as
 containing it

For x**p with p a negative integer and a trust region with end point 0, the
enclosure used the value that the back end gives to 0**p, which for odd p
is the limit from one side only: the enclosure of 1/x over (-1, 0) was
bounded below by -1.
---
 autobound/primitive_enclosures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index b58a2b5..a6d0165 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -170,11 +170,14 @@ def pow_enclosure(exponent: float,
           np_like.minimum if i == 0 else np_like.maximum,
           [endpoint_if_always_positive, endpoint_if_always_negative]
       )
+    # For negative integer exponents 0 is a pole, with a different limit on each
+    # side, so it does not count as being positive or negative.
+    has_pole = exponent < 0 and int(exponent) == exponent
     return np_like.where(
-        a >= 0,
+        a > 0 if has_pole else a >= 0,
         endpoint_if_always_positive,
         np_like.where(
-            b <= 0,
+            b < 0 if has_pole else b <= 0,
             endpoint_if_always_negative,
             endpoint_if_possibly_zero
         )
-- 
2.43.0


From 5034350c235adc5787449b4f349757fa770d57b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 04/26] fix: enclose x**p over regions around zero where its
 derivative is not monotone

For a positive integer p with p - degree even, the (degree)th derivative
of x**p is not monotone over a trust region that contains zero, so the hull
of the two sharp enclosures was not an enclosure: x**2 at degree 0 over
(-1, 2) gave (1, 4).
---
 autobound/primitive_enclosures.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index a6d0165..eece6a1 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -170,6 +170,14 @@ def pow_enclosure(exponent: float,
           np_like.minimum if i == 0 else np_like.maximum,
           [endpoint_if_always_positive, endpoint_if_always_negative]
       )
+      if exponent > degree and (exponent - degree) % 2 == 0:
+        # The (degree)th derivative is not monotone over a region that contains
+        # zero, so we use its range instead.
+        c = _falling_factorial(exponent, degree) / math.factorial(degree)
+        endpoint_if_possibly_zero = c * (
+            np_like.zeros_like(a) if i == 0
+            else np_like.maximum(a**(exponent - degree),
+                                 b**(exponent - degree)))
     # For negative integer exponents 0 is a pole, with a different limit on each
     # side, so it does not count as being positive or negative.
     has_pole = exponent < 0 and int(exponent) == exponent
@@ -308,6 +316,11 @@ def taylor_remainder_ratio(
   )
 
 
+def _falling_factorial(p: float, k: int) -> float:
+  """Returns p * (p-1) * ... * (p-k+1)."""
+  return math.prod(p - i for i in range(k))
+
+
 def _pow_kth_deriv_sign(x_sign: int, p: float, k: int) -> int:
   """Return sign of kth derivative of x**p, for x with given sign."""
   # The kth derivative of x**p at p * (p-1) * ... * (p-k) * x**(p-k)
-- 
2.43.0


From f0dc5547caebbd6965a4f0a076fb6fcb352790b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 05/26] fix: zero Taylor coefficients of x**p at x0 == 0

For a non-negative integer p, the coefficients of order higher than p were
computed as 0 * x0**(p - i), which is NaN (or an error) at x0 == 0.
---
 autobound/primitive_enclosures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index eece6a1..d7382fd 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -120,7 +120,9 @@ def pow_enclosure(exponent: float,
     # Note: the next line can sometimes generate bogus RuntimeWarnings when
     # using Numpy.  This seems to be a bug in Numpy, as even doing
     # np.array(2.)**-1 generates the same RuntimeWarning.
-    taylor_coefficients_at_x0.append(c * x0**(exponent - i) / math.factorial(i))
+    taylor_coefficients_at_x0.append(
+        c * x0**(exponent - i) / math.factorial(i)
+        if c != 0 else np_like.zeros_like(x0))
     c *= exponent - i
 
   # Compute sharp enclosures of x**exponent for the case x > 0 (enc_pos below),
-- 
2.43.0


From 4f187fa280588dccad9ef500aa4fdff75b157d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 06/26] fix: apply shape primitives to the coefficients of
 vector-valued x

Pass-through primitives were bound to coefficients whose trailing axes index
the elements of (x-x0)^i, so reshape, transpose, squeeze and
reduce_window_sum failed (or changed these axes) for vector x, and
broadcast_in_dim failed for enclosures whose linear coefficient is an
interval, and for operands of rank >= 1. Map the primitive over these axes.
---
 autobound/jax/jax_bound.py | 52 +++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 50a8b7c..f53a769 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -16,6 +16,7 @@
 
 import dataclasses
 import functools
+import math
 from typing import Callable, Optional, Union
 
 from autobound import enclosure_arithmetic
@@ -293,6 +294,7 @@ _register_elementwise_function(jax.nn.swish,
 # Set of primitives that can be applied separately to each coefficient of a
 # TaylorEnclosure.
 _PASS_THRU_PRIMITIVES = frozenset([
+    jax.lax.broadcast_in_dim_p,
     jax.lax.convert_element_type_p,
     jax.lax.reshape_p,
     jax.lax.reduce_sum_p,
@@ -362,28 +364,6 @@ class _IntermediateEnclosure:
       return self.enclosure[0]  # pytype: disable=bad-return-type
 
 
-def _broadcast_in_dim_pushforward_fun(intermediate, shape,
-                                      broadcast_dimensions,
-                                      **unused_kwargs):
-  """Enclosure-generating function for jax.lax.broadcast_in_dim."""
-  enclosure = intermediate.enclosure
-  x0 = enclosure[0]
-  if isinstance(x0, tuple):
-    x0 = enclosure[0][0]
-  x_shape = (() if len(enclosure) == 1 else enclosure[1].shape[x0.ndim:])
-  def broadcast_ndarray(a, i):
-    return jax.lax.broadcast_in_dim(a, shape + i*x_shape, broadcast_dimensions)
-  def broadcast_ndarray_or_interval(a, i):
-    if isinstance(a, tuple):
-      return tuple(broadcast_ndarray(x, i) for x in a)
-    else:
-      return broadcast_ndarray(a, i)
-  return tuple(
-      broadcast_ndarray_or_interval(coeff, i)
-      for i, coeff in enumerate(enclosure)
-  )
-
-
 def _constant_intermediate_enclosure(val: types.NDArray):
   return _IntermediateEnclosure(enclosure=types.TaylorEnclosure((val,)),
                                 trust_region=(val, val))
@@ -474,12 +454,27 @@ def _intersect_intervals(
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
 
 
-def _pass_thru_pushforward_fun(primitive):
+def _pass_thru_pushforward_fun(arithmetic, primitive):
+  """Returns function that applies primitive to each coefficient."""
+  x_ndim = jnp.ndim(arithmetic.trust_region[0])
   def fun(intermediate, **params):
-    return enclosure_arithmetic.map_over_enclosure(
-        intermediate.enclosure,
-        functools.partial(primitive.bind, **params)
-    )
+    def apply_to_ndarray(a: jnp.ndarray, i: int) -> jnp.ndarray:
+      op = functools.partial(primitive.bind, **params)
+      if i * x_ndim == 0:
+        return op(a)
+      # The last i*x_ndim axes index the elements of (x-x0)^i, and primitive
+      # must be applied separately for each of them.
+      x_axes_shape = a.shape[a.ndim - i*x_ndim:]
+      batched = jnp.reshape(
+          a, a.shape[:a.ndim - i*x_ndim] + (math.prod(x_axes_shape),))
+      output = jax.vmap(op, in_axes=-1, out_axes=-1)(batched)
+      return jnp.reshape(output, output.shape[:-1] + x_axes_shape)
+
+    return types.TaylorEnclosure(tuple(
+        enclosure_arithmetic.map_over_enclosure(
+            (c,), functools.partial(apply_to_ndarray, i=i))[0]
+        for i, c in enumerate(intermediate.enclosure)
+    ))
   return fun
 
 
@@ -523,14 +518,13 @@ def _pushforward_funs(
       jax.lax.dot_general_p: _dot_general_pushforward_fun(arithmetic),
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
-      jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun,
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
       for primitive, get_enclosure in _ELEMENTWISE_PRIMITIVE_ENCLOSURES.items()
   })
   primitive_to_enclosure_fun.update({
-      primitive: _pass_thru_pushforward_fun(primitive)
+      primitive: _pass_thru_pushforward_fun(arithmetic, primitive)
       for primitive in _PASS_THRU_PRIMITIVES
   })
   return primitive_to_enclosure_fun
-- 
2.43.0


From 318be361687fbf2de1e57a33049cf39a184b6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 07/26] fix: bound dot_general with batch dimensions for
 vector-valued x

The batch dimensions were subtracted together with the contracting ones
when locating the axes that index the elements of (x-x0)^i, which permuted
these axes with those of the output: an error, or (if the shapes allow it)
bounds that do not hold.
---
 autobound/jax/jax_bound.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index f53a769..84f6bbd 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -410,9 +410,7 @@ def _dot_general_pushforward_fun(arithmetic):
   def fun(lhs_intermediate: _IntermediateEnclosure,
           rhs_intermediate: _IntermediateEnclosure,
           **params):
-    a_contracting_dims = set(a  # pylint: disable=g-complex-comprehension
-                             for t in params['dimension_numbers']
-                             for a in t[0])
+    (a_contracting_dims, _), _ = params['dimension_numbers']
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
-- 
2.43.0


From 49a264fc601c171bab96af326001be4cb7bda952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 08/26] fix: do not cap the denominator of the Taylor remainder
 ratio

The cap of 1/1e-12 shrank the enclosure of a function over a small trust
region, or with a high degree, by far more than roundoff error: log at
degree 4, x0 = 1e-3 over (5e-4, 1.5e-3) was bounded below by -7.5907 at
5e-4, where it is -7.6009. Only use the limit of the ratio if the remainder
is within roundoff error, which also keeps noise from being amplified.
---
 autobound/primitive_enclosures.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index d7382fd..ae270ec 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -306,15 +306,20 @@ def taylor_remainder_ratio(
   # We do so using:
   #     r_{k-1} / (x-x0)**k = (r_k + c_k*(x-x0)**k) / (x-x0)**k
   #                         = c_k + r_k / (x-x0)**k.
-  r_k = sigma(x) - sum(
-      c * (x - x0)**i for i, c in enumerate(taylor_coefficients_at_x0))
-  denom = (x-x0)**degree
+  terms = [c * (x - x0)**i for i, c in enumerate(taylor_coefficients_at_x0)]
+  sigma_x = sigma(x)
+  r_k = sigma_x - sum(terms)
+  # If r_k is not larger than the roundoff error in computing it, it tells
+  # nothing about r_k / (x-x0)**k, whose effect is then lost in roundoff error.
+  eps = np_like.finfo(np_like.asarray(1. * r_k).dtype).eps
+  roundoff = 16 * eps * (np_like.abs(sigma_x) + sum(map(np_like.abs, terms)))
+  is_noise = np_like.logical_or(
+      x == x0,
+      np_like.logical_and(np_like.abs(r_k) <= roundoff, roundoff < np_like.inf))
   return (
       taylor_coefficients_at_x0[degree] +
-      # Return r_k * 1 / denom, capping the magnitude of 1 / denom at 1e12.
-      # TODO(mstreeter): this results in an enclosure that's  not strictly valid
-      # when denom is very small.
-      r_k * np_like.sign(denom) / (np_like.maximum(1e-12, np_like.abs(denom)))
+      np_like.where(is_noise, 0, r_k) /
+      np_like.where(is_noise, 1, (x-x0)**degree)
   )
 
 
-- 
2.43.0


From 28873f42161aaffbe9f7040e3431417679a4a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 09/26] fix: reject conversions to integers in taylor_bounds

Converting to an integer or boolean type rounds, so applying it to each
coefficient separately gave bounds that do not hold.
---
 autobound/jax/jax_bound.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 84f6bbd..0a1e1fe 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -295,7 +295,6 @@ _register_elementwise_function(jax.nn.swish,
 # TaylorEnclosure.
 _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.broadcast_in_dim_p,
-    jax.lax.convert_element_type_p,
     jax.lax.reshape_p,
     jax.lax.reduce_sum_p,
     jax.lax.reduce_window_sum_p,
@@ -445,6 +444,18 @@ def _elementwise_pushforward_fun(arithmetic, get_enclosure):
   return g
 
 
+def _convert_element_type_pushforward_fun(arithmetic):
+  """Returns function that implements convert_element_type on enclosures."""
+  pass_thru = _pass_thru_pushforward_fun(
+      arithmetic, jax.lax.convert_element_type_p)
+  def fun(intermediate, new_dtype, **params):
+    if not jnp.issubdtype(new_dtype, jnp.inexact):
+      # Rounding to an integer (or to a bool) is not linear.
+      raise NotImplementedError(new_dtype)
+    return pass_thru(intermediate, new_dtype=new_dtype, **params)
+  return fun
+
+
 def _intersect_intervals(
     a: types.Interval, b: types.Interval) -> types.Interval:
   if not len(a) == len(b) == 2:
@@ -516,6 +527,8 @@ def _pushforward_funs(
       jax.lax.dot_general_p: _dot_general_pushforward_fun(arithmetic),
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
+      jax.lax.convert_element_type_p: _convert_element_type_pushforward_fun(
+          arithmetic),
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
-- 
2.43.0


From e5671ff3cd286fa6d13160a475b91ab8bf084f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 10/26] fix: give the variables of a Jaxpr replacement unique
 names

Intermediate variables of the replacement were inserted under the same name
for every occurrence of the pattern, and could clash with variables of the
subject, which changed the values that the edited Jaxpr computes.
---
 autobound/graph_editor.py     | 13 ++++++++++++-
 autobound/jax/jaxpr_editor.py |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 6a87fae..e8c9784 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -109,7 +109,9 @@ def replace(
     pattern: Sequence[Operation],
     replacement: Sequence[Operation],
     subject: ComputationGraph,
-    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool]
+    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool],
+    new_variable: Optional[
+        Callable[[IntermediateVariable], IntermediateVariable]] = None
 ) -> ComputationGraph:
   """Perform a search/replace on a ComputationGraph.
 
@@ -123,6 +125,10 @@ def replace(
     subject: a `ComputationGraph`
     can_bind: a `Callable` with the same meaning as the corresponding argument
       to `match()`.
+    new_variable: an optional `Callable` that returns a new variable to use (for
+      a given match) in place of an `IntermediateVariable` that occurs in
+      `replacement` but not in `pattern`.  If `None`, the variables of
+      `replacement` are used as they are.
 
   Returns:
     a `ComputationGraph` with occurrences of `pattern` replaced by
@@ -137,6 +143,11 @@ def replace(
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
     if m is not None:
+      if new_variable is not None:
+        for e in replacement:
+          for v in itertools.chain(e.inputs, e.outputs):
+            if v not in m:
+              m[v] = new_variable(v)
       output_operations.extend([e.subs(m) for e in replacement])
       i += k
     else:
diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 3cffbd4..38c9b77 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -82,11 +82,18 @@ def replace(pattern: jex.core.Jaxpr,
   replacement_operations = [
       e.subs(intermediate_variable_map) for e in replacement_graph.operations
   ]
+  # The intermediate variables of the replacement must not clash with those of
+  # the subject, or with those of another occurrence of the replacement.
+  subject_vars = itertools.chain(subject.constvars, subject.invars,
+                                 *(eqn.outvars for eqn in subject.eqns))
+  new_counts = itertools.count(
+      1 + max((v.count for v in subject_vars), default=-1))
   hypergraph = graph_editor.replace(
       pattern_graph.operations,
       replacement_operations,
       _jaxpr_to_graph(subject),
       _can_bind,
+      lambda v: (True, next(new_counts), v[2]) if v[0] else v,
   )
   return _graph_to_jaxpr(hypergraph)
 
-- 
2.43.0


From d574f0f884141eba1507f7871373d982f8d49828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 11/26] fix: keep variables that are needed outside of a
 replaced pattern

replace() removed the definition of a variable inside an occurrence of the
pattern even if the rest of the graph uses it, which left a graph that
cannot be evaluated. Reject the empty pattern, which looped forever.
---
 autobound/graph_editor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index e8c9784..ba2f5ad 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -116,7 +116,9 @@ def replace(
   """Perform a search/replace on a ComputationGraph.
 
   This method greedily replaces occurences of a given operation sequence
-  `pattern` with an operation sequence `replacement`.
+  `pattern` with an operation sequence `replacement`.  An occurrence is left as
+  it is if it defines a variable that is needed elsewhere in the graph, and that
+  `replacement` does not define.
 
   Args:
     pattern: a sequence of `Operations`
@@ -136,12 +138,25 @@ def replace(
   """
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
+  if not pattern:
+    raise ValueError(pattern)
   k = len(pattern)
+  defined_by_pattern = [v for op in pattern for v in op.outputs]
+  defined_by_replacement = [v for op in replacement for v in op.outputs]
+  removed_variables = [
+      v for v in defined_by_pattern if v not in defined_by_replacement]
   output_operations = []
   i = 0
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
+    if m is not None and removed_variables:
+      # Do not remove the definition of a variable that is still needed.
+      needed = list(subject.outputs)
+      for op in subject.operations[i+k:]:
+        needed.extend(op.inputs)
+      if any(m[v] in needed for v in removed_variables):
+        m = None
     if m is not None:
       if new_variable is not None:
         for e in replacement:
-- 
2.43.0


From ac24109d7632d358396294c9c9c3ef53069919e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 12/26] fix: compare the constants of called Jaxprs when
 matching

Two jit equations whose functions differ only in the constants they close
over were taken to be the same, so replace() edited code that does not
match the pattern.
---
 autobound/jax/jaxpr_editor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 38c9b77..b2ab096 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -21,6 +21,7 @@ from typing import Any, Union
 from autobound import graph_editor
 import jax
 import jax.extend as jex
+import numpy as np
 
 
 def replace(pattern: jex.core.Jaxpr,
@@ -227,8 +228,9 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
       continue
     v1 = p1[k0]
     if isinstance(v0, jex.core.ClosedJaxpr):
-      # TODO(mstreeter): this could incorrectly return True if v0.consts and
-      # v1.consts are different.
+      if len(v0.consts) != len(v1.consts) or not all(
+          np.array_equal(c0, c1) for c0, c1 in zip(v0.consts, v1.consts)):
+        return False
       if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
                                                  ignore_shape=True):
         return False
-- 
2.43.0


From 7ec3877c92e4e80997521451405836eb825ca3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 13/26] fix: support constant exponents when propagating trust
 regions

The pushforward function for pow_p requires a constant exponent, but with
propagate_trust_regions=True constants were passed to it as intervals, so
that bounding x**1.5 raised a NotImplementedError.
---
 autobound/jax/jax_bound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0a1e1fe..9675b9a 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -149,6 +149,7 @@ def taylor_bounds(
           assert fun0 is not None
           assert all(i.trust_region is not None for i in invar_intermediates)
           invar_degree_0_intermediates = [
+              intermediate if intermediate.is_constant() else
               _IntermediateEnclosure(
                   enclosure=types.TaylorEnclosure((intermediate.trust_region,)))
               for intermediate in invar_intermediates
-- 
2.43.0


From de4632873d37b7fcfd9c16e64abac3b9dcc0de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 14/26] fix: propagate trust regions through operations with
 constant results

The enclosure of x**0 is a constant rather than an interval, and
intersecting it with another raised a TypeError.
---
 autobound/jax/jax_bound.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 9675b9a..51788e9 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -165,7 +165,7 @@ def taylor_bounds(
               for enclosure in outvar_enclosures
           ]
           outvar_trust_regions = [
-              _intersect_intervals(a[0], b[0])
+              _intersect_intervals(_as_interval(a[0]), _as_interval(b[0]))
               for a, b in zip(outvar_degree_0_enclosures_a,
                               outvar_degree_0_enclosures_b)
           ]
@@ -457,6 +457,11 @@ def _convert_element_type_pushforward_fun(arithmetic):
   return fun
 
 
+def _as_interval(
+    a: Union[types.NDArray, types.Interval]) -> types.Interval:
+  return a if isinstance(a, tuple) else (a, a)
+
+
 def _intersect_intervals(
     a: types.Interval, b: types.Interval) -> types.Interval:
   if not len(a) == len(b) == 2:
-- 
2.43.0


From 94643bae15c05dbc90ea004b2fd5a1767fea5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 15/26] fix: accept integers of type float as exponents in
 power()

integer_power() requires an int, so bounding x**2. raised a TypeError.
---
 autobound/enclosure_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index ba2891e..11d496f 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -332,7 +332,7 @@ class TaylorEnclosureArithmetic:
       multiplicative_identity = self.np_like.ones_like(a0)
       result = polynomials.integer_power(  # pytype: disable=wrong-arg-types
           a,
-          p,
+          int(p),
           self.set_arithmetic.add,
           self.np_like.asarray(0),
           multiplicative_identity,
-- 
2.43.0


From f0c8b6094e85934a47c0807b02a668336ab6be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 16/26] fix: evaluate constant subexpressions of every kind

Operations whose arguments do not depend on x were evaluated by binding the
primitive with the parameters of the equation.  This fails for primitives
that take functions (custom_jvp_call, as in softplus or relu of a constant),
for ones that return a list with a single element, and for the primitives
that autobound itself substitutes for sigmoid, softplus and swish.
---
 autobound/jax/jax_bound.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 51788e9..9c741ab 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -189,7 +189,7 @@ def taylor_bounds(
       else:
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
-        vals = eqn.primitive.bind(*invar_values, **eqn.params)
+        vals = _eval_eqn(eqn, invar_values)
         if len(eqn.outvars) == 1:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
@@ -244,6 +244,9 @@ def register_elementwise_primitive(
 
 
 _PRIMITIVE_NAMES = set()  # type: set[str]
+# Dict from Primitives that only appear in rewritten Jaxprs (and that therefore
+# have no evaluation rule) to the functions they stand for.
+_PRIMITIVE_TO_FUNCTION = {}
 # Rewrite rules are callables that return (pattern Jaxpr, replacement Jaxpr)
 # pairs.  We make them callables because the Jaxpr returned by jax.make_jaxpr
 # depends on how Jax is configured (in particular whether float64 is enabled),
@@ -265,6 +268,7 @@ def _register_elementwise_function(
   p = jex.core.Primitive(name)
   p.def_abstract_eval(
       lambda x: jax.core.ShapedArray(x.shape, x.dtype))
+  _PRIMITIVE_TO_FUNCTION[p] = f
   rule = lambda: (jax.make_jaxpr(f)(0.).jaxpr, jax.make_jaxpr(p.bind)(0.).jaxpr)
   _JAXPR_REWRITE_RULES.append(rule)
   register_elementwise_primitive(p, get_enclosure)
@@ -369,6 +373,18 @@ def _constant_intermediate_enclosure(val: types.NDArray):
                                 trust_region=(val, val))
 
 
+def _eval_eqn(eqn: jex.core.JaxprEqn, invar_values):
+  """Returns value(s) of the outvar(s) of eqn, given values of its invars."""
+  f = _PRIMITIVE_TO_FUNCTION.get(eqn.primitive)
+  if f is not None:
+    return f(*invar_values)
+  subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
+  vals = eqn.primitive.bind(*subfuns, *invar_values, **bind_params)
+  if eqn.primitive.multiple_results and len(eqn.outvars) == 1:
+    vals, = vals
+  return vals
+
+
 def _conv_general_dilated_pushforward_fun(arithmetic):
   """Returns function that implements conv_general_dilated on enclosures."""
   def fun(lhs_intermediate: _IntermediateEnclosure,
-- 
2.43.0


From 6ee46aed6ba003ae5fecbab0db20d9d7802446ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 17/26] fix: do not return complex bounds

If a trust region was given as Python floats, x**p was evaluated as a complex
number where it is not defined.
---
 autobound/jax/jax_bound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 9c741ab..e33fa01 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -93,6 +93,11 @@ def taylor_bounds(
   ) -> TaylorBounds:
     trust_region = interval_arithmetic.IntervalArithmetic(jnp).subtract(
         x_trust_region, x0)
+    # Make sure that functions that are undefined over part of x_trust_region
+    # evaluate to nan there.  (A negative float, raised to a non-integer power,
+    # is a complex number in Python.)
+    x_trust_region = (jnp.asarray(x_trust_region[0]),
+                      jnp.asarray(x_trust_region[1]))
 
     arithmetic = enclosure_arithmetic.TaylorEnclosureArithmetic(
         max_degree, trust_region, jnp)
-- 
2.43.0


From 3e4aaa4bf7315305792e7a1a3440effbbaaacb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 18/26] fix: broadcast coefficients to the shape of the
 function they bound

After adding arrays of shapes (2, 2) and (1, 2), where only the latter depends
on x, the first-order coefficient only had the shape (1, 2), so that e.g. a
subsequent reduce_sum over both axes returned half of the derivative.
---
 autobound/jax/jax_bound.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index e33fa01..a4039c8 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -149,6 +149,10 @@ def taylor_bounds(
         outvar_enclosures = fun(*invar_intermediates, **eqn.params)
         if len(eqn.outvars) == 1:
           outvar_enclosures = (outvar_enclosures,)
+        outvar_enclosures = tuple(
+            _broadcast_coefficients(enclosure, var.aval.shape, x0.ndim)
+            for var, enclosure in zip(eqn.outvars, outvar_enclosures)
+        )
         if propagate_trust_regions:
           fun0 = primitive_to_enclosure_fun0.get(eqn.primitive)
           assert fun0 is not None
@@ -483,6 +487,33 @@ def _as_interval(
   return a if isinstance(a, tuple) else (a, a)
 
 
+def _broadcast_coefficients(
+    a: types.TaylorEnclosure,
+    shape: tuple[int, ...],
+    x_ndim: int) -> types.TaylorEnclosure:
+  """Returns an equal enclosure whose coefficients have the given shape.
+
+  An operation that broadcasts its operands, such as add, can return
+  coefficients that do not have the same shape as the output.  Before we can
+  apply e.g. reduce_sum to each coefficient, we must broadcast them.
+
+  Args:
+    a: a TaylorEnclosure
+    shape: the shape of the function that a encloses
+    x_ndim: the number of dimensions in the independent variable
+  """
+  def broadcast(c: jnp.ndarray, i: int):
+    c = jnp.asarray(c)
+    new_shape = shape + c.shape[c.ndim - i*x_ndim:]
+    return c if c.shape == new_shape else jnp.broadcast_to(c, new_shape)
+
+  return types.TaylorEnclosure(tuple(
+      enclosure_arithmetic.map_over_enclosure(
+          (c,), functools.partial(broadcast, i=i))[0]
+      for i, c in enumerate(a)
+  ))
+
+
 def _intersect_intervals(
     a: types.Interval, b: types.Interval) -> types.Interval:
   if not len(a) == len(b) == 2:
-- 
2.43.0


From 087119929a03bd484ed8fb8078fef1fcb3349e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 19/26] fix: list all local extrema of the higher derivatives
 of swish

The fourth derivative has two more local minima at +-5.4008, and the fifth
derivative two more extrema at +-6.3620.  Without them the fourth derivative
was taken to be monotone where it is not, e.g. over [4, 8], or monotone in the
wrong direction, e.g. over [6, 8], giving invalid bounds.
---
 autobound/elementwise_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 8967350..529bad8 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -343,8 +343,10 @@ _FUNCTION_DATA = {
         FunctionData((-4.429235100557346, 1.0319582417807385),
                      (-1.0319582417807402, 4.429235100557342)),
     SWISH.derivative_id(4):
-        FunctionData((0.,), (-1.8197756117249821, 1.8197756117249804)),
+        FunctionData((-5.400818739495216, 0., 5.400818739495216),
+                     (-1.8197756117249821, 1.8197756117249804)),
     SWISH.derivative_id(5):
-        FunctionData((-0.7177419231466055, 2.5062894864026024),
-                     (-2.506289486402605, 0.7177419231466035)),
+        FunctionData(
+            (-6.3619922836816905, -0.7177419231466055, 2.5062894864026024),
+            (-2.506289486402605, 0.7177419231466035, 6.3619922836816905)),
 }
-- 
2.43.0


From e0422ba575174161553f260aa4159eaf465ad3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 20/26] fix: keep the inputs and constants that a Jaxpr
 replacement returns

---
 autobound/jax/jaxpr_editor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index b2ab096..356215d 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -74,12 +74,14 @@ def replace(pattern: jex.core.Jaxpr,
   replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
   # In the replacement graph, replace inputs/outputs with those in the pattern
   # graph.
-  intermediate_variable_map = {}
-  for u, v in itertools.chain(
-      zip(replacement_graph.inputs, pattern_graph.inputs),
-      zip(replacement_graph.outputs, pattern_graph.outputs),
-  ):
-    intermediate_variable_map[u] = v
+  intermediate_variable_map = dict(
+      zip(replacement_graph.inputs, pattern_graph.inputs))
+  for u, v in zip(replacement_graph.outputs, pattern_graph.outputs):
+    if any(u in e.outputs for e in replacement_graph.operations):
+      if not any(v in e.outputs for e in pattern_graph.operations):
+        # There is no variable to assign this output of the replacement to.
+        raise NotImplementedError(pattern.outvars)
+      intermediate_variable_map[u] = v
   replacement_operations = [
       e.subs(intermediate_variable_map) for e in replacement_graph.operations
   ]
-- 
2.43.0


From 0fb03ee8586a1a1abc52b83fb1e064ee8a590894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 21/26] fix: accept literals of any kind in Jaxpr patterns

---
 autobound/jax/jaxpr_editor.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 356215d..3b53df3 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -16,7 +16,7 @@
 
 import itertools
 import types
-from typing import Any, Union
+from typing import Union
 
 from autobound import graph_editor
 import jax
@@ -119,6 +119,22 @@ class _EqnData:
     return f'_EqnData({self.primitive}, {self.params})'
 
 
+class _LiteralVal:
+  """The value of a jex.core.Literal, which is not necessarily hashable."""
+
+  def __init__(self, val):
+    self.val = val
+
+  def __eq__(self, other):
+    return isinstance(other, _LiteralVal) and bool(self.val == other.val)
+
+  def __hash__(self):
+    return hash(np.asarray(self.val).item())
+
+  def __repr__(self):
+    return repr(self.val)
+
+
 # An intermediate variable is a tuple that either represents a jex.core.Var or
 # a jex.core.Literal.
 _IntermediateVariable = Union[
@@ -127,7 +143,7 @@ _IntermediateVariable = Union[
     tuple[bool, int, jax.core.AbstractValue],
     # If the first element of the tuple is False, then the tuple represents
     # a jex.core.Literal, and is of the form (False, val, aval).
-    tuple[bool, Any, jax.core.AbstractValue]
+    tuple[bool, _LiteralVal, jax.core.AbstractValue]
 ]
 
 
@@ -152,7 +168,7 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
       return (True, var.count + offset, var.aval)
     elif isinstance(var_or_literal, jex.core.Literal):
       literal = var_or_literal
-      return (False, literal.val, literal.aval)
+      return (False, _LiteralVal(literal.val), literal.aval)
     else:
       raise NotImplementedError()
 
@@ -190,7 +206,7 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
       return count_to_var[count]
     else:
       _, val, aval = vertex
-      return jex.core.Literal(val, aval)
+      return jex.core.Literal(val.val, aval)
 
   eqns = []
   for edge in h.operations:
-- 
2.43.0


From 1d3fcc25a783d8b3229a296553b0a6bbd0aed599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 22/26] fix: do not use a variable before its definition when
 replacing a pattern

---
 autobound/graph_editor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index ba2f5ad..e60a70d 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -118,7 +118,8 @@ def replace(
   This method greedily replaces occurences of a given operation sequence
   `pattern` with an operation sequence `replacement`.  An occurrence is left as
   it is if it defines a variable that is needed elsewhere in the graph, and that
-  `replacement` does not define.
+  `replacement` does not define, or if `replacement` would use a variable before
+  its definition.
 
   Args:
     pattern: a sequence of `Operations`
@@ -157,6 +158,15 @@ def replace(
         needed.extend(op.inputs)
       if any(m[v] in needed for v in removed_variables):
         m = None
+    if m is not None:
+      # Do not use a variable before its definition.  (An input of `pattern` may
+      # be bound to a variable that the occurrence itself defines.)
+      not_yet_defined = {m[v] for v in defined_by_pattern}
+      for op in replacement:
+        if any(m.get(u) in not_yet_defined for u in op.inputs):
+          m = None
+          break
+        not_yet_defined.difference_update(m.get(v) for v in op.outputs)
     if m is not None:
       if new_variable is not None:
         for e in replacement:
-- 
2.43.0


From 0995258f73d98b70e47540cf79267b33e3a283b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 23/26] fix: do not lose precision in enclosures of degree 0

---
 autobound/primitive_enclosures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index ae270ec..2889ca6 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -308,6 +308,9 @@ def taylor_remainder_ratio(
   #                         = c_k + r_k / (x-x0)**k.
   terms = [c * (x - x0)**i for i, c in enumerate(taylor_coefficients_at_x0)]
   sigma_x = sigma(x)
+  if degree == 0:
+    # Adding and subtracting c_0 would cause roundoff error if |c_0| is large.
+    return sigma_x
   r_k = sigma_x - sum(terms)
   # If r_k is not larger than the roundoff error in computing it, it tells
   # nothing about r_k / (x-x0)**k, whose effect is then lost in roundoff error.
-- 
2.43.0


From 41c234576c7cb57b7fc81bf068d75241a75ea88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:38 +0000
Subject: [PATCH 24/26] fix: reject conversions to complex numbers

Complex numbers have no order, so that the minima and maxima of interval
arithmetic (which compare them lexicographically) say nothing about the values:
the bounds of |exp(1j*x) + 1| did not hold.
---
 autobound/jax/jax_bound.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index a4039c8..4f70817 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -475,8 +475,9 @@ def _convert_element_type_pushforward_fun(arithmetic):
   pass_thru = _pass_thru_pushforward_fun(
       arithmetic, jax.lax.convert_element_type_p)
   def fun(intermediate, new_dtype, **params):
-    if not jnp.issubdtype(new_dtype, jnp.inexact):
-      # Rounding to an integer (or to a bool) is not linear.
+    if not jnp.issubdtype(new_dtype, jnp.floating):
+      # Rounding to an integer (or to a bool) is not linear, and complex numbers
+      # have no order, so that there are no intervals of them.
       raise NotImplementedError(new_dtype)
     return pass_thru(intermediate, new_dtype=new_dtype, **params)
   return fun
-- 
2.43.0


From 4133ec3f07870f3d5af60663ce33c37f1134568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:45 +0000
Subject: [PATCH 25/26] fix: bound functions of integers as functions of real
 numbers

Differences of unsigned integers, and sums and products of short ones, wrap
around, so that bounds computed in integer arithmetic did not hold.
---
 autobound/jax/jax_bound.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 4f70817..7f3faaf 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -91,6 +91,10 @@ def taylor_bounds(
   def bound_fun(
       x0: jnp.ndarray, x_trust_region: types.Interval
   ) -> TaylorBounds:
+    # Integers can wrap around, which a bound on a function of real numbers must
+    # not do.
+    x0 = _integer_to_float(x0)
+    x_trust_region = tuple(map(_integer_to_float, x_trust_region))
     trust_region = interval_arithmetic.IntervalArithmetic(jnp).subtract(
         x_trust_region, x0)
     # Make sure that functions that are undefined over part of x_trust_region
@@ -515,6 +519,11 @@ def _broadcast_coefficients(
   ))
 
 
+def _integer_to_float(x: types.NDArrayLike) -> types.NDArrayLike:
+  """Returns x, converted to floating point if it is an array of integers."""
+  return x if jnp.issubdtype(jnp.result_type(x), jnp.inexact) else 1. * x
+
+
 def _intersect_intervals(
     a: types.Interval, b: types.Interval) -> types.Interval:
   if not len(a) == len(b) == 2:
-- 
2.43.0


From 13d84e912db110109b64f998a62b674d38e24ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:41 +0000
Subject: [PATCH 26/26] fix: bounds hold over trust regions that do not contain
 x0

The remainder of the Taylor polynomial at x0 depends on derivatives between x0
and x, but only derivatives over the trust region were taken into account.
---
 autobound/jax/jax_bound.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 7f3faaf..6d910a5 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -95,6 +95,10 @@ def taylor_bounds(
     # not do.
     x0 = _integer_to_float(x0)
     x_trust_region = tuple(map(_integer_to_float, x_trust_region))
+    # The remainder of a Taylor polynomial depends on what happens between x0
+    # and x, which is outside of the trust region if x0 is.
+    x_trust_region = (jnp.minimum(x_trust_region[0], x0),
+                      jnp.maximum(x_trust_region[1], x0))
     trust_region = interval_arithmetic.IntervalArithmetic(jnp).subtract(
         x_trust_region, x0)
     # Make sure that functions that are undefined over part of x_trust_region
-- 
2.43.0

