From 1c1f5dda46e327a98c257eb06b940410586852a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 01/23] fix: alignment_rotation returned wrong matrices for
 (nearly) antiparallel vectors

---
 e3x/so3/rotations.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 267bfd2..471a51b 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -121,26 +121,35 @@ def alignment_rotation(
   u = ops.normalize(u, axis=-1)
   v = ops.normalize(v, axis=-1)
 
+  # When the angle between u and v is obtuse, u is aligned with -v instead (the
+  # formula below is only numerically stable far from the antiparallel case).
+  dot = jnp.sum(u * v, axis=-1)
+  obtuse = (dot < 0)[..., None]
+
   # Create the skew-symmetric cross product matrix.
-  x = jnp.cross(u, v)  # Cross product vector.
+  x = jnp.cross(u, jnp.where(obtuse, -v, v))  # Cross product vector.
   zeros = jnp.zeros_like(x[..., 0:1])
   col1 = jnp.concatenate((zeros, -x[..., 2:3], x[..., 1:2]), axis=-1)
   col2 = jnp.concatenate((x[..., 2:3], zeros, -x[..., 0:1]), axis=-1)
   col3 = jnp.concatenate((-x[..., 1:2], x[..., 0:1], zeros), axis=-1)
   skew = jnp.stack((col1, col2, col3), axis=-1)
 
-  # Calculate rotation matrix (does not handle antiparallel case correctly).
-  div = 1 + jnp.sum(u * v, axis=-1)
-  mask = div > 0
-  safe_div = jnp.where(mask, div, 1)
-  rot = skew + skew @ skew * (1 / safe_div)[..., None, None] + jnp.eye(3)
-
-  # Handle antiparallel case.
-  w = ops.normalize(u + jnp.roll(u, shift=1, axis=-1))
-  axis = jnp.cross(u, w)
-  rot = jnp.where(mask[..., None, None], rot, rotation(axis, jnp.pi))
-
-  return rot
+  # Calculate rotation matrix.
+  eye = jnp.eye(3, dtype=skew.dtype)
+  rot = skew + skew @ skew * (1 / (1 + jnp.abs(dot)))[..., None, None] + eye
+
+  # If u was aligned with -v, a half-turn about an axis perpendicular to v is
+  # missing. This axis is the cross product vector, unless u and v are (almost)
+  # exactly antiparallel, in which case any axis perpendicular to v can be used.
+  eps = jnp.finfo(skew.dtype).eps
+  unit = jax.nn.one_hot(jnp.argmin(jnp.abs(v), axis=-1), 3, dtype=skew.dtype)
+  antiparallel = jnp.all(jnp.abs(x) < 16 * eps, axis=-1, keepdims=True)
+  axis = jnp.where(antiparallel, jnp.cross(v, unit), x)
+  axis = ops.normalize(axis, axis=-1)
+  axis = axis - jnp.sum(axis * v, axis=-1, keepdims=True) * v
+  axis = ops.normalize(axis, axis=-1)
+  half_turn = 2 * axis[..., :, None] * axis[..., None, :] - eye
+  return jnp.where(obtuse[..., None], rot @ half_turn, rot)
 
 
 def rotation_euler(
-- 
2.43.0


From eed564c1deb4bcc4c58608e2f36e467b91896edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 02/23] fix: ops.norm underflowed for small slices next to
 large ones and failed for empty inputs

---
 e3x/ops/safe.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 61ab0f7..5190d16 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -22,6 +22,7 @@ not suffer from such issues.
 import functools
 from typing import Any, Optional, Tuple, Union
 import jax
+from jax import lax
 import jax.numpy as jnp
 import jaxtyping
 
@@ -57,9 +58,13 @@ def norm(
     specified axis removed. If x is a 0-d array, or if axis is None, a scalar is
     returned.
   """
-  a = jnp.maximum(jnp.max(jnp.abs(x)), jnp.finfo(x.dtype).tiny)
+  # Every reduced slice is scaled separately, so that its norm does not depend
+  # on the magnitude of values in other slices.
+  a = jnp.max(jnp.abs(x), axis=axis, keepdims=True, initial=0)
+  a = jnp.maximum(a, jnp.finfo(x.dtype).tiny)
   b = x / a
-  return a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=keepdims))
+  n = a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=True))
+  return n if keepdims else jnp.squeeze(n, axis=axis)
 
 
 @norm.defjvp
@@ -73,11 +78,16 @@ def _norm_jvp_impl(
   (x,) = primals
   (x_dot,) = tangents
   primal_out = norm(x, axis=axis, keepdims=keepdims)
-  masked_primal_out = jnp.where(primal_out > 0, primal_out, 1)
+  n = primal_out
   if not keepdims and axis is not None:
-    masked_primal_out = jnp.expand_dims(masked_primal_out, axis=axis)
+    n = jnp.expand_dims(n, axis=axis)
+  # For almost zero norms, the denominator is treated as constant (derivatives of
+  # higher order would overflow).
+  tiny = jnp.finfo(x.dtype).tiny
+  mask = n * n > tiny
+  inverse = lax.stop_gradient(1 / jnp.where(n < tiny, 1, n))
   tangent_out = jnp.sum(
-      x_dot * x / masked_primal_out,
+      x_dot * jnp.where(mask, x / jnp.where(mask, n, 1), x * inverse),
       axis=axis,
       keepdims=keepdims,
   )
-- 
2.43.0


From 1b99b1aa7e68353e200882e684324f4a0e4a362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 03/23] fix: mish(fast=True) returned NaN for large negative
 inputs

---
 e3x/nn/activations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 4ff81e5..d17c735 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -551,9 +551,10 @@ def mish(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
     if fast:  # Faster, but requires extra memory.
-      y = jnp.exp(-x)
-      z = 2 * y + 1
-      return z / (z + 2 * y * y)
+      neg = x < 0
+      y = jnp.exp(jnp.where(neg, x, -x))  # Never overflows.
+      z = jnp.where(neg, y * (y + 2), 2 * y + 1)
+      return z / (z + jnp.where(neg, 2, 2 * y * y))
     else:
       return jnp.tanh(jax.nn.softplus(x))
 
-- 
2.43.0


From 8b293993aba90c09a1eb78b034c81d0fb0e5c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 04/23] fix: indexed_softmax gave inf/NaN weights and gradients
 for padding and empty neighbourhoods

---
 e3x/ops/indexed.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1611aa6..558aa49 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -800,9 +800,19 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  numerator = jnp.exp(inputs - lax.stop_gradient(maximum))
+  # Entries that are masked out or padding do not take part in the softmax. They
+  # are set to zero so that they can never lead to infinities or NaNs.
+  idx = adj_idx if dst_idx is None else dst_idx
+  is_valid = jnp.reshape(
+      where if dst_idx is None else dst_idx < num_segments,
+      (*idx.shape, *(1,) * (inputs.ndim - idx.ndim)),
+  )
+  numerator = jnp.exp(
+      jnp.where(is_valid, inputs - lax.stop_gradient(maximum), 0)
+  )
   if multiplicative_mask is not None:
-    numerator *= multiplicative_mask
+    numerator *= jnp.where(is_valid, multiplicative_mask, 0)
+  numerator = jnp.where(is_valid, numerator, 0)
   denominator = indexed_sum(
       inputs=numerator,
       keepdims=True,
@@ -812,4 +822,4 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  return numerator / denominator
+  return numerator / jnp.where(denominator != 0, denominator, 1)
-- 
2.43.0


From 4de89d86f4dafe5d9b5b312ec4ac9a098c785629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 05/23] fix: changing defaults with Config had no effect after
 importing e3x

---
 e3x/nn/modules.py    | 24 ++++++++++++++++++------
 e3x/nn/wrappers.py   |  4 +++-
 e3x/so3/irreps.py    | 40 +++++++++++++++++++++++++++++++---------
 e3x/so3/rotations.py |  7 +++++--
 4 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 937a089..9e01938 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -409,7 +409,9 @@ class Tensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -740,7 +742,9 @@ class FusedTensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1142,8 +1146,12 @@ class TensorDense(nn.Module):
   max_degree: Optional[int] = None
   use_bias: bool = True
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1239,8 +1247,12 @@ class _Conv(nn.Module):
   max_degree: Optional[int] = None
   use_basis_bias: bool = False
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index af7c204..6fcd552 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -58,7 +58,7 @@ def basis(
     damping_fn: Optional[
         Callable[[Float[Array, '...']], Float[Array, '...']]
     ] = None,
-    cartesian_order: bool = config.Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Union[
     Float[Array, '... 1 (max_degree+1)**2 num'],
     Tuple[Float[Array, '... 1 (max_degree+1)**2 num'], Float[Array, '...']],
@@ -194,6 +194,8 @@ def basis(
     cut = jnp.ones_like(norm)
 
   # Evaluate angular basis functions.
+  if cartesian_order is None:  # Use global default.
+    cartesian_order = config.Config.cartesian_order
   ylm = angular_fn(  # (..., (L+1)**2)
       r=u,
       max_degree=max_degree,
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index a7079b7..ed446da 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -15,6 +15,7 @@
 r"""Functions related to irreducible representations of rotations."""
 
 import itertools
+from typing import Optional
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -42,8 +43,8 @@ def spherical_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
     r_is_normalized: bool = False,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian spherical harmonics :math:`Y_\ell^m(\vec{r})`.
 
@@ -132,6 +133,11 @@ def spherical_harmonics(
     ValueError: If ``r`` has an invalid shape (not a 3-vector), ``max_degree``
     is not positive or zero, or ``normalization`` has an invalid value.
   """
+  # Use global defaults for arguments that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
   # Perform checks.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
@@ -173,7 +179,7 @@ def spherical_harmonics(
 def solid_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian (regular) solid harmonics :math:`R_\ell^m(\vec{r})`.
 
@@ -221,7 +227,7 @@ def clebsch_gordan(
     max_degree1: int,
     max_degree2: int,
     max_degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '(max_degree1+1)**2 (max_degree2+1)**2 (max_degree3+1)**2']:
   r"""Clebsch-Gordan coefficients for coupling all degrees at once.
 
@@ -243,6 +249,9 @@ def clebsch_gordan(
     ValueError: If ``max_degree1``, ``max_degree2``, or ``max_degree3`` are not
       positive or zero.
   """
+  # Use global defaults for arguments that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   # Perform checks.
   _check_degree_is_positive_or_zero(max_degree1)
   _check_degree_is_positive_or_zero(max_degree2)
@@ -274,7 +283,7 @@ def clebsch_gordan_for_degrees(
     degree1: int,
     degree2: int,
     degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '2*degree1+1 2*degree2+1 2*degree3+1']:
   r"""Clebsch-Gordan coefficients for coupling only specific degrees.
 
@@ -295,6 +304,9 @@ def clebsch_gordan_for_degrees(
     ValueError: If ``degree1``, ``degree2``, or ``degree3`` are not positive or
       zero.
   """
+  # Use global defaults for arguments that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   # Perform checks.
   _check_degree_is_positive_or_zero(degree1)
   _check_degree_is_positive_or_zero(degree2)
@@ -423,8 +435,8 @@ def _tensor_compression_indices(
 def tensor_to_irreps(
     x: Float[Array, '...'],  # Last degree dimensions must all have size 3.
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts a traceless symmetric tensor to irreducible representations.
 
@@ -449,6 +461,11 @@ def tensor_to_irreps(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
     inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  # Use global defaults for arguments that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   _check_tensor_shape(x, degree)
@@ -509,8 +526,8 @@ def _tensor_expansion_indices(degree) -> Integer[Array, '...']:
 def irreps_to_tensor(
     x: Float[Array, '... 2*degree+1'],
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts irreducible representations to a traceless symmetric tensor.
 
@@ -529,6 +546,11 @@ def irreps_to_tensor(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
       inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  # Use global defaults for arguments that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   if x.shape[-1] != 2 * degree + 1:
diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 471a51b..948e688 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -15,7 +15,7 @@
 """Functions for generating rotation matrices."""
 
 import functools
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -382,7 +382,7 @@ def _wigner_d_euler(
 def wigner_d(
     rot: Float[Array, '... 3 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2 (max_degree+1)**2']:
   r"""Wigner-D matrix corresponding to a given :math:`3\times3` rotation matrix.
 
@@ -418,6 +418,9 @@ def wigner_d(
   Raises:
     ValueError: If ``rot`` does not have shape `(..., 3, 3)`.
   """
+  # Use global defaults for arguments that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   _check_rotation_matrix_shape(rot)  # Raise if shape is not (..., 3, 3).
 
   with jax.ensure_compile_time_eval():
-- 
2.43.0


From ff03f888caf180ac93eab687912d0f7148198ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:11 +0000
Subject: [PATCH 06/23] fix: shifted_softplus and bent_identity gates lost all
 accuracy for small scalars

The gates divide differences of nearly equal numbers by x, so that (in
single precision) gate derivatives of shifted_softplus were wrong by up to
10^5 and gates by 20% for scalars around 1e-6, and gate derivatives of
bent_identity were off by a factor of two below 1e-4. Use equivalent
expressions that do not cancel.
---
 e3x/nn/activations.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index d17c735..a5c9d2b 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -653,12 +653,20 @@ def shifted_softplus(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
+    abs_x = jnp.abs(x)
+    not_tiny = abs_x > jnp.finfo(x.dtype).eps
     safe_x = jnp.where(not_tiny, x, 1)  # division safe x
+    # For small x, log((1 + exp(x)) / 2) = x/2 + log1p(2 * sinh(x/4)**2) is used
+    # to prevent catastrophic cancellation (in particular for derivatives).
+    small_x = jnp.where(abs_x < 1, x, 0)
     return jnp.where(
-        not_tiny,
+        abs_x < 1,
+        jnp.where(
+            not_tiny,
+            jnp.log1p(2 * jnp.sinh(small_x / 4) ** 2) / safe_x + 1 / 2,
+            x / 8 + 1 / 2,  # + O(x^3) Taylor series around x=0
+        ),
         (jnp.logaddexp(x, 0) - math.log(2)) / safe_x,
-        x / 8 + 1 / 2,  # + O(x^3) Taylor series around x=0
     )
 
   return _gated_linear(g, x)
@@ -899,15 +907,7 @@ def bent_identity(
     The result of applying the nonlinearity to the input features.
   """
 
-  def g(
-      x: Float[Array, '... 1 1 num_features']
-  ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
-    safe_x = jnp.where(not_tiny, x, 1)
-    return jnp.where(
-        not_tiny,
-        (jnp.sqrt(x * x + 1) - 1) / (2 * safe_x) + 1,
-        x / 4 + 1,  # + O(x^3) (Taylor series around x=0).
-    )
-
+  # (sqrt(x^2 + 1) - 1) / x = x / (sqrt(x^2 + 1) + 1), but without catastrophic
+  # cancellation for small x.
+  g = lambda x: x / (2 * (jnp.sqrt(x * x + 1) + 1)) + 1
   return _gated_linear(g, x)
-- 
2.43.0


From afe2e2ee78b892151f3ede1b43e271eea0983088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 07/23] fix: gradients of basic_bernstein were nonzero outside
 [0, limit] where it is constant

---
 e3x/nn/functions/bernstein.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/e3x/nn/functions/bernstein.py b/e3x/nn/functions/bernstein.py
index b64c6b8..c230606 100644
--- a/e3x/nn/functions/bernstein.py
+++ b/e3x/nn/functions/bernstein.py
@@ -80,6 +80,10 @@ def _bernstein_jvp_impl(
     shift = jnp.roll(lower, shift=1, axis=-1)
     shift = shift.at[..., 0].set(0)
     tangent_out = x_dot * (num - 1) * (shift - lower)
+    # The functions are constant outside the interval [0, 1].
+    x = jnp.expand_dims(x, axis=-1)
+    outside = jnp.logical_or(x < 0, x > 1)
+    tangent_out = jnp.where(outside, 0, tangent_out)
   else:
     tangent_out = 0 * x_dot
   return primal_out, tangent_out
-- 
2.43.0


From 1723d7929c150f08fc9b60338593e9ad977cfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:43 +0000
Subject: [PATCH 08/23] fix: derivatives of reciprocal_mapping(kind='damped')
 were wrong for small distances

---
 e3x/nn/functions/mappings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/functions/mappings.py b/e3x/nn/functions/mappings.py
index b8c1338..8341ee1 100644
--- a/e3x/nn/functions/mappings.py
+++ b/e3x/nn/functions/mappings.py
@@ -89,9 +89,13 @@ def reciprocal_mapping(
   if kind == 'shifted':
     return 1 / (x + 1)
   elif kind == 'damped':
-    small = x < jnp.finfo(x.dtype).eps
-    safe_x = jnp.where(small, 1, x)
-    return jnp.where(small, 1 - x / 2 + x * x / 6, -jnp.expm1(-safe_x) / safe_x)
+    # Close to zero, the quotient (and in particular its derivatives) suffers
+    # from cancellation, so a series expansion is used instead.
+    small = x < jnp.finfo(x.dtype).eps ** (1 / 4)
+    small_x = jnp.where(small, x, 0)
+    large_x = jnp.where(small, 1, x)
+    series = 1 - small_x / 2 + small_x**2 / 6 - small_x**3 / 24
+    return jnp.where(small, series, -jnp.expm1(-large_x) / large_x)
   elif kind == 'cuspless':
     return 1 / (x + jnp.exp(-x))
   else:  # Protection from potential bugs if other valid values are added.
-- 
2.43.0


From c1e41c43abbd2abf38cfdd64899c9ada5a11a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:11 +0000
Subject: [PATCH 09/23] fix: Bernstein polynomials were only accurate to 1e-6
 in double precision

---
 e3x/nn/functions/bernstein.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/e3x/nn/functions/bernstein.py b/e3x/nn/functions/bernstein.py
index c230606..b896ea5 100644
--- a/e3x/nn/functions/bernstein.py
+++ b/e3x/nn/functions/bernstein.py
@@ -15,6 +15,7 @@
 """Functions based on Bernstein polynomials."""
 
 import functools
+import math
 from typing import Any, Tuple, Union
 from e3x.nn.functions import mappings
 import jax
@@ -49,7 +50,14 @@ def _bernstein(
   with jax.ensure_compile_time_eval():
     n = num - 1
     v = jnp.arange(n + 1)
-    binomln = -jax.scipy.special.betaln(1 + n - v, 1 + v) - jnp.log(n + 1)
+    # Note: jax.scipy.special.betaln is only accurate to single precision.
+    binomln = jnp.asarray(
+        [
+            math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)
+            for k in range(n + 1)
+        ],
+        dtype=x.dtype,
+    )
   eps = jnp.finfo(x.dtype).epsneg
   mask0 = x < eps
   mask1 = x > 1 - eps
-- 
2.43.0


From c0767c7ba0d2295268f88763a266360d9f4edc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:16 +0000
Subject: [PATCH 10/23] fix: reverse-mode second derivatives of smooth_switch
 were NaN close to the switching points

---
 e3x/nn/functions/switch.py | 47 +++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/e3x/nn/functions/switch.py b/e3x/nn/functions/switch.py
index 36a3c78..cdfce47 100644
--- a/e3x/nn/functions/switch.py
+++ b/e3x/nn/functions/switch.py
@@ -32,9 +32,9 @@ Float = jaxtyping.Float
 _SMOOTH_SWITCH_SLOPE = math.sqrt(3) / 2
 
 
-def _smooth_switch_exp(x: Float[Array, '...']) -> Float[Array, '...']:
+def _smooth_switch_log_odds(x: Float[Array, '...']) -> Float[Array, '...']:
   """Helper function for smooth_switch and its JVP implementation."""
-  return jnp.exp(_SMOOTH_SWITCH_SLOPE * (1 / x - 1 / (1 - x)))
+  return _SMOOTH_SWITCH_SLOPE * (1 / (1 - x) - 1 / x)
 
 
 @functools.partial(jax.custom_jvp, nondiff_argnums=(1, 2))
@@ -101,7 +101,7 @@ def smooth_switch(
   return jnp.where(
       small,
       0,
-      jnp.where(large, 1, 1 / (1 + _smooth_switch_exp(safe_x))),
+      jnp.where(large, 1, jax.nn.sigmoid(_smooth_switch_log_odds(safe_x))),
   )
 
 
@@ -121,31 +121,26 @@ def _smooth_switch_jvp_impl(
     x = (x - x0) / (x1 - x0)
     x_dot = x_dot / (x1 - x0)
 
-  # Mask numerically problematic values.
-  eps = jnp.finfo(x.dtype).epsneg
-  small = x < eps
-  large = x > 1 - eps
+  # Mask numerically problematic values. This includes values for which the
+  # switch is saturated, otherwise higher order derivatives can lead to nans,
+  # even though they should be zero.
+  finfo = jnp.finfo(x.dtype)
+  small = x < finfo.epsneg
+  large = x > 1 - finfo.epsneg
+  safe_x = jnp.where(jnp.logical_or(small, large), 0.5, x)
+  log_odds = _smooth_switch_log_odds(safe_x)
+  small = jnp.logical_or(small, log_odds < jnp.log(finfo.tiny))
+  large = jnp.logical_or(large, log_odds > -jnp.log(finfo.tiny))
   small_or_large = jnp.logical_or(small, large)
   safe_x = jnp.where(small_or_large, 0.5, x)
 
   # Compute primal output.
-  exp = _smooth_switch_exp(safe_x)
-  primal_out = jnp.where(
-      small,
-      0,
-      jnp.where(large, 1, 1 / (1 + exp)),
-  )
-
-  # Compute (appropriately masked) tangent output. Without masking, higher order
-  # derivatives can lead to nans, even though they should be zero.
-  primal_out2 = primal_out * primal_out
-  raw_tangent = (  # Raw tangent without masking.
-      -_SMOOTH_SWITCH_SLOPE
-      * (-1 / safe_x**2 - 1 / (1 - safe_x) ** 2)
-      * exp
-      * primal_out2
-  )
-  zero_factors = jnp.logical_or(primal_out2 == 0, exp == 0)
-  mask = jnp.logical_or(small_or_large, zero_factors)
-  tangent_out = jnp.where(mask, 0, raw_tangent) * x_dot
+  log_odds = _smooth_switch_log_odds(safe_x)
+  switch = jax.nn.sigmoid(log_odds)
+  primal_out = jnp.where(small, 0, jnp.where(large, 1, switch))
+
+  # Compute (appropriately masked) tangent output.
+  slope = _SMOOTH_SWITCH_SLOPE * (1 / safe_x**2 + 1 / (1 - safe_x) ** 2)
+  raw_tangent = slope * switch * jax.nn.sigmoid(-log_odds)
+  tangent_out = jnp.where(small_or_large, 0, raw_tangent) * x_dot
   return primal_out, tangent_out
-- 
2.43.0


From 04a7d63c5d3982a551fcc6a01709ae26d301887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:26 +0000
Subject: [PATCH 11/23] fix: smooth_switch could return 0.5 instead of 0 or 1
 at its switching points under jit

---
 e3x/nn/functions/switch.py | 40 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/e3x/nn/functions/switch.py b/e3x/nn/functions/switch.py
index cdfce47..f988a61 100644
--- a/e3x/nn/functions/switch.py
+++ b/e3x/nn/functions/switch.py
@@ -92,17 +92,12 @@ def smooth_switch(
   if x0 != 0.0 or x1 != 1.0:
     x = (x - x0) / (x1 - x0)
 
-  # Mask numerically problematic values.
+  # Clip numerically problematic values (the switch is saturated there). Masking
+  # the result with jnp.where instead is not safe: Under jit, the condition and
+  # the value can be computed in different fusions with different rounding.
   eps = jnp.finfo(x.dtype).epsneg
-  small = x < eps
-  large = x > 1 - eps
-  safe_x = jnp.where(jnp.logical_or(small, large), 0.5, x)
-
-  return jnp.where(
-      small,
-      0,
-      jnp.where(large, 1, jax.nn.sigmoid(_smooth_switch_log_odds(safe_x))),
-  )
+  safe_x = jnp.clip(x, eps, 1 - eps)
+  return jax.nn.sigmoid(_smooth_switch_log_odds(safe_x))
 
 
 @smooth_switch.defjvp
@@ -121,26 +116,17 @@ def _smooth_switch_jvp_impl(
     x = (x - x0) / (x1 - x0)
     x_dot = x_dot / (x1 - x0)
 
-  # Mask numerically problematic values. This includes values for which the
+  # Clip numerically problematic values. This includes values for which the
   # switch is saturated, otherwise higher order derivatives can lead to nans,
   # even though they should be zero.
   finfo = jnp.finfo(x.dtype)
-  small = x < finfo.epsneg
-  large = x > 1 - finfo.epsneg
-  safe_x = jnp.where(jnp.logical_or(small, large), 0.5, x)
-  log_odds = _smooth_switch_log_odds(safe_x)
-  small = jnp.logical_or(small, log_odds < jnp.log(finfo.tiny))
-  large = jnp.logical_or(large, log_odds > -jnp.log(finfo.tiny))
-  small_or_large = jnp.logical_or(small, large)
-  safe_x = jnp.where(small_or_large, 0.5, x)
-
-  # Compute primal output.
-  log_odds = _smooth_switch_log_odds(safe_x)
-  switch = jax.nn.sigmoid(log_odds)
-  primal_out = jnp.where(small, 0, jnp.where(large, 1, switch))
+  saturated = 1 / (1 - math.log(finfo.tiny) / _SMOOTH_SWITCH_SLOPE)
+  safe_x = jnp.clip(x, saturated, 1 - saturated)
+  mask = jnp.logical_and(x > saturated, x < 1 - saturated)
 
   # Compute (appropriately masked) tangent output.
+  log_odds = _smooth_switch_log_odds(safe_x)
   slope = _SMOOTH_SWITCH_SLOPE * (1 / safe_x**2 + 1 / (1 - safe_x) ** 2)
-  raw_tangent = slope * switch * jax.nn.sigmoid(-log_odds)
-  tangent_out = jnp.where(small_or_large, 0, raw_tangent) * x_dot
-  return primal_out, tangent_out
+  raw_tangent = slope * jax.nn.sigmoid(log_odds) * jax.nn.sigmoid(-log_odds)
+  tangent_out = jnp.where(mask, raw_tangent, 0) * x_dot
+  return smooth_switch(x), tangent_out
-- 
2.43.0


From 61516446405b756bc668db07f10f34d3abed0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:35 +0000
Subject: [PATCH 12/23] fix: ops.norm and normalize returned 0 for magnitudes
 close to overflow

---
 e3x/ops/safe.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 5190d16..cb4f4fd 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -61,12 +61,21 @@ def norm(
   # Every reduced slice is scaled separately, so that its norm does not depend
   # on the magnitude of values in other slices.
   a = jnp.max(jnp.abs(x), axis=axis, keepdims=True, initial=0)
-  a = jnp.maximum(a, jnp.finfo(x.dtype).tiny)
+  tiny = jnp.finfo(x.dtype).tiny
+  a = jnp.clip(a, tiny, 1 / tiny)  # 1 / a must not be subnormal.
   b = x / a
   n = a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=True))
   return n if keepdims else jnp.squeeze(n, axis=axis)
 
 
+def _divide(
+    x: Float[Array, '...'], n: Float[Array, '...']
+) -> Float[Array, '...']:
+  """Computes x / n for positive n, also when 1 / n would be subnormal."""
+  scale = jnp.where(n > 1, jnp.asarray(2**-8, dtype=x.dtype), 1)
+  return (scale * x) / (scale * n)
+
+
 @norm.defjvp
 def _norm_jvp_impl(
     axis: Optional[Union[int, Tuple[int, ...]]],
@@ -87,7 +96,7 @@ def _norm_jvp_impl(
   mask = n * n > tiny
   inverse = lax.stop_gradient(1 / jnp.where(n < tiny, 1, n))
   tangent_out = jnp.sum(
-      x_dot * jnp.where(mask, x / jnp.where(mask, n, 1), x * inverse),
+      x_dot * jnp.where(mask, _divide(x, jnp.where(mask, n, 1)), x * inverse),
       axis=axis,
       keepdims=keepdims,
   )
@@ -118,7 +127,7 @@ def normalize_and_return_norm(
   """
   n = norm(x, axis=axis, keepdims=True)
   # If n * n is smaller than finfo.tiny, the gradient becomes unstable.
-  y = x / jnp.where(n * n > jnp.finfo(x.dtype).tiny, n, 1)
+  y = _divide(x, jnp.where(n * n > jnp.finfo(x.dtype).tiny, n, 1))
   if not keepdims:
     n = jnp.squeeze(n, axis=axis)
   return y, n
-- 
2.43.0


From 1a7a7adea74eaeaac75f32810175b02873c29395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 13/23] fix: wigner_d failed for empty batches of rotations

---
 e3x/so3/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 948e688..b0e42f0 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -436,7 +436,7 @@ def wigner_d(
   # Note: This is done via integer powers and indexing on purpose! Using
   # jnp.power or the "**"-operator for this operation leads to NaNs in the
   # gradients for some inputs (jnp.power is not NaN-safe).
-  rot_powers = _integer_powers(rot.reshape(*rot.shape[:-2], 1, -1), max_degree)
+  rot_powers = _integer_powers(rot.reshape(*rot.shape[:-2], 1, 9), max_degree)
   monomials = (
       rot_powers[..., 0][..., ls[:, 0]]  #   R_00**l_00.
       * rot_powers[..., 1][..., ls[:, 1]]  # R_01**l_01.
-- 
2.43.0


From d732e1cac903363a7236f031868c6d6174cd8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:04 +0000
Subject: [PATCH 14/23] fix: batched index operations failed for empty index
 lists and batches

---
 e3x/ops/indexed.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 558aa49..b6e6ccb 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -18,6 +18,7 @@ r"""Utility functions for performing indexed operations.
 """
 
 import functools
+import math
 from typing import Any, Literal, Optional, Sequence, Tuple, Union
 import jax
 from jax import lax
@@ -289,8 +290,11 @@ def _gather_dense(
   # There are batch dimensions, needs vmapping.
   if idx.ndim > 2:
     # Reshape to have a single batch dimension.
-    reshaped_inputs = jnp.reshape(inputs, (-1, *inputs.shape[idx.ndim - 2 :]))
-    reshaped_idx = jnp.reshape(idx, (-1, *idx.shape[-2:]))
+    batch_size = math.prod(idx.shape[:-2])  # -1 is ambiguous for size 0 arrays.
+    reshaped_inputs = jnp.reshape(
+        inputs, (batch_size, *inputs.shape[idx.ndim - 2 :])
+    )
+    reshaped_idx = jnp.reshape(idx, (batch_size, *idx.shape[-2:]))
     # Run vmap over batch dimension.
     gathered_inputs = jax.vmap(lambda x, i: x[i], in_axes=(0, 0), out_axes=0)(
         reshaped_inputs, reshaped_idx
@@ -338,8 +342,11 @@ def _gather_sparse(
   # There are batch dimensions, needs vmapping.
   if idx.ndim > 1:
     # Reshape to have a single batch dimension.
-    reshaped_inputs = jnp.reshape(inputs, (-1, *inputs.shape[idx.ndim - 1 :]))
-    reshaped_idx = jnp.reshape(idx, (-1, idx.shape[-1]))
+    batch_size = math.prod(idx.shape[:-1])  # -1 is ambiguous for size 0 arrays.
+    reshaped_inputs = jnp.reshape(
+        inputs, (batch_size, *inputs.shape[idx.ndim - 1 :])
+    )
+    reshaped_idx = jnp.reshape(idx, (batch_size, idx.shape[-1]))
     # Run vmap over batch dimension.
     gathered_inputs = jax.vmap(lambda x, i: x[i], in_axes=(0, 0), out_axes=0)(
         reshaped_inputs, reshaped_idx
@@ -559,10 +566,13 @@ def _indexed_reduce(
     # There are batch dimensions, needs vmapping.
     if dst_idx.ndim > 1:
       # Reshape to have a single batch dimension.
+      batch_size = math.prod(dst_idx.shape[:-1])  # -1 fails for size 0 arrays.
       reshaped_inputs = jnp.reshape(
-          inputs, (-1, *inputs.shape[dst_idx.ndim - 1 :])
+          inputs, (batch_size, *inputs.shape[dst_idx.ndim - 1 :])
+      )
+      reshaped_dst_idx = jnp.reshape(
+          dst_idx, (batch_size, dst_idx.shape[-1])
       )
-      reshaped_dst_idx = jnp.reshape(dst_idx, (-1, dst_idx.shape[-1]))
       # Run vmap over batch dimension.
       outputs = jax.vmap(
           functools.partial(
-- 
2.43.0


From 9025fa6b925017a04c33d4f1710daaf40ded5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 15/23] fix: attention layers failed when the neighbor list
 contains no pairs

---
 e3x/nn/modules.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 9e01938..131ae9b 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -1722,8 +1722,11 @@ class MultiHeadAttention(_Conv):
     )(inputs_kv)
 
     # Split heads -> shape=(..., parity, degrees, features, heads).
-    query = jnp.reshape(query, (*query.shape[:-1], -1, self.num_heads))
-    key = jnp.reshape(key, (*key.shape[:-1], -1, self.num_heads))
+    head_features = qkv_features // self.num_heads
+    query = jnp.reshape(
+        query, (*query.shape[:-1], head_features, self.num_heads)
+    )
+    key = jnp.reshape(key, (*key.shape[:-1], head_features, self.num_heads))
 
     # Scale query by 1/sqrt(depth) to normalize the dot product.
     depth = math.prod(query.shape[-4:-1])  # parity * degrees * features
@@ -1770,7 +1773,8 @@ class MultiHeadAttention(_Conv):
 
       # Split heads -> shape=(..., parity, degrees, features, heads).
       rel_pos_encoding = jnp.reshape(
-          rel_pos_encoding, (*rel_pos_encoding.shape[:-1], -1, self.num_heads)
+          rel_pos_encoding,
+          (*rel_pos_encoding.shape[:-1], head_features, self.num_heads),
       )
 
       # Position encoding weighted dot product.
-- 
2.43.0


From 1fc65f6a59ed9e1c9b685b2b1f79324ea8d73a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 16/23] fix: sparse_to_dense_indices dropped all elements when
 there are no pairs

---
 e3x/ops/indexed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index b6e6ccb..ed22fa4 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -231,7 +231,8 @@ def sparse_to_dense_indices(
     )
   # Handle size 0.
   if dst_idx.size == 0:
-    return jnp.empty_like(dst_idx, shape=(*dst_idx.shape[:-1], 0, 0))
+    num = 0 if pad_idx is None else pad_idx
+    return jnp.empty_like(dst_idx, shape=(*dst_idx.shape[:-1], num, 0))
   # Determine padding index.
   pad_idx = jnp.max(dst_idx) + 1 if pad_idx is None else pad_idx
   # Remember original batch dimensions (might also be empty).
-- 
2.43.0


From 5b27eab87fa149e61c18660aa23cf6940e679fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:25 +0000
Subject: [PATCH 17/23] fix: indexed_softmax ignored real entries next to large
 zero-masked ones

The maximum that is subtracted before exponentiation included entries with a
multiplicative mask of zero. When such an entry exceeds all others by more than
about 88, all exponentials of the other entries underflow, and the weights of a
nonempty neighborhood sum to zero instead of one.
---
 e3x/ops/indexed.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index ed22fa4..68b6f7a 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -801,9 +801,15 @@ def indexed_softmax(
     )
 
   # The max input is subtracted from all inputs before applying exp for
-  # increased numerical stability (prevents overflow).
+  # increased numerical stability (prevents overflow). Inputs for which the
+  # multiplicative mask is zero do not contribute to the softmax, so they must
+  # not determine the maximum (else all other exponentials could underflow).
+  relevant_inputs = inputs
+  if multiplicative_mask is not None:
+    lowest = jnp.finfo(inputs.dtype).min
+    relevant_inputs = jnp.where(multiplicative_mask != 0, inputs, lowest)
   maximum = indexed_max(
-      inputs=inputs,
+      inputs=relevant_inputs,
       keepdims=True,
       adj_idx=adj_idx,
       where=where,
@@ -811,6 +817,12 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
+  if multiplicative_mask is not None:
+    # Exponentials of the inputs that were disregarded must not overflow.
+    largest = 0.5 * math.log(jnp.finfo(inputs.dtype).max)
+    maximum = jnp.where(
+        maximum > lowest, jnp.maximum(maximum, inputs - largest), inputs
+    )
   # Entries that are masked out or padding do not take part in the softmax. They
   # are set to zero so that they can never lead to infinities or NaNs.
   idx = adj_idx if dst_idx is None else dst_idx
-- 
2.43.0


From 50b7d3389942658eca79ea76f8d570b3e516d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 18/23] fix: reject negative max_degree and empty degree axes
 of features

change_max_degree_or_type, even_degree_mask and odd_degree_mask silently
accepted negative maximum degrees (e.g. max_degree=-3 acted like max_degree=1),
and the shape check for features accepted a degree axis of size zero.
---
 e3x/nn/features.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/e3x/nn/features.py b/e3x/nn/features.py
index 9780946..874ae58 100644
--- a/e3x/nn/features.py
+++ b/e3x/nn/features.py
@@ -56,7 +56,7 @@ def _extract_max_degree_and_check_shape(shape: Shape) -> int:
     )
 
   # Extract max_degree from size of axis -2 (degree channel).
-  max_degree = round(math.sqrt(shape[-2]) - 1)
+  max_degree = max(round(math.sqrt(shape[-2]) - 1), 0)
 
   # Check that axis -2 (degree channel) has a valid size.
   expected_size = (max_degree + 1) ** 2
@@ -69,8 +69,17 @@ def _extract_max_degree_and_check_shape(shape: Shape) -> int:
   return max_degree
 
 
+def _check_max_degree_is_positive_or_zero(max_degree: int) -> None:
+  """Raises a ValueError if max_degree is negative."""
+  if max_degree < 0:
+    raise ValueError(
+        f'max_degree must be positive or zero, received {max_degree}'
+    )
+
+
 def even_degree_mask(max_degree: int) -> Bool[Array, '(max_degree+1)**2 1']:
   """Returns a mask than only keeps features with even degrees."""
+  _check_max_degree_is_positive_or_zero(max_degree)
   degrees = jnp.arange(max_degree + 1)
   return jnp.expand_dims(
       jnp.repeat(
@@ -193,6 +202,9 @@ def change_max_degree_or_type(
 
   Returns:
     The reshaped features.
+
+  Raises:
+    ValueError: If ``max_degree`` is negative.
   """
   # Determine max_degree of features and whether they contain pseudotensors.
   in_max_degree = _extract_max_degree_and_check_shape(x.shape)
@@ -200,6 +212,7 @@ def change_max_degree_or_type(
 
   # Determine desired max_degree and whether pseudotensors should be included.
   max_degree = in_max_degree if max_degree is None else max_degree
+  _check_max_degree_is_positive_or_zero(max_degree)
   include_pseudotensors = (
       input_has_pseudotensors
       if include_pseudotensors is None
-- 
2.43.0


From 502c1f2f7948de6bb4c3267651233f716827b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 19/23] fix: MessagePass accepted weights that do not broadcast
 to the gathered inputs

Weights with e.g. more degrees than the gathered inputs were silently
broadcast in the other direction, which copies scalars into vector
channels and breaks equivariance. The documented behaviour is a
ValueError.
---
 e3x/nn/modules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 131ae9b..3424f96 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -1477,7 +1477,11 @@ class MessagePass(_Conv):
     # Optionally multiply gathered_inputs with weights (if given).
     if weights is not None:
       # Shape check.
-      if not util.is_broadcastable(gathered_inputs.shape, weights.shape):
+      if (
+          not util.is_broadcastable(gathered_inputs.shape, weights.shape)
+          or jnp.broadcast_shapes(gathered_inputs.shape, weights.shape)
+          != gathered_inputs.shape
+      ):
         raise ValueError(
             f'weights with shape {weights.shape} cannot be broadcasted to '
             f'gathered_inputs with shape {gathered_inputs.shape}'
-- 
2.43.0


From f7084a23c3ce0108e51ff4654497878ddaeab772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 20/23] fix: make_rectangular_matrix checked the size of only
 the first irrep

---
 e3x/matrix/matmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/matrix/matmat.py b/e3x/matrix/matmat.py
index 0d05a6f..3f293d3 100644
--- a/e3x/matrix/matmat.py
+++ b/e3x/matrix/matmat.py
@@ -170,7 +170,7 @@ def make_rectangular_matrix(irreps: List[Float[Array, 'D M']],
   for i in range(len(irreps)):
     if len(irreps[i].shape) != 2:
       raise ValueError(f'{len(irreps[i].shape)=} for {i=} (should be 2)')
-    if irreps[0].shape[0] % 2 == 0:
+    if irreps[i].shape[0] % 2 == 0:
       raise ValueError(
           f'{irreps[i].shape[0]=} for {i=} (should be odd)'
       )
-- 
2.43.0


From 0c6c6e127fb932304cb2979f7365e23a32ed99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 21/23] fix: tensor products silently accepted a negative
 max_degree

For some parities of the inputs, max_degree=-1 led to an output with an
empty degree axis instead of an error.
---
 e3x/nn/modules.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 3424f96..76e7c8b 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -452,6 +452,12 @@ class Tensor(nn.Module):
         else self.max_degree
     )
 
+    # Check that max_degree3 is not negative.
+    if max_degree3 < 0:
+      raise ValueError(
+          f'max_degree must be positive or zero, received {max_degree3}'
+      )
+
     # Check that max_degree3 is not larger than is sensible.
     if max_degree3 > max_degree1 + max_degree2:
       raise ValueError(
@@ -785,6 +791,12 @@ class FusedTensor(nn.Module):
         else self.max_degree
     )
 
+    # Check that max_degree3 is not negative.
+    if max_degree3 < 0:
+      raise ValueError(
+          f'max_degree must be positive or zero, received {max_degree3}'
+      )
+
     # Check that max_degree3 is not larger than is sensible.
     if max_degree3 > max_degree1 + max_degree2:
       raise ValueError(
-- 
2.43.0


From 96c816bc9406cce28615d2e6ec8cd23a2faaaee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:18 +0000
Subject: [PATCH 22/23] fix: tensor products computed in single precision
 whatever dtype was requested

---
 e3x/nn/modules.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 76e7c8b..1189c0f 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -506,7 +506,11 @@ class Tensor(nn.Module):
     kernel = self.param(
         'kernel', self.kernel_init, kernel_shape, self.param_dtype
     )
-    (kernel,) = promote_dtype(kernel, dtype=self.dtype)
+
+    # Promote inputs and parameters to desired dtype.
+    inputs1, inputs2, kernel = promote_dtype(
+        inputs1, inputs2, kernel, dtype=self.dtype
+    )
 
     # If any of the two inputs or the output do not contain pseudotensors, the
     # forbidded coupling paths correspond to "mixed entries within array
@@ -525,11 +529,11 @@ class Tensor(nn.Module):
           max_degree2,
           max_degree3,
           cartesian_order=self.cartesian_order,
-      )
+      ).astype(kernel.dtype)
 
       # Mask for zeroing out forbidden (parity violating) coupling paths.
       if mixed_coupling_paths:
-        mask = _make_tensor_product_mask(kernel_shape[:-1])
+        mask = _make_tensor_product_mask(kernel_shape[:-1], kernel.dtype)
       else:
         mask = 1
 
@@ -933,8 +937,10 @@ class FusedTensor(nn.Module):
         self.param_dtype,
     )
 
-    # Promote parameters to desired dtype.
+    # Promote inputs and parameters to desired dtype.
     (
+        inputs1,
+        inputs2,
         kernel_e1,
         kernel_o1,
         kernel_e2,
@@ -944,6 +950,8 @@ class FusedTensor(nn.Module):
         kernel_eoo,
         kernel_oeo,
     ) = promote_dtype(
+        inputs1,
+        inputs2,
         kernel_e1,
         kernel_o1,
         kernel_e2,
@@ -954,6 +962,7 @@ class FusedTensor(nn.Module):
         kernel_oeo,
         dtype=self.dtype,
     )
+    cg = cg.astype(inputs1.dtype)
 
     # Compute "stop indices" for slicing CG tensor and other arrays.
     l1 = (max_degree1 + 1) ** 2
-- 
2.43.0


From 3e441d7c081e8f83b89d0d7a770944a79b4c73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 23/23] fix: infinite gradients of the softmax when all
 multiplicative masks are tiny

---
 e3x/ops/indexed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 68b6f7a..fd61cb1 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -845,4 +845,8 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  return numerator / jnp.where(denominator != 0, denominator, 1)
+  denominator = jnp.where(denominator != 0, denominator, 1)
+  # Rescaling the fraction does not change its value, but prevents the inverse
+  # square of tiny denominators from overflowing in derivatives.
+  scale = lax.stop_gradient(denominator)
+  return (numerator / scale) / (denominator / scale)
-- 
2.43.0

