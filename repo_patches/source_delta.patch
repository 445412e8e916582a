From 128af046291cfecee3cb20d2d712cffdc8f6dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 01/27] fix: Angle between lines lies in (-pi, pi]

The difference of two arctan2 values ranges over (-2*pi, 2*pi), so angles
across the negative x axis were off by a full turn.
---
 src/mpllayout/constructions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..45c25f1 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -998,7 +998,7 @@ class Angle(LeafConstruction, _LineLineSignature):
     Return the angle between two lines
 
     The angle is measured counter-clockwise from the first to the second line
-    in the range `(-pi, pi)` (see `jax.numpy.arctan2`).
+    in the range `(-pi, pi]` (see `jax.numpy.arctan2`).
 
     Parameters
     ----------
@@ -1018,9 +1018,10 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        # The difference of the two line angles can lie outside the documented
+        # range so use the relative direction (`arctan2` includes `-pi`)
+        angle = jnp.arctan2(jnp.cross(dir0, dir1), jnp.dot(dir0, dir1))
+        return jnp.where(angle <= -np.pi, angle + 2*np.pi, angle)
 
 
 ## Point and Line constructions
-- 
2.43.0


From 3b383459a2ae4cad0ef83426852b41cac2a0cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 02/27] fix: Axis label coordinates are relative to the
 figure's corner

---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..7f69e77 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -114,7 +114,7 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value
+                label_coords = axis_label_point.value - fig_origin
                 axis.set_label_coords(
                     *(label_coords / fig_size), transform=fig.transFigure
                 )
-- 
2.43.0


From d50340de374a4d4443c895d76dbe4b82947d1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/27] fix: Find the axes of an axis thickness constraint
 below the top level

---
 src/mpllayout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..89b50d7 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -246,12 +246,12 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From 177949818a3b51b54836dd7332f4ecca753a2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 04/27] fix: Restore the axis label's visibility when measuring
 fails

---
 src/mpllayout/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..6f78a08 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -643,6 +643,8 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
 
     axis_bbox = axis.get_tightbbox()
 
+    axis.label.set_visible(label_visibility)
+
     if axis_bbox is None:
         dim = 0
     else:
@@ -661,8 +663,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From 379b851395c8aff1bff20abb53dc642f805d0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 05/27] fix: Label rotation of lines pointing down

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..ccef777 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From f2516ad6290ee33d5b2d7a5151bc80aa0ada5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 06/27] fix: Evaluate both operands of a sum on their own
 primitives

---
 src/mpllayout/constructions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 45c25f1..96b00aa 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1633,10 +1633,14 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_prims, split_prims = cat_split_prims
         concat_params, split_params = cat_split_params
 
+        # The primitives of `cons_b` come after the primitives of `cons_a`
+        num_a, num_b = len(signature_a.prim_types), len(signature_b.prim_types)
+        arg_keys_b = tuple(f"arg{num_a + n}" for n in range(num_b))
+
         # Build the sum construction `ConstructionValue` tuple
         sum_child_prim_keys = tuple(
             concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
-            in zip(value_a.child_prim_keys, value_b.child_prim_keys)
+            in zip(value_a.child_prim_keys, cons_b.child_prim_keys(arg_keys_b))
         )
 
         def sum_child_params(sum_params: Params) -> tuple[Params, ...]:
-- 
2.43.0


From ebea34b8ae3982509c931a57881afe7da769406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 07/27] fix: Products of a scalar with a number or another
 scalar

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 96b00aa..b446ca2 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -445,7 +445,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and not isinstance(other, (float, int, Scalar)):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From a0a43328663c892a92fd871729312d163783bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 08/27] fix: Products of numpy scalars with constructions

---
 src/mpllayout/constructions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index b446ca2..deb72cb 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -432,6 +432,9 @@ class ConstructionNode(Node[ConstructionValue]):
 
     ## Special methods
 
+    # Let numpy scalars defer to `__rmul__` instead of treating nodes as sequences
+    __array_ufunc__ = None
+
     def __neg__(self):
         return transform_scalar_mul(self, -1.0)
 
-- 
2.43.0


From 6b64a68b20b508e23ba8f6d9728dab8d2cfe0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 09/27] fix: Division by numpy integer parameters

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index deb72cb..d78c53b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1749,7 +1749,7 @@ def transform_scalar_div(
     if not isinstance(scalar, Scalar):
         scalar = transform_partial(Scalar(), scalar)
 
-    return transform_scalar_mul(cons, transform_scalar_pow(scalar, -1))
+    return transform_scalar_mul(cons, transform_scalar_pow(scalar, -1.0))
 
 
 def transform_scalar_pow(
-- 
2.43.0


From 9ed1c4c42933acf524392c22539c07303485f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 10/27] fix: Partial application of no parameters

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index d78c53b..6648f0b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1835,7 +1835,7 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types, param_types[:len(param_types)-len(freeze_params)], value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From 0401055b7fc1aeb8c3eb4718740d3b3c9bee0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 11/27] fix: Scalar targets of numpy and jax types

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 6648f0b..220e898 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -644,7 +644,7 @@ class Vector(Construction, _NullSignature):
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
+            if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
 
             return tuple(
-- 
2.43.0


From 1def71460ce3dd37a1ea881d029f151dedc75972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 12/27] fix: Targets of nested constructions

---
 src/mpllayout/constructions.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 220e898..b0e1cf1 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -639,7 +639,6 @@ class Vector(Construction, _NullSignature):
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
@@ -647,10 +646,10 @@ class Vector(Construction, _NullSignature):
             if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
 
+            # A node's own chunk comes before those of its children
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,)
+                for child_value in chunk(value[size_node.value:], child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -659,6 +658,11 @@ class Vector(Construction, _NullSignature):
     def init_signature(cls, size_node: Optional[Node[int]]=None):
         return cls.make_signature(size_node.value, (np.ndarray,))
 
+    def assem_atleast_1d(self, prims: tuple[()], *params: Params) -> NDArray:
+        # `value` contains the node's own chunk followed by those of its children
+        chunk_size = self.signature.value_size
+        return super().assem_atleast_1d(prims, *params)[:chunk_size]
+
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
         # FIXME: Does this work for an empty root node???
@@ -1663,7 +1667,10 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
             def assem(cls, sum_prims: Prims, *sum_params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(sum_prims)
                 params_a, params_b = split_params(sum_params)
-                return cons_a.assem(prims_a, *params_a) + cons_b.assem(prims_b, *params_b)
+                return (
+                    cons_a.assem_atleast_1d(prims_a, *params_a)
+                    + cons_b.assem_atleast_1d(prims_b, *params_b)
+                )
 
         return SumConstruction, node_value, sum_child_keys
 
-- 
2.43.0


From 4593e45e8992a2c8f231f998a354641ee5ec0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 13/27] fix: Reject nested parameters of the wrong number
 before changing the layout

---
 src/mpllayout/constructions.py | 1 +
 src/mpllayout/layout.py        | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index b0e1cf1..946165f 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,6 +356,7 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
+        self.validate_params(params)
         children_params = self.child_params(params)
         children = {
             key: child.root_params(child_params)
diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 89b50d7..71966a4 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -202,12 +202,15 @@ class Layout:
 
         try:
             constraint.validate_params(param)
+            constraint_param = constraint.root_params(param)
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        constraint_prim_keys = constraint.root_prim_keys(prim_keys)
+
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_prim_keys.add_child(key, constraint_prim_keys)
+        self.root_param.add_child(key, constraint_param)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From 1f9f286580ae69db6ab8d9b5435bf843e3454f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 14/27] fix: Primitives built from the same array are
 independent

---
 src/mpllayout/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..09ff1ac 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -180,7 +180,9 @@ class Primitive(PrimitiveNode):
         elif isinstance(value, (list, tuple)):
             value = np.array(value)
         elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):
-            value = value
+            # Copy so that each primitive has its own parameter vector, since
+            # primitives sharing one array are treated as the same primitive
+            value = np.array(value)
         else:
             raise TypeError()
 
-- 
2.43.0


From 347aa11ed62879ff29d95c3549127ea6570aa9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 15/27] fix: Solve layouts without constraints

---
 src/mpllayout/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..0e5dac8 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -116,7 +116,7 @@ def solve_newton(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.concatenate(residuals)
+        return jnp.concatenate([jnp.zeros(0), *residuals])
 
     assem_global_jac = jax.jacfwd(assem_global_res)
 
@@ -204,7 +204,7 @@ def solve_minimize(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.sum(jnp.concatenate(residuals)**2)
+        return jnp.sum(jnp.concatenate([jnp.zeros(0), *residuals])**2)
 
     class MinHistory:
 
-- 
2.43.0


From b59de444df7fcfc8e32af0309e0cc58953f461ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 16/27] fix: Report constraint error norms of the minimizing
 solver

---
 src/mpllayout/solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 0e5dac8..6d428dc 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -206,6 +206,9 @@ def solve_minimize(
         )
         return jnp.sum(jnp.concatenate([jnp.zeros(0), *residuals])**2)
 
+    # The objective is the square of the residual 2-norm
+    init_abs_err = np.sqrt(assem_objective(global_param_n))
+
     class MinHistory:
 
         def __init__(self):
@@ -213,10 +216,10 @@ def solve_minimize(
             self.rel_errs = []
 
         def callback(self, intermediate_result: OptimizeResult):
-            abs_err = intermediate_result['fun']
+            abs_err = np.sqrt(intermediate_result['fun'])
             self.abs_errs.append(abs_err)
 
-            rel_err = abs_err / self.abs_errs[0]
+            rel_err = abs_err / init_abs_err
             self.rel_errs.append(rel_err)
 
             if rel_err < rel_tol or abs_err < abs_tol:
-- 
2.43.0


From 1af5167c534b80d726b774feb673844f3fb43931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 17/27] fix: Membership of missing and empty keys

---
 src/mpllayout/containers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..d679d65 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -162,14 +162,12 @@ class Node(Generic[TValue]):
         return self.children.__iter__()
 
     def __contains__(self, key: str) -> bool:
-        split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
-
-        if child_key == "":
-            return parent_key in self.children
+        try:
+            self.get_child(key)
+        except KeyError:
+            return False
         else:
-            return child_key in self[parent_key]
+            return True
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 28181f285d2707891f661d48e022e1df19de4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 18/27] fix: Set children below a child with an empty name

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index d679d65..7100510 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -214,7 +214,7 @@ class Node(Generic[TValue]):
         if key not in self:
             raise KeyError(key)
         else:
-            if parent_key == "":
+            if len(split_keys) == 1:
                 parent = self
             else:
                 parent = self[parent_key]
-- 
2.43.0


From f73cd16cc59623d17d0a2273ccca7c4c1d8a3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 19/27] fix: Keep the child order through jax's pytree
 functions

---
 src/mpllayout/containers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 7100510..eea0222 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -509,12 +509,13 @@ def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
         flat_node = (node.value, node.children)
-        aux_data = None
+        # `jax` sorts dictionary keys so the child order is stored separately
+        aux_data = tuple(node.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
         value, children = flat_node
-        return node_type.from_tree(value, children)
+        return node_type.from_tree(value, {key: children[key] for key in aux_data})
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From 646e93439abf6816ec03e7ab7515fe6090492874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 20/27] fix: Reject primitives with too many or too few parts

---
 src/mpllayout/primitives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 09ff1ac..f2ac04f 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -190,6 +190,10 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Invalid `prims` must be {len(child_keys)} not {len(child_prims)}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
@@ -291,7 +295,7 @@ class Point(StaticPrimitive):
 
     @classmethod
     def init_children(cls, prims):
-        return (), ()
+        return (), prims
 
     @classmethod
     def default_value(cls):
-- 
2.43.0


From 40d0c25cd20309e484caba3c06ce35d0ef5f2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 21/27] fix: Reject primitive values of more than one dimension

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index f2ac04f..aa4c5f2 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -117,7 +117,7 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         )
         param_size, prim_type_sig = self.signature
 
-        assert len(value) == param_size
+        assert value.shape == (param_size,)
 
         prims = [cprim for _, cprim in children.items()]
         if isinstance(prim_type_sig, tuple):
-- 
2.43.0


From bdfb79c598edcbd048cef04c54ebe6cf021d4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 22/27] fix: Declared size of the coincident lines constraint

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 6f78a08..4fed4d2 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From 46a8f8186e994950a816276763b8f0f85bf8de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 23/27] fix: Reject constructions indexing the wrong number of
 child primitives

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 946165f..fb3d153 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -176,7 +176,7 @@ class ConstructionNode(Node[ConstructionValue]):
             for (key, prim_types), prim_keys
             in zip(child_prim_types.items(), value.child_prim_keys)
         }
-        if not all(valid_child_prim_keys):
+        if not all(valid_child_prim_keys.values()):
             invalid_cons_keys = {
                 key for key, valid in valid_child_prim_keys.items() if not valid
             }
-- 
2.43.0


From eff6441c0079d9381faa3504bf55bf46e769d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 24/27] fix: Reject child parameters for too few of the
 children

---
 src/mpllayout/constructions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index fb3d153..f2ff147 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -357,7 +357,11 @@ class ConstructionNode(Node[ConstructionValue]):
             A tree of params
         """
         self.validate_params(params)
-        children_params = self.child_params(params)
+        children_params = tuple(self.child_params(params))
+        if len(children_params) < len(self):
+            raise ValueError(
+                f"Expected {len(self)} child parameters, not {len(children_params)}"
+            )
         children = {
             key: child.root_params(child_params)
             for (key, child), child_params in zip(self.items(), children_params)
-- 
2.43.0


From a6e5cf9fbe7088c8a19990d987d40faebb411173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 25/27] fix: Reject constructions with the wrong number of
 child keys

---
 src/mpllayout/constraints.py   | 2 +-
 src/mpllayout/constructions.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 4fed4d2..b47f03d 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -814,7 +814,7 @@ class OuterMarginArray(con.CompoundConstruction):
     ):
         num_quad, = shape
 
-        keys = tuple(f"OuterMargin{n}" for n in range(num_quad))
+        keys = tuple(f"OuterMargin{n}" for n in range(num_quad-1))
         constraints = tuple(OuterMargin(side=side) for _ in range(num_quad-1))
         prim_keys = tuple((f'arg{n}', f'arg{n+1}') for n in range(num_quad-1))
 
diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index f2ff147..f4b0a04 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -488,6 +488,11 @@ class Construction(ConstructionNode):
         ) = self.init_children(**kwargs)
         signature = self.init_signature(**kwargs)
 
+        if len(child_keys) != len(child_constructions):
+            raise ValueError(
+                f"Expected {len(child_constructions)} child keys, not {len(child_keys)}"
+            )
+
         value = ConstructionValue(child_prim_keys, child_params, signature)
         children = {
             key: child for key, child in zip(child_keys, child_constructions)
-- 
2.43.0


From 371bd325afefec8bdb341d79e01292996c48201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 26/27] fix: Reject target vectors of the wrong size

---
 src/mpllayout/constructions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index f4b0a04..82c4646 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -655,6 +655,10 @@ class Vector(Construction, _NullSignature):
 
             if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
+            elif np.shape(value) != (cumsize_node.value,):
+                raise ValueError(
+                    f"Expected a vector of size {cumsize_node.value}, not shape {np.shape(value)}"
+                )
 
             # A node's own chunk comes before those of its children
             return tuple(
-- 
2.43.0


From 37f0120d923c4c81047295c3e7a40e836b17a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 27/27] fix: Layouts refreshed from drawn axes grow separately

---
 src/mpllayout/layout.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 71966a4..d8b6e13 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -263,12 +263,12 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
-    return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
-        new_root_param
+    # Use new root nodes so that adding to the new layout doesn't add to `layout`
+    root_prim, root_constraint, root_prim_keys = (
+        type(root).from_tree(root.value, dict(root.items()))
+        for root in (layout.root_prim, layout.root_constraint, layout.root_prim_keys)
     )
+    return Layout(root_prim, root_constraint, root_prim_keys, new_root_param)
 
 def update_root_param(
     root_constraint: cr.ConstraintNode,
-- 
2.43.0

