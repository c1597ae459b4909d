From cd557580700ab8e441a543af7fd0a9f9572f3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 01/17] fix: make DirectSerendipity.mapping a property like
 every other element's

---
 finat/direct_serendipity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd084a4..fd40051 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -125,6 +125,7 @@ class DirectSerendipity(DirectlyDefinedElement, FiniteElementBase):
     def point_evaluation(self, order, refcoords, entity=None):
         raise NotImplementedError("Not done yet, sorry!")
 
+    @property
     def mapping(self):
         return "physical"
 
-- 
2.43.0


From 377530c7550f70d1805a2d983e3cbf5a24299033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 02/17] fix: raise instead of returning NotImplementedError
 when restricting an unknown element

---
 finat/restricted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index cbd56b3..e81b3c6 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -26,7 +26,7 @@ def restrict(element, domain, take_closure):
         element.
     :raises ValueError: If the restricted element is empty.
     :returns: A new finat element."""
-    return NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
+    raise NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
 
 
 @restrict.register(FiatElement)
-- 
2.43.0


From d4aa13da8f2e6a0e802731433a513e340ae09267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 03/17] fix: size zero and failed tables of reduced elements by
 the FIAT element

---
 finat/fiat_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 1f20818..308c0df 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -112,7 +112,7 @@ class FiatElement(FiniteElementBase):
         index_shape = (self._element.space_dimension(),)
         for alpha, fiat_table in fiat_result.items():
             if isinstance(fiat_table, Exception):
-                result[alpha] = gem.Failure(self.index_shape + self.value_shape, fiat_table)
+                result[alpha] = gem.Failure(index_shape + self.value_shape, fiat_table)
                 continue
 
             derivative = sum(alpha)
@@ -128,7 +128,7 @@ class FiatElement(FiniteElementBase):
                 elif derivative > self.degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
-                    exprs.append(gem.Literal(np.zeros(self.index_shape)))
+                    exprs.append(gem.Literal(np.zeros(index_shape)))
                 else:
                     point_indices = ps.indices
                     point_shape = tuple(index.extent for index in point_indices)
-- 
2.43.0


From aa4fe2943eb195bf06d82258670d87b64eed2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 04/17] fix: compute closure DoFs of reduced elements from
 their own DoF map

---
 finat/fiat_elements.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 308c0df..bc262d0 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -67,9 +67,6 @@ class FiatElement(FiniteElementBase):
     def entity_dofs(self):
         return self._element.entity_dofs()
 
-    def entity_closure_dofs(self):
-        return self._element.entity_closure_dofs()
-
     @property
     def entity_permutations(self):
         return self._element.entity_permutations()
-- 
2.43.0


From d2f03c4474d44cd544969a6ceb1123d2ade8515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 05/17] fix: return dual evaluation indices of transposed
 tensor elements in DoF order

---
 finat/tensorfiniteelement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index c0a8aa9..8129b54 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -202,6 +202,8 @@ class TensorFiniteElement(FiniteElementBase):
         # a minimal memory footprint, although the operation count
         # does appear to be minimal.
         evaluation = gem.optimise.contraction(evaluation)
+        if self._transpose:
+            return evaluation, tensor_vi + scalar_i
         return evaluation, scalar_i + tensor_vi
 
     @property
-- 
2.43.0


From baa10e00e64f0be9d9b88a7cf5fa93c6fa3de87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 06/17] fix: keep orientation maps of product quadrature rules
 built from an iterator

---
 finat/quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/quadrature.py b/finat/quadrature.py
index ec6def1..1e634b0 100644
--- a/finat/quadrature.py
+++ b/finat/quadrature.py
@@ -127,7 +127,7 @@ class TensorProductQuadratureRule(AbstractQuadratureRule):
         self.factors = tuple(factors)
         self._intrinsic_orientation_permutation_map_tuple = tuple(
             m
-            for factor in factors
+            for factor in self.factors
             for m in factor._intrinsic_orientation_permutation_map_tuple
         )
 
-- 
2.43.0


From 05d14bd54d464dd27161bfd79d5943d0ac82f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 07/17] fix: let MixedElement accept any iterable of
 sub-elements

---
 finat/mixed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finat/mixed.py b/finat/mixed.py
index e8b371c..a882eed 100644
--- a/finat/mixed.py
+++ b/finat/mixed.py
@@ -12,6 +12,7 @@ def MixedElement(elements):
     Implements mixed element using :py:class:`EnrichedElement` and
     value shape transformations with :py:class:`MixedSubElement`.
     """
+    elements = tuple(elements)
     sizes = [numpy.prod(element.value_shape, dtype=int)
              for element in elements]
     offsets = [int(offset) for offset in numpy.cumsum([0] + sizes)]
-- 
2.43.0


From 1a8ee0a65cb08d023ba50c72494bee0ed3e2ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 08/17] fix: let WithMapping elements be copied and pickled

---
 finat/ufl/hdivcurl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index ed18803..4c1c3e0 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -170,6 +170,9 @@ class WithMapping(FiniteElementBase):
 
     def __getattr__(self, attr):
         """Doc."""
+        if attr == "wrapee":
+            # Not yet set while the object is being copied or unpickled
+            raise AttributeError(attr)
         try:
             return getattr(self.wrapee, attr)
         except AttributeError:
-- 
2.43.0


From fb3cd887a4ad77f32c175389dd9659aecc3b2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 09/17] fix: give covariant contravariant Piola remappings a
 matrix value shape

---
 finat/ufl/hdivcurl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index 4c1c3e0..1e961cc 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -189,7 +189,8 @@ class WithMapping(FiniteElementBase):
         mapping = self.mapping()
         if mapping in {"covariant Piola", "contravariant Piola"}:
             return (gdim,)
-        elif mapping in {"double covariant Piola", "double contravariant Piola"}:
+        elif mapping in {"double covariant Piola", "double contravariant Piola",
+                         "covariant contravariant Piola"}:
             return (gdim, gdim)
         else:
             return self.wrapee.value_shape(domain)
@@ -201,7 +202,8 @@ class WithMapping(FiniteElementBase):
         mapping = self.mapping()
         if mapping in {"covariant Piola", "contravariant Piola"}:
             return (tdim,)
-        elif mapping in {"double covariant Piola", "double contravariant Piola"}:
+        elif mapping in {"double covariant Piola", "double contravariant Piola",
+                         "covariant contravariant Piola"}:
             return (tdim, tdim)
         else:
             return self.wrapee.reference_value_shape
-- 
2.43.0


From 9be60524669037af875c7fffc90201c5586f8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 10/17] fix: report embedded degrees of the restricted element

---
 finat/ufl/restrictedelement.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 797cca2..398cfa8 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -111,3 +111,13 @@ class RestrictedElement(FiniteElementBase):
     def variant(self):
         """Doc."""
         return self._element.variant()
+
+    @property
+    def embedded_subdegree(self):
+        """Return embedded subdegree."""
+        return self._element.embedded_subdegree
+
+    @property
+    def embedded_superdegree(self):
+        """Return embedded superdegree."""
+        return self._element.embedded_superdegree
-- 
2.43.0


From 6c92960b98849c5325766c0bda807837ea23295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 11/17] fix: compute embedded degrees of products of product
 elements

---
 finat/ufl/tensorproductelement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finat/ufl/tensorproductelement.py b/finat/ufl/tensorproductelement.py
index 760626f..1bb1553 100644
--- a/finat/ufl/tensorproductelement.py
+++ b/finat/ufl/tensorproductelement.py
@@ -130,9 +130,9 @@ class TensorProductElement(FiniteElementBase):
     @property
     def embedded_superdegree(self):
         """Doc."""
-        return sum(self.degree())
+        return sum(e.embedded_superdegree for e in self._sub_elements)
 
     @property
     def embedded_subdegree(self):
         """Doc."""
-        return min(self.degree())
+        return min(e.embedded_subdegree for e in self._sub_elements)
-- 
2.43.0


From 97f0bc35c704610e873a83a17017f44c38a7cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 12/17] fix: report embedded degrees of bubble families without
 a degree

---
 finat/ufl/finiteelement.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/ufl/finiteelement.py b/finat/ufl/finiteelement.py
index 36c3d92..6ac9417 100644
--- a/finat/ufl/finiteelement.py
+++ b/finat/ufl/finiteelement.py
@@ -240,6 +240,8 @@ class FiniteElement(FiniteElementBase):
     def embedded_subdegree(self):
         """Return embedded subdegree."""
         subdegree = self.degree()
+        if subdegree is None:
+            return self._embedded_degree
         if not isinstance(subdegree, int):
             subdegree = min(subdegree)
         if isinstance(self._embedded_degree, int):
@@ -250,6 +252,8 @@ class FiniteElement(FiniteElementBase):
     def embedded_superdegree(self):
         """Return embedded superdegree."""
         superdegree = self.degree()
+        if superdegree is None:
+            return self._embedded_degree
         if not isinstance(superdegree, int):
             superdegree = max(superdegree)
         if isinstance(self._embedded_degree, int):
-- 
2.43.0


From 71538f176d5b5e34a9037f6930b06c33a06e38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 13/17] fix: enrich an element without a degree in either order

---
 finat/ufl/enrichedelement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index a054885..ea42ee1 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -25,7 +25,7 @@ class EnrichedElementBase(FiniteElementBase):
         if not all(e.cell == cell for e in elements[1:]):
             raise ValueError("Cell mismatch for sub elements of enriched element.")
 
-        if isinstance(elements[0].degree(), int):
+        if not any(isinstance(e.degree(), tuple) for e in elements):
             degrees = {e.degree() for e in elements} - {None}
             degree = max(degrees) if degrees else None
         else:
-- 
2.43.0


From 6e5cf04413c5aa7f99f8c9c35af6ec2dfade34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 14/17] fix: number symmetric tensor components alike in
 element and pullback

---
 finat/ufl/mixedelement.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index e1dd1cc..1954ccf 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -462,14 +462,9 @@ class TensorElement(MixedElement):
             for e in self.sub_elements:
                 if e.reference_value_shape != sub_element_value_shape:
                     raise ValueError("Sub-elements must all have the same value size")
-            symmetry = {}
-            n = 0
-            for i in np.ndindex(self._shape):
-                if i in self._symmetry and self._symmetry[i] in symmetry:
-                    symmetry[i] = symmetry[self._symmetry[i]]
-                else:
-                    symmetry[i] = n
-                    n += 1
+            # Number the components as they are numbered in the element,
+            # whichever of two symmetric components comes first
+            symmetry = {i: self._sub_element_mapping[i] for i in np.ndindex(self._shape)}
             return SymmetricPullback(self, symmetry)
 
         return self._sub_element.pullback
-- 
2.43.0


From 5ec4112359459825a1b32501975f265cc059769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 15/17] fix: reconstruct a mixed element from a different
 number of sub-elements

---
 finat/ufl/mixedelement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 1954ccf..9c879d3 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -83,7 +83,7 @@ class MixedElement(FiniteElementBase):
 
     def reconstruct_from_elements(self, *elements):
         """Reconstruct a mixed element from new subelements."""
-        if all(a == b for (a, b) in zip(elements, self._sub_elements)):
+        if len(elements) == len(self._sub_elements) and all(a == b for (a, b) in zip(elements, self._sub_elements)):
             return self
         return MixedElement(*elements)
 
-- 
2.43.0


From 7503652fc9a991101321c63671540d01ba8f75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 16/17] fix: point_evaluation takes refcoords by keyword on
 every element

---
 finat/cube.py                | 4 ++--
 finat/runtime_tabulated.py   | 2 +-
 finat/tensor_product.py      | 6 +++---
 finat/tensorfiniteelement.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/finat/cube.py b/finat/cube.py
index 39aeccd..aa0614d 100644
--- a/finat/cube.py
+++ b/finat/cube.py
@@ -77,11 +77,11 @@ class FlattenedDimensions(FiniteElementBase):
 
         return self.product.basis_evaluation(order, ps, self._unflatten[entity])
 
-    def point_evaluation(self, order, point, entity=None):
+    def point_evaluation(self, order, refcoords, entity=None):
         if entity is None:
             entity = (self.cell.get_spatial_dimension(), 0)
 
-        return self.product.point_evaluation(order, point, self._unflatten[entity])
+        return self.product.point_evaluation(order, refcoords, self._unflatten[entity])
 
     @property
     def dual_basis(self):
diff --git a/finat/runtime_tabulated.py b/finat/runtime_tabulated.py
index cc629fb..d21dffc 100644
--- a/finat/runtime_tabulated.py
+++ b/finat/runtime_tabulated.py
@@ -94,7 +94,7 @@ class RuntimeTabulated(FiniteElementBase):
                 result[alpha] = gem.partial_indexed(gem.Variable(name, shape), ps.indices)
         return result
 
-    def point_evaluation(self, order, point, entity=None):
+    def point_evaluation(self, order, refcoords, entity=None):
         raise NotImplementedError("Point evaluation not supported for runtime tabulated elements")
 
     @property
diff --git a/finat/tensor_product.py b/finat/tensor_product.py
index de3708f..b06f662 100644
--- a/finat/tensor_product.py
+++ b/finat/tensor_product.py
@@ -148,7 +148,7 @@ class TensorProductElement(FiniteElementBase):
 
         return self._merge_evaluations(factor_results)
 
-    def point_evaluation(self, order, point, entity=None):
+    def point_evaluation(self, order, refcoords, entity=None):
         entities = self._factor_entity(entity)
         entity_dim, _ = zip(*entities)
 
@@ -156,12 +156,12 @@ class TensorProductElement(FiniteElementBase):
         assert len(self.cell.cells) == len(entity_dim)
         point_dims = [cell.construct_subelement(dim).get_spatial_dimension()
                       for cell, dim in zip(self.cell.cells, entity_dim)]
-        assert isinstance(point, gem.Node) and point.shape == (sum(point_dims),)
+        assert isinstance(refcoords, gem.Node) and refcoords.shape == (sum(point_dims),)
         slices = TensorProductCell._split_slices(point_dims)
         point_factors = []
         for s in slices:
             point_factors.append(gem.ListTensor(
-                [gem.Indexed(point, (i,))
+                [gem.Indexed(refcoords, (i,))
                  for i in range(s.start, s.stop)]
             ))
 
diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index 8129b54..5f0e05d 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -120,9 +120,9 @@ class TensorFiniteElement(FiniteElementBase):
         scalar_evaluation = self._base_element.basis_evaluation
         return self._tensorise(scalar_evaluation(order, ps, entity, coordinate_mapping=coordinate_mapping))
 
-    def point_evaluation(self, order, point, entity=None):
+    def point_evaluation(self, order, refcoords, entity=None):
         scalar_evaluation = self._base_element.point_evaluation
-        return self._tensorise(scalar_evaluation(order, point, entity))
+        return self._tensorise(scalar_evaluation(order, refcoords, entity))
 
     def _tensorise(self, scalar_evaluation):
         # Old basis function and value indices
-- 
2.43.0


From 3ef78b36784418c8647f4a980fac7fd07e01af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 17/17] fix: enriched and restricted symbolic elements accept
 the component argument

---
 finat/ufl/enrichedelement.py   | 6 +++---
 finat/ufl/restrictedelement.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index ea42ee1..c42be7b 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -111,9 +111,9 @@ class EnrichedElement(EnrichedElementBase):
     Structured basis may be exploited in form compilers.
     """
 
-    def is_cellwise_constant(self):
+    def is_cellwise_constant(self, component=None):
         """Return whether the basis functions of this element is spatially constant over each cell."""
-        return all(e.is_cellwise_constant() for e in self._elements)
+        return all(e.is_cellwise_constant(component) for e in self._elements)
 
     def __repr__(self):
         """Doc."""
@@ -137,7 +137,7 @@ class NodalEnrichedElement(EnrichedElementBase):
     a concatenation of subelements dual bases; resulting
     element is nodal.
     """
-    def is_cellwise_constant(self):
+    def is_cellwise_constant(self, component=None):
         """Return whether the basis functions of this element is spatially constant over each cell."""
         return False
 
diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 398cfa8..9e48aaa 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -48,9 +48,9 @@ class RestrictedElement(FiniteElementBase):
         else:
             return self._element.sobolev_space
 
-    def is_cellwise_constant(self):
+    def is_cellwise_constant(self, component=None):
         """Return whether the basis functions of this element is spatially constant over each cell."""
-        return self._element.is_cellwise_constant()
+        return self._element.is_cellwise_constant(component)
 
     def _is_linear(self):
         """Doc."""
-- 
2.43.0

