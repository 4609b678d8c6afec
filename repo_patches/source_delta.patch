From 09cf8cda6b96c886567b352a18a88dfea2915cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 01/56] fix: check_chain compares every pair of consecutive
 boundary operators

The range stopped one short twice over, so nothing was compared for 1- and
2-dimensional topologies, and the top pair never was.
---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..32d6f54 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -199,7 +199,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From fce014e2554c69ea1e8c4ba9a20118df5c126ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 02/56] fix: relative_parity covers n-elements that share no
 interior boundary

A loose element with the highest index got no SAT variable, so the parity
array came out too short and fix_orientation failed on orientable input.
---
 pycomplex/topology/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 32d6f54..02adc2c 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -171,18 +171,17 @@ class BaseTopology(object):
         inc = self.matrix(-1)
 
         # filter out the relevant interior n-1-elements
-        # FIXME: can use selector matrix here? nope; introduces cyclic dependency; needs boundary, which checks orientation
+        # NOTE: cannot use selector matrix here; introduces cyclic dependency; needs boundary, which checks orientation
         interior = inc.getnnz(axis=1) == 2
         inc = inc[interior]
         # translate connectivity between n-elements and n-1 elements
         # into clauses constraining the relative orientation of n-elements
         clauses = ((inc.indices + 1) * inc.data).reshape(-1, 2)
         if not len(clauses):
-            # FIXME: this is needed for loose n-elements;
-            # but what about loose disjoint n-element plus other connection component?
-            # would prob fail; need to handle remapping back from n-elements lost in interior filtering
+            # this is needed for loose n-elements
             return self.chain(-1)
-        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist())
+        # pass the number of elements; n-elements without interior boundary do not occur in any clause
+        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist(), vars=self.n_elements[-1])
         if orientation == 'UNSAT':
             raise ValueError('Topology is a non-orientable manifold.')
 
-- 
2.43.0


From c703f3a3f3ba476e0470c67c5fe1db106d14474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 03/56] fix: is_oriented answers False on non-orientable
 topologies

It raised ValueError from the SAT solve; and with several components it
compared parities that the solver is free to choose per component.
---
 pycomplex/topology/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 02adc2c..a8aec38 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -191,8 +191,13 @@ class BaseTopology(object):
 
     @cached_property
     def is_oriented(self):
-        """Return true if the topology is oriented"""
-        return npi.all_equal(self.relative_parity())
+        """Return true if the topology is oriented;
+        that is, if the contributions to each interior n-1-element cancel"""
+        if self.n_dim == 0:
+            return True
+        inc = self.matrix(-1)
+        interior = inc.getnnz(axis=1) == 2
+        return not np.any(inc[interior].sum(axis=1))
 
     def check_chain(self):
         """Some basic sanity checks on a topology object
-- 
2.43.0


From d6b24c5f28f4d399c0fdf925993224c7c70b2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 04/56] fix: 0-dimensional simplicial topologies can be
 constructed

The boundary of an open 1-dimensional simplicial topology is a set of points;
constructing it tripped an assertion, so boundary, is_closed and dual failed.
---
 pycomplex/topology/simplicial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..9296d41 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -165,7 +165,7 @@ class TopologySimplicial(PrimalTopology):
         O = np.zeros(n_dim, dtype=object)
         B = np.zeros(n_dim, dtype=object)
 
-        while True:
+        while n_dim > 0:
             EN0, ENn, ONn = construct_lower(EN0)
             n_simplices, n_pts = EN0.shape
             n_dim = n_pts - 1
@@ -174,9 +174,6 @@ class TopologySimplicial(PrimalTopology):
             O[N] = ONn
             B[N] = ENn
 
-            if n_dim == 0:
-                break
-
         return cls(elements=E, orientation=O, boundary=B)
 
     def fix_orientation(self):
-- 
2.43.0


From 4d70f02e55e2e1b85e8bd32118426424c8bbe701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:10 +0000
Subject: [PATCH 05/56] fix: boundary topology inherits the orientation of all
 its elements

Lower elements of the boundary were rebuilt with an orientation of their own,
so the dual topology, which glues the two together, was not a chain complex
for meshes of dimension three and up.
---
 pycomplex/topology/primal.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 3d2e041..dea660b 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -199,8 +199,6 @@ class PrimalTopology(BaseTopology):
         """
         # FIXME: rather than using from_elements, a direct subset selection would be preferable
         # shouldnt be too hard; just find chains on all elements, select subsets, and remap vertex indices
-        # FIXME: not sure boundary orientation is even preserved in current implementation
-        # in practice, this appears to be very much the case
         if not self.is_oriented:
             raise ValueError('Cannot get the boundary of a non-oriented manifold')
 
@@ -219,7 +217,21 @@ class PrimalTopology(BaseTopology):
         boundary_elements = inverse.reshape(boundary_elements.shape).astype(index_dtype)
 
         boundary = self.boundary_type().from_elements(boundary_elements)
-        boundary.parent_idx = self.find_correspondence(boundary, mapping)
+        parent_idx = self.find_correspondence(boundary, mapping)
+
+        # from_elements picks an orientation for the lower elements; inherit that of the parent instead,
+        # such that the topology matrices of the boundary are a restriction of those of the parent
+        relabel = np.zeros(self.n_elements[0], dtype=index_dtype)
+        relabel[mapping] = np.arange(len(mapping), dtype=index_dtype)
+        elements = [relabel[e[idx]] for e, idx in zip(self.elements, parent_idx)]
+        orientation = []
+        for n, b in enumerate(boundary._boundary):
+            r, c = np.broadcast_arrays(parent_idx[n][b], parent_idx[n + 1].reshape((-1,) + (1,) * (b.ndim - 1)))
+            o = self.matrix(n)[r.flatten(), c.flatten()]
+            orientation.append(np.asarray(o).reshape(b.shape).astype(sign_dtype))
+
+        boundary = type(boundary)(elements=elements, boundary=boundary._boundary, orientation=orientation)
+        boundary.parent_idx = parent_idx
         boundary.parent = self
         return boundary
 
-- 
2.43.0


From fc40688ec1f81f111ec194880aad8e7c6a276e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:18 +0000
Subject: [PATCH 06/56] fix: dual edges ending on the boundary have two
 cancelling ends in one dimension

The boundary vertices of a 1-d topology are glued to the dual with the sign
that matches their orientation, so that the dual derivative of a constant
vanishes there too, as it already did in higher dimensions.
---
 pycomplex/topology/dual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..4445844 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -165,7 +165,10 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = list(self.primal.selector_boundary)
+        # orient the dual edges that end on the boundary such that their two ends cancel
+        orientation = -self.primal.matrix(-1) * self.primal.chain(-1, fill=1)
+        S[-2] = S[-2] * scipy.sparse.diags(orientation, dtype=sign_dtype)
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From c394453b1d0f6881f190eb765c89af80cde8118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 07/56] fix: directly subdivided triangles are described by
 their own edges' vertices

The vertex description of every refined triangle was derived from the first
parent triangle only.
---
 pycomplex/topology/simplicial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 9296d41..406d5a4 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -494,10 +494,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0     # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0    # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
-- 
2.43.0


From 56cc0233a6fe8bd2b42950725ff07ae39b048812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 08/56] fix: directly subdivided triangles have closed
 boundaries

The new inner edges were signed against the convention of the inherited outer
edges, so consecutive boundary operators did not compose to zero.
---
 pycomplex/topology/simplicial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 406d5a4..5559eec 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -476,7 +476,9 @@ class TopologyTriangular(TopologySimplicial):
         # add middle (zero) tri
         # add middle connectivity; three new edges for each face
         fE21[:,0,:] = np.arange(3*N2, dtype=index_dtype).reshape((N2, 3)) + N1*2
-        fO21[:,0,:] = 1                                  # orientation of middle tri is given by convention
+        # middle edges run counter to the from_simplices convention for the boundary of a triangle,
+        # which is the convention the signs of the outer edges are inherited from
+        fO21[:,0,:] = -1
 
         # first edge of each outer tri is connected to the middle; copy index, invert sign
         fE21[:,1:,0] =  fE21[:,0,:]
-- 
2.43.0


From eecfa27896f8429e60b3cf303363ce7c64e39d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:49 +0000
Subject: [PATCH 09/56] fix: inserting a vertex per simplex works for and
 orients 1-dimensional topologies

---
 pycomplex/topology/simplicial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 5559eec..94003ad 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -339,9 +339,10 @@ class TopologySimplicial(PrimalTopology):
         -------
         type(self)
         """
-        boundary = generate_simplex_boundary(self.elements[-1])
-        tips = np.repeat(self.range(-1)[:, None, None], self.n_dim + 1, axis=1) + self.n_elements[0]
-        simplices = np.concatenate([boundary, tips], axis=2)
+        # replace each corner in turn with the new vertex; this preserves orientation in any dimension
+        simplices = np.repeat(self.elements[-1][:, None, :], self.n_dim + 1, axis=1)
+        corner = np.arange(self.n_dim + 1)
+        simplices[:, corner, corner] = self.range(-1)[:, None] + self.n_elements[0]
         return type(self).from_simplices(simplices.reshape(-1, self.n_dim + 1))
 
 
-- 
2.43.0


From 0383f492ec18c987555a51f231a7384796b93215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:45 +0000
Subject: [PATCH 10/56] fix: combinations report the parity of the shuffle for
 two or more picks

---
 pycomplex/math/combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/math/combinatorial.py b/pycomplex/math/combinatorial.py
index 99ea855..ba6f5c9 100755
--- a/pycomplex/math/combinatorial.py
+++ b/pycomplex/math/combinatorial.py
@@ -40,7 +40,7 @@ def combinations(L, n):
     else:
         for i in range(len(L) - n + 1):
             for p, t in combinations(L[i + 1:], n - 1):
-                yield (p+i)%2, [L[i]] + t
+                yield (p+i*n)%2, [L[i]] + t     # each skipped element is passed by all n remaining picks
 
 
 def permutations(L):
-- 
2.43.0


From 2c296cf9f152a4b576d86f909feb66aa186b6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:40 +0000
Subject: [PATCH 11/56] fix: loop subdivision operator covers vertices and
 edges only

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..1378fd9 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -319,7 +319,7 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From 3c158583583e5713722c0152477a1c8c09c5f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:40 +0000
Subject: [PATCH 12/56] fix: smoothing integer vertex positions does not
 truncate them

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..e2a4a38 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -165,7 +165,7 @@ class BaseComplex(object):
                 C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c
 
         # accumulate new vertex positions
-        vertices = self.vertices.copy()
+        vertices = np.array(self.vertices, dtype=float)
         # start with n-elements, working backwards to vertices
         for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
             if cr is not None:
-- 
2.43.0


From 77b700e8d8024a4ee0e42643cdd21f6169338538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 13/56] fix: smoothing averages centroids also where primal
 positions are circumcenters

---
 pycomplex/complex/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index e2a4a38..3d824c6 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -167,8 +167,10 @@ class BaseComplex(object):
         # accumulate new vertex positions
         vertices = np.array(self.vertices, dtype=float)
         # start with n-elements, working backwards to vertices
-        for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
+        for corners, cr in reversed(list(zip(self.topology.corners, C))):
             if cr is not None:
+                # NOTE: primal_position may be a circumcenter rather than a centroid
+                centroids = self.vertices[corners].mean(axis=1)
                 n_pts = corners.shape[1]
                 corners = corners[cr].flatten()
                 centroids = np.repeat(centroids[cr], n_pts, axis=0)
-- 
2.43.0


From eed8fbcaa5ed31602be767a5f75ab87d19ad7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:42 +0000
Subject: [PATCH 14/56] fix: segment_normals keeps fractions for integer
 vertices

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..fd53794 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -347,7 +347,7 @@ def segment_normals(corners):
     corners = np.asarray(corners)
     n_corners, n_dim = corners.shape[-2:]
     assert n_corners == n_dim
-    normals = np.empty_like(corners[..., 0])
+    normals = np.empty_like(corners[..., 0], dtype=float)
 
     corners = corners[..., 1:, :] - corners[..., 0:1, :]
 
-- 
2.43.0


From 3b6a80a7fa0a55dd411881ee01844f925928e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:42 +0000
Subject: [PATCH 15/56] fix: center_of_mass uses signed tetrahedron volumes

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 1378fd9..4a28661 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -596,7 +596,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             np.zeros_like(tris[:, 0:1, :])
         ), axis=1)
         tet_centroids = tets.mean(axis=1)
-        tet_volumes = euclidian.unsigned_volume(tets)
+        tet_volumes = euclidian.signed_volume(tets)
 
         return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()
 
-- 
2.43.0


From 91ee677396d2d4961d3084cc3d8aff81739deb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:42 +0000
Subject: [PATCH 16/56] fix: metric of a regular complex embedded in a higher
 dimensional space

---
 pycomplex/complex/regular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..f1c5717 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -332,12 +332,12 @@ class ComplexRegularMixin(object):
             g, sums = groups[i].sum(hypervolume)
             PM[n][g] += sums
         # now we divide by the number of primal N-cubes contributing to each primal n-cube
-        for n in range(1, self.n_dim):
+        for n in range(1, topology.n_dim):
             PM[n] /= self.topology.degree[n]
 
         # do summation of dual terms
         for i, c in list(enumerate(corners))[1:-1]:
-            n = self.n_dim - c.sum()
+            n = topology.n_dim - c.sum()
             hypervolume = regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=n)
             g, sums = groups[i].sum(hypervolume)
             DM[n][g] += sums / (2 ** c.sum())
-- 
2.43.0


From d787ab9bb0c0858cc45ad192e1591ddf2143841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:42 +0000
Subject: [PATCH 17/56] fix: dual_metric_closed of a 1-complex with boundary

---
 pycomplex/complex/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 3d824c6..8fd2d93 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -231,7 +231,12 @@ class BaseComplex(object):
         """Dual metric, including dual boundary elements"""
         if self.boundary is None:
             return self.dual_metric
-        return [np.concatenate(p) for p in zip(self.dual_metric, self.boundary.dual_metric + [[]])]
+        if self.topology.n_dim == 1:
+            # the boundary consists of points, which have unit measure
+            boundary_metric = [np.ones(self.topology.boundary.n_elements[0])]
+        else:
+            boundary_metric = self.boundary.dual_metric
+        return [np.concatenate(p) for p in zip(self.dual_metric, boundary_metric + [[]])]
 
     @cached_property
     def hodge_PD(self):
-- 
2.43.0


From c973712e0ef0223a7ac123a2811da62bb26922e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:06 +0000
Subject: [PATCH 18/56] fix: pick_primal of a regular complex also leaves a
 guess beyond the upper faces

---
 pycomplex/complex/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index f1c5717..7fcd053 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
-- 
2.43.0


From 153c4544731def2e0173a30277dc6a3cba041a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:06 +0000
Subject: [PATCH 19/56] fix: pick_fundamental of a regular complex handles
 every guess

---
 pycomplex/complex/regular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 7fcd053..2d1046a 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -173,9 +173,9 @@ class ComplexRegularMixin(object):
             domain, baries = query(points)
         else:
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            domain = domains[domain_idx]
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
-                domain = domains[domain_idx]
                 d, b = query(points[update])
                 domain[update] = d
                 baries[update] = b
-- 
2.43.0


From 23029abe36555ad22e0c0cb3c99115ff48c984d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:38 +0000
Subject: [PATCH 20/56] fix: circumcenter_barycentric is independent of
 translation and scale

---
 pycomplex/geometry/euclidian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index fd53794..60e0fcd 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -145,6 +145,14 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     if weights is not None:
         weights = np.asarray(weights)
 
+    # the result does not depend on translation or scale; the eigenvalue ratio below does, so normalize both
+    pts = pts - pts.mean(axis=-2, keepdims=True)
+    scale = np.sqrt(linalg.dot(pts, pts).mean(axis=-1))
+    scale = np.where(scale > 0, scale, 1)
+    pts = pts / scale[..., None, None]
+    if weights is not None:
+        weights = weights / scale[..., None] ** 2
+
     n_pts, n_dim = pts.shape[-2:]
     gu = pts.shape[:-2]
     N = n_pts + 1
-- 
2.43.0


From c41b618816bda17a7d8aac0b5fb960dd9238c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 21/56] fix: vertex/element incidence counts overflowed the
 8-bit sign type (degree above 127, six and more dimensions)

---
 pycomplex/topology/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index a8aec38..fa1cbe0 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -221,7 +221,8 @@ class BaseTopology(object):
         Primal could override this implementation with a more efficient implementation based on elements/corners arrays
 
         """
-        A = list(accumulate([np.abs(m) for m in self.matrices], func=operator.mul))
+        # use a wide integer type; the number of paths between elements easily exceeds that of sign_dtype
+        A = list(accumulate([np.abs(m).astype(index_dtype) for m in self.matrices], func=operator.mul))
         return [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
 
     def accumulated_operators_N(self):
@@ -233,7 +234,7 @@ class BaseTopology(object):
             n-th element of the list maps n-elements to N-elements
 
         """
-        A = list(accumulate([np.abs(m.T) for m in self.matrices[::-1]], func=operator.mul))
+        A = list(accumulate([np.abs(m.T).astype(index_dtype) for m in self.matrices[::-1]], func=operator.mul))
         A = [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
         return A[::-1]
 
-- 
2.43.0


From 21d4e8430b878d7b63f33fda091a0904bbc70e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:03 +0000
Subject: [PATCH 22/56] fix: sample_0 with assume_interior sampled the form
 with its component axis still on

---
 pycomplex/stencil/complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 5ffa01b..8fd971c 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -196,8 +196,9 @@ class StencilComplex(object):
         assert self.topology.boundary == 'periodic'
         points = np.asarray(points) / self.scale
 
+        f0 = f0[0]
         if not assume_interior:
-            f0 = np.pad(f0[0], [(0, 1)] * self.n_dim, mode='wrap')
+            f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='wrap')
             points = np.remainder(points, self.shape)
 
         return ndimage.map_coordinates(f0, points.T, order=1)
-- 
2.43.0


From 3e9a7de61989de78334fa9a523e76501aa7fedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:03 +0000
Subject: [PATCH 23/56] fix: tiling a non-contiguous coarse form

---
 pycomplex/stencil/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 74398c8..48ca2f9 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -177,7 +177,7 @@ class StencilTopology(object):
                 fine = self.form(n, init='zeros')
                 for c, s in enumerate(self.symbols[n]):
                     repeats = [2 if i in s else 1 for i in range(self.n_dim)]
-                    view = coarse[c]
+                    view = np.ascontiguousarray(coarse[c])
                     view = np.ndarray(
                         buffer=view.data,
                         dtype=view.dtype,
-- 
2.43.0


From fe9dbc46898832444d369616cb4622819f06f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:03 +0000
Subject: [PATCH 24/56] fix: aslinearoperator of a stencil operator passed flat
 vectors where forms are expected, and failed on composed operators

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index 76faafb..bcce105 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -74,8 +74,8 @@ class StencilOperator(object):
         from scipy.sparse.linalg import LinearOperator
         return LinearOperator(
             shape=tuple([np.prod(s) for s in self.shape]),
-            matvec=lambda x: self.right(x.flatten()),
-            rmatvec=lambda x: self.left(x.flatten()),
+            matvec=lambda x: self(x.reshape(self.shape[1])).flatten(),
+            rmatvec=lambda x: self.transpose()(x.reshape(self.shape[0])).flatten(),
             dtype=np.float32,
         )
 
-- 
2.43.0


From 12dab3ab5622bc43337ed80d8475c5beeca06126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:03 +0000
Subject: [PATCH 25/56] fix: simplifying a small or nearly unit diagonal
 operator changed its value

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index bcce105..d4965ca 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -156,9 +156,9 @@ class DiagonalOperator(SymmetricOperator):
             )
 
     def simplify(self):
-        if np.allclose(self.diagonal, 0):
+        if np.all(np.equal(self.diagonal, 0)):
             return ZeroOperator(self.shape)
-        if np.allclose(self.diagonal, 1):
+        if np.allclose(self.diagonal, 1, rtol=0, atol=4 * np.finfo(float).eps):
             return IdentityOperator(self.shape[0])
         return self
 
-- 
2.43.0


From c764ac25b758d810f678cd1078333ffac6475194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 26/56] fix: from_dense split at block sizes instead of block
 offsets (wrong for three or more blocks)

---
 pycomplex/stencil/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..a909e01 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -158,7 +158,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x, np.cumsum(splits)[:-1]), self.block)
         ], self.ndim)
 
 
-- 
2.43.0


From d09f6c5aa120615bf1b876a36ed45fc786547cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 27/56] fix: linear operator view of a non-square block
 operator split its argument by the output layout

---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index a909e01..63e625f 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -301,7 +301,7 @@ class BlockOperator(BlockArray):
         # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From 85da1be5ab87ea024c3ce776837e7c7317b9ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 28/56] fix: block arrays merged equally sized blocks into one
 array (arithmetic on them raised)

---
 pycomplex/stencil/block.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 63e625f..237ae18 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -5,6 +5,26 @@ import numpy as np
 from pycomplex.stencil.operator import ZeroOperator
 
 
+def object_array(items, shape):
+    """Wrap items in an object array of the given shape, without merging array-like items"""
+    block = np.empty(len(items), object)
+    for i, item in enumerate(items):
+        block[i] = item
+    return block.reshape(shape)
+
+
+def as_block(block):
+    """Convert nested lists to an object array, without merging array-like items"""
+    if isinstance(block, np.ndarray) and block.dtype == object:
+        return block
+    if not isinstance(block, (list, tuple)):
+        return np.asarray(block, dtype=object)
+    shape, items = [], [block]
+    while isinstance(items[0], (list, tuple)):
+        shape.append(len(items[0]))
+        items = [i for item in items for i in item]
+    return object_array(items, shape)
+
 
 class BlockArray(object):
     """ndim-blocked array object"""
@@ -14,9 +34,7 @@ class BlockArray(object):
             self.block = block
         else:
             if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
+                self.block = object_array(block, len(block))
             elif ndim == 2:
                 b = np.empty((len(block), len(block[0])), object)
                 for i in range(b.shape[0]):
@@ -24,8 +42,7 @@ class BlockArray(object):
                         b[i, j] = block[i][j]
                 self.block = b
             else:
-                # NOTE: this has some annoying failure cases, like singleton lists freaking out
-                self.block = np.asarray(block, dtype=object)
+                self.block = as_block(block)
         # assert self.is_compatible
 
     @cached_property
@@ -52,7 +69,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -64,7 +81,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         try:
@@ -78,7 +95,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block, A.shape)
         return type(self)(block)
 
     def __add__(self, other):
-- 
2.43.0


From f290191f6f37618d51093ec0db147120e0d5b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 29/56] fix: block arrays merged equally sized blocks into one
 array

---
 pycomplex/block.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..df9402d 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -25,11 +25,31 @@ from cached_property import cached_property
 from pycomplex.sparse import sparse_zeros
 
 
+def object_array(items, shape):
+    """Wrap items in an object array of the given shape, without merging array-like items"""
+    block = np.empty(len(items), object)
+    for i, item in enumerate(items):
+        block[i] = item
+    return block.reshape(shape)
+
+
+def as_block(block):
+    """Convert nested lists to an object array, without merging array-like items"""
+    if isinstance(block, np.ndarray) and block.dtype == object:
+        return block
+    if not isinstance(block, (list, tuple)):
+        return np.asarray(block, dtype=object)
+    shape, items = [], [block]
+    while isinstance(items[0], (list, tuple)):
+        shape.append(len(items[0]))
+        items = [i for item in items for i in item]
+    return object_array(items, shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
     def __init__(self, block):
-        # FIXME: we wish to convertnested lists but not merge in leaf level arrays. how to enforce this?
-        self.block = np.asarray(block, dtype=object)
+        self.block = as_block(block)
         # assert self.compatible
 
     @cached_property
@@ -78,7 +98,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -90,7 +110,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def __getitem__(self, slc):
         """Slicing simply passes on to the block"""
@@ -109,7 +129,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block, A.shape)
         return type(self)(block)
 
     def __add__(self, other):
@@ -297,9 +317,7 @@ class DenseBlockArray(BlockArray):
 
         coords = np.indices(self.block.shape)
         blocks = [x[slices(c)] for c in coords.reshape(self.ndim, -1).T]
-        blockss = np.empty(len(blocks), object)
-        blockss[...] = blocks
-        blocks = blockss.reshape(self.block.shape)
+        blocks = object_array(blocks, self.block.shape)
         if self.nested:
             # split each subblock
             # FIXME
-- 
2.43.0


From 7698ea7ec745fedfb8d44f35605afb4b77124d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 30/56] fix: shape and squareness of two-dimensional block
 arrays raised

---
 pycomplex/block.py         | 8 ++++----
 pycomplex/stencil/block.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index df9402d..e3178d5 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -40,7 +40,7 @@ def as_block(block):
     if not isinstance(block, (list, tuple)):
         return np.asarray(block, dtype=object)
     shape, items = [], [block]
-    while isinstance(items[0], (list, tuple)):
+    while items and isinstance(items[0], (list, tuple)):
         shape.append(len(items[0]))
         items = [i for item in items for i in item]
     return object_array(items, shape)
@@ -71,7 +71,7 @@ class BlockArray(object):
         if self.nested:
             # FIXME
             raise NotImplementedError
-        return [[self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
+        return [[self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
 
     @cached_property
     def nested(self):
@@ -211,8 +211,8 @@ class BlockMatrix(BlockArray):
     @cached_property
     def square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def diagonal(self):
         """Get the diagonal of the block
diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 237ae18..6f94f7a 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -20,7 +20,7 @@ def as_block(block):
     if not isinstance(block, (list, tuple)):
         return np.asarray(block, dtype=object)
     shape, items = [], [block]
-    while isinstance(items[0], (list, tuple)):
+    while items and isinstance(items[0], (list, tuple)):
         shape.append(len(items[0]))
         items = [i for item in items for i in item]
     return object_array(items, shape)
@@ -62,7 +62,7 @@ class BlockArray(object):
         one list for each axis
         """
         return [
-            [self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])]
+            [self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])]
             for n in range(self.ndim)
         ]
 
@@ -215,8 +215,8 @@ class BlockOperator(BlockArray):
     @cached_property
     def is_square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def to_dense(self):
         # dense = self.apply(lambda x: x.to_dense())    # something broken with apply
-- 
2.43.0


From 097827f40c05a72d0ce9a6d57933e02c8cecbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 31/56] fix: off-diagonal blocks of SparseBlockMatrix.diags
 were scalars without a shape (merging and transposing raised)

---
 pycomplex/block.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index e3178d5..da4347a 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -293,12 +293,7 @@ class SparseBlockMatrix(BlockMatrix):
     @staticmethod
     def diags(diag):
         """Turn dense block vector into diagonal block structure"""
-        assert diag.ndim == 1
-        output_shape = diag.block.shape * 2
-        output = np.zeros(output_shape, dtype=object)
-        for i, b in enumerate(diag.block):
-            output[i, i] = scipy.sparse.diags(b)
-        return SparseBlockMatrix(output)
+        return SparseBlockMatrix.as_diagonal(diag)
 
 
 
-- 
2.43.0


From 34c7addb6c66dbf115b0f9686cbb932fae7f9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:44 +0000
Subject: [PATCH 32/56] fix: allocate_x and allocate_y of a stencil system used
 a method the complex does not have

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..747fe68 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R])
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L])
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0


From b958ad8826858c2d05988c2bb33d7aea23370583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 33/56] fix: selecting rows of a system by a list of indices
 lost the off-diagonal structure of its right hand side operator

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 747fe68..c0d18f5 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -145,8 +145,8 @@ class System(object):
     def __getitem__(self, item):
         """Slice a subsystem of full cochain complex"""
         return self.copy(
-            A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            A=self.A.__getslice__(item[0]).__getslice__((slice(None), item[1])).copy(),
+            B=self.B.__getslice__(item[0]).__getslice__((slice(None), item[0])).copy(),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From ff662e1fe5cc909caa90caa47ffb15d651fc5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 34/56] fix: blockwise Gauss-Seidel on the equations stepped
 away from the solution (sign of the correction)

---
 pycomplex/stencil/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 65fe21b..d074c7b 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -141,7 +141,7 @@ class NormalSmoothEquation(Equation):
         for ri, l in enumerate(self.system.L):
             residual = sum(a * xc for a, xc in zip(self.system.A[ri, :], x.block)) - by[ri]
             for ci, xc in enumerate(x.block):
-                xc[:] += self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
+                xc[:] -= self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
         return x
 
     def overrelax(self, x: BlockArray, y: BlockArray, knots):
-- 
2.43.0


From 501bcb35ee80a253638bc06f7096c56408d6c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 35/56] fix: assigning a single-element array equal to zero or
 one to a block stored an operator

---
 pycomplex/stencil/block.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 6f94f7a..ab2bd24 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -133,6 +133,13 @@ class BlockArray(object):
         return self.block[item]
 
     def __setitem__(self, key, value):
+        try:
+            if isinstance(value, np.ndarray):
+                assert self.block[key].shape == value.shape
+                self.block[key] = value
+                return
+        except:
+            pass
         try:
             if value == 0:
                 from pycomplex.stencil.operator import ZeroOperator
@@ -156,13 +163,6 @@ class BlockArray(object):
                 return
         except:
             pass
-        try:
-            if isinstance(value, np.ndarray):
-                assert self.block[key].shape == value.shape
-                self.block[key] = value
-                return
-        except:
-            pass
         raise NotImplementedError
 
     def to_dense(self):
-- 
2.43.0


From 806a8e9a4dc9d3b38f517ea29dc4eaa7cd59c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 36/56] fix: contracting sparse arrays failed or paired the
 wrong entries when their indices differed

---
 pycomplex/sparse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index 5f5f2f5..8963537 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -119,10 +119,13 @@ def multi_indices(this, that):
     i_this = npi.as_index(this)
     i_that = npi.as_index(that)
 
-    # FIXME: both counts need to be versus the same range
-    _, c_this = npi.count(i_this)
-    _, c_that = npi.count(i_that)
-    ok = _
+    # only items occurring in both this and that contribute pairs
+    k_this, c_this = npi.count(i_this)
+    k_that, c_that = npi.count(i_that)
+    in_this, in_that = np.isin(k_this, k_that), np.isin(k_that, k_this)
+    ok, c_this, c_that = k_this[in_this], c_this[in_this], c_that[in_that]
+    if len(ok) == 0:
+        return np.zeros(0, dtype=int), np.zeros(0, dtype=int)
 
     # total number of entries in the broadcasting pattern
     nnz = (c_this * c_that).sum()
-- 
2.43.0


From 2c2dac56f213af59e63f48e4504a22def1820abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 37/56] fix: pairs() ended in a RuntimeError instead of ending

---
 pycomplex/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycomplex/util.py b/pycomplex/util.py
index fff17cb..df06727 100755
--- a/pycomplex/util.py
+++ b/pycomplex/util.py
@@ -4,11 +4,13 @@ import operator
 def pairs(iterable):
     """Yield pairs of an iterator"""
     it = iter(iterable)
-    x = next(it)
-    while True:
-        p = x
-        x = next(it)
+    try:
+        p = next(it)
+    except StopIteration:
+        return
+    for x in it:
         yield p, x
+        p = x
 
 
 def accumulate(iterable, func=operator.add):
-- 
2.43.0


From 174a997b6df2408e50c83bf6e056ea92589904a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 38/56] fix: signs of metric contributions follow the weighted
 centres

---
 pycomplex/complex/simplicial/euclidian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 4a28661..170418d 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -158,10 +158,7 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         PP = self.primal_position
         domains = self.topology.fundamental_domains()
 
-        corners = self.vertices[self.topology.corners[-1]]
-        mean = corners.mean(axis=-2, keepdims=True)  # centering
-        corners = corners - mean
-        bary = euclidian.circumcenter_barycentric(corners)
+        bary = self.primal_barycentric[-1]
         signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the circumcenter
         signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
 
-- 
2.43.0


From 02837f1c7b391916238d0dd02d4b387a288937ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 39/56] fix: boundary of a weighted complex keeps its vertex
 weights

---
 pycomplex/complex/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 8fd2d93..fda1968 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -85,7 +85,9 @@ class BaseComplex(object):
             return None
         else:
             # FIXME: type self should be boundary_type; make that a seperate problem
-            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary)
+            weights = getattr(self, 'weights', None)
+            kwargs = {} if weights is None else {'weights': weights[boundary.parent_idx[0]]}
+            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary, **kwargs)
 
     def fix_orientation(self):
         return self.copy(topology=self.topology.fix_orientation())
-- 
2.43.0


From bd08fc51f274a5d926f85aee4f87bc785964d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 40/56] fix: sign of the dual edge excess of line segments

---
 pycomplex/complex/simplicial/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..bb296fb 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -61,7 +61,10 @@ class BaseComplexSimplicial(BaseComplex):
         delta = PP[-1][:, None, :] - PP[-2][B]
         d = linalg.dot(delta, delta)  #* sign
         if signed:
-            d = d * np.sign(self.primal_barycentric[-1])
+            bary = self.primal_barycentric[-1]
+            if self.topology.n_dim == 1:
+                bary = bary[:, ::-1]    # the boundary of an edge lists its own corners, not those opposing them
+            d = d * np.sign(bary)
         return d
 
     def optimize_weights(self):
-- 
2.43.0


From 459e19f43bed8bf0cf2d7e82d7fecd914f9554da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 41/56] fix: spherical picking of primal simplices across faces
 of unequal circumradius

---
 pycomplex/complex/simplicial/spherical.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..6584e4b 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -41,6 +41,27 @@ class ComplexSpherical(BaseComplexSimplicial):
     def homogenize(self, points):
         return points
 
+    def pick_primal_precomp(self, weight):
+        """Precomputations for primal picking
+
+        Notes
+        -----
+        Adjacent simplices are separated by the plane through their shared face and the center of the sphere.
+        Among the poles of the planes through the (weighted) vertices of each simplex,
+        the difference between those of adjacent simplices is orthogonal to said separating plane;
+        which is generally not true of their circumcenters.
+        """
+        if not weight:
+            return super(ComplexSpherical, self).pick_primal_precomp(weight)
+
+        assert self.is_pairwise_delaunay
+        elements = self.topology.elements[-1]
+        basis = np.linalg.inv(self.homogenize(self.vertices[elements]))
+        height = np.ones(len(self.vertices)) if self.weights is None else 1 - np.asarray(self.weights) / 2
+        poles = np.einsum('tcv,tv->tc', basis, height[elements])
+        tree = scipy.spatial.cKDTree(self.augment(poles, linalg.dot(poles, poles)))
+        return tree, basis
+
     def plot(self, plot_dual=True, backface_culling=False, plot_vertices=True, ax=None, primal_color='b', dual_color='r'):
         """Visualize a complex on a 2-sphere; a little more involved than the other 2d cases"""
         import matplotlib.pyplot as plt
-- 
2.43.0


From e89ff0584e34ae518c6f22e8de319891f68413a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 42/56] fix: subdivision and boundary of spherical complexes
 keep the radius

---
 pycomplex/complex/simplicial/spherical.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 6584e4b..f1ee1bc 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -38,6 +38,29 @@ class ComplexSpherical(BaseComplexSimplicial):
         from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
         return ComplexSimplicialEuclidian(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
+    def subdivide_fundamental(self, oriented=True):
+        fine = super(ComplexSpherical, self).subdivide_fundamental(oriented)
+        fine.radius = self.radius
+        return fine
+
+    def subdivide_simplicial(self):
+        fine = super(ComplexSpherical, self).subdivide_simplicial()
+        fine.radius = self.radius
+        return fine
+
+    @cached_property
+    def boundary(self):
+        boundary = self.topology.boundary
+        if boundary is None:
+            return None
+        idx = boundary.parent_idx[0]
+        return ComplexSpherical(
+            vertices=self.vertices[idx],
+            topology=boundary,
+            radius=self.radius,
+            weights=None if self.weights is None else self.weights[idx],
+        )
+
     def homogenize(self, points):
         return points
 
-- 
2.43.0


From 8554a879af0f81ee1bc9db32b6fed8178d068959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 43/56] fix: subdivided spheres and extrusions do not inherit
 weights that belong to fewer vertices

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 pycomplex/complex/simplicial/spherical.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 170418d..c966c7a 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -794,7 +794,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         solid_points = np.concatenate((self.vertices, other.vertices))
         solid_tris   = np.concatenate((self_tris, other_tris, boundary_tris))
 
-        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None)
+        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None, weights=None)
         assert solid.topology.is_oriented
         return solid
 
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index f1ee1bc..814ba12 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -278,7 +278,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None
         )
 
     def subdivide_loop_direct(self):
@@ -289,7 +290,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None
         )
 
     def as_euclidian(self):
-- 
2.43.0


From 29474e0fe89eb480081a33cb6d79f00fdffc5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 44/56] fix: casts between spherical and euclidian complexes
 keep the weights

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 pycomplex/complex/simplicial/spherical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index c966c7a..96225f2 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -719,7 +719,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         radius = np.linalg.norm(self.vertices, axis=1)
         assert np.allclose(radius, radius.mean())
         from pycomplex.complex.simplicial.spherical import ComplexSpherical2
-        return ComplexSpherical2(vertices=self.vertices, topology=self.topology)
+        return ComplexSpherical2(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     def save_STL(self, filename):
         """Save a mesh to binary STL.
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 814ba12..b4a9dd8 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -296,7 +296,7 @@ class ComplexSpherical2(ComplexSpherical):
 
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
-        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)
+        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     @staticmethod
     def multigrid_transfer_dual(coarse, fine):
-- 
2.43.0


From b18eb59ee888f94a1d566c443978d2d16ce87076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:55 +0000
Subject: [PATCH 45/56] fix: sample primal 0-forms of several components on
 simplicial complexes

---
 pycomplex/complex/simplicial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index bb296fb..08c248c 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -546,4 +546,4 @@ class BaseComplexSimplicial(BaseComplex):
         simplex_idx, bary = self.pick_primal(points)
         simplices = self.topology.elements[-1]
         vertex_idx = simplices[simplex_idx]
-        return (p0[vertex_idx] * bary).sum(axis=1)
+        return np.einsum('tv...,tv->t...', p0[vertex_idx], bary)
-- 
2.43.0


From d9b0421dda03d77712b2d2082afa4c40db03ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:22 +0000
Subject: [PATCH 46/56] fix: dual flux to velocity on grids and line segments
 pointed against the flux

---
 pycomplex/complex/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index fda1968..c79dd09 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -385,10 +385,14 @@ class BaseComplex(object):
             from pycomplex.geometry import euclidian
             # NOTE: analogous computation would be normal of cube faces multiplied with their area
             gradients = euclidian.simplex_gradients(self.vertices[self.topology.elements[-1]])
+            if self.topology.n_dim == 1:
+                # the facets of an edge are listed by the corner they are, rather than the one they oppose
+                gradients = gradients[:, ::-1]
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-            gradients = pp[-2][B] - pp[-1][:, None, :]
+            # like the simplicial gradients, these point into the cube
+            gradients = pp[-1][:, None, :] - pp[-2][B]
             # gradients -= gradients.mean(axis=1, keepdims=True)
 
             gradients = linalg.normalized(gradients)
-- 
2.43.0


From 4ce1f66493b5eabbddb02ada61982049b6f76c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 47/56] fix: affine_transform raised, and assumed a plane

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index c79dd09..719263f 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -112,9 +112,9 @@ class BaseComplex(object):
         return self.copy(vertices=self.vertices.dot(transform))
 
     def affine_transform(self, transform):
-        a = np.concatenate([self.vertices, np.ones_like[self.vertices[:, 0]]], axis=1)
+        a = np.concatenate([self.vertices, np.ones_like(self.vertices[:, :1])], axis=1)
         v = a.dot(transform)
-        return self.copy(vertices=v[:, :2] / v[:, 2])
+        return self.copy(vertices=v[:, :-1] / v[:, -1:])
 
     def scale(self, scale):
         return self.copy(vertices=self.vertices * scale)
-- 
2.43.0


From a57fd28a1118f581c5d425d363c984572f2b17ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 48/56] fix: cubical curves could not be converted to
 simplicial ones

---
 pycomplex/complex/cubical.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..b272780 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -304,11 +304,8 @@ class ComplexCubical1(ComplexCubical):
 
     def to_simplicial(self):
         """Convert the cubical complex into a simplicial complex; trivial"""
-        from pycomplex.complex.simplicial.euclidian import ComplexSimplicial1
-        return ComplexSimplicial1(
-            vertices=self.vertices,
-            topology=self.topology.as_1().subdivide_simplicial()
-        )
+        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
+        return ComplexSimplicialEuclidian(vertices=self.vertices, simplices=self.topology.elements[1])
 
 
 class ComplexCubical2(ComplexCubical):
-- 
2.43.0


From cd77c36585f49a97eba7ee0f30acb8870e9054af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 49/56] fix: pseudo inverse of wide matrices summed over the
 null space

---
 pycomplex/math/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index daeac8c..b224903 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -223,4 +223,4 @@ def pinv(A, r=1e-9):
     inv = 1 / s
     inv[np.abs(s / s[..., :1]) < r] = 0
     # s[:, self.complex.topology.n_dim:] = 0
-    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v)
+    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v[..., :s.shape[-1], :])
-- 
2.43.0


From d9d2d121ae3434058b95314b36e07251a0d6d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 50/56] fix: orthonormalize flipped the most significant axis
 of a mirror, and raised if not square

---
 pycomplex/math/linalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index b224903..32d6fb6 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -85,9 +85,9 @@ def orthonormalize(axes, demirror=True):
     """
     axes = np.asarray(axes)
     u, _, v = np.linalg.svd(axes)
-    if demirror:
-        det = np.linalg.det(axes)
-        v[0] *= np.sign(det)
+    if demirror and axes.shape[0] == axes.shape[1] and np.linalg.det(axes) < 0:
+        # flip the least significant direction
+        v[-1] *= -1
     return u.dot(np.eye(*axes.shape)).dot(v)
 
 
-- 
2.43.0


From 56e07a9ee437f1e589e5c76ef140ec20be22db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 51/56] fix: circumcenter_construction of batches, or of
 integer points with weights, raised

---
 pycomplex/geometry/euclidian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 60e0fcd..60de5c3 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -43,14 +43,14 @@ def circumcenter_construction(pts, weights=None):
     if weights is not None:
         weights = np.asarray(weights)
 
-    first = pts[..., 0, :]
+    first = pts[..., :1, :]
     moved = pts[..., 1:, :] - first
     e2 = linalg.dot(moved, moved)
     if weights is not None:
-        e2 -= (weights[..., 1:] - weights[..., 0])
+        e2 = e2 - (weights[..., 1:] - weights[..., :1])
     pinv = linalg.pinv(moved)
 
-    centroid = linalg.dot(pinv, e2) / 2 + first
+    centroid = np.einsum('...ij,...j->...i', pinv, e2) / 2 + first[..., 0, :]
     return centroid
 
 
-- 
2.43.0


From 749498877b78fc5934d7f0cbf2e23ba1c0285e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:40 +0000
Subject: [PATCH 52/56] fix: cells sharing several facets of opposite relative
 sign were taken to be disconnected

---
 pycomplex/topology/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index fa1cbe0..61c48de 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -29,8 +29,8 @@ class BaseTopology(object):
         -------
         ndarray, [n_vertices], index_dtype
         """
-        # convert to column format for fast slicing from the right
-        TnN = self.matrix(-1).tocsc()
+        # convert to column format for fast slicing from the right; unsigned, such that shared facets do not cancel
+        TnN = np.abs(self.matrix(-1)).tocsc()
         # iterate over the N-elements of each 0-element
         T0N = self.accumulated_operators_N()[0].T.tocoo()
         I0, IN = T0N.row, T0N.col
@@ -101,7 +101,7 @@ class BaseTopology(object):
         n_components : int
         labels : ndarray, [n_elements[-1]], int
         """
-        TnN = self.matrix(-1)
+        TnN = np.abs(self.matrix(-1))   # unsigned, such that shared facets do not cancel
         graph = TnN.T * TnN     # graph where N-elements are nodes and n-elements are edges
         n_components, labels = scipy.sparse.csgraph.connected_components(graph)
         return n_components, labels
-- 
2.43.0


From 8e451abeb41bc9a5fda258427e6bf612220c722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:40 +0000
Subject: [PATCH 53/56] fix: parent_idx of a subset confused n-elements with
 the same vertices

---
 pycomplex/topology/primal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index dea660b..374f810 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -185,6 +185,8 @@ class PrimalTopology(BaseTopology):
         subset = type(self).from_elements(elements)
         subset.parent = self
         subset.parent_idx = self.find_correspondence(subset, mapping)
+        # different n-elements may have the same vertices; but it is known which ones were selected
+        subset.parent_idx[-1] = np.flatnonzero(n_chain)
         return subset
 
     @cached_property
-- 
2.43.0


From 679de19241f233ae463803ac4528e8db4cd44dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:54 +0000
Subject: [PATCH 54/56] fix: sampling a primal 0-form on a line returned an
 extra axis

---
 pycomplex/complex/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 2d1046a..234b9fc 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -265,7 +265,7 @@ class ComplexRegularMixin(object):
         """
         element, bary = self.pick_primal(points)
         bary = np.clip(bary, 0, 1)
-        IN0 = self.topology.incidence[-1, 0]
+        IN0 = self.topology.elements[-1]
         verts = IN0[element]
         # do interpolation over cube
         total = 0
-- 
2.43.0


From 4bc00747fe666f46303ca0780ac4235636e78d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 55/56] fix: solve_minres gave up with a zero solution where
 b'Ab is zero, and raised without x0

---
 pycomplex/solvers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index d0d34fe..e5a62cd 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -97,7 +97,7 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     rnorm = 0
     ynorm = 0
 
-    xtype = x0.dtype
+    xtype = np.result_type(A, b, float) if x0 is None else x0.dtype
 
     eps = np.finfo(xtype).eps
 
@@ -166,8 +166,9 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
             if beta/beta1 <= 10*eps:
                 istop = -1  # Terminate later
             # tnorm2 = alfa**2 ??
-            gmax = abs(alfa)
-            gmin = gmax
+            # NOTE: alfa may be zero without the matrix being singular
+            gmax = 0
+            gmin = np.finfo(xtype).max
 
         # Apply previous rotation Qk-1 to get
         #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
-- 
2.43.0


From 02de3e77c8df34700a4255de7efe60a49c6d6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 56/56] fix: vertex areas of a surface added up to twice its
 area

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 96225f2..d5020ae 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -550,7 +550,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         """Compute circumcentric area here"""
         # FIXME: this is not a circumcentric area! wil do for now... we have the circumcentric area now but not happy with it yet..
         I20 = self.topology.incidence[2, 0]
-        t_a = np.linalg.norm(self.triangle_normals(), axis=1)
+        t_a = np.linalg.norm(self.triangle_normals(), axis=1) / 2
         vertex_idx, v_a = npi.group_by(I20.flatten()).sum(np.repeat(t_a, 3, axis=0))
         return v_a / 3
 
-- 
2.43.0

