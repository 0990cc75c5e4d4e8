From 56ad7ac22815031054b7d01e27416180e3e2e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 01/71] fix: edges/faces return interior and nonmanifold
 indices into the returned (boundary-first) list

---
 src/gpytoolbox/edges.py | 4 ++--
 src/gpytoolbox/faces.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/edges.py b/src/gpytoolbox/edges.py
index 73df634..004548b 100644
--- a/src/gpytoolbox/edges.py
+++ b/src/gpytoolbox/edges.py
@@ -68,10 +68,10 @@ def edges(F,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_edges.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_edges.shape[0], E.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold edges have three or more halfedges.
-            retval.append(np.where(unique_count>2)[0])
+            retval.append(bdry_edges.shape[0] + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return E
diff --git a/src/gpytoolbox/faces.py b/src/gpytoolbox/faces.py
index 66433a2..0138e72 100644
--- a/src/gpytoolbox/faces.py
+++ b/src/gpytoolbox/faces.py
@@ -68,10 +68,10 @@ def faces(T,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_faces.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_faces.shape[0], F.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold faces have three or more halffaces.
-            retval.append(np.where(unique_count>2)[0])
+            retval.append(bdry_faces.shape[0] + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return F
-- 
2.43.0


From 10342ccfe5796193229cbbb88a2d26017033c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 02/71] fix: cut_edges with an empty edge list returns the
 unchanged mesh instead of raising

---
 src/gpytoolbox/cut_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/cut_edges.py b/src/gpytoolbox/cut_edges.py
index 286240f..4f63d54 100644
--- a/src/gpytoolbox/cut_edges.py
+++ b/src/gpytoolbox/cut_edges.py
@@ -46,7 +46,7 @@ def cut_edges(F,E):
     assert F.shape[1]==3, "Only works for triangle meshes."
     n = np.max(F)+1
     if E.size==0:
-        return np.arange(F.size[0]), np.arange(n)
+        return F.copy(), np.arange(n)
     assert E.shape[1]==2, "E is a (k,2) matrix."
 
     # This code is a translation of https://github.com/alecjacobson/gptoolbox/blob/master/mesh/cut_edges.m by Alec Jacobson
-- 
2.43.0


From 8ab0d6e8d9c29ef3b2289dbd2985530f6c67fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 03/71] fix: array_correspondence with an empty B returns -1s
 instead of raising

---
 src/gpytoolbox/array_correspondence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/array_correspondence.py b/src/gpytoolbox/array_correspondence.py
index 7f27941..8c3d632 100644
--- a/src/gpytoolbox/array_correspondence.py
+++ b/src/gpytoolbox/array_correspondence.py
@@ -68,6 +68,9 @@ def array_correspondence(A,B,axis=None):
     # grill out the hits from A.
     imap = idx[inv[uB.shape[0]:]]
     imap[imap>=uB.shape[0]] = -1
+    if mapB.shape[0]==0:
+        # Nothing to match with in an empty B.
+        return imap
     f = np.where(imap<0, -1, mapB[imap])
 
     return f
-- 
2.43.0


From b745a039f6743e17f290321caafa9dfa559fb58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 04/71] fix: regular_circle_polyline no longer duplicates its
 first vertex as its last

---
 src/gpytoolbox/regular_circle_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/regular_circle_polyline.py b/src/gpytoolbox/regular_circle_polyline.py
index 600b961..7cab4db 100644
--- a/src/gpytoolbox/regular_circle_polyline.py
+++ b/src/gpytoolbox/regular_circle_polyline.py
@@ -32,7 +32,7 @@ def regular_circle_polyline(n):
 
     assert n>=3, "At least 3 vertices on the boundary."
 
-    φ = np.linspace(0., 2.*np.pi, n)
+    φ = np.linspace(0., 2.*np.pi, n, endpoint=False)
     x = np.cos(φ)
     y = np.sin(φ)
     V = np.stack((x,y), axis=-1)
-- 
2.43.0


From a25b86ce781102eafb11cd492ae8aa19da096703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 05/71] fix: dec_h0inv inverts the vertex areas, not the
 per-face area contributions

---
 src/gpytoolbox/dec_h0inv_intrinsic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/dec_h0inv_intrinsic.py b/src/gpytoolbox/dec_h0inv_intrinsic.py
index 5452628..ac2d4bc 100644
--- a/src/gpytoolbox/dec_h0inv_intrinsic.py
+++ b/src/gpytoolbox/dec_h0inv_intrinsic.py
@@ -38,9 +38,9 @@ def dec_h0inv_intrinsic(l_sq,F,n=None):
         n = np.max(F)+1
 
     A3 = 0.5/3. * doublearea_intrinsic(l_sq,F)
-    i = np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0)
-    j = np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0)
-    k = np.nan_to_num(1. / np.concatenate((A3,A3,A3), axis=0))
-    h0inv = sp.sparse.csr_matrix((k, (i,j)), shape=(n,n))
+    A = np.bincount(F.ravel(), weights=np.repeat(A3,3), minlength=n)
+    i = np.unique(F)
+    k = np.nan_to_num(1. / A[i])
+    h0inv = sp.sparse.csr_matrix((k, (i,i)), shape=(n,n))
 
     return h0inv
-- 
2.43.0


From c4b3707d37ed49c2343b377ae7507186016d8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 06/71] fix: subdivide accepts V=None for polylines, as it does
 for meshes

---
 src/gpytoolbox/subdivide.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/subdivide.py b/src/gpytoolbox/subdivide.py
index 9a087f1..be06b83 100644
--- a/src/gpytoolbox/subdivide.py
+++ b/src/gpytoolbox/subdivide.py
@@ -92,7 +92,7 @@ def _one_subdivision(V,F,method,return_matrix):
 def _upsample_polyline(V,F,return_matrix):
     # Upsampling of every polyline by inserting a vertex in the middle of each
     # segment.
-    assert V.shape[0]>1
+    assert V is None or V.shape[0]>1
     assert F.shape[1]==2
     assert F.shape[0]>0
 
-- 
2.43.0


From 8ec0cf75252d5c9890c6102ae191947a045e2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 07/71] fix: tip_angles applies its small-angle formula
 relative to the triangle's size, so tiny meshes get correct angles

---
 src/gpytoolbox/tip_angles_intrinsic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/tip_angles_intrinsic.py b/src/gpytoolbox/tip_angles_intrinsic.py
index 7d563f8..f9c33c8 100644
--- a/src/gpytoolbox/tip_angles_intrinsic.py
+++ b/src/gpytoolbox/tip_angles_intrinsic.py
@@ -44,9 +44,9 @@ def tip_angles_intrinsic(l_sq, F,
         cosgamma = (a+b-c) / (2.*np.sqrt(a*b))
         gamma = np.arccos(np.clip(cosgamma, -1., 1.))
         if use_small_angle_approx:
-            #If c is very small, expect numerical error and use a series approx.
+            #If c is very small (compared to the other sides), expect numerical error and use a series approx.
             small = np.sqrt(np.finfo(c.dtype).eps) #This is quite aggressive, can also try without sqrt
-            i = c<small
+            i = c<small*np.maximum(a,b)
             if np.any(i):
                 # https://www.nayuki.io/page/numerically-stable-law-of-cosines
                 sqrt_ai, sqrt_bi = np.sqrt(a[i]), np.sqrt(b[i])
-- 
2.43.0


From 3139ef79b7dd6614d03629244192e3b570ac51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 08/71] fix: quadtree_boundary checks front and back in
 octrees; bad_quad_mesh returns empty hexahedra for quadtrees

---
 src/gpytoolbox/bad_quad_mesh_from_quadtree.py | 2 +-
 src/gpytoolbox/quadtree_boundary.py           | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/bad_quad_mesh_from_quadtree.py b/src/gpytoolbox/bad_quad_mesh_from_quadtree.py
index b7258fa..94fcd6d 100644
--- a/src/gpytoolbox/bad_quad_mesh_from_quadtree.py
+++ b/src/gpytoolbox/bad_quad_mesh_from_quadtree.py
@@ -53,7 +53,7 @@ def bad_quad_mesh_from_quadtree(C,W,CH):
     is_child = (CH[:,1]==-1)
     W = W[is_child][:,None]
     C = C[is_child,:]
-    H = None
+    H = np.zeros((0,8),dtype=int)
     # translate this
     Q = np.linspace(0,W.shape[0]-1,W.shape[0],dtype=int)[:,None]
     if dim==2:
diff --git a/src/gpytoolbox/quadtree_boundary.py b/src/gpytoolbox/quadtree_boundary.py
index 6e712f2..d813f1b 100644
--- a/src/gpytoolbox/quadtree_boundary.py
+++ b/src/gpytoolbox/quadtree_boundary.py
@@ -53,11 +53,14 @@ def quadtree_boundary(CH,A):
     #
     #
 
+    # Four directions in 2D (four children per cell), six in 3D (eight children)
+    num_dirs = 6 if CH.shape[1]==8 else 4
+
     children_boundary = []
     other_boundary = []
     for i in range(A.shape[0]):
         # go over possible direction
-        for j in range(1,5):
+        for j in range(1,num_dirs+1):
             # is there a neighbor in this direction?
             j_neighbors = (A[i,:]==j).sum(axis=1).squeeze()
             #print(j_neighbors)
-- 
2.43.0


From c5ea4d462ae1d0ad317cb43e142b13a8ed1b4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 09/71] fix: traverse_aabbtree default queue recursed into
 itself instead of appending

---
 src/gpytoolbox/traverse_aabbtree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gpytoolbox/traverse_aabbtree.py b/src/gpytoolbox/traverse_aabbtree.py
index 050f65b..0795607 100644
--- a/src/gpytoolbox/traverse_aabbtree.py
+++ b/src/gpytoolbox/traverse_aabbtree.py
@@ -94,8 +94,7 @@ def traverse_aabbtree(C,W,CH,tri_indices,split_dim,traversal_bool_fun,add_to_que
         # By default breadth first
         def add_to_queue(curr_queue,CHH,parent_ind):
             for i in range(CHH.shape[1]):
-                    add_to_queue(curr_queue,CHH[parent_ind,i])
-            # curr_queue.append(new_ind)
+                curr_queue.append(CHH[parent_ind,i])
 
 
     queue = [0]
-- 
2.43.0


From 46d646953f79b5590888b43504f466fbe3fcfddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 10/71] fix: initialize_aabbtree boxes were not tight beyond
 coordinates of 10000

---
 src/gpytoolbox/initialize_aabbtree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/initialize_aabbtree.py b/src/gpytoolbox/initialize_aabbtree.py
index f410113..3bf3eeb 100644
--- a/src/gpytoolbox/initialize_aabbtree.py
+++ b/src/gpytoolbox/initialize_aabbtree.py
@@ -63,8 +63,8 @@ def initialize_aabbtree(V,F=None,vmin=None,vmax=None):
     #print(C)
 
     # We need to compute this once, we'll need it for the subdivision:
-    vmin_big = 10000*np.ones((num_s,dim))
-    vmax_big = -10000*np.ones((num_s,dim))
+    vmin_big = np.inf*np.ones((num_s,dim))
+    vmax_big = -np.inf*np.ones((num_s,dim))
     for j in range(dim):
         for i in range(simplex_size):
             vmax_big[:,j] = np.amax(np.hstack((V[F[:,i],j][:,None],vmax_big[:,j][:,None])),axis=1)[:]
@@ -186,8 +186,8 @@ def is_in_box(V,F,center,width):
     dim = V.shape[1]
     num_faces = F.shape[0]
     simplex_size = F.shape[1]
-    vmin = 10000*np.ones((num_faces,dim))
-    vmax = -10000*np.ones((num_faces,dim))
+    vmin = np.inf*np.ones((num_faces,dim))
+    vmax = -np.inf*np.ones((num_faces,dim))
     for j in range(dim):
         for i in range(simplex_size):
             vmax[:,j] = np.amax(np.hstack((V[F[:,i],j][:,None],vmax[:,j][:,None])),axis=1)
-- 
2.43.0


From dc54afd1f660643375e1faeac3aaa1a5c2b5b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 11/71] fix: triangle_triangle_distance degeneracy threshold is
 relative, so small triangles get their face distance

---
 src/gpytoolbox/triangle_triangle_distance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/triangle_triangle_distance.py b/src/gpytoolbox/triangle_triangle_distance.py
index 7d3f2be..ba22113 100644
--- a/src/gpytoolbox/triangle_triangle_distance.py
+++ b/src/gpytoolbox/triangle_triangle_distance.py
@@ -94,7 +94,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     # # print("Sn : ", Sn)
     Snl = np.dot(Sn,Sn)
 
-    if (Snl > 1e-15):
+    if (Snl > 1e-15*np.dot(Sv[0],Sv[0])*np.dot(Sv[1],Sv[1])):
         # V = S[0] - T[0]
         Tp = [np.dot(Sn,S[0] - T[0]), np.dot(Sn,S[0] - T[1]), np.dot(Sn,S[0] - T[2])]
         point = -1
@@ -136,7 +136,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     Tn = np.cross(Tv[0],Tv[1])
     Tnl = np.dot(Tn,Tn)
 
-    if (Tnl > 1e-15):
+    if (Tnl > 1e-15*np.dot(Tv[0],Tv[0])*np.dot(Tv[1],Tv[1])):
         # V = T[0] - S[0]
         # Sp = [T[0] - S[0], T[0] - S[1], T[0] - S[2]]
         Sp = [np.dot(Tn,T[0] - S[0]), np.dot(Tn,T[0] - S[1]), np.dot(Tn,T[0] - S[2])]
-- 
2.43.0


From a69b774793433aee78be219c3f3e9ac54221fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 12/71] fix: ray_box_intersect returns an all-infinite point on
 every miss and never the caller's own array

---
 src/gpytoolbox/ray_box_intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/ray_box_intersect.py b/src/gpytoolbox/ray_box_intersect.py
index 5954672..cea1e93 100644
--- a/src/gpytoolbox/ray_box_intersect.py
+++ b/src/gpytoolbox/ray_box_intersect.py
@@ -65,7 +65,7 @@ def ray_box_intersect(origin,dir,center,width):
 
     
     if inside:
-        hit_coord = origin
+        hit_coord = origin.copy()
         return True, hit_coord
 
     for i in range(dim):
@@ -86,7 +86,7 @@ def ray_box_intersect(origin,dir,center,width):
         if (whichPlane != i):
             hit_coord[i] = origin[i] + maxT[whichPlane]*dir[i]
             if ( (hit_coord[i] < minB[i]) or (hit_coord[i] > maxB[i])):
-                return False, hit_coord
+                return False, np.inf*np.ones(dim)
         else:
             hit_coord[i] = candidatePlane[i]
     
-- 
2.43.0


From 2b71e7e51e25a02fb1e962ff7048337d94523b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 13/71] fix: ray_triangle_intersect compares the determinant
 relative to the triangle and direction, so small triangles are hit

---
 src/gpytoolbox/ray_triangle_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_triangle_intersect.py b/src/gpytoolbox/ray_triangle_intersect.py
index 5e2ce59..98fadb3 100644
--- a/src/gpytoolbox/ray_triangle_intersect.py
+++ b/src/gpytoolbox/ray_triangle_intersect.py
@@ -59,7 +59,7 @@ def ray_triangle_intersect(origin,dir, v0, v1, v2, return_negative=False):
     pvec = np.cross(dir,v0v2)
     det = np.dot(v0v1,pvec)
 
-    if (np.abs(det) < 1e-6):
+    if (np.abs(det) <= 1e-12*np.linalg.norm(v0v1)*np.linalg.norm(v0v2)*np.linalg.norm(dir)):
         t =  np.inf
         hit = np.inf*np.ones(3)
         is_hit = False
-- 
2.43.0


From e61971cd5baad5385f7bf2e0ce0662c0bc544032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 14/71] fix: ray_polyline_intersect takes the nearest endpoint
 of a coincident edge, and only if nothing nearer was hit

---
 src/gpytoolbox/ray_polyline_intersect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index bdd2fb7..ba216ab 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -72,7 +72,7 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
                 sign1 = np.dot(a1 - position,direction)
                 # How far are they?
                 t0 = np.linalg.norm(a0 - position)/np.linalg.norm(direction)
-                t1 = np.linalg.norm(a0 - position)/np.linalg.norm(direction)
+                t1 = np.linalg.norm(a1 - position)/np.linalg.norm(direction)
                 hit = -1
                 if sign0>0 and sign1>0:
                     if t0<t1:
@@ -84,14 +84,14 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
                 elif sign1>0:
                     hit = 1
                 # Assign
-                if hit==0:
+                if hit==0 and t0<distance_to_hit:
                     distance_to_hit = t0
                     x = position + t0*direction
                     ind = i
                     n = np.array([-(a1[1] - a0[1]),a1[0] - a0[0]])
                     # This isn't robust but honestly just don't repeat points in the polyline!
                     n = n/np.linalg.norm(n)
-                elif hit==1:
+                elif hit==1 and t1<distance_to_hit:
                     distance_to_hit = t1
                     x = position + t1*direction
                     ind = i
-- 
2.43.0


From d36cad2ddc8a87fb819e20c16f0a7b081959ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 15/71] fix: ray_polyline_intersect hits the vertices of the
 polyline

---
 src/gpytoolbox/ray_polyline_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index ba216ab..d49e730 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -102,7 +102,7 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
             A = np.array( [ [ direction[0] , a1[0] - a0[0] ] , [direction[1] , a1[1]- a0[1] ] ])
             b = np.reshape(a1 - position,(2,1))
             t = solve(A,b)
-            if t[1]>0.0 and t[1]<1.0 and t[0]>0 and t[0]<distance_to_hit:
+            if t[1]>=0.0 and t[1]<=1.0 and t[0]>0 and t[0]<distance_to_hit:
                 distance_to_hit = t[0]
                 x = position + t[0]*direction
                 ind = i
-- 
2.43.0


From 4127e87c692e4bba6e2d312861cabd008b03d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 16/71] fix: ray_polyline_intersect decides parallel and
 coincident edges relative to their length, so short edges are hit

---
 src/gpytoolbox/ray_polyline_intersect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index d49e730..364608e 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -62,11 +62,12 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
         a1 = polyline_vertices[EC[i,1],:]
         # Linear system will have this determinant
         det = direction[0]*(a1[1]- a0[1]) - direction[1]*(a1[0]- a0[0])
-        if np.abs(det)<1e-8:
+        scale = np.linalg.norm(direction)*np.linalg.norm(a1 - a0)
+        if np.abs(det)<=1e-8*scale:
             # Parallel. Find out if intersecting (coincident) or not
             # Plug one of the segment endpoints into our ray equation
             eq0 = direction[1]*(a0[0] - position[0]) - direction[0]*(a0[1] - position[1])
-            if np.abs(eq0)<1e-8: # Coincident
+            if np.abs(eq0)<=1e-8*np.linalg.norm(direction)*max(np.linalg.norm(a0 - position),np.linalg.norm(a1 - position)): # Coincident
                 # Is it behind us?
                 sign0 = np.dot(a0 - position,direction)
                 sign1 = np.dot(a1 - position,direction)
-- 
2.43.0


From 46a88538544e5fd29fe86c9cab7669dc3ce63103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 17/71] fix: signed_distance_polygon no longer flips the sign
 of points level with a vertex

---
 src/gpytoolbox/signed_distance_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/signed_distance_polygon.py b/src/gpytoolbox/signed_distance_polygon.py
index 7d33985..60cc1b2 100644
--- a/src/gpytoolbox/signed_distance_polygon.py
+++ b/src/gpytoolbox/signed_distance_polygon.py
@@ -52,7 +52,7 @@ def signed_distance_polygon(P,V):
         dotee = np.tile((e[0]**2) + (e[1]**2),(P.shape[0]))
         b = w - np.tile(e,(P.shape[0],1))*np.tile(np.array([np.clip( dotwe/dotee ,0.0,1.0)]).T,(1,2))
         d = np.minimum(d,np.sum( b*b ,axis=1))    
-        cond = np.array([ P[:,1]>=V[i,1], P[:,1]<=V[j,1], (e[0]*w[:,1])>(e[1]*w[:,0]) ])
+        cond = np.array([ P[:,1]>=V[i,1], P[:,1]<V[j,1], (e[0]*w[:,1])>(e[1]*w[:,0]) ])
         all_true = cond.all(axis=0)
         all_false = (~cond).all(axis=0)
         change_sign = all_true + all_false
-- 
2.43.0


From 3f056b10e4805344e8cd5038cf8603b76d8a78c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 18/71] fix: grid_neighbors of order n steps out one
 first-order neighbourhood at a time (order 3 reached distance 4)

---
 src/gpytoolbox/grid_neighbors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index c1db6ff..6df4613 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -81,6 +81,8 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         neighbor_rows = np.ravel_multi_index((neigh_idz, neigh_idy, neigh_idx), dims=gs,mode='wrap',order='F')
 
 
+    first_rows = neighbor_rows
+    first_out_of_bounds = out_of_bounds
     current_order = 1
     while current_order < order:
         # Switching to a list made this 10x faster in 3D because of the memory allocation magic!
@@ -88,11 +90,11 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         out_of_bounds_list = [out_of_bounds]
         # neighbor_rows_bigger = neighbor_rows
         # out_of_bounds_bigger = out_of_bounds
-        for i in range(neighbor_rows.shape[0]):
+        for i in range(first_rows.shape[0]):
             new_out_of_bounds = np.zeros(neighbor_rows.shape,dtype=bool)
-            new_out_of_bounds[:,out_of_bounds[i,:]] = True
-            new_out_of_bounds = new_out_of_bounds | out_of_bounds[:,neighbor_rows[i,:]]
-            new_neighbor_rows = neighbor_rows[:,neighbor_rows[i,:]]
+            new_out_of_bounds[:,first_out_of_bounds[i,:]] = True
+            new_out_of_bounds = new_out_of_bounds | out_of_bounds[:,first_rows[i,:]]
+            new_neighbor_rows = neighbor_rows[:,first_rows[i,:]]
             # neighbor_rows_bigger = np.vstack((neighbor_rows_bigger,new_neighbor_rows))
             neighbor_rows_list.append(new_neighbor_rows)
             # out_of_bounds_bigger = np.vstack((out_of_bounds_bigger,new_out_of_bounds))
-- 
2.43.0


From 91f902ac6f083425252adc33615ef3326386b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 19/71] fix: grid_neighbors keeps neighbors apart that wrap to
 the same cell on small grids

---
 src/gpytoolbox/grid_neighbors.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index 6df4613..fa474e4 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -81,6 +81,12 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         neighbor_rows = np.ravel_multi_index((neigh_idz, neigh_idy, neigh_idx), dims=gs,mode='wrap',order='F')
 
 
+    # offset from each cell to its neighbor, as seen from the first cell
+    if dim==2:
+        offsets = np.hstack((neigh_idy[:,:1], neigh_idx[:,:1]))
+    elif dim==3:
+        offsets = np.hstack((neigh_idz[:,:1], neigh_idy[:,:1], neigh_idx[:,:1]))
+    first_offsets = offsets
     first_rows = neighbor_rows
     first_out_of_bounds = out_of_bounds
     current_order = 1
@@ -88,6 +94,7 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         # Switching to a list made this 10x faster in 3D because of the memory allocation magic!
         neighbor_rows_list = [neighbor_rows]
         out_of_bounds_list = [out_of_bounds]
+        offsets_list = [offsets]
         # neighbor_rows_bigger = neighbor_rows
         # out_of_bounds_bigger = out_of_bounds
         for i in range(first_rows.shape[0]):
@@ -99,14 +106,16 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
             neighbor_rows_list.append(new_neighbor_rows)
             # out_of_bounds_bigger = np.vstack((out_of_bounds_bigger,new_out_of_bounds))
             out_of_bounds_list.append(new_out_of_bounds)
+            offsets_list.append(offsets + first_offsets[i,:])
         neighbor_rows = np.vstack(neighbor_rows_list)
         out_of_bounds = np.vstack(out_of_bounds_list)
+        offsets = np.vstack(offsets_list)
         # neighbor_rows = neighbor_rows_bigger
         # out_of_bounds = out_of_bounds_bigger
         current_order += 1
 
     if output_unique:
-        unique_ind = np.unique(neighbor_rows[:,0],return_index=True)[1]
+        unique_ind = np.unique(np.hstack((neighbor_rows[:,:1],offsets)),axis=0,return_index=True)[1]
         neighbor_rows = neighbor_rows[unique_ind,:]
         out_of_bounds = out_of_bounds[unique_ind,:]
 
-- 
2.43.0


From 0ba39d2551aab0882a945f7ab8a6f5887daf89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 20/71] fix: grid_neighbors keeps in-grid neighbors whose first
 listed path leaves the grid

---
 src/gpytoolbox/grid_neighbors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index fa474e4..e1e6f37 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -115,9 +115,11 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         current_order += 1
 
     if output_unique:
-        unique_ind = np.unique(np.hstack((neighbor_rows[:,:1],offsets)),axis=0,return_index=True)[1]
+        _,unique_ind,inverse = np.unique(np.hstack((neighbor_rows[:,:1],offsets)),axis=0,return_index=True,return_inverse=True)
+        inverse = np.ravel(inverse)
         neighbor_rows = neighbor_rows[unique_ind,:]
-        out_of_bounds = out_of_bounds[unique_ind,:]
+        # a neighbor is out of bounds only if every way to reach it leaves the grid
+        out_of_bounds = np.array([np.all(out_of_bounds[inverse==k,:],axis=0) for k in range(unique_ind.shape[0])])
 
 
     neighbor_rows[out_of_bounds] = -1
-- 
2.43.0


From 5ac8c93053ffdeff1cbb5299d3069580cd175213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 21/71] fix: min_quad_with_fixed and fixed_dof_solve accept an
 empty index vector k

---
 src/gpytoolbox/fixed_dof_solve.py     | 2 +-
 src/gpytoolbox/min_quad_with_fixed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/fixed_dof_solve.py b/src/gpytoolbox/fixed_dof_solve.py
index 132f5a6..8cd9e5f 100644
--- a/src/gpytoolbox/fixed_dof_solve.py
+++ b/src/gpytoolbox/fixed_dof_solve.py
@@ -134,7 +134,7 @@ class fixed_dof_solve_precompute:
         else:
             self.o = k.shape[0]
             assert k.shape == (self.o,)
-            assert np.min(k)>=0 and np.max(k)<self.n
+            assert self.o==0 or (np.min(k)>=0 and np.max(k)<self.n)
             assert np.unique(k).shape == k.shape, "No duplicate indices"
             self.k = k.copy()
 
diff --git a/src/gpytoolbox/min_quad_with_fixed.py b/src/gpytoolbox/min_quad_with_fixed.py
index b086096..80ebf99 100644
--- a/src/gpytoolbox/min_quad_with_fixed.py
+++ b/src/gpytoolbox/min_quad_with_fixed.py
@@ -183,7 +183,7 @@ class min_quad_with_fixed_precompute:
         else:
             self.o = k.shape[0]
             assert k.shape == (self.o,)
-            assert np.min(k)>=0 and np.max(k)<self.n
+            assert self.o==0 or (np.min(k)>=0 and np.max(k)<self.n)
             assert np.unique(k).shape == k.shape, "No duplicate indices"
             self.k = k.copy()
 
-- 
2.43.0


From c85d6adc469b1da642621a98c0fbbf6c1af13346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 22/71] fix: min_l1_with_fixed infers the number of unknowns
 from the rows of L

---
 src/gpytoolbox/min_l1_with_fixed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/min_l1_with_fixed.py b/src/gpytoolbox/min_l1_with_fixed.py
index d841f84..16abeb8 100644
--- a/src/gpytoolbox/min_l1_with_fixed.py
+++ b/src/gpytoolbox/min_l1_with_fixed.py
@@ -19,8 +19,8 @@ def min_l1_with_fixed(G=None, Q=None, L=None, c=None, k=None, y=None, A=None, b=
         Matrix to be multiplied inside the norm.  Defaults to sp.eye(n), where n is inferred from another input.
     Q : (n, n) sparse scipy csr_array, optional
         Quadratic form matrix. 0 if not specified.
-    L : (?, n) sparse scipy csr_array, optional
-        Prefactorization of Q; do not provide Q when providing L.  May make the solve faster when using MOSEK, but slower when using SCS.  
+    L : (n, ?) sparse scipy csr_array, optional
+        Prefactorization of Q, Q = L L^T; do not provide Q when providing L.  May make the solve faster when using MOSEK, but slower when using SCS.  
         Q is factored if L is not specified (when using MOSEK).
     c : (n,) numpy array, optional
         Linear term in the objective.  0 if not specified.
@@ -166,7 +166,7 @@ def _min_l1_with_fixed_mosek(G=None, Q=None, L=None, c=None, k=None, y=None, A=N
         n = Q.shape[1]
     elif not (L is None):
         inferredfrom = "L"
-        n = L.shape[1]
+        n = L.shape[0]
     elif not (c is None):
         inferredfrom = "c"
         n = c.shape[0]
@@ -410,7 +410,7 @@ def _min_l1_with_fixed_scs(G=None, Q=None, L=None, c=None, k=None, y=None, A=Non
         n = Q.shape[1]
     elif not (L is None):
         inferredfrom = "L"
-        n = L.shape[1]
+        n = L.shape[0]
     elif not (c is None):
         inferredfrom = "c"
         n = c.shape[0]
-- 
2.43.0


From 1af39e936b5190de11248adbd790f7bcf2bdf303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 23/71] fix: read_mesh and write_mesh accept the documented fmt
 values

---
 src/gpytoolbox/read_mesh.py  | 2 +-
 src/gpytoolbox/write_mesh.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index a2a1757..abb843b 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -82,7 +82,7 @@ def read_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+    fmt = fmt.lower().lstrip('.')
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
diff --git a/src/gpytoolbox/write_mesh.py b/src/gpytoolbox/write_mesh.py
index a9c8624..95e3b03 100644
--- a/src/gpytoolbox/write_mesh.py
+++ b/src/gpytoolbox/write_mesh.py
@@ -69,7 +69,7 @@ def write_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+    fmt = fmt.lower().lstrip('.')
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
-- 
2.43.0


From 6c5d0da0e67ed9f355dba49a9ef496813b98c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 24/71] fix: quotation marks in obj files no longer hide the
 following lines

---
 src/gpytoolbox/read_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index abb843b..7460f2d 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -159,7 +159,8 @@ def _read_obj_python(file,return_UV,return_N):
     Fn = None
 
     with open(file, newline='') as handle:
-        reader = csv.reader(handle, delimiter=' ')
+        # Quotation marks have no special meaning in obj files.
+        reader = csv.reader(handle, delimiter=' ', quoting=csv.QUOTE_NONE)
         for row in reader:
             # Remove empty strings
             row = [s for s in row if s]
-- 
2.43.0


From 0fc28ff3ce44c29bd67b6055a4cc7cb97cd0022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 25/71] fix: read_dmat accepts ascii coefficients separated by
 spaces

---
 src/gpytoolbox/read_dmat.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/gpytoolbox/read_dmat.py b/src/gpytoolbox/read_dmat.py
index 0e59fe4..eeab437 100644
--- a/src/gpytoolbox/read_dmat.py
+++ b/src/gpytoolbox/read_dmat.py
@@ -47,17 +47,11 @@ def read_dmat(file_path):
                     data[i, j] = float_value
 
         else:  # ASCII file
-            # Read ASCII data
+            # Read ASCII data: coefficients separated by any whitespace
+            values = iter(f.read().decode('ascii').split())
             data = np.empty((rows, cols))
             for j in range(cols):
                 for i in range(rows):
-                    while True:
-                        # Read the next coefficient
-                        c = f.read(0)
-                        if c == b'' or c == b'\n':
-                            break
-                    # Read the next float value
-                    float_value = float(f.readline().decode('ascii').strip())
-                    data[i, j] = float_value
+                    data[i, j] = float(next(values))
 
     return data
-- 
2.43.0


From 1c2ae0b778140c6670e98eb892d11b3b7282062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 26/71] fix: metropolis_hastings reports the density of the
 initial sample

---
 src/gpytoolbox/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index e45cffc..0c27018 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -55,6 +55,7 @@ def metropolis_hastings(unnorm_distr,
     S[0,:] = x0 # Hopefully this works!
     
     f0 = unnorm_distr(x0)
+    F[0] = f0
     sample_num = 2
     while sample_num<(num_samples+1):
         # Compute next candidate sample
-- 
2.43.0


From 9d2bcecac5e38511a806278f5c764b3882b4d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 27/71] fix: metropolis_hastings repeats the current sample
 when a candidate is rejected

---
 src/gpytoolbox/metropolis_hastings.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index 0c27018..6b717f8 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -18,7 +18,7 @@ def metropolis_hastings(unnorm_distr,
     x0 : numpy array
         Initial sample
     num_samples : int
-        Number of samples in output (this will be *more* than the total number of considered samples or evaluations of unnorm_distr)
+        Number of samples in output (every candidate adds one: itself if it is accepted, or else the current sample again)
     rng : numpy rng, optional (default: new `np.random.default_rng()`)
         which numpy random number generator to use
 
@@ -69,10 +69,11 @@ def metropolis_hastings(unnorm_distr,
         #print(f1/f0)
         if r<(f1/f0):
             # If accepted, update current sample with candidate sample
-            # and add to S and F
             x0 = x1
             f0 = f1
-            S[sample_num-1,:] = x1
-            F[sample_num-1] = f1
-            sample_num = sample_num + 1
+        # Add the current sample to S and F (once more if the candidate was
+        # rejected, otherwise the samples do not follow the distribution)
+        S[sample_num-1,:] = x0
+        F[sample_num-1] = f0
+        sample_num = sample_num + 1
     return S,F
\ No newline at end of file
-- 
2.43.0


From abcd1305572c94cd01d8245b014edcf3d2a8fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 28/71] fix: particle_swarm accepts objectives that return
 plain numbers

---
 src/gpytoolbox/particle_swarm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index 03084c2..6179737 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -71,15 +71,15 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
         # This x
         xi = x[i,:]
         # print(xi)
-        f = fun(xi)
+        f = float(np.squeeze(fun(xi)))
         # print(xi)
         best_xi[i,:] = xi.copy()
-        best_fi[i] = np.squeeze(f.copy())
+        best_fi[i] = f
         # if verbose:
             # print("Particle %d: f = %f" % (i,f))
         if f < current_best_f:
             current_best_x = xi.copy()
-            current_best_f = f.copy()
+            current_best_f = f
     # print(current_best_x.reshape((-1, 3)))
     # initialize particle velocities
     velocity_lb = lb - ub
@@ -108,14 +108,14 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
             x[i,:] = np.maximum(x[i,:],lb)
             x[i,:] = np.minimum(x[i,:],ub)
             # Evaluate objective
-            f = fun(x[i,:])
+            f = float(np.squeeze(fun(x[i,:])))
             # Update best position
             if f < best_fi[i]:
                 best_xi[i,:] = x[i,:].copy()
-                best_fi[i] = np.squeeze(f.copy())
+                best_fi[i] = f
                 if f < current_best_f:
                     current_best_x = x[i,:].copy()
-                    current_best_f = f.copy()
+                    current_best_f = f
         if verbose:
             print("Iteration %d: f = %f" % (iter,current_best_f))
     # print(current_best_x)
-- 
2.43.0


From a93d41f4823af42261c97bf0411350f905e2b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 29/71] fix: particle_swarm returns a point when no evaluation
 is finite

---
 src/gpytoolbox/particle_swarm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index 6179737..07a8515 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -66,6 +66,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
     n = len(lb)
     x = np.random.uniform(lb,ub,(n_particles,n))
     best_xi = x.copy()
+    current_best_x = x[0,:].copy()
     best_fi = np.inf*np.ones(n_particles)
     for i in range(n_particles):
         # This x
-- 
2.43.0


From af8520b0dc0d3ae19101bee5e3badd56075a658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 30/71] fix: normalize_points leaves its argument unchanged and
 accepts integer points

---
 src/gpytoolbox/normalize_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/normalize_points.py b/src/gpytoolbox/normalize_points.py
index 367c8bf..72c410e 100644
--- a/src/gpytoolbox/normalize_points.py
+++ b/src/gpytoolbox/normalize_points.py
@@ -30,7 +30,8 @@ def normalize_points(v,center=None):
     
     # Dimension:
     dim = v.shape[1]
-    
+    # Work on a copy, the input should not change
+    v = np.array(v, dtype=np.float64)
 
     # First, move it to the first quadrant:
     for dd in range(dim):
-- 
2.43.0


From 40af39290c1d178aa63dd5c63a6a73d92f98cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 31/71] fix: rotation_matrix_from_vectors returns no nan for
 parallel 2D vectors

---
 src/gpytoolbox/rotation_matrix_from_vectors.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gpytoolbox/rotation_matrix_from_vectors.py b/src/gpytoolbox/rotation_matrix_from_vectors.py
index 50c212e..2c25d30 100644
--- a/src/gpytoolbox/rotation_matrix_from_vectors.py
+++ b/src/gpytoolbox/rotation_matrix_from_vectors.py
@@ -44,11 +44,10 @@ def rotation_matrix_from_vectors(vec1, vec2):
     v = np.cross(a, b).flatten()
     if any(v): #if not all zeros then 
         if dim==2:
-            theta = np.arccos(np.dot(a, b))
-            # with correct sign
-            if np.cross(a, b) < 0:
-                theta = -theta
-            R = np.array([[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]])
+            # cosine and sine of the angle
+            c = np.dot(a, b)
+            s = v[0]
+            R = np.array([[c, -s], [s, c]])
             return R
         else:
             assert dim == 3
-- 
2.43.0


From 66222f21d8abc589728d776501529836b30d1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 32/71] fix: rotation_matrix_from_vectors returns a rotation
 for opposite 3D vectors

---
 src/gpytoolbox/rotation_matrix_from_vectors.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/rotation_matrix_from_vectors.py b/src/gpytoolbox/rotation_matrix_from_vectors.py
index 2c25d30..b870299 100644
--- a/src/gpytoolbox/rotation_matrix_from_vectors.py
+++ b/src/gpytoolbox/rotation_matrix_from_vectors.py
@@ -53,11 +53,26 @@ def rotation_matrix_from_vectors(vec1, vec2):
             assert dim == 3
             c = np.dot(a, b)
             s = np.linalg.norm(v)
+            if c < 0 and s < 1e-6:
+                # (almost) opposite vectors do not determine the axis well
+                return _rotation_between_opposite_vectors(a, b)
             kmat = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
             return np.eye(3) + kmat + kmat.dot(kmat) * ((1 - c) / (s ** 2))
     else:
         # is it a reflection?
         R = np.eye(dim)
         if np.dot(a, b) < 0:
+            if dim==3:
+                # -R would not be a rotation in 3D
+                return _rotation_between_opposite_vectors(a, b)
             R = -R
-        return R
\ No newline at end of file
+        return R
+
+
+def _rotation_between_opposite_vectors(a, b):
+    # A half turn around any axis perpendicular to a takes a to -a, and it is
+    # only a small rotation from there to b.
+    p = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+    p = p / np.linalg.norm(p)
+    half_turn = 2 * np.outer(p, p) - np.eye(3)
+    return rotation_matrix_from_vectors(-a, b).dot(half_turn)
-- 
2.43.0


From 22a7b38db0558be2a542759b73e980a70a0466c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 33/71] fix: compactly_supported_normal is no longer zero or
 doubled where two pieces meet

---
 src/gpytoolbox/compactly_supported_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/compactly_supported_normal.py b/src/gpytoolbox/compactly_supported_normal.py
index 504ef07..71b8157 100644
--- a/src/gpytoolbox/compactly_supported_normal.py
+++ b/src/gpytoolbox/compactly_supported_normal.py
@@ -60,22 +60,22 @@ def compactly_supported_normal(x,n=2,sigma=1.,center=None,second_derivative=-1):
             xx = x[:,i]
             if second_derivative==i:
                 if n==2:
-                    xx_val = (np.abs(xx)<0.5)*(-2.0) + (np.abs(xx)<1.5)*(np.abs(xx)>0.5)*(1.0)    
+                    xx_val = (np.abs(xx)<0.5)*(-2.0) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*(1.0)    
                 elif n==1:
                     xx_val = 0.0*np.abs(xx)
                 elif n==3:
                     xx_val = (np.abs(xx)<1)*(3*3*2*(np.abs(xx)) - 12)*(1/6)  +  (np.abs(xx)<=2)*(np.abs(xx)>=1)*( -3*2*(np.abs(xx)) + 12)*(1/6.)
                 elif n==4:
-                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*4*3*(np.abs(xx)**2.0) - 160*3*2*(np.abs(xx)) + 600*2)*(1/384) + (np.abs(xx)<=1.5)*(np.abs(xx)>=0.5)*( -16*4*3*(np.abs(xx)**2.0) + 80*3*2*(np.abs(xx)) - 120*2)*(1/96) + (np.abs(xx)<=0.5)*( 48*4*3*(np.abs(xx)**2.0) - 120*2)*(1/192)
+                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*4*3*(np.abs(xx)**2.0) - 160*3*2*(np.abs(xx)) + 600*2)*(1/384) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*( -16*4*3*(np.abs(xx)**2.0) + 80*3*2*(np.abs(xx)) - 120*2)*(1/96) + (np.abs(xx)<0.5)*( 48*4*3*(np.abs(xx)**2.0) - 120*2)*(1/192)
             else:
                 if n==2:
-                    xx_val = (np.abs(xx)<0.5)*(-(xx**2.0)+0.75) + (np.abs(xx)<1.5)*(np.abs(xx)>0.5)*(0.5*(xx**2.0) - 1.5*np.abs(xx) + 1.125)
+                    xx_val = (np.abs(xx)<0.5)*(-(xx**2.0)+0.75) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*(0.5*(xx**2.0) - 1.5*np.abs(xx) + 1.125)
                 elif n==1:
                     xx_val = (np.abs(xx)<1.0)*(1 - np.abs(xx))
                 elif n==3:
                     xx_val = (np.abs(xx)<1)*(3*(np.abs(xx)**3.0) - 6*(np.abs(xx)**2.0) + 4)*(1/6)  +  (np.abs(xx)<=2)*(np.abs(xx)>=1)*( -(np.abs(xx)**3.0) + 6*(np.abs(xx)**2.0) - 12*np.abs(xx) + 8 )*(1/6.)
                 elif n==4:
-                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*(np.abs(xx)**4.0) - 160*(np.abs(xx)**3.0) + 600*(np.abs(xx)**2.0) - 1000*(np.abs(xx)) + 625)*(1/384) + (np.abs(xx)<=1.5)*(np.abs(xx)>=0.5)*( -16*(np.abs(xx)**4.0) + 80*(np.abs(xx)**3.0) - 120*(np.abs(xx)**2.0) + 20*(np.abs(xx)) + 55)*(1/96) + (np.abs(xx)<=0.5)*( 48*(np.abs(xx)**4.0) - 120*(np.abs(xx)**2.0) + 115)*(1/192)
+                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*(np.abs(xx)**4.0) - 160*(np.abs(xx)**3.0) + 600*(np.abs(xx)**2.0) - 1000*(np.abs(xx)) + 625)*(1/384) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*( -16*(np.abs(xx)**4.0) + 80*(np.abs(xx)**3.0) - 120*(np.abs(xx)**2.0) + 20*(np.abs(xx)) + 55)*(1/96) + (np.abs(xx)<0.5)*( 48*(np.abs(xx)**4.0) - 120*(np.abs(xx)**2.0) + 115)*(1/192)
 
             vals = vals * xx_val
         return vals
-- 
2.43.0


From 273700109e4ec91d6dc5ca547959bdd100526643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 34/71] fix: gaussian_process accepts (n,1) training values
 together with gradients

---
 src/gpytoolbox/gaussian_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 0f3ae38..e7c92f2 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -140,7 +140,7 @@ class gaussian_process_precompute:
         if (grad_y_train is not None):
             self.use_gradients = True
             self.grad_y_train = grad_y_train.flatten('F')
-            self.y_train = np.concatenate((self.y_train,self.grad_y_train))
+            self.y_train = np.concatenate((self.y_train.flatten(),self.grad_y_train))
         self.num_train = y_train.shape[0]
         # This part is independent of test data
 
-- 
2.43.0


From 15250f52e0408ec5f97993ae9d1615bd9f319dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 35/71] fix: gaussian_process finds the whole support of
 compact kernels

---
 src/gpytoolbox/gaussian_process.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index e7c92f2..8d7ff74 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -159,6 +159,12 @@ class gaussian_process_precompute:
             x2 = np.ones((1,X_train.shape[1]))
             k1 = self.kernel(xzero,x1)
             k2 = self.kernel(xzero,x2)
+            # The search below needs x2 outside the support
+            for i in range(100):
+                if k2<=1e-10:
+                    break
+                x1, x2 = x2, 2*x2
+                k1, k2 = k2, self.kernel(xzero,x2)
             for i in range(10):
                 mid = 0.5*(x1+x2)
                 kmid = self.kernel(xzero,mid)
@@ -170,7 +176,8 @@ class gaussian_process_precompute:
                     x2 = mid
                     k2 = self.kernel(xzero,x2)
 
-            self.compact_support = x2[0,0]
+            # x2 lies on the diagonal, the support is a distance
+            self.compact_support = np.linalg.norm(x2)
             
             # print("Compact support found: ", self.compact_support)
 
-- 
2.43.0


From 8e006ac5b5eb1e64fdfa9be552a8ecad68e90fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 36/71] fix: gaussian_process accepts a single training point
 with lump_K3

---
 src/gpytoolbox/gaussian_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 8d7ff74..b4683dd 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -210,7 +210,7 @@ class gaussian_process_precompute:
                 print("--------- Training Gaussian Process with", X_train.shape[0],"data points. ---------")
             K3 = cov_matrix_from_function(self.kernel,X_train,X_train,sparse=True,use_gradients=self.use_gradients,compact_support=self.compact_support)        
             if lump_K3:
-                K3 = diags(np.squeeze(np.asarray(K3.sum(axis=1))))
+                K3 = diags(np.ravel(K3.sum(axis=1)))
             self.inducing_points = False
             self.LU = splu(csc_matrix(K3 + (self.sigma_n**2.0)*eye(K3.shape[0])))
             # plt.spy(K3)
-- 
2.43.0


From 07f24d4af1c608fe776cc046662e8df69d888dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 37/71] fix: linear_elasticity_stiffness keeps all vertices
 when there are more than two per triangle

---
 src/gpytoolbox/linear_elasticity_stiffness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity_stiffness.py b/src/gpytoolbox/linear_elasticity_stiffness.py
index 6b34546..ea56467 100644
--- a/src/gpytoolbox/linear_elasticity_stiffness.py
+++ b/src/gpytoolbox/linear_elasticity_stiffness.py
@@ -65,7 +65,7 @@ def linear_elasticity_stiffness(V,F,K=1.75,mu=0.0115,volumes=None,mass=None):
 
     if dim==2:
         G = grad(np.concatenate((V, np.zeros((V.shape[0],1))), axis=1),F)
-        G = G[0:(2*F.shape[0]),0:(2*F.shape[0])]
+        G = G[0:(2*F.shape[0]),:]
         G0 = G[0:F.shape[0],:]
         G1 = G[F.shape[0]:(2*F.shape[0])]
         strain0 = hstack((G0, Z))
-- 
2.43.0


From 08ba881404be60bba2962ceee2d86177b73cee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 38/71] fix: linear_elasticity returns the von Mises stress
 without a spurious factor 1/sqrt(2)

---
 src/gpytoolbox/linear_elasticity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity.py b/src/gpytoolbox/linear_elasticity.py
index 5773322..2fbf6f3 100644
--- a/src/gpytoolbox/linear_elasticity.py
+++ b/src/gpytoolbox/linear_elasticity.py
@@ -93,7 +93,7 @@ def linear_elasticity(V,F,U0,dt=0.1,bb=None,bc = None
         sigma_11 = face_stress_vec[0:F.shape[0]]
         sigma_22 = face_stress_vec[F.shape[0]:(2*F.shape[0])]
         sigma_12 = face_stress_vec[(2*F.shape[0]):(3*F.shape[0])]
-        sigma_v = np.sqrt(0.5*(sigma_11*sigma_11 - sigma_11*sigma_22 + sigma_22*sigma_22 + 3*sigma_12*sigma_12))
+        sigma_v = np.sqrt(sigma_11*sigma_11 - sigma_11*sigma_22 + sigma_22*sigma_22 + 3*sigma_12*sigma_12)
     elif V.shape[1]==3:
         print("TET MESHES UNSUPPORTED")
     return U, sigma_v
\ No newline at end of file
-- 
2.43.0


From fdd8d59959b6f6eefe99ee8f2f5b1a0e78c12733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 39/71] fix: colormap returns copies of its tables

---
 src/gpytoolbox/colormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index 69e0b5e..23a2e85 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -50,10 +50,10 @@ def colormap(name, n, interpolate=True):
             i = 1
             while i in _all_cbrewer_colormaps[name]:
                 i += 1
-            return _all_cbrewer_colormaps[name][i-1]
+            return _all_cbrewer_colormaps[name][i-1].copy()
         else:
             assert n in _all_cbrewer_colormaps[name]
-            return _all_cbrewer_colormaps[name][n]
+            return _all_cbrewer_colormaps[name][n].copy()
 
 
 _all_cbrewer_colormaps = {
-- 
2.43.0


From a702d43c4bfb052690c39333ce9f9e0c67d3e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 40/71] fix: interpolated colormaps stay in the range of valid
 colors

---
 src/gpytoolbox/colormap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index 23a2e85..09bf2b3 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -43,7 +43,8 @@ def colormap(name, n, interpolate=True):
         raw_C = colormap(name, n=0, interpolate=False)
         f = sp.interpolate.interp1d(np.linspace(0., 1., raw_C.shape[0]),
             raw_C, axis=0, kind='cubic')
-        return f(np.linspace(0., 1., n))
+        # The cubic interpolant can overshoot the range of valid colors
+        return np.clip(f(np.linspace(0., 1., n)), 0., 255.)
     else:
         assert name in _all_cbrewer_colormaps, "This color map does not exist."
         if n==0:
-- 
2.43.0


From 7a56d2ef15e460ef021bbe6a0c39a07008019cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 41/71] fix: apply_colormap with log accepts values at the ends
 of the interval

---
 src/gpytoolbox/apply_colormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index ada85e1..50a460c 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -77,6 +77,8 @@ def apply_colormap(C, f,
     if log:
         xaxis = np.logspace(np.log2(minimum), np.log2(maximum), C.shape[0],
               base=2.)
+        # Rounding must not move the ends of the interval
+        xaxis[0], xaxis[-1] = minimum, maximum
     else:
         xaxis = np.linspace(minimum, maximum, C.shape[0])
 
-- 
2.43.0


From aff078dc2d0f8a7e2849b643b58994cedb807264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 42/71] fix: apply_colormap with log clamps values that are all
 below machine epsilon

---
 src/gpytoolbox/apply_colormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index 50a460c..1270630 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -68,6 +68,8 @@ def apply_colormap(C, f,
     if log and minimum < np.finfo(np.float64).eps:
         minimum = np.finfo(np.float64).eps
     maximum = np.amax(f) if max is None else max
+    if log and maximum < np.finfo(np.float64).eps:
+        maximum = np.finfo(np.float64).eps
     assert maximum >= minimum
     if maximum < minimum + np.finfo(np.float64).eps:
         maximum = minimum + np.finfo(np.float64).eps
-- 
2.43.0


From 62bf5782b91235e5c4babd26b494df150d1eaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 43/71] fix: apply_colormap handles constant values of any
 magnitude

---
 src/gpytoolbox/apply_colormap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index 1270630..1fb1fdd 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -71,8 +71,11 @@ def apply_colormap(C, f,
     if log and maximum < np.finfo(np.float64).eps:
         maximum = np.finfo(np.float64).eps
     assert maximum >= minimum
-    if maximum < minimum + np.finfo(np.float64).eps:
-        maximum = minimum + np.finfo(np.float64).eps
+    # The interval must be long enough to tell its colors apart
+    gap = (10000 if log else 8)*C.shape[0]*np.maximum(np.finfo(np.float64).tiny,
+        np.finfo(np.float64).eps*np.maximum(abs(minimum), abs(maximum)))
+    if maximum < minimum + gap:
+        maximum = minimum + gap
 
     f = np.minimum(np.maximum(f, minimum), maximum)
 
-- 
2.43.0


From 85a221858da1d08fb22dd7e21bbcf7e7836490b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 44/71] fix: grid_laplacian_eigenfunctions returns the lowest
 modes of 3D grids

---
 src/gpytoolbox/grid_laplacian_eigenfunctions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gpytoolbox/grid_laplacian_eigenfunctions.py b/src/gpytoolbox/grid_laplacian_eigenfunctions.py
index 2401fc0..fcbdfce 100644
--- a/src/gpytoolbox/grid_laplacian_eigenfunctions.py
+++ b/src/gpytoolbox/grid_laplacian_eigenfunctions.py
@@ -58,13 +58,13 @@ def grid_laplacian_eigenfunctions(num_modes,gs,l):
     if dim==3:
         gx, gy, gz = np.meshgrid(np.linspace(0,l[0],gs[0]),np.linspace(0,l[1],gs[1]),np.linspace(0,l[2],gs[2]),indexing='ij')
         v = np.concatenate((np.reshape(gx,(-1, 1),order='F'),np.reshape(gy,(-1, 1),order='F'),np.reshape(gz,(-1, 1),order='F')),axis=1)
-        # This is ad-hoc so it's faster... We should come up with a smarter way of doing this.
-        num_in_each_dim = round(np.sqrt(num_modes//8))
-        # num_in_each_dim = num_modes
-        vals_debug = np.zeros(num_in_each_dim*num_in_each_dim*num_in_each_dim)
-        K_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) % num_in_each_dim
-        J_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) // num_in_each_dim % num_in_each_dim
-        I_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) // (num_in_each_dim*num_in_each_dim)
+        # Every mode (i',j',k') below (i,j,k) in each index has a smaller eigenvalue, so (i,j,k) can only be one of the first num_modes if (i+1)*(j+1)*(k+1)<=num_modes. These are the only candidates we need to sort.
+        I_vector, J_vector = np.meshgrid(np.arange(num_modes),np.arange(num_modes),indexing='ij')
+        num_k = num_modes // ((I_vector.ravel()+1)*(J_vector.ravel()+1))
+        I_vector = np.repeat(I_vector.ravel(),num_k)
+        J_vector = np.repeat(J_vector.ravel(),num_k)
+        K_vector = np.arange(np.sum(num_k)) - np.repeat(np.cumsum(num_k)-num_k,num_k)
+        vals_debug = np.zeros(I_vector.shape[0])
 
         ind_vectors = []
         ind_vectors.append(I_vector)
-- 
2.43.0


From d8a53faa24ad84b0a1cbae545b45a2eb660521b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 45/71] fix: stochastic_poisson_surface_reconstruction counts
 each kernel value once on narrow grids

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 4ea20d7..b57f2d8 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -240,6 +240,8 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
             previous_neighbors = np.kron(neighbors,np.ones(neighbors_along_dim.shape[0],dtype=int))
             neighbors_along_dim_repeated = np.kron(np.ones(neighbors.shape[0],dtype=int),neighbors_along_dim)
             neighbors = previous_neighbors + neighbors_along_dim_repeated
+        # On grids narrower than the neighborhood, different offsets reach the same cell; count it only once
+        neighbors = np.unique(neighbors)
         # The neighbors give us the sparsity pattern of k2
         I = np.tile(np.arange(P.shape[0]),(neighbors.shape[0],1)).T
         J = np.tile(P_cells,(neighbors.shape[0],1)).T + np.tile(neighbors,(P_cells.shape[0],1))
-- 
2.43.0


From 37362c4fa43bce932af7ab59ee08d3b46f2b47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 46/71] fix: stochastic_poisson_surface_reconstruction accepts
 points in the first half cell of the grid

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index b57f2d8..9e74eca 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -227,6 +227,8 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
 
         # Find the cell that P falls into
         P_cells = np.floor((P - np.tile(corner_dd,(P.shape[0],1))) / np.tile(h,(P.shape[0],1))).astype(int)
+        # Points in the first half cell of the grid are closest to the first staggered vertex
+        P_cells[P_cells[:,dd]==-1,dd] = 0
         if dim==2:
             P_cells = np.ravel_multi_index((P_cells[:,0], P_cells[:,1]), dims=gs_dd,order='F')
         else:
-- 
2.43.0


From 4376e84b1521435d47baf537d10710190ceffc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 47/71] fix: default grid of
 stochastic_poisson_surface_reconstruction encloses point clouds away from the
 origin

---
 .../stochastic_poisson_surface_reconstruction.py         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 9e74eca..a4b120c 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -134,15 +134,18 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         gs = 100*np.ones(dim,dtype=int)
 
     envelope_mult = 1.5 # how tightly we want to envelope the data
+    P_center = 0.5*(np.max(P,axis=0) + np.min(P,axis=0))
+    envelope_min = P_center + envelope_mult*(np.min(P,axis=0) - P_center)
+    envelope_max = P_center + envelope_mult*(np.max(P,axis=0) - P_center)
     if (gs is None):
         assert(h is not None)
         assert(corner is not None)
-        gs = np.floor((np.max(envelope_mult*P,axis=0) - corner)/h).astype(int)
+        gs = np.floor((envelope_max - corner)/h).astype(int)
         # print(gs)
         # print(gs)
     elif ((h is None) or (corner is None)):
-        h = (np.max(envelope_mult*P,axis=0) - np.min(envelope_mult*P,axis=0))/gs
-        corner = np.min(envelope_mult*P,axis=0)
+        h = (envelope_max - envelope_min)/gs
+        corner = envelope_min
     assert(gs.shape[0] == dim)
 
     grid_length = gs*h
-- 
2.43.0


From 8ccf62e9df756be11f4c262d612a1743789acf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 48/71] fix: stochastic_poisson_surface_reconstruction staggers
 grids with an integer corner

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index a4b120c..cf76bc7 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -177,7 +177,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
     covs = []
     for dd in range(dim):
         # Build a staggered grid in the dd-th dimension
-        corner_dd = corner.copy()
+        corner_dd = corner.astype(float)
         corner_dd[dd] += 0.5*h[dd]
         gs_dd = gs.copy()
         gs_dd[dd] -= 1
-- 
2.43.0


From 3250e716dbbf555c9a7a39f597e7198c751ebf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 49/71] fix: variance of
 stochastic_poisson_surface_reconstruction no longer drowns in amplified
 rounding error

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index cf76bc7..881eb89 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -338,6 +338,9 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
                 print("Time to compute eigenvalues: ", time.time() - t20)
                 t20 = time.time()
             B = (vecs.transpose()@cov_divergence.astype(np.float32))@vecs
+            # A divergence has no constant component (the first mode); its rounding error would be amplified by 1/eps
+            B[0,:] = 0
+            B[:,0] = 0
             if verbose:
                 print("Time to project problem onto subspace: ", time.time() - t20)
                 t20 = time.time()
@@ -359,7 +362,10 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
 
             lu = splu(L+eps*eye(L.shape[0]))
             D = lu.solve(cov_divergence.toarray())
+            # A divergence has no constant component; its rounding error was amplified by 1/eps
+            D = D - np.mean(D,axis=0)
             cov_scalar = lu.solve(D.transpose())
+            cov_scalar = cov_scalar - np.mean(cov_scalar,axis=0)
             var_scalar = np.diag(cov_scalar)
 
         # Shift values of covariance (Q: is a constant shift enough?)
-- 
2.43.0


From ed0b94009ba5e7ccd6d52e34b7769dfd99211d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 50/71] fix: C++ OBJ reader works on systems without the
 en_US.UTF-8 locale

---
 src/cpp/read_obj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/read_obj.cpp b/src/cpp/read_obj.cpp
index b384c63..73034e1 100644
--- a/src/cpp/read_obj.cpp
+++ b/src/cpp/read_obj.cpp
@@ -166,7 +166,7 @@ int read_obj(
     if(!stream) {
         return -5; //File could not be opened error.
     }
-    stream.imbue(std::locale("en_US.UTF-8"));
+    stream.imbue(std::locale::classic());
 
     std::string line, work;
     while(std::getline(stream,line)) {
-- 
2.43.0


From 88588eb36a62db31941c51a6ecd7c2f455c94eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 51/71] fix: write_mesh stores PLY colors as the bytes it
 declares

---
 src/cpp/tinyply/tinyply_wrappers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index 20e2a42..2a5035b 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -72,8 +72,8 @@ struct geometry
     std::vector<double3> normals;
     std::vector<float2> texcoords;
     std::vector<uint3> triangles;
-    std::vector<uint4> vertex_colors;
-    std::vector<uint4> face_colors;
+    std::vector<rgba4> vertex_colors;
+    std::vector<rgba4> face_colors;
 };
 
 
@@ -285,14 +285,14 @@ int write_ply(
                 use_vertex_colors = true;
                 for (int i = 0; i < C.rows(); i++)
                 {
-                    mesh.vertex_colors.push_back( uint4{ (uint8_t) C(i, 0),  (uint8_t) C(i, 1),  (uint8_t) C(i, 2), (uint8_t) C(i, 3)} );
+                    mesh.vertex_colors.push_back( rgba4{ (uint8_t) C(i, 0),  (uint8_t) C(i, 1),  (uint8_t) C(i, 2), (uint8_t) C(i, 3)} );
                 }
             }
             if(C.rows() == F.rows()) {
                 use_face_colors = true;
                 for (int i = 0; i < C.rows(); i++)
                 {
-                    mesh.face_colors.push_back( uint4{ (uint8_t) C(i, 0),  (uint8_t) C(i, 1),  (uint8_t) C(i, 2), (uint8_t) C(i, 3)} );
+                    mesh.face_colors.push_back( rgba4{ (uint8_t) C(i, 0),  (uint8_t) C(i, 1),  (uint8_t) C(i, 2), (uint8_t) C(i, 3)} );
                 }
             }
         }
-- 
2.43.0


From 307d873dc46220e615671c56d00b901070f44328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 52/71] fix: PLY reader picks the type of the normals from the
 normals

---
 src/cpp/tinyply/tinyply_wrappers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index 2a5035b..93459ed 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -206,7 +206,7 @@ int read_ply(
                 {
                     N.row(i) << normals_[i].x, normals_[i].y, normals_[i].z;
                 }
-            }else if(vertices->t == tinyply::Type::FLOAT64) {
+            }else if(normals->t == tinyply::Type::FLOAT64) {
                 const size_t numNormalsBytes = normals->buffer.size_bytes();
                 std::vector<double3> normals_(normals->count);
                 std::memcpy(normals_.data(), normals->buffer.get(), numNormalsBytes);
-- 
2.43.0


From bfa6361b8250a4868533162185de869f3302af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 53/71] fix: ASCII PLY and STL files keep the precision of the
 coordinates

---
 src/cpp/microstl/microstl_wrappers.cpp | 5 ++++-
 src/cpp/tinyply/tinyply_wrappers.cpp   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpp/microstl/microstl_wrappers.cpp b/src/cpp/microstl/microstl_wrappers.cpp
index 85fc88a..5bb09dc 100644
--- a/src/cpp/microstl/microstl_wrappers.cpp
+++ b/src/cpp/microstl/microstl_wrappers.cpp
@@ -1,5 +1,6 @@
 #include <Eigen/Core>
 #include "microstl.h"
+#include <limits>
 
 
 int read_stl(
@@ -64,7 +65,9 @@ int write_stl(
             microstl::MeshProvider providerAscii(mesh);
 		    providerAscii.ascii = true;
             std::filesystem::path path(file);
-            res = microstl::Writer::writeStlFile(path, providerAscii);
+            std::ofstream stream(path, std::ios::binary);
+            stream.precision(std::numeric_limits<float>::max_digits10);
+            res = stream ? microstl::Writer::writeStlStream(stream, providerAscii) : microstl::Result::FileError;
         }
 
         if(res == microstl::Result::Success){
diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index 93459ed..e160f4e 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -3,6 +3,7 @@
 #include "tinyply.h"
 #include <iostream>
 #include <fstream>
+#include <limits>
 using namespace tinyply;
 
 #include <typeinfo>
@@ -311,6 +312,7 @@ int write_ply(
         }
 
         std::ostream outstream_(&fb);
+        outstream_.precision(std::numeric_limits<double>::max_digits10);
 
         tinyply::PlyFile file;
 
-- 
2.43.0


From 8e9bf8376606947dd65b92e0019eeb6cec8d734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 54/71] fix: write_mesh reports a PLY file that cannot be
 opened

---
 src/cpp/tinyply/tinyply_wrappers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index e160f4e..30e351d 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -311,6 +311,10 @@ int write_ply(
             fb.open(filename, std::ios::out);
         }
 
+        if(!fb.is_open()) {
+            return -1;
+        }
+
         std::ostream outstream_(&fb);
         outstream_.precision(std::numeric_limits<double>::max_digits10);
 
-- 
2.43.0


From 22359075042aeb09436559c7363c74f855884476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 55/71] fix: PLY reader accepts face indices of every integer
 type

---
 src/cpp/tinyply/tinyply_wrappers.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index 30e351d..00a481d 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -185,12 +185,25 @@ int read_ply(
 
         if (are_faces_defined){
             const size_t numFacesBytes = faces->buffer.size_bytes();
-            std::vector<uint3> ply_faces(faces->count);
-            std::memcpy(ply_faces.data(), faces->buffer.get(), numFacesBytes);
-            F.resize(ply_faces.size(), 3);
-            for (int i = 0; i < ply_faces.size(); i++)
+            const auto fill_F = [&] (auto index) {
+                std::vector<decltype(index)> ply_faces(3*faces->count);
+                if (numFacesBytes != ply_faces.size()*sizeof(index)) throw std::runtime_error("only triangle meshes are supported: " + filepath);
+                std::memcpy(ply_faces.data(), faces->buffer.get(), numFacesBytes);
+                F.resize(faces->count, 3);
+                for (int i = 0; i < F.rows(); i++)
+                {
+                    F.row(i) << ply_faces[3*i], ply_faces[3*i+1], ply_faces[3*i+2];
+                }
+            };
+            switch (faces->t)
             {
-                F.row(i) << ply_faces[i].x, ply_faces[i].y, ply_faces[i].z;
+                case tinyply::Type::INT8: fill_F(int8_t()); break;
+                case tinyply::Type::UINT8: fill_F(uint8_t()); break;
+                case tinyply::Type::INT16: fill_F(int16_t()); break;
+                case tinyply::Type::UINT16: fill_F(uint16_t()); break;
+                case tinyply::Type::INT32: fill_F(int32_t()); break;
+                case tinyply::Type::UINT32: fill_F(uint32_t()); break;
+                default: throw std::runtime_error("face indices are not integers: " + filepath);
             }
         }else{
             F.resize(0, 0);
-- 
2.43.0


From 5cc522ff7b0be737898c043f42480acd78fd1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 56/71] fix: PLY reader does not crash on a file without vertex
 coordinates

---
 src/cpp/tinyply/tinyply_wrappers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index 00a481d..e9e4f83 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -156,6 +156,8 @@ int read_ply(
         // std::cout << "are_faces_defined: " << are_faces_defined << std::endl;
 
 
+        if (!vertices) throw std::runtime_error("no vertex coordinates in " + filepath);
+
         file.read(*file_stream);
 
 
-- 
2.43.0


From ebf19c21bcb70a5d53291f5a10a60dd876e9cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 57/71] fix: C++ OBJ reader accepts subnormal coordinates

---
 src/cpp/read_obj.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cpp/read_obj.cpp b/src/cpp/read_obj.cpp
index 73034e1..d8f6bbd 100644
--- a/src/cpp/read_obj.cpp
+++ b/src/cpp/read_obj.cpp
@@ -1,5 +1,6 @@
 #include "read_obj.h"
 
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <regex>
@@ -55,12 +56,10 @@ double tup_it_to_double(
     std::string& work)
 {
     work.assign(std::get<0>(t), std::get<1>(t));
-    try {
-        return std::stod(work);
-    }
-    catch(std::invalid_argument e) {
-        return NAN;
-    }
+    //Not std::stod: it throws on subnormal numbers.
+    char* end;
+    const double x = std::strtod(work.c_str(), &end);
+    return end==work.c_str() ? NAN : x;
 }
 
 // Turn tupled token into int and subtract one, -1 on error.
-- 
2.43.0


From 611756b3e9065259968539833bf91deb67208129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 58/71] fix: C++ OBJ reader accepts indented lines and CRLF
 line endings

---
 src/cpp/read_obj.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpp/read_obj.cpp b/src/cpp/read_obj.cpp
index d8f6bbd..46fdd25 100644
--- a/src/cpp/read_obj.cpp
+++ b/src/cpp/read_obj.cpp
@@ -170,6 +170,11 @@ int read_obj(
     std::string line, work;
     while(std::getline(stream,line)) {
         int idx=0;
+        //Tolerate indentation and CRLF line endings, like the python reader.
+        if(line.size()>0 && line.back()=='\r') {
+            line.pop_back();
+        }
+        line.erase(0, line.find_first_not_of(" \t"));
         if(line.size()==0) {
             continue;
         }
-- 
2.43.0


From 7110ef2c8d31375322a58a547c8c01bad5c2301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 59/71] fix: PLY reader does not overflow on colors that are
 not bytes

---
 src/cpp/tinyply/tinyply_wrappers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpp/tinyply/tinyply_wrappers.cpp b/src/cpp/tinyply/tinyply_wrappers.cpp
index e9e4f83..a5de4d5 100644
--- a/src/cpp/tinyply/tinyply_wrappers.cpp
+++ b/src/cpp/tinyply/tinyply_wrappers.cpp
@@ -237,6 +237,11 @@ int read_ply(
         }
         
         const auto fill_C = [&] (const auto& colors) {
+            if (colors->t != tinyply::Type::UINT8) {
+                // Only byte colors are supported
+                C.resize(0, 0);
+                return;
+            }
             const size_t numColorsBytes = colors->buffer.size_bytes();
             std::vector<rgba4> colors_(colors->count);
             std::memcpy(colors_.data(), colors->buffer.get(), numColorsBytes);
-- 
2.43.0


From 4d2596f0709543626ba2dcf784230ca156b52d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:42 +0000
Subject: [PATCH 60/71] fix: ASCII PLY files may count list entries in a wider
 type than the entries

---
 src/cpp/tinyply/tinyply.h | 1991 +++++++++++++++++++------------------
 1 file changed, 996 insertions(+), 995 deletions(-)

diff --git a/src/cpp/tinyply/tinyply.h b/src/cpp/tinyply/tinyply.h
index b768b8f..529a9bc 100644
--- a/src/cpp/tinyply/tinyply.h
+++ b/src/cpp/tinyply/tinyply.h
@@ -1,995 +1,996 @@
-/*
- * tinyply 2.3.4 (https://github.com/ddiakopoulos/tinyply)
- *
- * A single-header, zero-dependency (except the C++ STL) public domain implementation
- * of the PLY mesh file format. Requires C++11; errors are handled through exceptions.
- *
- * This software is in the public domain. Where that dedication is not
- * recognized, you are granted a perpetual, irrevocable license to copy,
- * distribute, and modify this file as you see fit.
- *
- * Authored by Dimitri Diakopoulos (http://www.dimitridiakopoulos.com)
- *
- * tinyply.h may be included in many files, however in a single compiled file,
- * the implementation must be created with the following defined prior to header inclusion
- * #define TINYPLY_IMPLEMENTATION
- *
- */
-
-////////////////////////
-//   tinyply header   //
-////////////////////////
-
-#ifndef tinyply_h
-#define tinyply_h
-
-#include <vector>
-#include <string>
-#include <stdint.h>
-#include <cstddef>
-#include <sstream>
-#include <memory>
-#include <unordered_map>
-#include <map>
-#include <algorithm>
-#include <functional>
-
-namespace tinyply
-{
-
-    enum class Type : uint8_t
-    {
-        INVALID,
-        INT8,
-        UINT8,
-        INT16,
-        UINT16,
-        INT32,
-        UINT32,
-        FLOAT32,
-        FLOAT64
-    };
-
-    struct PropertyInfo
-    {
-        PropertyInfo() {};
-        PropertyInfo(int stride, std::string str)
-            : stride(stride), str(str) {}
-        int stride {0};
-        std::string str;
-    };
-
-    static std::map<Type, PropertyInfo> PropertyTable
-    {
-        { Type::INT8,    PropertyInfo(1, std::string("char")) },
-        { Type::UINT8,   PropertyInfo(1, std::string("uchar")) },
-        { Type::INT16,   PropertyInfo(2, std::string("short")) },
-        { Type::UINT16,  PropertyInfo(2, std::string("ushort")) },
-        { Type::INT32,   PropertyInfo(4, std::string("int")) },
-        { Type::UINT32,  PropertyInfo(4, std::string("uint")) },
-        { Type::FLOAT32, PropertyInfo(4, std::string("float")) },
-        { Type::FLOAT64, PropertyInfo(8, std::string("double")) },
-        { Type::INVALID, PropertyInfo(0, std::string("INVALID"))}
-    };
-
-    class Buffer
-    {
-        uint8_t * alias{ nullptr };
-        struct delete_array { void operator()(uint8_t * p) { delete[] p; } };
-        std::unique_ptr<uint8_t, decltype(Buffer::delete_array())> data;
-        size_t size {0};
-    public:
-        Buffer() {};
-        Buffer(const size_t size) : data(new uint8_t[size], delete_array()), size(size) { alias = data.get(); } // allocating
-        Buffer(const uint8_t * ptr): alias(const_cast<uint8_t*>(ptr)) { } // non-allocating, todo: set size?
-        uint8_t * get() { return alias; }
-        const uint8_t * get_const() {return const_cast<const uint8_t*>(alias); }
-        size_t size_bytes() const { return size; }
-    };
-
-    struct PlyData
-    {
-        Type t;
-        Buffer buffer;
-        size_t count {0};
-        bool isList {false};
-    };
-
-    struct PlyProperty
-    {
-        PlyProperty(std::istream & is);
-        PlyProperty(Type type, std::string & _name) : name(_name), propertyType(type) {}
-        PlyProperty(Type list_type, Type prop_type, std::string & _name, size_t list_count)
-            : name(_name), propertyType(prop_type), isList(true), listType(list_type), listCount(list_count) {}
-        std::string name;
-        Type propertyType{ Type::INVALID };
-        bool isList{ false };
-        Type listType{ Type::INVALID };
-        size_t listCount {0};
-    };
-
-    struct PlyElement
-    {
-        PlyElement(std::istream & istream);
-        PlyElement(const std::string & _name, size_t count) : name(_name), size(count) {}
-        std::string name;
-        size_t size {0};
-        std::vector<PlyProperty> properties;
-    };
-
-    struct PlyFile
-    {
-        struct PlyFileImpl;
-        std::unique_ptr<PlyFileImpl> impl;
-
-        PlyFile();
-        ~PlyFile();
-
-        /*
-         * The ply format requires an ascii header. This can be used to determine at
-         * runtime which properties or elements exist in the file. Limited validation of the
-         * header is performed; it is assumed the header correctly reflects the contents of the
-         * payload. This function may throw. Returns true on success, false on failure.
-         */
-        bool parse_header(std::istream & is);
-
-        /*
-         * Execute a read operation. Data must be requested via `request_properties_from_element(...)`
-         * prior to calling this function.
-         */
-        void read(std::istream & is);
-
-        /*
-         * `write` performs no validation and assumes that the data passed into
-         * `add_properties_to_element` is well-formed.
-         */
-        void write(std::ostream & os, bool isBinary);
-
-        /*
-         * These functions are valid after a call to `parse_header(...)`. In the case of
-         * writing, get_comments() reference may also be used to add new comments to the ply header.
-         */
-        std::vector<PlyElement> get_elements() const;
-        std::vector<std::string> get_info() const;
-        std::vector<std::string> & get_comments();
-        bool is_binary_file() const;
-
-        /*
-         * In the general case where |list_size_hint| is zero, `read` performs a two-pass
-         * parse to support variable length lists. The most general use of the
-         * ply format is storing triangle meshes. When this fact is known a-priori, we can pass
-         * an expected list length that will apply to this element. Doing so results in an up-front
-         * memory allocation and a single-pass import, a 2x performance optimization.
-         */
-        std::shared_ptr<PlyData> request_properties_from_element(const std::string & elementKey,
-            const std::vector<std::string> propertyKeys, const uint32_t list_size_hint = 0);
-
-        void add_properties_to_element(const std::string & elementKey,
-            const std::vector<std::string> propertyKeys,
-            const Type type,
-            const size_t count,
-            const uint8_t * data,
-            const Type listType,
-            const size_t listCount);
-    };
-
-} // end namespace tinyply
-
-#endif // end tinyply_h
-
-////////////////////////////////
-//   tinyply implementation   //
-////////////////////////////////
-
-#ifdef TINYPLY_IMPLEMENTATION
-
-#include <algorithm>
-#include <functional>
-#include <type_traits>
-#include <iostream>
-#include <cstring>
-
-namespace tinyply
-{
-
-using namespace std;
-
-template<typename T, typename T2> inline T2 endian_swap(const T & v) noexcept { return v; }
-template<> inline uint16_t endian_swap<uint16_t, uint16_t>(const uint16_t & v) noexcept { return (v << 8) | (v >> 8); }
-template<> inline uint32_t endian_swap<uint32_t, uint32_t>(const uint32_t & v) noexcept { return (v << 24) | ((v << 8) & 0x00ff0000) | ((v >> 8) & 0x0000ff00) | (v >> 24); }
-template<> inline uint64_t endian_swap<uint64_t, uint64_t>(const uint64_t & v) noexcept
-{
-    return (((v & 0x00000000000000ffLL) << 56) |
-            ((v & 0x000000000000ff00LL) << 40) |
-            ((v & 0x0000000000ff0000LL) << 24) |
-            ((v & 0x00000000ff000000LL) << 8)  |
-            ((v & 0x000000ff00000000LL) >> 8)  |
-            ((v & 0x0000ff0000000000LL) >> 24) |
-            ((v & 0x00ff000000000000LL) >> 40) |
-            ((v & 0xff00000000000000LL) >> 56));
-}
-template<> inline int16_t endian_swap<int16_t, int16_t>(const int16_t & v) noexcept { uint16_t r = endian_swap<uint16_t, uint16_t>(*(uint16_t*)&v); return *(int16_t*)&r; }
-template<> inline int32_t endian_swap<int32_t, int32_t>(const int32_t & v) noexcept { uint32_t r = endian_swap<uint32_t, uint32_t>(*(uint32_t*)&v); return *(int32_t*)&r; }
-template<> inline int64_t endian_swap<int64_t, int64_t>(const int64_t & v) noexcept { uint64_t r = endian_swap<uint64_t, uint64_t>(*(uint64_t*)&v); return *(int64_t*)&r; }
-template<> inline float endian_swap<uint32_t, float>(const uint32_t & v) noexcept { union { float f; uint32_t i; }; i = endian_swap<uint32_t, uint32_t>(v); return f; }
-template<> inline double endian_swap<uint64_t, double>(const uint64_t & v) noexcept { union { double d; uint64_t i; }; i = endian_swap<uint64_t, uint64_t>(v); return d; }
-
-inline uint32_t hash_fnv1a(const std::string & str) noexcept
-{
-    static const uint32_t fnv1aBase32 = 0x811C9DC5u;
-    static const uint32_t fnv1aPrime32 = 0x01000193u;
-    uint32_t result = fnv1aBase32;
-    for (auto & c : str) { result ^= static_cast<uint32_t>(c); result *= fnv1aPrime32; }
-    return result;
-}
-
-inline Type property_type_from_string(const std::string & t) noexcept
-{
-    if (t == "int8" || t == "char")           return Type::INT8;
-    else if (t == "uint8" || t == "uchar")    return Type::UINT8;
-    else if (t == "int16" || t == "short")    return Type::INT16;
-    else if (t == "uint16" || t == "ushort")  return Type::UINT16;
-    else if (t == "int32" || t == "int")      return Type::INT32;
-    else if (t == "uint32" || t == "uint")    return Type::UINT32;
-    else if (t == "float32" || t == "float")  return Type::FLOAT32;
-    else if (t == "float64" || t == "double") return Type::FLOAT64;
-    return Type::INVALID;
-}
-
-struct PlyFile::PlyFileImpl
-{
-    struct PlyDataCursor
-    {
-        size_t byteOffset{ 0 };
-        size_t totalSizeBytes{ 0 };
-    };
-
-    struct ParsingHelper
-    {
-        std::shared_ptr<PlyData> data;
-        std::shared_ptr<PlyDataCursor> cursor;
-        uint32_t list_size_hint;
-    };
-
-    struct PropertyLookup
-    {
-        ParsingHelper * helper{ nullptr };
-        bool skip{ false };
-        size_t prop_stride{ 0 }; // precomputed
-        size_t list_stride{ 0 }; // precomputed
-    };
-
-    std::unordered_map<uint32_t, ParsingHelper> userData;
-
-    bool isBinary = false;
-    bool isBigEndian = false;
-    std::vector<PlyElement> elements;
-    std::vector<std::string> comments;
-    std::vector<std::string> objInfo;
-    uint8_t scratch[64]; // large enough for max list size
-
-    void read(std::istream & is);
-    void write(std::ostream & os, bool isBinary);
-
-    std::shared_ptr<PlyData> request_properties_from_element(const std::string & elementKey,
-        const std::vector<std::string> propertyKeys,
-        const uint32_t list_size_hint);
-
-    void add_properties_to_element(const std::string & elementKey,
-        const std::vector<std::string> propertyKeys,
-        const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount);
-
-    size_t read_property_binary(const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is);
-    size_t read_property_ascii(const Type & t, const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is);
-
-    std::vector<std::vector<PropertyLookup>> make_property_lookup_table();
-
-    bool parse_header(std::istream & is);
-    void parse_data(std::istream & is, bool firstPass);
-    void read_header_format(std::istream & is);
-    void read_header_element(std::istream & is);
-    void read_header_property(std::istream & is);
-    void read_header_text(std::string line, std::vector<std::string> & place, int erase = 0);
-
-    void write_header(std::ostream & os) noexcept;
-    void write_ascii_internal(std::ostream & os) noexcept;
-    void write_binary_internal(std::ostream & os) noexcept;
-    void write_property_ascii(Type t, std::ostream & os, const uint8_t * src, size_t & srcOffset);
-    void write_property_binary(std::ostream & os, const uint8_t * src, size_t & srcOffset, const size_t & stride) noexcept;
-};
-
-PlyProperty::PlyProperty(std::istream & is) : isList(false)
-{
-    std::string type;
-    is >> type;
-    if (type == "list")
-    {
-        std::string countType;
-        is >> countType >> type;
-        listType = property_type_from_string(countType);
-        isList = true;
-    }
-    propertyType = property_type_from_string(type);
-    is >> name;
-}
-
-PlyElement::PlyElement(std::istream & is)
-{
-    is >> name >> size;
-}
-
-template<typename T> inline T ply_read_ascii(std::istream & is)
-{
-    T data;
-    is >> data;
-    return data;
-}
-
-template<typename T, typename T2>
-inline void endian_swap_buffer(uint8_t * data_ptr, const size_t num_bytes, const size_t stride)
-{
-    for (size_t count = 0; count < num_bytes; count += stride)
-    {
-        *(reinterpret_cast<T2 *>(data_ptr)) = endian_swap<T, T2>(*(reinterpret_cast<const T *>(data_ptr)));
-        data_ptr += stride;
-    }
-}
-
-template<typename T> void ply_cast_ascii(void * dest, std::istream & is)
-{
-    *(static_cast<T *>(dest)) = ply_read_ascii<T>(is);
-}
-
-int64_t find_element(const std::string & key, const std::vector<PlyElement> & list)
-{
-    for (size_t i = 0; i < list.size(); i++) if (list[i].name == key) return i;
-    return -1;
-}
-
-int64_t find_property(const std::string & key, const std::vector<PlyProperty> & list)
-{
-    for (size_t i = 0; i < list.size(); ++i) if (list[i].name == key) return i;
-    return -1;
-}
-
-// The `userData` table is an easy data structure for capturing what data the
-// user would like out of the ply file, but an inner-loop hash lookup is non-ideal.
-// The property lookup table flattens the table down into a 2D array optimized
-// for parsing. The first index is the element, and the second index is the property.
-std::vector<std::vector<PlyFile::PlyFileImpl::PropertyLookup>> PlyFile::PlyFileImpl::make_property_lookup_table()
-{
-    std::vector<std::vector<PropertyLookup>> element_property_lookup;
-
-    for (auto & element : elements)
-    {
-        std::vector<PropertyLookup> lookups;
-
-        for (auto & property : element.properties)
-        {
-            PropertyLookup f;
-
-            auto cursorIt = userData.find(hash_fnv1a(element.name + property.name));
-            if (cursorIt != userData.end()) f.helper = &cursorIt->second;
-            else f.skip = true;
-
-            f.prop_stride = PropertyTable[property.propertyType].stride;
-            if (property.isList) f.list_stride = PropertyTable[property.listType].stride;
-
-            lookups.push_back(f);
-        }
-
-        element_property_lookup.push_back(lookups);
-    }
-
-    return element_property_lookup;
-}
-
-bool PlyFile::PlyFileImpl::parse_header(std::istream & is)
-{
-    std::string line;
-    bool success = true;
-    while (std::getline(is, line))
-    {
-        std::istringstream ls(line);
-        std::string token;
-        ls >> token;
-        if (token == "ply" || token == "PLY" || token == "") continue;
-        else if (token == "comment")    read_header_text(line, comments, 8);
-        else if (token == "format")     read_header_format(ls);
-        else if (token == "element")    read_header_element(ls);
-        else if (token == "property")   read_header_property(ls);
-        else if (token == "obj_info")   read_header_text(line, objInfo, 9);
-        else if (token == "end_header") break;
-        else success = false; // unexpected header field
-    }
-    return success;
-}
-
-void PlyFile::PlyFileImpl::read_header_text(std::string line, std::vector<std::string>& place, int erase)
-{
-    place.push_back((erase > 0) ? line.erase(0, erase) : line);
-}
-
-void PlyFile::PlyFileImpl::read_header_format(std::istream & is)
-{
-    std::string s;
-    (is >> s);
-    if (s == "binary_little_endian") isBinary = true;
-    else if (s == "binary_big_endian") isBinary = isBigEndian = true;
-}
-
-void PlyFile::PlyFileImpl::read_header_element(std::istream & is)
-{
-    elements.emplace_back(is);
-}
-
-void PlyFile::PlyFileImpl::read_header_property(std::istream & is)
-{
-    if (!elements.size()) throw std::runtime_error("no elements defined; file is malformed");
-    elements.back().properties.emplace_back(is);
-}
-
-size_t PlyFile::PlyFileImpl::read_property_binary(const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is)
-{
-    if (destOffset + stride > destSize)
-    {
-        throw std::runtime_error("unexpected EOF. malformed file?");
-    }
-
-    destOffset += stride;
-    is.read((char*)dest, stride);
-    return stride;
-}
-
-size_t PlyFile::PlyFileImpl::read_property_ascii(const Type & t, const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is)
-{
-    if (destOffset + stride > destSize)
-    {
-        throw std::runtime_error("unexpected EOF. malformed file?");
-    }
-
-    destOffset += stride;
-    switch (t)
-    {
-    case Type::INT8:       *((int8_t *)dest)  = static_cast<int8_t>(ply_read_ascii<int32_t>(is));   break;
-    case Type::UINT8:      *((uint8_t *)dest) = static_cast<uint8_t>(ply_read_ascii<uint32_t>(is)); break;
-    case Type::INT16:      ply_cast_ascii<int16_t>(dest, is);                 break;
-    case Type::UINT16:     ply_cast_ascii<uint16_t>(dest, is);                break;
-    case Type::INT32:      ply_cast_ascii<int32_t>(dest, is);                 break;
-    case Type::UINT32:     ply_cast_ascii<uint32_t>(dest, is);                break;
-    case Type::FLOAT32:    ply_cast_ascii<float>(dest, is);                   break;
-    case Type::FLOAT64:    ply_cast_ascii<double>(dest, is);                  break;
-    case Type::INVALID:    throw std::invalid_argument("invalid ply property");
-    }
-    return stride;
-}
-
-void PlyFile::PlyFileImpl::write_property_ascii(Type t, std::ostream & os, const uint8_t * src, size_t & srcOffset)
-{
-    switch (t)
-    {
-    case Type::INT8:       os << static_cast<int32_t>(*reinterpret_cast<const int8_t*>(src));   break;
-    case Type::UINT8:      os << static_cast<uint32_t>(*reinterpret_cast<const uint8_t*>(src)); break;
-    case Type::INT16:      os << *reinterpret_cast<const int16_t*>(src);  break;
-    case Type::UINT16:     os << *reinterpret_cast<const uint16_t*>(src); break;
-    case Type::INT32:      os << *reinterpret_cast<const int32_t*>(src);  break;
-    case Type::UINT32:     os << *reinterpret_cast<const uint32_t*>(src); break;
-    case Type::FLOAT32:    os << *reinterpret_cast<const float*>(src);    break;
-    case Type::FLOAT64:    os << *reinterpret_cast<const double*>(src);   break;
-    case Type::INVALID:    throw std::invalid_argument("invalid ply property");
-    }
-    os << " ";
-    srcOffset += PropertyTable[t].stride;
-}
-
-void PlyFile::PlyFileImpl::write_property_binary(std::ostream & os, const uint8_t * src, size_t & srcOffset, const size_t & stride) noexcept
-{
-    os.write((char *)src, stride);
-    srcOffset += stride;
-}
-
-void PlyFile::PlyFileImpl::read(std::istream & is)
-{
-    std::vector<std::shared_ptr<PlyData>> buffers;
-    for (auto & entry : userData) buffers.push_back(entry.second.data);
-
-    // Discover if we can allocate up front without parsing the file twice
-    uint32_t list_hints = 0;
-    for (auto & b : buffers) for (auto & entry : userData) {list_hints += entry.second.list_size_hint;(void)b;}
-
-    // No list hints? Then we need to calculate how much memory to allocate
-    if (list_hints == 0)
-    {
-        parse_data(is, true);
-    }
-
-    // Count the number of properties (required for allocation)
-    // e.g. if we have properties x y and z requested, we ensure
-    // that their buffer points to the same PlyData
-    std::unordered_map<PlyData*, int32_t> unique_data_count;
-    for (auto & ptr : buffers) unique_data_count[ptr.get()] += 1;
-
-    // Since group-requested properties share the same cursor,
-    // we need to find unique cursors so we only allocate once
-    std::sort(buffers.begin(), buffers.end());
-    buffers.erase(std::unique(buffers.begin(), buffers.end()), buffers.end());
-
-    // We sorted by ptrs on PlyData, need to remap back onto its cursor in the userData table
-    for (auto & b : buffers)
-    {
-        for (auto & entry : userData)
-        {
-            if (entry.second.data == b && b->buffer.get() == nullptr)
-            {
-                // If we didn't receive any list hints, it means we did two passes over the
-                // file to compute the total length of all (potentially) variable-length lists
-                if (list_hints == 0)
-                {
-                    b->buffer = Buffer(entry.second.cursor->totalSizeBytes);
-                }
-                else
-                {
-                    // otherwise, we can allocate up front, skipping the first pass.
-                    const size_t list_size_multiplier = (entry.second.data->isList ? entry.second.list_size_hint : 1);
-                    auto bytes_per_property = entry.second.data->count * PropertyTable[entry.second.data->t].stride * list_size_multiplier;
-                    bytes_per_property *= unique_data_count[b.get()];
-                    b->buffer = Buffer(bytes_per_property);
-                }
-
-            }
-        }
-    }
-
-    // Populate the data
-    parse_data(is, false);
-
-    // In-place big-endian to little-endian swapping if required
-    if (isBigEndian)
-    {
-        for (auto & b : buffers)
-        {
-            uint8_t * data_ptr = b->buffer.get();
-            const size_t stride = PropertyTable[b->t].stride;
-            const size_t buffer_size_bytes = b->buffer.size_bytes();
-
-            switch (b->t)
-            {
-            case Type::INT16:   endian_swap_buffer<int16_t, int16_t>(data_ptr, buffer_size_bytes, stride);   break;
-            case Type::UINT16:  endian_swap_buffer<uint16_t, uint16_t>(data_ptr, buffer_size_bytes, stride); break;
-            case Type::INT32:   endian_swap_buffer<int32_t, int32_t>(data_ptr, buffer_size_bytes, stride);   break;
-            case Type::UINT32:  endian_swap_buffer<uint32_t, uint32_t>(data_ptr, buffer_size_bytes, stride); break;
-            case Type::FLOAT32: endian_swap_buffer<uint32_t, float>(data_ptr, buffer_size_bytes, stride);    break;
-            case Type::FLOAT64: endian_swap_buffer<uint64_t, double>(data_ptr, buffer_size_bytes, stride);   break;
-            default: break;
-            }
-        }
-    }
-}
-
-void PlyFile::PlyFileImpl::write(std::ostream & os, bool _isBinary)
-{
-    for (auto & d : userData) { d.second.cursor->byteOffset = 0; }
-    if (_isBinary)
-    {
-        isBinary = true;
-        isBigEndian = false;
-        write_binary_internal(os);
-    }
-    else
-    {
-        isBinary = false;
-        isBigEndian = false;
-        write_ascii_internal(os);
-    }
-}
-
-void PlyFile::PlyFileImpl::write_binary_internal(std::ostream & os) noexcept
-{
-    isBinary = true;
-
-    write_header(os);
-
-    uint8_t listSize[4] = { 0, 0, 0, 0 };
-    size_t dummyCount = 0;
-
-    auto element_property_lookup = make_property_lookup_table();
-
-    size_t element_idx = 0;
-    for (auto & e : elements)
-    {
-        for (size_t i = 0; i < e.size; ++i)
-        {
-            size_t property_index = 0;
-            for (auto & p : e.properties)
-            {
-                auto & f = element_property_lookup[element_idx][property_index];
-                auto * helper = f.helper;
-                if (f.skip || helper == nullptr) continue;
-
-                if (p.isList)
-                {
-                    std::memcpy(listSize, &p.listCount, sizeof(uint32_t));
-                    write_property_binary(os, listSize, dummyCount, f.list_stride);
-                    write_property_binary(os, (helper->data->buffer.get_const() + helper->cursor->byteOffset), helper->cursor->byteOffset, f.prop_stride * p.listCount);
-                }
-                else
-                {
-                    write_property_binary(os, (helper->data->buffer.get_const() + helper->cursor->byteOffset), helper->cursor->byteOffset, f.prop_stride);
-                }
-                property_index++;
-            }
-        }
-        element_idx++;
-    }
-}
-
-void PlyFile::PlyFileImpl::write_ascii_internal(std::ostream & os) noexcept
-{
-    write_header(os);
-
-    auto element_property_lookup = make_property_lookup_table();
-
-    size_t element_idx = 0;
-    for (auto & e : elements)
-    {
-        for (size_t i = 0; i < e.size; ++i)
-        {
-            size_t property_index = 0;
-            for (auto & p : e.properties)
-            {
-                auto & f = element_property_lookup[element_idx][property_index];
-                auto * helper = f.helper;
-                if (f.skip || helper == nullptr) continue;
-
-                if (p.isList)
-                {
-                    os << p.listCount << " ";
-                    for (size_t j = 0; j < p.listCount; ++j)
-                    {
-                        write_property_ascii(p.propertyType, os, (helper->data->buffer.get() + helper->cursor->byteOffset), helper->cursor->byteOffset);
-                    }
-                }
-                else
-                {
-                    write_property_ascii(p.propertyType, os, (helper->data->buffer.get() + helper->cursor->byteOffset), helper->cursor->byteOffset);
-                }
-                property_index++;
-            }
-            os << "\n";
-        }
-        element_idx++;
-    }
-}
-
-void PlyFile::PlyFileImpl::write_header(std::ostream & os) noexcept
-{
-    const std::locale & fixLoc = std::locale("C");
-    os.imbue(fixLoc);
-
-    os << "ply\n";
-    if (isBinary) os << ((isBigEndian) ? "format binary_big_endian 1.0" : "format binary_little_endian 1.0") << "\n";
-    else os << "format ascii 1.0\n";
-
-    for (const auto & comment : comments) os << "comment " << comment << "\n";
-
-    auto property_lookup = make_property_lookup_table();
-
-    size_t element_idx = 0;
-    for (auto & e : elements)
-    {
-        os << "element " << e.name << " " << e.size << "\n";
-        size_t property_idx = 0;
-        for (const auto & p : e.properties)
-        {
-            PropertyLookup & lookup = property_lookup[element_idx][property_idx];
-
-            if (!lookup.skip)
-            {
-                if (p.isList)
-                {
-                    os << "property list " << PropertyTable[p.listType].str << " "
-                       << PropertyTable[p.propertyType].str << " " << p.name << "\n";
-                }
-                else
-                {
-                    os << "property " << PropertyTable[p.propertyType].str << " " << p.name << "\n";
-                }
-            }
-            property_idx++;
-        }
-        element_idx++;
-    }
-    os << "end_header\n";
-}
-
-std::shared_ptr<PlyData> PlyFile::PlyFileImpl::request_properties_from_element(const std::string & elementKey,
-    const std::vector<std::string> propertyKeys,
-    const uint32_t list_size_hint)
-{
-    if (elements.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
-    if (elementKey.empty()) throw std::invalid_argument("`elementKey` argument is empty");
-    if (propertyKeys.empty()) throw std::invalid_argument("`propertyKeys` argument is empty");
-
-    std::shared_ptr<PlyData> out_data = std::make_shared<PlyData>();
-
-    const int64_t elementIndex = find_element(elementKey, elements);
-
-    std::vector<std::string> keys_not_found;
-
-    // std::cout << "Requesting properties from element " << elementKey << "\n";
-
-    // Sanity check if the user requested element is in the pre-parsed header
-    if (elementIndex >= 0)
-    {
-        // std::cout << "Element " << elementKey << " found in pre-parsed header.\n";
-        // We found the element
-        const PlyElement & element = elements[elementIndex];
-
-        // Each key in `propertyKey` gets an entry into the userData map (keyed by a hash of
-        // element name and property name), but groups of properties (requested from the
-        // public api through this function) all share the same `ParsingHelper`. When it comes
-        // time to .read(), we check the number of unique PlyData shared pointers
-        // and allocate a single buffer that will be used by each property key group.
-        // That way, properties like, {"x", "y", "z"} will all be put into the same buffer.
-
-        ParsingHelper helper;
-        helper.data = out_data;
-        helper.data->count = element.size; // how many items are in the element?
-        helper.data->isList = false;
-        helper.data->t = Type::INVALID;
-        helper.cursor = std::make_shared<PlyDataCursor>();
-        helper.list_size_hint = list_size_hint;
-
-        // std::cout << "Element " << elementKey << " has " << element.properties.size() << " properties and " << element.size << " items.\n";
-
-        // Find each of the keys
-        for (const auto & key : propertyKeys)
-        {
-            // std::cout << "Searching for property " << key << "\n";
-            // std::cout << "Property " << key << " has type " << property_type_to_string(helper.data->t) << "\n";
-            const int64_t propertyIndex = find_property(key, element.properties);
-            // std:: cout << "Property " << key << " has index " << propertyIndex << "\n";
-            if (propertyIndex < 0) keys_not_found.push_back(key);
-        }
-
-        if (keys_not_found.size())
-        {
-            std::stringstream ss;
-            for (auto & str : keys_not_found) ss << str << ", ";
-            throw std::invalid_argument("the following property keys were not found in the header: " + ss.str());
-        }
-
-        for (const auto & key : propertyKeys)
-        {
-            const int64_t propertyIndex = find_property(key, element.properties);
-            const PlyProperty & property = element.properties[propertyIndex];
-            helper.data->t = property.propertyType;
-            helper.data->isList = property.isList;
-            auto result = userData.insert(std::pair<uint32_t, ParsingHelper>(hash_fnv1a(element.name + property.name), helper));
-            if (result.second == false)
-            {
-                throw std::invalid_argument("element-property key has already been requested: " + element.name + " " + property.name);
-            }
-        }
-
-        // Sanity check that all properties share the same type
-        std::vector<Type> propertyTypes;
-        for (const auto & key : propertyKeys)
-        {
-            const int64_t propertyIndex = find_property(key, element.properties);
-            const PlyProperty & property = element.properties[propertyIndex];
-            propertyTypes.push_back(property.propertyType);
-        }
-
-        if (std::adjacent_find(propertyTypes.begin(), propertyTypes.end(), std::not_equal_to<Type>()) != propertyTypes.end())
-        {
-            throw std::invalid_argument("all requested properties must share the same type.");
-        }
-    }
-    else throw std::invalid_argument("the element key was not found in the header: " + elementKey);
-
-    return out_data;
-}
-
-void PlyFile::PlyFileImpl::add_properties_to_element(const std::string & elementKey,
-    const std::vector<std::string> propertyKeys,
-    const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount)
-{
-    ParsingHelper helper;
-    helper.data = std::make_shared<PlyData>();
-    helper.data->count = count;
-    helper.data->t = type;
-    helper.data->buffer = Buffer(data); // we should also set size for safety reasons
-    helper.cursor = std::make_shared<PlyDataCursor>();
-
-    auto create_property_on_element = [&](PlyElement & e)
-    {
-        for (auto key : propertyKeys)
-        {
-            PlyProperty newProp = (listType == Type::INVALID) ? PlyProperty(type, key) : PlyProperty(listType, type, key, listCount);
-            userData.insert(std::pair<uint32_t, ParsingHelper>(hash_fnv1a(elementKey + key), helper));
-            e.properties.push_back(newProp);
-        }
-    };
-
-    const int64_t idx = find_element(elementKey, elements);
-    if (idx >= 0)
-    {
-        PlyElement & e = elements[idx];
-        create_property_on_element(e);
-    }
-    else
-    {
-        PlyElement newElement = (listType == Type::INVALID) ? PlyElement(elementKey, count) : PlyElement(elementKey, count);
-        create_property_on_element(newElement);
-        elements.push_back(newElement);
-    }
-}
-
-void PlyFile::PlyFileImpl::parse_data(std::istream & is, bool firstPass)
-{
-    std::function<void(PropertyLookup & f, const PlyProperty & p, uint8_t * dest, size_t & destOffset, size_t destSize, std::istream & is)> read;
-    std::function<size_t(PropertyLookup & f, const PlyProperty & p, std::istream & is)> skip;
-
-    const auto start = is.tellg();
-
-    uint32_t listSize = 0;
-    size_t dummyCount = 0;
-    std::string skip_ascii_buffer;
-
-    // Special case mirroring read_property_binary but for list types; this
-    // has an additional big endian check to flip the data in place immediately
-    // after reading. We do this as a performance optimization; endian flipping is
-    // done on regular properties as a post-process after reading (also for optimization)
-    // but we need the correct little-endian list count as we read the file.
-    auto read_list_binary = [this](const Type & t, void * dst, size_t & destOffset, const size_t & stride, std::istream & _is) noexcept
-    {
-        destOffset += stride;
-        _is.read((char*)dst, stride);
-
-        if (isBigEndian)
-        {
-            switch (t)
-            {
-            case Type::INT16:  *(int16_t*)dst  = endian_swap<int16_t, int16_t>(*(int16_t*)dst);    break;
-            case Type::UINT16: *(uint16_t*)dst = endian_swap<uint16_t, uint16_t>(*(uint16_t*)dst); break;
-            case Type::INT32:  *(int32_t*)dst  = endian_swap<int32_t, int32_t>(*(int32_t*)dst);    break;
-            case Type::UINT32: *(uint32_t*)dst = endian_swap<uint32_t, uint32_t>(*(uint32_t*)dst); break;
-            default: break;
-            }
-        }
-
-        return stride;
-    };
-
-    if (isBinary)
-    {
-        read = [this, &listSize, &dummyCount, &read_list_binary](PropertyLookup & f, const PlyProperty & p, uint8_t * dest, size_t & destOffset, size_t destSize, std::istream & _is)
-        {
-            if (!p.isList)
-            {
-                return read_property_binary(f.prop_stride, dest + destOffset, destOffset, destSize, _is);
-            }
-            read_list_binary(p.listType, &listSize, dummyCount, f.list_stride, _is); // the list size
-            return read_property_binary(f.prop_stride * listSize, dest + destOffset, destOffset, destSize, _is); // properties in list
-        };
-        skip = [this, &listSize, &dummyCount, &read_list_binary](PropertyLookup & f, const PlyProperty & p, std::istream & _is) noexcept
-        {
-            if (!p.isList)
-            {
-                _is.read((char*)scratch, f.prop_stride);
-                return f.prop_stride;
-            }
-            read_list_binary(p.listType, &listSize, dummyCount, f.list_stride, _is); // the list size (does not count for memory alloc)
-            auto bytes_to_skip = f.prop_stride * listSize;
-            _is.ignore(bytes_to_skip);
-            return bytes_to_skip;
-        };
-    }
-    else
-    {
-        read = [this, &listSize, &dummyCount](PropertyLookup & f, const PlyProperty & p, uint8_t * dest, size_t & destOffset, size_t destSize, std::istream & _is)
-        {
-            if (!p.isList)
-            {
-                read_property_ascii(p.propertyType, f.prop_stride, dest + destOffset, destOffset, destSize, _is);
-            }
-            else
-            {
-                read_property_ascii(p.listType, f.list_stride, &listSize, dummyCount, destSize, _is); // the list size
-                 for (size_t i = 0; i < listSize; ++i)
-                 {
-                     read_property_ascii(p.propertyType, f.prop_stride, dest + destOffset, destOffset, destSize, _is);
-                 }
-            }
-        };
-        skip = [this, &listSize, &dummyCount, &skip_ascii_buffer](PropertyLookup & f, const PlyProperty & p, std::istream & _is) noexcept
-        {
-            skip_ascii_buffer.clear();
-            if (p.isList)
-            {
-                dummyCount = 0;
-                read_property_ascii(p.listType, f.list_stride, &listSize, dummyCount, sizeof(listSize), _is); // the list size (does not count for memory alloc)
-                for (size_t i = 0; i < listSize; ++i) _is >> skip_ascii_buffer; // properties in list
-                return listSize * f.prop_stride;
-            }
-            _is >> skip_ascii_buffer;
-            return f.prop_stride;
-        };
-    }
-
-    std::vector<std::vector<PropertyLookup>> element_property_lookup = make_property_lookup_table();
-    size_t element_idx = 0;
-    size_t property_idx = 0;
-    ParsingHelper * helper {nullptr};
-
-    // This is the inner import loop
-    for (auto & element : elements)
-    {
-        for (size_t count = 0; count < element.size; ++count)
-        {
-            property_idx = 0;
-            for (auto & property : element.properties)
-            {
-                PropertyLookup & lookup = element_property_lookup[element_idx][property_idx];
-
-                if (!lookup.skip)
-                {
-                    helper = lookup.helper;
-                    if (firstPass)
-                    {
-                        helper->cursor->totalSizeBytes += skip(lookup, property, is);
-
-                        // These lines will be changed when tinyply supports
-                        // variable length lists. We add it here so our header data structure
-                        // contains enough info to write it back out again (e.g. transcoding).
-                        if (property.listCount == 0) property.listCount = listSize;
-                        if (property.listCount != listSize) throw std::runtime_error("variable length lists are not supported yet.");
-                    }
-                    else
-                    {
-                        const size_t destSize = helper->data->buffer.size_bytes();
-                        read(lookup, property, helper->data->buffer.get(), helper->cursor->byteOffset, destSize, is);
-                    }
-                }
-                else
-                {
-                    skip(lookup, property, is);
-                }
-                property_idx++;
-            }
-        }
-        element_idx++;
-    }
-
-    // Reset istream position to the start of the data
-    if (firstPass) is.seekg(start, is.beg);
-}
-
-// Wrap the public interface:
-
-PlyFile::PlyFile() { impl.reset(new PlyFileImpl()); }
-PlyFile::~PlyFile() { }
-bool PlyFile::parse_header(std::istream & is) { return impl->parse_header(is); }
-void PlyFile::read(std::istream & is) { return impl->read(is); }
-void PlyFile::write(std::ostream & os, bool isBinary) { return impl->write(os, isBinary); }
-std::vector<PlyElement> PlyFile::get_elements() const { return impl->elements; }
-std::vector<std::string> & PlyFile::get_comments() { return impl->comments; }
-std::vector<std::string> PlyFile::get_info() const { return impl->objInfo; }
-bool PlyFile::is_binary_file() const { return impl->isBinary; }
-std::shared_ptr<PlyData> PlyFile::request_properties_from_element(const std::string & elementKey,
-    const std::vector<std::string> propertyKeys,
-    const uint32_t list_size_hint)
-{
-    return impl->request_properties_from_element(elementKey, propertyKeys, list_size_hint);
-}
-void PlyFile::add_properties_to_element(const std::string & elementKey,
-    const std::vector<std::string> propertyKeys,
-    const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount)
-{
-    return impl->add_properties_to_element(elementKey, propertyKeys, type, count, data, listType, listCount);
-}
-
-} // end namespace tinyply
-
-#endif // end TINYPLY_IMPLEMENTATION
+/*
+ * tinyply 2.3.4 (https://github.com/ddiakopoulos/tinyply)
+ *
+ * A single-header, zero-dependency (except the C++ STL) public domain implementation
+ * of the PLY mesh file format. Requires C++11; errors are handled through exceptions.
+ *
+ * This software is in the public domain. Where that dedication is not
+ * recognized, you are granted a perpetual, irrevocable license to copy,
+ * distribute, and modify this file as you see fit.
+ *
+ * Authored by Dimitri Diakopoulos (http://www.dimitridiakopoulos.com)
+ *
+ * tinyply.h may be included in many files, however in a single compiled file,
+ * the implementation must be created with the following defined prior to header inclusion
+ * #define TINYPLY_IMPLEMENTATION
+ *
+ */
+
+////////////////////////
+//   tinyply header   //
+////////////////////////
+
+#ifndef tinyply_h
+#define tinyply_h
+
+#include <vector>
+#include <string>
+#include <stdint.h>
+#include <cstddef>
+#include <sstream>
+#include <memory>
+#include <unordered_map>
+#include <map>
+#include <algorithm>
+#include <functional>
+
+namespace tinyply
+{
+
+    enum class Type : uint8_t
+    {
+        INVALID,
+        INT8,
+        UINT8,
+        INT16,
+        UINT16,
+        INT32,
+        UINT32,
+        FLOAT32,
+        FLOAT64
+    };
+
+    struct PropertyInfo
+    {
+        PropertyInfo() {};
+        PropertyInfo(int stride, std::string str)
+            : stride(stride), str(str) {}
+        int stride {0};
+        std::string str;
+    };
+
+    static std::map<Type, PropertyInfo> PropertyTable
+    {
+        { Type::INT8,    PropertyInfo(1, std::string("char")) },
+        { Type::UINT8,   PropertyInfo(1, std::string("uchar")) },
+        { Type::INT16,   PropertyInfo(2, std::string("short")) },
+        { Type::UINT16,  PropertyInfo(2, std::string("ushort")) },
+        { Type::INT32,   PropertyInfo(4, std::string("int")) },
+        { Type::UINT32,  PropertyInfo(4, std::string("uint")) },
+        { Type::FLOAT32, PropertyInfo(4, std::string("float")) },
+        { Type::FLOAT64, PropertyInfo(8, std::string("double")) },
+        { Type::INVALID, PropertyInfo(0, std::string("INVALID"))}
+    };
+
+    class Buffer
+    {
+        uint8_t * alias{ nullptr };
+        struct delete_array { void operator()(uint8_t * p) { delete[] p; } };
+        std::unique_ptr<uint8_t, decltype(Buffer::delete_array())> data;
+        size_t size {0};
+    public:
+        Buffer() {};
+        Buffer(const size_t size) : data(new uint8_t[size], delete_array()), size(size) { alias = data.get(); } // allocating
+        Buffer(const uint8_t * ptr): alias(const_cast<uint8_t*>(ptr)) { } // non-allocating, todo: set size?
+        uint8_t * get() { return alias; }
+        const uint8_t * get_const() {return const_cast<const uint8_t*>(alias); }
+        size_t size_bytes() const { return size; }
+    };
+
+    struct PlyData
+    {
+        Type t;
+        Buffer buffer;
+        size_t count {0};
+        bool isList {false};
+    };
+
+    struct PlyProperty
+    {
+        PlyProperty(std::istream & is);
+        PlyProperty(Type type, std::string & _name) : name(_name), propertyType(type) {}
+        PlyProperty(Type list_type, Type prop_type, std::string & _name, size_t list_count)
+            : name(_name), propertyType(prop_type), isList(true), listType(list_type), listCount(list_count) {}
+        std::string name;
+        Type propertyType{ Type::INVALID };
+        bool isList{ false };
+        Type listType{ Type::INVALID };
+        size_t listCount {0};
+    };
+
+    struct PlyElement
+    {
+        PlyElement(std::istream & istream);
+        PlyElement(const std::string & _name, size_t count) : name(_name), size(count) {}
+        std::string name;
+        size_t size {0};
+        std::vector<PlyProperty> properties;
+    };
+
+    struct PlyFile
+    {
+        struct PlyFileImpl;
+        std::unique_ptr<PlyFileImpl> impl;
+
+        PlyFile();
+        ~PlyFile();
+
+        /*
+         * The ply format requires an ascii header. This can be used to determine at
+         * runtime which properties or elements exist in the file. Limited validation of the
+         * header is performed; it is assumed the header correctly reflects the contents of the
+         * payload. This function may throw. Returns true on success, false on failure.
+         */
+        bool parse_header(std::istream & is);
+
+        /*
+         * Execute a read operation. Data must be requested via `request_properties_from_element(...)`
+         * prior to calling this function.
+         */
+        void read(std::istream & is);
+
+        /*
+         * `write` performs no validation and assumes that the data passed into
+         * `add_properties_to_element` is well-formed.
+         */
+        void write(std::ostream & os, bool isBinary);
+
+        /*
+         * These functions are valid after a call to `parse_header(...)`. In the case of
+         * writing, get_comments() reference may also be used to add new comments to the ply header.
+         */
+        std::vector<PlyElement> get_elements() const;
+        std::vector<std::string> get_info() const;
+        std::vector<std::string> & get_comments();
+        bool is_binary_file() const;
+
+        /*
+         * In the general case where |list_size_hint| is zero, `read` performs a two-pass
+         * parse to support variable length lists. The most general use of the
+         * ply format is storing triangle meshes. When this fact is known a-priori, we can pass
+         * an expected list length that will apply to this element. Doing so results in an up-front
+         * memory allocation and a single-pass import, a 2x performance optimization.
+         */
+        std::shared_ptr<PlyData> request_properties_from_element(const std::string & elementKey,
+            const std::vector<std::string> propertyKeys, const uint32_t list_size_hint = 0);
+
+        void add_properties_to_element(const std::string & elementKey,
+            const std::vector<std::string> propertyKeys,
+            const Type type,
+            const size_t count,
+            const uint8_t * data,
+            const Type listType,
+            const size_t listCount);
+    };
+
+} // end namespace tinyply
+
+#endif // end tinyply_h
+
+////////////////////////////////
+//   tinyply implementation   //
+////////////////////////////////
+
+#ifdef TINYPLY_IMPLEMENTATION
+
+#include <algorithm>
+#include <functional>
+#include <type_traits>
+#include <iostream>
+#include <cstring>
+
+namespace tinyply
+{
+
+using namespace std;
+
+template<typename T, typename T2> inline T2 endian_swap(const T & v) noexcept { return v; }
+template<> inline uint16_t endian_swap<uint16_t, uint16_t>(const uint16_t & v) noexcept { return (v << 8) | (v >> 8); }
+template<> inline uint32_t endian_swap<uint32_t, uint32_t>(const uint32_t & v) noexcept { return (v << 24) | ((v << 8) & 0x00ff0000) | ((v >> 8) & 0x0000ff00) | (v >> 24); }
+template<> inline uint64_t endian_swap<uint64_t, uint64_t>(const uint64_t & v) noexcept
+{
+    return (((v & 0x00000000000000ffLL) << 56) |
+            ((v & 0x000000000000ff00LL) << 40) |
+            ((v & 0x0000000000ff0000LL) << 24) |
+            ((v & 0x00000000ff000000LL) << 8)  |
+            ((v & 0x000000ff00000000LL) >> 8)  |
+            ((v & 0x0000ff0000000000LL) >> 24) |
+            ((v & 0x00ff000000000000LL) >> 40) |
+            ((v & 0xff00000000000000LL) >> 56));
+}
+template<> inline int16_t endian_swap<int16_t, int16_t>(const int16_t & v) noexcept { uint16_t r = endian_swap<uint16_t, uint16_t>(*(uint16_t*)&v); return *(int16_t*)&r; }
+template<> inline int32_t endian_swap<int32_t, int32_t>(const int32_t & v) noexcept { uint32_t r = endian_swap<uint32_t, uint32_t>(*(uint32_t*)&v); return *(int32_t*)&r; }
+template<> inline int64_t endian_swap<int64_t, int64_t>(const int64_t & v) noexcept { uint64_t r = endian_swap<uint64_t, uint64_t>(*(uint64_t*)&v); return *(int64_t*)&r; }
+template<> inline float endian_swap<uint32_t, float>(const uint32_t & v) noexcept { union { float f; uint32_t i; }; i = endian_swap<uint32_t, uint32_t>(v); return f; }
+template<> inline double endian_swap<uint64_t, double>(const uint64_t & v) noexcept { union { double d; uint64_t i; }; i = endian_swap<uint64_t, uint64_t>(v); return d; }
+
+inline uint32_t hash_fnv1a(const std::string & str) noexcept
+{
+    static const uint32_t fnv1aBase32 = 0x811C9DC5u;
+    static const uint32_t fnv1aPrime32 = 0x01000193u;
+    uint32_t result = fnv1aBase32;
+    for (auto & c : str) { result ^= static_cast<uint32_t>(c); result *= fnv1aPrime32; }
+    return result;
+}
+
+inline Type property_type_from_string(const std::string & t) noexcept
+{
+    if (t == "int8" || t == "char")           return Type::INT8;
+    else if (t == "uint8" || t == "uchar")    return Type::UINT8;
+    else if (t == "int16" || t == "short")    return Type::INT16;
+    else if (t == "uint16" || t == "ushort")  return Type::UINT16;
+    else if (t == "int32" || t == "int")      return Type::INT32;
+    else if (t == "uint32" || t == "uint")    return Type::UINT32;
+    else if (t == "float32" || t == "float")  return Type::FLOAT32;
+    else if (t == "float64" || t == "double") return Type::FLOAT64;
+    return Type::INVALID;
+}
+
+struct PlyFile::PlyFileImpl
+{
+    struct PlyDataCursor
+    {
+        size_t byteOffset{ 0 };
+        size_t totalSizeBytes{ 0 };
+    };
+
+    struct ParsingHelper
+    {
+        std::shared_ptr<PlyData> data;
+        std::shared_ptr<PlyDataCursor> cursor;
+        uint32_t list_size_hint;
+    };
+
+    struct PropertyLookup
+    {
+        ParsingHelper * helper{ nullptr };
+        bool skip{ false };
+        size_t prop_stride{ 0 }; // precomputed
+        size_t list_stride{ 0 }; // precomputed
+    };
+
+    std::unordered_map<uint32_t, ParsingHelper> userData;
+
+    bool isBinary = false;
+    bool isBigEndian = false;
+    std::vector<PlyElement> elements;
+    std::vector<std::string> comments;
+    std::vector<std::string> objInfo;
+    uint8_t scratch[64]; // large enough for max list size
+
+    void read(std::istream & is);
+    void write(std::ostream & os, bool isBinary);
+
+    std::shared_ptr<PlyData> request_properties_from_element(const std::string & elementKey,
+        const std::vector<std::string> propertyKeys,
+        const uint32_t list_size_hint);
+
+    void add_properties_to_element(const std::string & elementKey,
+        const std::vector<std::string> propertyKeys,
+        const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount);
+
+    size_t read_property_binary(const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is);
+    size_t read_property_ascii(const Type & t, const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is);
+
+    std::vector<std::vector<PropertyLookup>> make_property_lookup_table();
+
+    bool parse_header(std::istream & is);
+    void parse_data(std::istream & is, bool firstPass);
+    void read_header_format(std::istream & is);
+    void read_header_element(std::istream & is);
+    void read_header_property(std::istream & is);
+    void read_header_text(std::string line, std::vector<std::string> & place, int erase = 0);
+
+    void write_header(std::ostream & os) noexcept;
+    void write_ascii_internal(std::ostream & os) noexcept;
+    void write_binary_internal(std::ostream & os) noexcept;
+    void write_property_ascii(Type t, std::ostream & os, const uint8_t * src, size_t & srcOffset);
+    void write_property_binary(std::ostream & os, const uint8_t * src, size_t & srcOffset, const size_t & stride) noexcept;
+};
+
+PlyProperty::PlyProperty(std::istream & is) : isList(false)
+{
+    std::string type;
+    is >> type;
+    if (type == "list")
+    {
+        std::string countType;
+        is >> countType >> type;
+        listType = property_type_from_string(countType);
+        isList = true;
+    }
+    propertyType = property_type_from_string(type);
+    is >> name;
+}
+
+PlyElement::PlyElement(std::istream & is)
+{
+    is >> name >> size;
+}
+
+template<typename T> inline T ply_read_ascii(std::istream & is)
+{
+    T data;
+    is >> data;
+    return data;
+}
+
+template<typename T, typename T2>
+inline void endian_swap_buffer(uint8_t * data_ptr, const size_t num_bytes, const size_t stride)
+{
+    for (size_t count = 0; count < num_bytes; count += stride)
+    {
+        *(reinterpret_cast<T2 *>(data_ptr)) = endian_swap<T, T2>(*(reinterpret_cast<const T *>(data_ptr)));
+        data_ptr += stride;
+    }
+}
+
+template<typename T> void ply_cast_ascii(void * dest, std::istream & is)
+{
+    *(static_cast<T *>(dest)) = ply_read_ascii<T>(is);
+}
+
+int64_t find_element(const std::string & key, const std::vector<PlyElement> & list)
+{
+    for (size_t i = 0; i < list.size(); i++) if (list[i].name == key) return i;
+    return -1;
+}
+
+int64_t find_property(const std::string & key, const std::vector<PlyProperty> & list)
+{
+    for (size_t i = 0; i < list.size(); ++i) if (list[i].name == key) return i;
+    return -1;
+}
+
+// The `userData` table is an easy data structure for capturing what data the
+// user would like out of the ply file, but an inner-loop hash lookup is non-ideal.
+// The property lookup table flattens the table down into a 2D array optimized
+// for parsing. The first index is the element, and the second index is the property.
+std::vector<std::vector<PlyFile::PlyFileImpl::PropertyLookup>> PlyFile::PlyFileImpl::make_property_lookup_table()
+{
+    std::vector<std::vector<PropertyLookup>> element_property_lookup;
+
+    for (auto & element : elements)
+    {
+        std::vector<PropertyLookup> lookups;
+
+        for (auto & property : element.properties)
+        {
+            PropertyLookup f;
+
+            auto cursorIt = userData.find(hash_fnv1a(element.name + property.name));
+            if (cursorIt != userData.end()) f.helper = &cursorIt->second;
+            else f.skip = true;
+
+            f.prop_stride = PropertyTable[property.propertyType].stride;
+            if (property.isList) f.list_stride = PropertyTable[property.listType].stride;
+
+            lookups.push_back(f);
+        }
+
+        element_property_lookup.push_back(lookups);
+    }
+
+    return element_property_lookup;
+}
+
+bool PlyFile::PlyFileImpl::parse_header(std::istream & is)
+{
+    std::string line;
+    bool success = true;
+    while (std::getline(is, line))
+    {
+        std::istringstream ls(line);
+        std::string token;
+        ls >> token;
+        if (token == "ply" || token == "PLY" || token == "") continue;
+        else if (token == "comment")    read_header_text(line, comments, 8);
+        else if (token == "format")     read_header_format(ls);
+        else if (token == "element")    read_header_element(ls);
+        else if (token == "property")   read_header_property(ls);
+        else if (token == "obj_info")   read_header_text(line, objInfo, 9);
+        else if (token == "end_header") break;
+        else success = false; // unexpected header field
+    }
+    return success;
+}
+
+void PlyFile::PlyFileImpl::read_header_text(std::string line, std::vector<std::string>& place, int erase)
+{
+    place.push_back((erase > 0) ? line.erase(0, erase) : line);
+}
+
+void PlyFile::PlyFileImpl::read_header_format(std::istream & is)
+{
+    std::string s;
+    (is >> s);
+    if (s == "binary_little_endian") isBinary = true;
+    else if (s == "binary_big_endian") isBinary = isBigEndian = true;
+}
+
+void PlyFile::PlyFileImpl::read_header_element(std::istream & is)
+{
+    elements.emplace_back(is);
+}
+
+void PlyFile::PlyFileImpl::read_header_property(std::istream & is)
+{
+    if (!elements.size()) throw std::runtime_error("no elements defined; file is malformed");
+    elements.back().properties.emplace_back(is);
+}
+
+size_t PlyFile::PlyFileImpl::read_property_binary(const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is)
+{
+    if (destOffset + stride > destSize)
+    {
+        throw std::runtime_error("unexpected EOF. malformed file?");
+    }
+
+    destOffset += stride;
+    is.read((char*)dest, stride);
+    return stride;
+}
+
+size_t PlyFile::PlyFileImpl::read_property_ascii(const Type & t, const size_t & stride, void * dest, size_t & destOffset, size_t destSize, std::istream & is)
+{
+    if (destOffset + stride > destSize)
+    {
+        throw std::runtime_error("unexpected EOF. malformed file?");
+    }
+
+    destOffset += stride;
+    switch (t)
+    {
+    case Type::INT8:       *((int8_t *)dest)  = static_cast<int8_t>(ply_read_ascii<int32_t>(is));   break;
+    case Type::UINT8:      *((uint8_t *)dest) = static_cast<uint8_t>(ply_read_ascii<uint32_t>(is)); break;
+    case Type::INT16:      ply_cast_ascii<int16_t>(dest, is);                 break;
+    case Type::UINT16:     ply_cast_ascii<uint16_t>(dest, is);                break;
+    case Type::INT32:      ply_cast_ascii<int32_t>(dest, is);                 break;
+    case Type::UINT32:     ply_cast_ascii<uint32_t>(dest, is);                break;
+    case Type::FLOAT32:    ply_cast_ascii<float>(dest, is);                   break;
+    case Type::FLOAT64:    ply_cast_ascii<double>(dest, is);                  break;
+    case Type::INVALID:    throw std::invalid_argument("invalid ply property");
+    }
+    return stride;
+}
+
+void PlyFile::PlyFileImpl::write_property_ascii(Type t, std::ostream & os, const uint8_t * src, size_t & srcOffset)
+{
+    switch (t)
+    {
+    case Type::INT8:       os << static_cast<int32_t>(*reinterpret_cast<const int8_t*>(src));   break;
+    case Type::UINT8:      os << static_cast<uint32_t>(*reinterpret_cast<const uint8_t*>(src)); break;
+    case Type::INT16:      os << *reinterpret_cast<const int16_t*>(src);  break;
+    case Type::UINT16:     os << *reinterpret_cast<const uint16_t*>(src); break;
+    case Type::INT32:      os << *reinterpret_cast<const int32_t*>(src);  break;
+    case Type::UINT32:     os << *reinterpret_cast<const uint32_t*>(src); break;
+    case Type::FLOAT32:    os << *reinterpret_cast<const float*>(src);    break;
+    case Type::FLOAT64:    os << *reinterpret_cast<const double*>(src);   break;
+    case Type::INVALID:    throw std::invalid_argument("invalid ply property");
+    }
+    os << " ";
+    srcOffset += PropertyTable[t].stride;
+}
+
+void PlyFile::PlyFileImpl::write_property_binary(std::ostream & os, const uint8_t * src, size_t & srcOffset, const size_t & stride) noexcept
+{
+    os.write((char *)src, stride);
+    srcOffset += stride;
+}
+
+void PlyFile::PlyFileImpl::read(std::istream & is)
+{
+    std::vector<std::shared_ptr<PlyData>> buffers;
+    for (auto & entry : userData) buffers.push_back(entry.second.data);
+
+    // Discover if we can allocate up front without parsing the file twice
+    uint32_t list_hints = 0;
+    for (auto & b : buffers) for (auto & entry : userData) {list_hints += entry.second.list_size_hint;(void)b;}
+
+    // No list hints? Then we need to calculate how much memory to allocate
+    if (list_hints == 0)
+    {
+        parse_data(is, true);
+    }
+
+    // Count the number of properties (required for allocation)
+    // e.g. if we have properties x y and z requested, we ensure
+    // that their buffer points to the same PlyData
+    std::unordered_map<PlyData*, int32_t> unique_data_count;
+    for (auto & ptr : buffers) unique_data_count[ptr.get()] += 1;
+
+    // Since group-requested properties share the same cursor,
+    // we need to find unique cursors so we only allocate once
+    std::sort(buffers.begin(), buffers.end());
+    buffers.erase(std::unique(buffers.begin(), buffers.end()), buffers.end());
+
+    // We sorted by ptrs on PlyData, need to remap back onto its cursor in the userData table
+    for (auto & b : buffers)
+    {
+        for (auto & entry : userData)
+        {
+            if (entry.second.data == b && b->buffer.get() == nullptr)
+            {
+                // If we didn't receive any list hints, it means we did two passes over the
+                // file to compute the total length of all (potentially) variable-length lists
+                if (list_hints == 0)
+                {
+                    b->buffer = Buffer(entry.second.cursor->totalSizeBytes);
+                }
+                else
+                {
+                    // otherwise, we can allocate up front, skipping the first pass.
+                    const size_t list_size_multiplier = (entry.second.data->isList ? entry.second.list_size_hint : 1);
+                    auto bytes_per_property = entry.second.data->count * PropertyTable[entry.second.data->t].stride * list_size_multiplier;
+                    bytes_per_property *= unique_data_count[b.get()];
+                    b->buffer = Buffer(bytes_per_property);
+                }
+
+            }
+        }
+    }
+
+    // Populate the data
+    parse_data(is, false);
+
+    // In-place big-endian to little-endian swapping if required
+    if (isBigEndian)
+    {
+        for (auto & b : buffers)
+        {
+            uint8_t * data_ptr = b->buffer.get();
+            const size_t stride = PropertyTable[b->t].stride;
+            const size_t buffer_size_bytes = b->buffer.size_bytes();
+
+            switch (b->t)
+            {
+            case Type::INT16:   endian_swap_buffer<int16_t, int16_t>(data_ptr, buffer_size_bytes, stride);   break;
+            case Type::UINT16:  endian_swap_buffer<uint16_t, uint16_t>(data_ptr, buffer_size_bytes, stride); break;
+            case Type::INT32:   endian_swap_buffer<int32_t, int32_t>(data_ptr, buffer_size_bytes, stride);   break;
+            case Type::UINT32:  endian_swap_buffer<uint32_t, uint32_t>(data_ptr, buffer_size_bytes, stride); break;
+            case Type::FLOAT32: endian_swap_buffer<uint32_t, float>(data_ptr, buffer_size_bytes, stride);    break;
+            case Type::FLOAT64: endian_swap_buffer<uint64_t, double>(data_ptr, buffer_size_bytes, stride);   break;
+            default: break;
+            }
+        }
+    }
+}
+
+void PlyFile::PlyFileImpl::write(std::ostream & os, bool _isBinary)
+{
+    for (auto & d : userData) { d.second.cursor->byteOffset = 0; }
+    if (_isBinary)
+    {
+        isBinary = true;
+        isBigEndian = false;
+        write_binary_internal(os);
+    }
+    else
+    {
+        isBinary = false;
+        isBigEndian = false;
+        write_ascii_internal(os);
+    }
+}
+
+void PlyFile::PlyFileImpl::write_binary_internal(std::ostream & os) noexcept
+{
+    isBinary = true;
+
+    write_header(os);
+
+    uint8_t listSize[4] = { 0, 0, 0, 0 };
+    size_t dummyCount = 0;
+
+    auto element_property_lookup = make_property_lookup_table();
+
+    size_t element_idx = 0;
+    for (auto & e : elements)
+    {
+        for (size_t i = 0; i < e.size; ++i)
+        {
+            size_t property_index = 0;
+            for (auto & p : e.properties)
+            {
+                auto & f = element_property_lookup[element_idx][property_index];
+                auto * helper = f.helper;
+                if (f.skip || helper == nullptr) continue;
+
+                if (p.isList)
+                {
+                    std::memcpy(listSize, &p.listCount, sizeof(uint32_t));
+                    write_property_binary(os, listSize, dummyCount, f.list_stride);
+                    write_property_binary(os, (helper->data->buffer.get_const() + helper->cursor->byteOffset), helper->cursor->byteOffset, f.prop_stride * p.listCount);
+                }
+                else
+                {
+                    write_property_binary(os, (helper->data->buffer.get_const() + helper->cursor->byteOffset), helper->cursor->byteOffset, f.prop_stride);
+                }
+                property_index++;
+            }
+        }
+        element_idx++;
+    }
+}
+
+void PlyFile::PlyFileImpl::write_ascii_internal(std::ostream & os) noexcept
+{
+    write_header(os);
+
+    auto element_property_lookup = make_property_lookup_table();
+
+    size_t element_idx = 0;
+    for (auto & e : elements)
+    {
+        for (size_t i = 0; i < e.size; ++i)
+        {
+            size_t property_index = 0;
+            for (auto & p : e.properties)
+            {
+                auto & f = element_property_lookup[element_idx][property_index];
+                auto * helper = f.helper;
+                if (f.skip || helper == nullptr) continue;
+
+                if (p.isList)
+                {
+                    os << p.listCount << " ";
+                    for (size_t j = 0; j < p.listCount; ++j)
+                    {
+                        write_property_ascii(p.propertyType, os, (helper->data->buffer.get() + helper->cursor->byteOffset), helper->cursor->byteOffset);
+                    }
+                }
+                else
+                {
+                    write_property_ascii(p.propertyType, os, (helper->data->buffer.get() + helper->cursor->byteOffset), helper->cursor->byteOffset);
+                }
+                property_index++;
+            }
+            os << "\n";
+        }
+        element_idx++;
+    }
+}
+
+void PlyFile::PlyFileImpl::write_header(std::ostream & os) noexcept
+{
+    const std::locale & fixLoc = std::locale("C");
+    os.imbue(fixLoc);
+
+    os << "ply\n";
+    if (isBinary) os << ((isBigEndian) ? "format binary_big_endian 1.0" : "format binary_little_endian 1.0") << "\n";
+    else os << "format ascii 1.0\n";
+
+    for (const auto & comment : comments) os << "comment " << comment << "\n";
+
+    auto property_lookup = make_property_lookup_table();
+
+    size_t element_idx = 0;
+    for (auto & e : elements)
+    {
+        os << "element " << e.name << " " << e.size << "\n";
+        size_t property_idx = 0;
+        for (const auto & p : e.properties)
+        {
+            PropertyLookup & lookup = property_lookup[element_idx][property_idx];
+
+            if (!lookup.skip)
+            {
+                if (p.isList)
+                {
+                    os << "property list " << PropertyTable[p.listType].str << " "
+                       << PropertyTable[p.propertyType].str << " " << p.name << "\n";
+                }
+                else
+                {
+                    os << "property " << PropertyTable[p.propertyType].str << " " << p.name << "\n";
+                }
+            }
+            property_idx++;
+        }
+        element_idx++;
+    }
+    os << "end_header\n";
+}
+
+std::shared_ptr<PlyData> PlyFile::PlyFileImpl::request_properties_from_element(const std::string & elementKey,
+    const std::vector<std::string> propertyKeys,
+    const uint32_t list_size_hint)
+{
+    if (elements.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
+    if (elementKey.empty()) throw std::invalid_argument("`elementKey` argument is empty");
+    if (propertyKeys.empty()) throw std::invalid_argument("`propertyKeys` argument is empty");
+
+    std::shared_ptr<PlyData> out_data = std::make_shared<PlyData>();
+
+    const int64_t elementIndex = find_element(elementKey, elements);
+
+    std::vector<std::string> keys_not_found;
+
+    // std::cout << "Requesting properties from element " << elementKey << "\n";
+
+    // Sanity check if the user requested element is in the pre-parsed header
+    if (elementIndex >= 0)
+    {
+        // std::cout << "Element " << elementKey << " found in pre-parsed header.\n";
+        // We found the element
+        const PlyElement & element = elements[elementIndex];
+
+        // Each key in `propertyKey` gets an entry into the userData map (keyed by a hash of
+        // element name and property name), but groups of properties (requested from the
+        // public api through this function) all share the same `ParsingHelper`. When it comes
+        // time to .read(), we check the number of unique PlyData shared pointers
+        // and allocate a single buffer that will be used by each property key group.
+        // That way, properties like, {"x", "y", "z"} will all be put into the same buffer.
+
+        ParsingHelper helper;
+        helper.data = out_data;
+        helper.data->count = element.size; // how many items are in the element?
+        helper.data->isList = false;
+        helper.data->t = Type::INVALID;
+        helper.cursor = std::make_shared<PlyDataCursor>();
+        helper.list_size_hint = list_size_hint;
+
+        // std::cout << "Element " << elementKey << " has " << element.properties.size() << " properties and " << element.size << " items.\n";
+
+        // Find each of the keys
+        for (const auto & key : propertyKeys)
+        {
+            // std::cout << "Searching for property " << key << "\n";
+            // std::cout << "Property " << key << " has type " << property_type_to_string(helper.data->t) << "\n";
+            const int64_t propertyIndex = find_property(key, element.properties);
+            // std:: cout << "Property " << key << " has index " << propertyIndex << "\n";
+            if (propertyIndex < 0) keys_not_found.push_back(key);
+        }
+
+        if (keys_not_found.size())
+        {
+            std::stringstream ss;
+            for (auto & str : keys_not_found) ss << str << ", ";
+            throw std::invalid_argument("the following property keys were not found in the header: " + ss.str());
+        }
+
+        for (const auto & key : propertyKeys)
+        {
+            const int64_t propertyIndex = find_property(key, element.properties);
+            const PlyProperty & property = element.properties[propertyIndex];
+            helper.data->t = property.propertyType;
+            helper.data->isList = property.isList;
+            auto result = userData.insert(std::pair<uint32_t, ParsingHelper>(hash_fnv1a(element.name + property.name), helper));
+            if (result.second == false)
+            {
+                throw std::invalid_argument("element-property key has already been requested: " + element.name + " " + property.name);
+            }
+        }
+
+        // Sanity check that all properties share the same type
+        std::vector<Type> propertyTypes;
+        for (const auto & key : propertyKeys)
+        {
+            const int64_t propertyIndex = find_property(key, element.properties);
+            const PlyProperty & property = element.properties[propertyIndex];
+            propertyTypes.push_back(property.propertyType);
+        }
+
+        if (std::adjacent_find(propertyTypes.begin(), propertyTypes.end(), std::not_equal_to<Type>()) != propertyTypes.end())
+        {
+            throw std::invalid_argument("all requested properties must share the same type.");
+        }
+    }
+    else throw std::invalid_argument("the element key was not found in the header: " + elementKey);
+
+    return out_data;
+}
+
+void PlyFile::PlyFileImpl::add_properties_to_element(const std::string & elementKey,
+    const std::vector<std::string> propertyKeys,
+    const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount)
+{
+    ParsingHelper helper;
+    helper.data = std::make_shared<PlyData>();
+    helper.data->count = count;
+    helper.data->t = type;
+    helper.data->buffer = Buffer(data); // we should also set size for safety reasons
+    helper.cursor = std::make_shared<PlyDataCursor>();
+
+    auto create_property_on_element = [&](PlyElement & e)
+    {
+        for (auto key : propertyKeys)
+        {
+            PlyProperty newProp = (listType == Type::INVALID) ? PlyProperty(type, key) : PlyProperty(listType, type, key, listCount);
+            userData.insert(std::pair<uint32_t, ParsingHelper>(hash_fnv1a(elementKey + key), helper));
+            e.properties.push_back(newProp);
+        }
+    };
+
+    const int64_t idx = find_element(elementKey, elements);
+    if (idx >= 0)
+    {
+        PlyElement & e = elements[idx];
+        create_property_on_element(e);
+    }
+    else
+    {
+        PlyElement newElement = (listType == Type::INVALID) ? PlyElement(elementKey, count) : PlyElement(elementKey, count);
+        create_property_on_element(newElement);
+        elements.push_back(newElement);
+    }
+}
+
+void PlyFile::PlyFileImpl::parse_data(std::istream & is, bool firstPass)
+{
+    std::function<void(PropertyLookup & f, const PlyProperty & p, uint8_t * dest, size_t & destOffset, size_t destSize, std::istream & is)> read;
+    std::function<size_t(PropertyLookup & f, const PlyProperty & p, std::istream & is)> skip;
+
+    const auto start = is.tellg();
+
+    uint32_t listSize = 0;
+    size_t dummyCount = 0;
+    std::string skip_ascii_buffer;
+
+    // Special case mirroring read_property_binary but for list types; this
+    // has an additional big endian check to flip the data in place immediately
+    // after reading. We do this as a performance optimization; endian flipping is
+    // done on regular properties as a post-process after reading (also for optimization)
+    // but we need the correct little-endian list count as we read the file.
+    auto read_list_binary = [this](const Type & t, void * dst, size_t & destOffset, const size_t & stride, std::istream & _is) noexcept
+    {
+        destOffset += stride;
+        _is.read((char*)dst, stride);
+
+        if (isBigEndian)
+        {
+            switch (t)
+            {
+            case Type::INT16:  *(int16_t*)dst  = endian_swap<int16_t, int16_t>(*(int16_t*)dst);    break;
+            case Type::UINT16: *(uint16_t*)dst = endian_swap<uint16_t, uint16_t>(*(uint16_t*)dst); break;
+            case Type::INT32:  *(int32_t*)dst  = endian_swap<int32_t, int32_t>(*(int32_t*)dst);    break;
+            case Type::UINT32: *(uint32_t*)dst = endian_swap<uint32_t, uint32_t>(*(uint32_t*)dst); break;
+            default: break;
+            }
+        }
+
+        return stride;
+    };
+
+    if (isBinary)
+    {
+        read = [this, &listSize, &dummyCount, &read_list_binary](PropertyLookup & f, const PlyProperty & p, uint8_t * dest, size_t & destOffset, size_t destSize, std::istream & _is)
+        {
+            if (!p.isList)
+            {
+                return read_property_binary(f.prop_stride, dest + destOffset, destOffset, destSize, _is);
+            }
+            read_list_binary(p.listType, &listSize, dummyCount, f.list_stride, _is); // the list size
+            return read_property_binary(f.prop_stride * listSize, dest + destOffset, destOffset, destSize, _is); // properties in list
+        };
+        skip = [this, &listSize, &dummyCount, &read_list_binary](PropertyLookup & f, const PlyProperty & p, std::istream & _is) noexcept
+        {
+            if (!p.isList)
+            {
+                _is.read((char*)scratch, f.prop_stride);
+                return f.prop_stride;
+            }
+            read_list_binary(p.listType, &listSize, dummyCount, f.list_stride, _is); // the list size (does not count for memory alloc)
+            auto bytes_to_skip = f.prop_stride * listSize;
+            _is.ignore(bytes_to_skip);
+            return bytes_to_skip;
+        };
+    }
+    else
+    {
+        read = [this, &listSize, &dummyCount](PropertyLookup & f, const PlyProperty & p, uint8_t * dest, size_t & destOffset, size_t destSize, std::istream & _is)
+        {
+            if (!p.isList)
+            {
+                read_property_ascii(p.propertyType, f.prop_stride, dest + destOffset, destOffset, destSize, _is);
+            }
+            else
+            {
+                dummyCount = 0;
+                read_property_ascii(p.listType, f.list_stride, &listSize, dummyCount, sizeof(listSize), _is); // the list size
+                 for (size_t i = 0; i < listSize; ++i)
+                 {
+                     read_property_ascii(p.propertyType, f.prop_stride, dest + destOffset, destOffset, destSize, _is);
+                 }
+            }
+        };
+        skip = [this, &listSize, &dummyCount, &skip_ascii_buffer](PropertyLookup & f, const PlyProperty & p, std::istream & _is) noexcept
+        {
+            skip_ascii_buffer.clear();
+            if (p.isList)
+            {
+                dummyCount = 0;
+                read_property_ascii(p.listType, f.list_stride, &listSize, dummyCount, sizeof(listSize), _is); // the list size (does not count for memory alloc)
+                for (size_t i = 0; i < listSize; ++i) _is >> skip_ascii_buffer; // properties in list
+                return listSize * f.prop_stride;
+            }
+            _is >> skip_ascii_buffer;
+            return f.prop_stride;
+        };
+    }
+
+    std::vector<std::vector<PropertyLookup>> element_property_lookup = make_property_lookup_table();
+    size_t element_idx = 0;
+    size_t property_idx = 0;
+    ParsingHelper * helper {nullptr};
+
+    // This is the inner import loop
+    for (auto & element : elements)
+    {
+        for (size_t count = 0; count < element.size; ++count)
+        {
+            property_idx = 0;
+            for (auto & property : element.properties)
+            {
+                PropertyLookup & lookup = element_property_lookup[element_idx][property_idx];
+
+                if (!lookup.skip)
+                {
+                    helper = lookup.helper;
+                    if (firstPass)
+                    {
+                        helper->cursor->totalSizeBytes += skip(lookup, property, is);
+
+                        // These lines will be changed when tinyply supports
+                        // variable length lists. We add it here so our header data structure
+                        // contains enough info to write it back out again (e.g. transcoding).
+                        if (property.listCount == 0) property.listCount = listSize;
+                        if (property.listCount != listSize) throw std::runtime_error("variable length lists are not supported yet.");
+                    }
+                    else
+                    {
+                        const size_t destSize = helper->data->buffer.size_bytes();
+                        read(lookup, property, helper->data->buffer.get(), helper->cursor->byteOffset, destSize, is);
+                    }
+                }
+                else
+                {
+                    skip(lookup, property, is);
+                }
+                property_idx++;
+            }
+        }
+        element_idx++;
+    }
+
+    // Reset istream position to the start of the data
+    if (firstPass) is.seekg(start, is.beg);
+}
+
+// Wrap the public interface:
+
+PlyFile::PlyFile() { impl.reset(new PlyFileImpl()); }
+PlyFile::~PlyFile() { }
+bool PlyFile::parse_header(std::istream & is) { return impl->parse_header(is); }
+void PlyFile::read(std::istream & is) { return impl->read(is); }
+void PlyFile::write(std::ostream & os, bool isBinary) { return impl->write(os, isBinary); }
+std::vector<PlyElement> PlyFile::get_elements() const { return impl->elements; }
+std::vector<std::string> & PlyFile::get_comments() { return impl->comments; }
+std::vector<std::string> PlyFile::get_info() const { return impl->objInfo; }
+bool PlyFile::is_binary_file() const { return impl->isBinary; }
+std::shared_ptr<PlyData> PlyFile::request_properties_from_element(const std::string & elementKey,
+    const std::vector<std::string> propertyKeys,
+    const uint32_t list_size_hint)
+{
+    return impl->request_properties_from_element(elementKey, propertyKeys, list_size_hint);
+}
+void PlyFile::add_properties_to_element(const std::string & elementKey,
+    const std::vector<std::string> propertyKeys,
+    const Type type, const size_t count, const uint8_t * data, const Type listType, const size_t listCount)
+{
+    return impl->add_properties_to_element(elementKey, propertyKeys, type, count, data, listType, listCount);
+}
+
+} // end namespace tinyply
+
+#endif // end TINYPLY_IMPLEMENTATION
-- 
2.43.0


From 723dd3f67820a2925b44e0e223a7a35df5f8bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 61/71] fix: reach_for_the_spheres without sample positions
 failed instead of sampling the sdf itself

---
 src/gpytoolbox/reach_for_the_spheres.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index f866d58..160ada3 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -544,9 +544,11 @@ def reach_for_the_spheres_iteration(state,
 
     if state.h is None:
         state.h = default_params[dim]['h']
+    if state.rng is None:
+        state.rng = np.random.default_rng(68)
     if state.U is None:
         assert state.sdf is not None, "If you do not provide U, you must provide an sdf function to sample."
-        state.U = _sample_sdf(state.sdf, state.V, state.F)
+        state.U = _sample_sdf(state.sdf, state.V, state.F, rng=state.rng)
     if state.S is None:
         assert state.sdf is not None, "If you do not provide S, you must provide an sdf function to sample."
         state.S = state.sdf(state.U)
@@ -561,8 +563,6 @@ def reach_for_the_spheres_iteration(state,
     nu_0 = state.U.shape[0]
     nu_max = 2*nu_0
 
-    if state.rng is None:
-        state.rng = np.random.default_rng(68)
     if state.its is None:
         state.its = 0
     if state.best_performance is None:
@@ -1007,7 +1007,7 @@ def _sample_sdf(sdf,
 
     dim = V.shape[1]
     assert dim==F.shape[1]
-    assert remove_samples or max_n>=U0.shape[0], "Either allow removal or start with not too many samples."
+    assert remove_samples or U0 is None or max_n>=U0.shape[0], "Either allow removal or start with not too many samples."
 
     if U0 is None:
         #Randomly sample twice as many points as initial mesh vertices.
-- 
2.43.0


From d049deeb03d5c68581441c728c7b782ae1d1de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 62/71] fix: fix_boundary of reach_for_the_spheres failed on
 every polyline

---
 src/gpytoolbox/reach_for_the_spheres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index 160ada3..d94eaa0 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -657,7 +657,7 @@ def reach_for_the_spheres_iteration(state,
     Q = M + t*(A.transpose()*R*A)
     b = M*state.V + t*A.transpose()*(R*c)
     if fix_boundary:
-        bd = boundary_vertices(state.F)
+        bd = boundary_vertices(state.F) if dim==3 else _line_bdry(state.F)
         precomp = fixed_dof_solve_precompute(Q, k=bd)
         state.V = precomp.solve(b=b, y=state.V[bd,:])
     else:
-- 
2.43.0


From 65cbe2bbed956913a3c23f89d1b04f304778589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 63/71] fix: pseudosdf_interior of reach_for_the_spheres
 relaxed the exterior samples instead of the interior ones, and undid clamp

---
 src/gpytoolbox/reach_for_the_spheres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index d94eaa0..51e21b6 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -626,9 +626,9 @@ def reach_for_the_spheres_iteration(state,
 
     #Build matrices
     wu = np.ones(state.U_batch.shape[0])
-    clamped_g = np.where((np.abs(state.S_batch)==clamp)*(g<0.))
+    clamped_g = (np.abs(state.S_batch)==clamp)*(g<0.)
     if pseudosdf_interior:
-        clamped_g = np.where((state.S_batch>0)*(g<0.))
+        clamped_g = np.logical_or(clamped_g, (state.S_batch<0)*(g<0.))
     wu[clamped_g] = 0.0
     A = sp.sparse.csc_matrix(((wu[:,None]*b).ravel(),
         (np.tile(np.arange(state.U_batch.shape[0])[:,None],
-- 
2.43.0


From 6393e4a177f711a02713c4c1fdfac7b9c74029d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 64/71] fix: png2poly failed on greyscale images with an alpha
 channel

---
 src/gpytoolbox/png2poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/png2poly.py b/src/gpytoolbox/png2poly.py
index e6be49a..929a47e 100644
--- a/src/gpytoolbox/png2poly.py
+++ b/src/gpytoolbox/png2poly.py
@@ -42,6 +42,9 @@ def png2poly(filename):
             polypic = rgb2gray(rgba2rgb(polypic))
         elif polypic.shape[2]==3:
             polypic = rgb2gray(polypic)
+        elif polypic.shape[2]==2:
+            # grey and alpha: blend with white, like rgba2rgb
+            polypic = polypic[:,:,0]*polypic[:,:,1] + (1. - polypic[:,:,1])
     # find contours
     polypic = polypic/np.max(polypic)
     poly = measure.find_contours(polypic, 0.5)
-- 
2.43.0


From 3caee8c1df7260f276a5ef6031f2cdf233e3a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:51 +0000
Subject: [PATCH 65/71] fix: matryoshka stopped its scale search before
 reaching a small scale_tol

---
 src/gpytoolbox/matryoshka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/matryoshka.py b/src/gpytoolbox/matryoshka.py
index 6eea294..7b6ce8a 100644
--- a/src/gpytoolbox/matryoshka.py
+++ b/src/gpytoolbox/matryoshka.py
@@ -100,7 +100,7 @@ def _sample_B_surface(B_V, B_F, n_samples, rng):
 def _largest_feasible_scale(samples_B, B_center, A_V, A_F, R, c,
                             cut_point, cut_normal, a_plus, a_minus,
                             cpp_aabb=None, fwn_bvh=None, intersector=None,
-                            s_lo=0.0, s_hi=1.0, tol=1e-3, max_iter=15):
+                            s_lo=0.0, s_hi=1.0, tol=1e-3, max_iter=60):
     """Binary-search the largest s in [s_lo, s_hi] for which the nesting is feasible.
 
     Assumes s = s_lo is feasible (a tiny shape inside A is always feasible if
-- 
2.43.0


From ab391f21f9e1760aecfd83e0b83f04d15459e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:51 +0000
Subject: [PATCH 66/71] fix: matryoshka ignored its seed in the compiled
 particle swarm

---
 src/gpytoolbox/matryoshka.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/matryoshka.py b/src/gpytoolbox/matryoshka.py
index 7b6ce8a..06b5cb7 100644
--- a/src/gpytoolbox/matryoshka.py
+++ b/src/gpytoolbox/matryoshka.py
@@ -461,7 +461,8 @@ def matryoshka(V, F,
     _x_best, _f_best = particle_swarm(
         objective, lb, ub,
         n_particles=n_particles, max_iter=max_iter,
-        verbose=verbose, topology='full')
+        verbose=verbose, topology='full',
+        use_cpp=seed is None)  # the C++ swarm draws its own, unseeded, numbers
 
     if best['x'] is None:
         # Swarm never found a feasible scale; return zero-scale result.
-- 
2.43.0


From d2587663b9eca9c24f978cda9c1fbf2e93423f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:55 +0000
Subject: [PATCH 67/71] fix: squared_distance with use_cpp returned nan
 coordinates on zero-length edges

---
 src/gpytoolbox/squared_distance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gpytoolbox/squared_distance.py b/src/gpytoolbox/squared_distance.py
index 30b9890..0ad1194 100644
--- a/src/gpytoolbox/squared_distance.py
+++ b/src/gpytoolbox/squared_distance.py
@@ -166,6 +166,7 @@ def squared_distance(P,V,F=None,use_cpp=False,use_aabb=False,C=None,W=None,CH=No
             lmbs = np.zeros((P.shape[0],2))
             lmbs[:,0] = np.linalg.norm(V[F[indices,0],:]-closest_points,axis=1)
             lmbs[:,1] = np.linalg.norm(V[F[indices,1],:]-closest_points,axis=1)
+            lmbs[np.sum(lmbs,axis=1)==0.,1] = 1. # zero-length edges
             lmbs = lmbs/np.sum(lmbs,axis=1)[:,None]
             lmbs = np.fliplr(lmbs)
         elif(F.shape[1] == 3):
-- 
2.43.0


From 9cefc127bda06e2591f855b50cf3131029709744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:33 +0000
Subject: [PATCH 68/71] fix: upper_envelope lost tets, returned an empty one
 and overran its arrays on small meshes

---
 src/cpp/upper_envelope.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/cpp/upper_envelope.cpp b/src/cpp/upper_envelope.cpp
index 15caa39..e4f4363 100644
--- a/src/cpp/upper_envelope.cpp
+++ b/src/cpp/upper_envelope.cpp
@@ -60,7 +60,7 @@ void carve_out_material(Eigen::MatrixXi &FT, int &idxF, ArrayXb &LT, const Eigen
     ArrayXb CT(FT.rows(), 1);
     CT.setConstant(false);
 
-    for (int i = 0; i < idxF-1; i++) {
+    for (int i = 0; i < idxF; i++) {
         Eigen::MatrixXd D;
 	    igl::slice(DT, FT.row(i).transpose(), 1, D);
 
@@ -101,13 +101,7 @@ void carve_out_material(Eigen::MatrixXi &FT, int &idxF, ArrayXb &LT, const Eigen
     LT = igl::slice_mask(LT, !CT, 1);
     FT = igl::slice_mask(FT, !CT, 1);
 
-    for (int iii = 0; iii < FT.rows(); iii++) {
-        if (FT(iii,0) == 0 && FT(iii,1) == 0 && FT(iii,2) == 0 && FT(iii,3) == 0) 
-	{
-	  idxF = iii;
-	  break;
-	}
-    }
+    idxF -= CFT.rows();
 
     //std::cout << idxF << std::endl;
 
@@ -396,9 +390,10 @@ void upper_envelope(Eigen::MatrixXd & VT, Eigen::MatrixXi & FT,  Eigen::MatrixXd
 
   int idxV = VT.rows(),
       idxF = FT.rows(),
-      Vexpandsize = VT.rows(),
-      Fexpandsize = FT.rows();
-  int idxCFT = 1;
+      // splitting one tet needs up to 11 more rows
+      Vexpandsize = std::max<int>(VT.rows(), 11),
+      Fexpandsize = std::max<int>(FT.rows(), 11);
+  int idxCFT = 0;
   Eigen::MatrixXi CFTarray(2*FT.rows(), FT.cols());
   CFTarray.setConstant(0);
   ArrayXb CLTarray(2*FT.rows(), LT.cols());
@@ -506,8 +501,8 @@ void upper_envelope(Eigen::MatrixXd & VT, Eigen::MatrixXi & FT,  Eigen::MatrixXd
   }
 
   VT.conservativeResize(idxV, VT.cols());
-  FT = CFTarray.block(0,0,idxCFT-1,FT.cols());
-  LT = CLTarray.block(0,0,idxCFT-1,LT.cols());
+  FT = CFTarray.block(0,0,idxCFT,FT.cols());
+  LT = CLTarray.block(0,0,idxCFT,LT.cols());
 
 //  std::cout << "VT" << std::endl << VT << std::endl;
 //  std::cout << "FT" << std::endl << FT << std::endl;
-- 
2.43.0


From 19705894d74e8873e1c04bd0a3f5607c89ad4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:00 +0000
Subject: [PATCH 69/71] fix: swept_volume ignored transformations when
 translations were given too

---
 src/gpytoolbox/swept_volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/swept_volume.py b/src/gpytoolbox/swept_volume.py
index 6c0d820..930cd24 100644
--- a/src/gpytoolbox/swept_volume.py
+++ b/src/gpytoolbox/swept_volume.py
@@ -72,7 +72,7 @@ def swept_volume(V,F,transformations=None,rotations=None,translations=None,scale
 
 
 
-    if(translations is not None):
+    if(transformations is None and translations is not None):
         transformations = []
         num_transformations = len(translations)
         translations = [np.asarray(t, dtype=np.float64) for t in translations]
-- 
2.43.0


From 67cc21c555cc5ff46ff3b99d0bcc0489eec0f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:09 +0000
Subject: [PATCH 70/71] fix: the 2D reach_for_the_arcs wrote and read beyond
 two-dimensional vectors

---
 .../fine_tune_point_cloud_iter.cpp            |  1 -
 src/cpp/reach_for_the_arcs/sAABB.cpp          | 19 +++++++------------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp b/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp
index 18d53f3..cec42ed 100644
--- a/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp
+++ b/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp
@@ -231,7 +231,6 @@ void fine_tune_point_cloud_iter(
     const auto loop_move_f = [&] (const int p_i, const int thread_id) {
         // Correctly assign the loop index using our shuffled list.
         const int i = shuffled_indices[p_i];
-        const Vecd& c = sdf_data.row(i);
         const double s = sdf_data(i);
         const double r = std::abs(s);
         std::vector<Vecd>& points = points_vec[thread_id];
diff --git a/src/cpp/reach_for_the_arcs/sAABB.cpp b/src/cpp/reach_for_the_arcs/sAABB.cpp
index 33a4eb8..9cdf956 100644
--- a/src/cpp/reach_for_the_arcs/sAABB.cpp
+++ b/src/cpp/reach_for_the_arcs/sAABB.cpp
@@ -13,14 +13,9 @@ double signed_distance_to_box(const Eigen::AlignedBox<double, dim>& box,
 {
     using Vec = Eigen::Matrix<double, dim, 1>;
     if(box.contains(point)) {
-        double inside_distance = std::min({
-            std::abs(point[0] - box.min()[0]),
-            std::abs(point[1] - box.min()[1]),
-            std::abs(point[2] - box.min()[2]),
-            std::abs(box.max()[0] - point[0]),
-            std::abs(box.max()[1] - point[1]),
-            std::abs(box.max()[2] - point[2])
-        });
+        double inside_distance = (point - box.min()).cwiseAbs().minCoeff();
+        inside_distance = std::min(inside_distance,
+            (box.max() - point).cwiseAbs().minCoeff());
         return -inside_distance;
     } else {
         const Vec clamped = point.cwiseMax(box.min()).cwiseMin(box.max());
@@ -115,10 +110,10 @@ void sAABB<dim>::init_node(Node& node,
     node.primitive = -1;
 
     Vec min_box, min_box_centers, max_box, max_box_centers;
-    min_box << Eigen::Infinity, Eigen::Infinity, Eigen::Infinity;
-    max_box << -Eigen::Infinity, -Eigen::Infinity, -Eigen::Infinity;
-    min_box_centers << Eigen::Infinity, Eigen::Infinity, Eigen::Infinity;
-    max_box_centers << -Eigen::Infinity, -Eigen::Infinity, -Eigen::Infinity;
+    min_box.setConstant(Eigen::Infinity);
+    max_box.setConstant(-Eigen::Infinity);
+    min_box_centers.setConstant(Eigen::Infinity);
+    max_box_centers.setConstant(-Eigen::Infinity);
     for(int i=0; i < centers.size(); ++i){ 
         const Vec& center = centers[i];
         const double radius = radii[i] + tol;
-- 
2.43.0


From a9abf54679a56e39c1f53d66fc4810d0d80fcf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:26 +0000
Subject: [PATCH 71/71] fix: reach_for_the_arcs shrank spheres when a point
 moved towards its antipode

---
 .../reach_for_the_arcs/fine_tune_point_cloud_iter.cpp    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp b/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp
index cec42ed..32e2f50 100644
--- a/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp
+++ b/src/cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp
@@ -180,7 +180,14 @@ void fine_tune_point_cloud_iter(
                 const Eigen::Rotation2D<double> R(rot_sign*theta);
                 new_p = c + R*x;
             } else if constexpr(dim==3) {
-                const Vecd N = x.cross(y).normalized();
+                Vecd N = x.cross(y);
+                const double norm = N.norm();
+                if(norm > std::numeric_limits<double>::epsilon()*r*r) {
+                    N /= norm;
+                } else {
+                    // p and q are antipodal, every great arc is as good.
+                    N = x.unitOrthogonal();
+                }
                 const Eigen::AngleAxis<double> R(theta, N);
                 new_p = c + R*x;
             }
-- 
2.43.0

