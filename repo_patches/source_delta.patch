From 844e6e3147681dd3a97020e2285c0dab7385ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 01/58] fix: consider edge and corner only tree contacts in
 balance and ghost

A tree that is connected to others across edges or corners but not across
faces was treated as isolated, which made p4est_balance abort or return an
unbalanced forest and p4est_ghost_new omit elements (e.g. on the bowtie
connectivity).
---
 src/p4est.c               | 11 ++++++++
 src/p4est_communication.c | 54 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/p4est.c b/src/p4est.c
index bd0a058..0c46e17 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -1448,6 +1448,17 @@ p4est_balance_ext (p4est_t * p4est, p4est_connect_type_t btype,
     for (face = 0; face < P4EST_FACES; ++face) {
       any_face = any_face || tree_contact[face];
     }
+    /* a tree may also be connected across edges or corners only */
+#ifdef P4_TO_P8
+    for (edge = 0; edge < P8EST_EDGES && conn->tree_to_edge != NULL; ++edge) {
+      any_face = any_face || conn->tree_to_edge[P8EST_EDGES * nt + edge] >= 0;
+    }
+#endif
+    for (corner = 0; corner < P4EST_CHILDREN && conn->tree_to_corner != NULL;
+         ++corner) {
+      any_face = any_face ||
+        conn->tree_to_corner[P4EST_CHILDREN * nt + corner] >= 0;
+    }
     if (any_face) {
       tree_flags[nt] |= any_face_flag;
     }
diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index b4aa05d..1e5fc07 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -854,6 +854,40 @@ p4est_comm_tree_info (p4est_t * p4est, p4est_locidx_t which_tree,
   }
 }
 
+/** Test if a tree has neighbors across a face or across an edge or corner
+ * that bounds this face.  The latter may exist without the former.
+ */
+static int
+p4est_comm_face_contact (p4est_connectivity_t * conn,
+                         p4est_topidx_t which_tree,
+                         const int tree_contact[], int face)
+{
+  int                 i;
+
+  if (tree_contact[face]) {
+    return 1;
+  }
+#ifdef P4_TO_P8
+  if (conn->tree_to_edge != NULL) {
+    for (i = 0; i < 4; ++i) {
+      if (conn->tree_to_edge[P8EST_EDGES * which_tree +
+                             p8est_face_edges[face][i]] >= 0) {
+        return 1;
+      }
+    }
+  }
+#endif
+  if (conn->tree_to_corner != NULL) {
+    for (i = 0; i < P4EST_HALF; ++i) {
+      if (conn->tree_to_corner[P4EST_CHILDREN * which_tree +
+                               p4est_face_corners[face][i]] >= 0) {
+        return 1;
+      }
+    }
+  }
+  return 0;
+}
+
 int
 p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
                                int full_tree[], int tree_contact[],
@@ -866,13 +900,21 @@ p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
 
   if (full_tree[0] && full_tree[1]) {
     /* need only to consider boundary quadrants */
-    if (!((tree_contact[0] && q->x == 0) ||
-          (tree_contact[1] && q->x == P4EST_ROOT_LEN - qh) ||
-          (tree_contact[2] && q->y == 0) ||
-          (tree_contact[3] && q->y == P4EST_ROOT_LEN - qh) ||
+    p4est_connectivity_t *conn = p4est->connectivity;
+
+    if (!((q->x == 0 &&
+           p4est_comm_face_contact (conn, which_tree, tree_contact, 0)) ||
+          (q->x == P4EST_ROOT_LEN - qh &&
+           p4est_comm_face_contact (conn, which_tree, tree_contact, 1)) ||
+          (q->y == 0 &&
+           p4est_comm_face_contact (conn, which_tree, tree_contact, 2)) ||
+          (q->y == P4EST_ROOT_LEN - qh &&
+           p4est_comm_face_contact (conn, which_tree, tree_contact, 3)) ||
 #ifdef P4_TO_P8
-          (tree_contact[4] && q->z == 0) ||
-          (tree_contact[5] && q->z == P4EST_ROOT_LEN - qh) ||
+          (q->z == 0 &&
+           p4est_comm_face_contact (conn, which_tree, tree_contact, 4)) ||
+          (q->z == P4EST_ROOT_LEN - qh &&
+           p4est_comm_face_contact (conn, which_tree, tree_contact, 5)) ||
 #endif
           0)) {
       return 1;
-- 
2.43.0


From 11a8a4ddb6708bd83ff53094a1681a18b002848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 02/58] fix: p4est_copy sets the inspect member of the copy to
 NULL as documented

The shallow copy kept pointing to the caller's statistics object of the
original, so the copy wrote to (and depended on) it.
---
 src/p4est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p4est.c b/src/p4est.c
index 0c46e17..989f94f 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -563,6 +563,7 @@ p4est_copy_ext (p4est_t * input, int copy_data, int duplicate_mpicomm)
   p4est->trees = NULL;
   p4est->user_data_pool = NULL;
   p4est->quadrant_pool = NULL;
+  p4est->inspect = NULL;
 
   /* set parallel environment */
   p4est_comm_parallel_env_assign (p4est, input->mpicomm);
-- 
2.43.0


From c7b6b318d271f49de3ea4f29410d823ee7e61eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 03/58] fix: p4est_is_equal compares the connectivities as
 documented

---
 src/p4est_algorithms.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 5a33c9c..49b3785 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -429,6 +429,9 @@ p4est_is_equal (p4est_t * p4est1, p4est_t * p4est2, int compare_data)
     return 0;
   if (p4est1->mpirank != p4est2->mpirank)
     return 0;
+  if (!p4est_connectivity_is_equal (p4est1->connectivity,
+                                    p4est2->connectivity))
+    return 0;
   if (compare_data) {
     if (p4est1->data_size != p4est2->data_size)
       return 0;
-- 
2.43.0


From 4b02481effdbbe4cc5136c7ab2b83881d7bd0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 04/58] fix: initialize all edge keys of boundary corner sides
 in p8est_iterate (C15)

---
 src/p4est_iterate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/p4est_iterate.c b/src/p4est_iterate.c
index 412cc66..5c58a6e 100644
--- a/src/p4est_iterate.c
+++ b/src/p4est_iterate.c
@@ -825,6 +825,8 @@ p4est_iter_init_corner (p4est_iter_corner_args_t * args,
           faces_count++;
         }
 #ifdef P4_TO_P8
+      }
+      for (j = 0; j < P4EST_DIM; j++) {
         if (cside->edges[j] == -1) {
           p4est_topidx_t      nnt;
 
-- 
2.43.0


From fd8cedcd15e58804356a09f1904af4db177fab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 05/58] fix: boundaries touched by a range that is one quadrant
 of the deepest level

p4est_find_range_boundaries descended below P4EST_QMAXLEVEL when both ends of
the range are the same deepest quadrant, so it reported only what the first
corner touches: ghosts and iterator callbacks next to a process that owns a
single deepest leaf were missing.
---
 src/p4est_search.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 8e07b99..25d1bd3 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -369,6 +369,12 @@ p4est_range_boundaries (p4est_quadrant_t * lq, p4est_quadrant_t * uq,
   if (mask == 0) {
     return 0;
   }
+  if (level > P4EST_QMAXLEVEL) {
+    /* the range is a single quadrant of the deepest level, which touches
+     * every boundary that its ancestors touch */
+    P4EST_ASSERT (p4est_quadrant_is_equal (lq, uq));
+    return mask;
+  }
   if (level == alevel + 1) {
     lcid = p4est_quadrant_ancestor_id (lq, level);
     ucid = p4est_quadrant_ancestor_id (uq, level);
-- 
2.43.0


From 83f9379ab5432f0db544ac2037c760652357db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 06/58] fix: p4est_search_reorder honors a subset of trees
 chosen by the callback

The reorder callback may shrink the array of tree indices, also to zero.  The
loop over the trees used the original number and read behind the array.
---
 src/p4est_search.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 25d1bd3..9d08165 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -1066,11 +1066,17 @@ p4est_search_reorder (p4est_t * p4est, int skip_levels,
   rec->points = points;
   rec->skip = skip_levels;
 
+  /* the reorder callback may have selected a subset of the trees */
+  if (root_indices != NULL) {
+    P4EST_ASSERT (root_indices->elem_count <= (size_t) num_local_trees);
+    num_local_trees = (p4est_topidx_t) root_indices->elem_count;
+  }
+
   /* go through tree recursions in proper order */
-  for (tt = p4est->first_local_tree; tt <= p4est->last_local_tree; ++tt) {
-    rec->which_tree = root_indices != NULL ? *(p4est_topidx_t *)
-      sc_array_index (root_indices, tt - p4est->first_local_tree) +
-      p4est->first_local_tree : tt;
+  for (tt = 0; tt < num_local_trees; ++tt) {
+    rit = root_indices != NULL ? *(p4est_topidx_t *)
+      sc_array_index (root_indices, (size_t) tt) : tt;
+    rec->which_tree = p4est->first_local_tree + rit;
     P4EST_ASSERT (p4est->first_local_tree <= rec->which_tree &&
                   rec->which_tree <= p4est->last_local_tree);
 
-- 
2.43.0


From 7f61eff6ac193d4a33ddd839c6fe1c47907208bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 07/58] fix: p4est_nodes_new admits a hanging node whose two
 independent nodes coincide

On a coarse mesh that identifies the two ends of a face (for example the
periodic disk) both independent nodes of a hanging node may be the same.
The result is correct, but the assertions rejected it.
---
 src/p4est_nodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_nodes.c b/src/p4est_nodes.c
index d0a4201..fa96ce0 100644
--- a/src/p4est_nodes.c
+++ b/src/p4est_nodes.c
@@ -1033,7 +1033,7 @@ p4est_nodes_new (p4est_t * p4est, p4est_ghost_t * ghost)
       memcpy (quad_indeps, quad_nodes, P4EST_CHILDREN * sizeof (*quad_nodes));
       for (k = 0; k < P4EST_CHILDREN; ++k) {
         if (quad_status[k] == 1) {
-          P4EST_ASSERT (qcid != k && quad_indeps[qcid] != quad_indeps[k]);
+          P4EST_ASSERT (qcid != k);
           P4EST_ASSERT (p4est_child_corner_faces[qcid][k] >= 0);
           p4est_quadrant_corner_node (q, k, &n);
           p4est_node_canonicalize (p4est, jt, &n, &c);
@@ -1087,7 +1087,7 @@ p4est_nodes_new (p4est_t * p4est, p4est_ghost_t * ghost)
         }
 #ifdef P4_TO_P8
         else if (quad_status[k] == 2) {
-          P4EST_ASSERT (qcid != k && quad_indeps[qcid] != quad_indeps[k]);
+          P4EST_ASSERT (qcid != k);
           P4EST_ASSERT (p8est_child_corner_edges[qcid][k] >= 0);
           p4est_quadrant_corner_node (q, k, &n);
           p4est_node_canonicalize (p4est, jt, &n, &c);
-- 
2.43.0


From 8ab41795c7cbe9b63bac32762d749a7d20e1b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 08/58] fix: p4est_quadrant_is_next accepts only a quadrant
 that starts where the first ends

---
 src/p4est_bits.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index aa53a5c..8ebb83b 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1013,6 +1013,15 @@ p4est_quadrant_is_next (const p4est_quadrant_t * q,
     minlevel = (int) r->level;
   }
   else {
+    /* check if r is the first child up to the common level */
+    mask = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (r->level);
+    if ((r->x & mask) != 0 || (r->y & mask) != 0 ||
+#ifdef P4_TO_P8
+        (r->z & mask) != 0 ||
+#endif
+        0) {
+      return 0;
+    }
     minlevel = (int) q->level;
   }
   p4est_quadrant_linear_id_ext128 (q, minlevel, &i1);
@@ -1043,6 +1052,12 @@ p4est_quadrant_is_next_D (const p4est_quadrant_t * q,
     }
     p4est_quadrant_parent (&a, &a);
   }
+  while (b.level > a.level) {
+    if (p4est_quadrant_child_id (&b) != 0) {
+      return 0;
+    }
+    p4est_quadrant_parent (&b, &b);
+  }
   p4est_quadrant_linear_id_ext128 (&a, (int) a.level, &i1);
   p4est_quadrant_linear_id_ext128 (&b, (int) a.level, &i2);
 
-- 
2.43.0


From b17fb1ca3578319de9c98ae780cc868f0d6d56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 09/58] fix: p4est_quadrant_is_inside_tree rejects quadrants
 that extend beyond the last one

---
 src/p4est_bits.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 8ebb83b..f0176c0 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1111,12 +1111,8 @@ p4est_quadrant_is_inside_tree (p4est_tree_t * tree,
     return 0;
 
   /* check if the end of q is not after the last tree quadrant */
-  /* tree->last_desc is an upper right corner quadrant by construction.
-   * It is ok to compare with q. */
-#if 0
   p4est_quadrant_last_descendant (q, &desc, P4EST_QMAXLEVEL);
-#endif
-  if (p4est_quadrant_compare (&tree->last_desc, q) < 0)
+  if (p4est_quadrant_compare (&tree->last_desc, &desc) < 0)
     return 0;
 
   return 1;
-- 
2.43.0


From 4f0d5f16241f6b60909b81cf0283ea1cbbcf0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 10/58] fix: p4est_quadrant_is_family rejects blocks that have
 no common parent

---
 src/p4est_bits.c | 3 ++-
 src/p8est_bits.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index f0176c0..5a76588 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -879,7 +879,8 @@ p4est_quadrant_is_family (const p4est_quadrant_t * q0,
   }
 
   inc = P4EST_QUADRANT_LEN (level);
-  return ((q0->x + inc == q1->x && q0->y == q1->y) &&
+  return ((q0->x & inc) == 0 && (q0->y & inc) == 0 &&
+          (q0->x + inc == q1->x && q0->y == q1->y) &&
           (q0->x == q2->x && q0->y + inc == q2->y) &&
           (q1->x == q3->x && q2->y == q3->y));
 }
diff --git a/src/p8est_bits.c b/src/p8est_bits.c
index 78b0c99..6847be9 100644
--- a/src/p8est_bits.c
+++ b/src/p8est_bits.c
@@ -108,7 +108,8 @@ p4est_quadrant_is_family (const p4est_quadrant_t * q0,
   }
 
   inc = P4EST_QUADRANT_LEN (level);
-  return ((q0->x + inc == q1->x && q0->y == q1->y && q0->z == q1->z) &&
+  return ((q0->x & inc) == 0 && (q0->y & inc) == 0 && (q0->z & inc) == 0 &&
+          (q0->x + inc == q1->x && q0->y == q1->y && q0->z == q1->z) &&
           (q0->x == q2->x && q0->y + inc == q2->y && q0->z == q2->z) &&
           (q1->x == q3->x && q2->y == q3->y && q0->z == q3->z) &&
           (q0->x == q4->x && q0->y == q4->y && q0->z + inc == q4->z) &&
-- 
2.43.0


From 64d3f613967b159409dce434255f9d4dcb8af2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 11/58] fix: p4est_quadrant_is_sibling_D accepts a root as
 second argument

---
 src/p4est_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 5a76588..cedc385 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -842,7 +842,7 @@ p4est_quadrant_is_sibling_D (const p4est_quadrant_t * q1,
   p4est_quadrant_t    p1, p2;
 
   /* make sure the quadrant_parent functions below don't abort */
-  if (q1->level == 0) {
+  if (q1->level == 0 || q2->level == 0) {
     return 0;
   }
 
-- 
2.43.0


From 58d2ecea3962355497b9f96c9aa383bfa21703d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 12/58] fix: orientations between trees of the 2D drop
 connectivity

---
 src/p4est_connectivity.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index b7646b6..919cb4a 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -1920,10 +1920,10 @@ p4est_connectivity_new_drop (void)
   };
   const int8_t        tree_to_face[5 * 4] = {
     0, 0, 2, 2,
-    1, 2, 2, 3,
-    0, 1, 1, 1,
-    3, 3, 2, 3,
-    0, 1, 3, 0,
+    1, 6, 2, 3,
+    0, 1, 5, 1,
+    7, 3, 2, 3,
+    0, 1, 3, 4,
   };
 
   const p4est_topidx_t tree_to_corner[5 * 4] = {
-- 
2.43.0


From 898c806837c2b14eca304a43b47b53ed11eed097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 13/58] fix: 3D pillow geometry matches its connectivity across
 the trees

---
 src/p8est_geometry.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index 56ef995..e028e9c 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -149,6 +149,9 @@ p8est_geometry_pillow_X (p8est_geometry_t *geom,
   /* tree 1 => upper hemisphere */
   zp = which_tree == 1 ? -zp : zp;
 
+  /* the trees are connected with their z axes reversed */
+  zc = which_tree == 1 ? 1 - zc : zc;
+
   R1 = pillow->R1;
   R2 = pillow->R2;
 
-- 
2.43.0


From f31d8237e833ed34e0d675fcd49952bff63dd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 14/58] fix: p4est_is_balanced does not block on unbalanced
 forests

---
 src/p4est_ghost.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/p4est_ghost.c b/src/p4est_ghost.c
index 4869eb1..5b95456 100644
--- a/src/p4est_ghost.c
+++ b/src/p4est_ghost.c
@@ -872,10 +872,8 @@ p4est_is_balanced (p4est_t * p4est, p4est_connect_type_t btype)
 #endif
   p4est_ghost_t      *gl;
 
-  gl = p4est_ghost_new_check (p4est, btype, P4EST_GHOST_UNBALANCED_FAIL);
-  if (gl == NULL) {
-    return 0;
-  }
+  /* the forest may be arbitrarily unbalanced and must not block us */
+  gl = p4est_ghost_new_check (p4est, btype, P4EST_GHOST_UNBALANCED_ALLOW);
 
   for (ii = 0; ii < P4EST_HALF + 2; ++ii) {
     P4EST_QUADRANT_INIT (&n[ii]);
-- 
2.43.0


From 8f66a5395b70b56a854f06dd57db4623a0be98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 15/58] fix: p4est_is_valid detects gaps between trees and
 processes and wrong counters

---
 src/p4est_algorithms.c | 115 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 113 insertions(+), 2 deletions(-)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 49b3785..56e7831 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -504,12 +504,17 @@ p4est_is_valid (p4est_t * p4est)
   const p4est_topidx_t first_tree = p4est->first_local_tree;
   const p4est_topidx_t last_tree = p4est->last_local_tree;
   int                 i, maxlevel;
+  int                 mpiret;
   int                 failed;
   p4est_topidx_t      jt, next_tree;
   p4est_locidx_t      nquadrants, lquadrants, perlevel;
+  p4est_locidx_t      counted[P4EST_QMAXLEVEL + 1];
+  p4est_gloidx_t     *gfq;
+  size_t              zz;
   p4est_qcoord_t      mh = P4EST_QUADRANT_LEN (P4EST_QMAXLEVEL);
   p4est_quadrant_t   *q;
   p4est_quadrant_t    mylow, nextlow, s;
+  p4est_quadrant_t   *gfp;
   p4est_tree_t       *tree;
 
   failed = 0;
@@ -534,6 +539,19 @@ p4est_is_valid (p4est_t * p4est)
     goto failtest;
   }
 
+  /* check first item of global partition */
+  if (!(p4est->global_first_position[0].p.which_tree == 0 &&
+        p4est->global_first_position[0].x == 0 &&
+        p4est->global_first_position[0].y == 0
+#ifdef P4_TO_P8
+        && p4est->global_first_position[0].z == 0
+#endif
+      )) {
+    P4EST_NOTICE ("p4est invalid global begin position\n");
+    failed = 1;
+    goto failtest;
+  }
+
   /* check last item of global partition */
   if (!(p4est->global_first_position[num_procs].p.which_tree ==
         p4est->connectivity->num_trees &&
@@ -566,6 +584,27 @@ p4est_is_valid (p4est_t * p4est)
     goto failtest;
   }
 
+  /* check range of local trees */
+  if (first_tree >= 0 && (last_tree < first_tree ||
+                          last_tree >= p4est->connectivity->num_trees)) {
+    P4EST_NOTICE ("p4est invalid tree range\n");
+    failed = 1;
+    goto failtest;
+  }
+
+  /* check that all quadrants are legal by themselves */
+  for (jt = 0; jt < (p4est_topidx_t) p4est->trees->elem_count; ++jt) {
+    tree = p4est_tree_array_index (p4est->trees, jt);
+    for (zz = 0; zz < tree->quadrants.elem_count; ++zz) {
+      q = p4est_quadrant_array_index (&tree->quadrants, zz);
+      if (!p4est_quadrant_is_valid (q)) {
+        P4EST_NOTICE ("p4est invalid quadrant\n");
+        failed = 1;
+        goto failtest;
+      }
+    }
+  }
+
   /* check first tree in global partition */
   if (first_tree < 0) {
     if (!(first_tree == -1 && last_tree == -2)) {
@@ -573,6 +612,16 @@ p4est_is_valid (p4est_t * p4est)
       failed = 1;
       goto failtest;
     }
+    q = &p4est->global_first_position[rank];
+    if (q[0].p.which_tree != q[1].p.which_tree || q[0].x != q[1].x ||
+#ifdef P4_TO_P8
+        q[0].z != q[1].z ||
+#endif
+        q[0].y != q[1].y) {
+      P4EST_NOTICE ("p4est invalid empty process\n");
+      failed = 1;
+      goto failtest;
+    }
   }
   else {
     if (p4est->global_first_position[rank].p.which_tree != first_tree) {
@@ -691,6 +740,16 @@ p4est_is_valid (p4est_t * p4est)
         goto failtest;
       }
       q = p4est_quadrant_array_index (&tree->quadrants, 0);
+      if (jt > p4est->first_local_tree &&
+          (q->x != 0 || q->y != 0 ||
+#ifdef P4_TO_P8
+           q->z != 0 ||
+#endif
+           0)) {
+        P4EST_NOTICE ("p4est invalid begin of tree\n");
+        failed = 1;
+        goto failtest;
+      }
       p4est_quadrant_first_descendant (q, &s, P4EST_QMAXLEVEL);
       if (!p4est_quadrant_is_equal (&s, &tree->first_desc)) {
         P4EST_NOTICE ("p4est invalid first tree descendant\n");
@@ -706,8 +765,23 @@ p4est_is_valid (p4est_t * p4est)
         failed = 1;
         goto failtest;
       }
+      if (jt < p4est->last_local_tree &&
+          (s.x + mh != P4EST_ROOT_LEN || s.y + mh != P4EST_ROOT_LEN ||
+#ifdef P4_TO_P8
+           s.z + mh != P4EST_ROOT_LEN ||
+#endif
+           0)) {
+        P4EST_NOTICE ("p4est invalid end of tree\n");
+        failed = 1;
+        goto failtest;
+      }
     }
     else {
+      if (jt >= p4est->first_local_tree && jt <= p4est->last_local_tree) {
+        P4EST_NOTICE ("p4est invalid empty local tree\n");
+        failed = 1;
+        goto failtest;
+      }
       P4EST_QUADRANT_INIT (&s);
       if (s.level != tree->first_desc.level ||
           s.level != tree->last_desc.level) {
@@ -717,11 +791,16 @@ p4est_is_valid (p4est_t * p4est)
       }
     }
 
+    memset (counted, 0, sizeof (counted));
+    for (zz = 0; zz < tree->quadrants.elem_count; ++zz) {
+      q = p4est_quadrant_array_index (&tree->quadrants, zz);
+      ++counted[q->level];
+    }
     maxlevel = 0;
     nquadrants = 0;
     for (i = 0; i <= P4EST_QMAXLEVEL; ++i) {
       perlevel = tree->quadrants_per_level[i];
-      if (perlevel < 0) {
+      if (perlevel != counted[i]) {
         failed = 1;
         break;
       }
@@ -760,13 +839,45 @@ p4est_is_valid (p4est_t * p4est)
 
   if (p4est->global_first_quadrant[0] != 0 ||
       p4est->global_first_quadrant[num_procs] !=
-      p4est->global_num_quadrants) {
+      p4est->global_num_quadrants ||
+      p4est->global_first_quadrant[rank + 1] -
+      p4est->global_first_quadrant[rank] !=
+      (p4est_gloidx_t) p4est->local_num_quadrants) {
     P4EST_NOTICE ("p4est invalid global quadrant index\n");
     failed = 1;
     goto failtest;
   }
 
 failtest:
+  /* the global partition must be the same on all processes */
+  gfq = P4EST_ALLOC (p4est_gloidx_t, num_procs + 1);
+  gfp = P4EST_ALLOC (p4est_quadrant_t, num_procs + 1);
+  memcpy (gfq, p4est->global_first_quadrant,
+          (num_procs + 1) * sizeof (p4est_gloidx_t));
+  memcpy (gfp, p4est->global_first_position,
+          (num_procs + 1) * sizeof (p4est_quadrant_t));
+  mpiret = sc_MPI_Bcast (gfq, num_procs + 1, P4EST_MPI_GLOIDX, 0,
+                         p4est->mpicomm);
+  SC_CHECK_MPI (mpiret);
+  mpiret = sc_MPI_Bcast (gfp, (num_procs + 1) *
+                         (int) sizeof (p4est_quadrant_t), sc_MPI_BYTE, 0,
+                         p4est->mpicomm);
+  SC_CHECK_MPI (mpiret);
+  for (i = 0; !failed && i <= num_procs; ++i) {
+    q = &p4est->global_first_position[i];
+    if (gfq[i] != p4est->global_first_quadrant[i] ||
+        gfp[i].p.which_tree != q->p.which_tree ||
+#ifdef P4_TO_P8
+        gfp[i].z != q->z ||
+#endif
+        gfp[i].x != q->x || gfp[i].y != q->y) {
+      P4EST_NOTICE ("p4est invalid global partition\n");
+      failed = 1;
+    }
+  }
+  P4EST_FREE (gfp);
+  P4EST_FREE (gfq);
+
   return !p4est_comm_sync_flag (p4est, failed, sc_MPI_BOR);
 }
 
-- 
2.43.0


From 3b15795fbacb5c105b70b5bdbbd24f9ab62c2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 16/58] fix: reject forest files with invalid counts or missing
 data

---
 src/p4est.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/p4est.c b/src/p4est.c
index 989f94f..842070b 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3743,7 +3743,7 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   sc_array_t         *qarr, *darr;
   char               *dap, *lbuf, *lptr;
   MPI_File            mpifile;
-  MPI_Offset          mpiofs;
+  MPI_Offset          mpiofs, mpisize;
 
   /* retrieve MPI information */
   mpiret = sc_MPI_Comm_size (mpicomm, &num_procs);
@@ -3813,6 +3813,8 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       SC_CHECK_ABORT (save_data, "quadrant data not saved");
     }
     save_num_procs = (int) u64a[5];
+    SC_CHECK_ABORT (save_num_procs > 0 && (uint64_t) save_num_procs == u64a[5],
+                    "invalid num procs");
     SC_CHECK_ABORT (autopartition || num_procs == save_num_procs,
                     "num procs mismatch");
 
@@ -3849,11 +3851,12 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
     if (!autopartition) {
       P4EST_ASSERT (num_procs == save_num_procs);
       u64a = P4EST_REALLOC (u64a, uint64_t, num_procs);
-      sc_io_source_read (src, u64a, sizeof (uint64_t) * (size_t) num_procs,
-                         NULL);
+      retval = sc_io_source_read (src, u64a, sizeof (uint64_t) *
+                                  (size_t) num_procs, NULL);
       SC_CHECK_ABORT (!retval, "read quadrant partition");
       for (i = 0; i < num_procs; ++i) {
         gfq[i + 1] = (p4est_gloidx_t) u64a[i];
+        SC_CHECK_ABORT (gfq[i] <= gfq[i + 1], "invalid quadrant partition");
       }
     }
     else {
@@ -3862,7 +3865,8 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
         (src, NULL, (long) ((save_num_procs - 1) * sizeof (uint64_t)), NULL);
       SC_CHECK_ABORT (!retval, "seek over ignored partition");
       retval = sc_io_source_read (src, &u64int, sizeof (uint64_t), NULL);
-      SC_CHECK_ABORT (!retval, "read quadrant count");
+      SC_CHECK_ABORT (!retval && (p4est_gloidx_t) u64int >= 0,
+                      "read quadrant count");
       p4est_comm_global_first_quadrant ((p4est_gloidx_t) u64int, num_procs,
                                         gfq);
     }
@@ -3886,6 +3890,8 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
     SC_CHECK_ABORT (!retval, "read pertree information");
     for (jt = 0; jt < num_trees; ++jt) {
       pertree[jt + 1] = (p4est_gloidx_t) u64a[jt];
+      SC_CHECK_ABORT (pertree[jt] < pertree[jt + 1],
+                      "invalid pertree information");
     }
     SC_CHECK_ABORT (gfq[num_procs] == pertree[num_trees], "pertree mismatch");
   }
@@ -3912,7 +3918,13 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   mpiret = MPI_File_open (mpicomm, (char *) filename,
                           MPI_MODE_RDONLY, MPI_INFO_NULL, &mpifile);
   SC_CHECK_MPI (mpiret);
-  mpiofs = (MPI_Offset) (file_offset + zpadding + gfq[rank] * comb_size);
+  mpiret = MPI_File_get_size (mpifile, &mpisize);
+  SC_CHECK_MPI (mpiret);
+  mpiofs = (MPI_Offset) (file_offset + zpadding);
+  SC_CHECK_ABORT (comb_size >= qbuf_size && mpisize >= mpiofs &&
+                  (size_t) gfq[num_procs] <=
+                  (size_t) (mpisize - mpiofs) / comb_size, "file too short");
+  mpiofs += (MPI_Offset) (gfq[rank] * comb_size);
   mpiret = MPI_File_seek (mpifile, mpiofs, MPI_SEEK_SET);
   SC_CHECK_MPI (mpiret);
 
@@ -4123,6 +4135,8 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
       SC_CHECK_ABORT (save_data, "quadrant data not saved");
     }
     save_num_procs = (int) u64a[5];
+    SC_CHECK_ABORT (save_num_procs > 0 && (uint64_t) save_num_procs == u64a[5],
+                    "invalid num procs");
     SC_CHECK_ABORT (autopartition || num_procs == save_num_procs,
                     "num procs mismatch");
 
@@ -4159,11 +4173,12 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
     if (!autopartition) {
       P4EST_ASSERT (num_procs == save_num_procs);
       u64a = P4EST_REALLOC (u64a, uint64_t, num_procs);
-      sc_io_source_read (src, u64a, sizeof (uint64_t) * (size_t) num_procs,
-                         NULL);
+      retval = sc_io_source_read (src, u64a, sizeof (uint64_t) *
+                                  (size_t) num_procs, NULL);
       SC_CHECK_ABORT (!retval, "read quadrant partition");
       for (i = 0; i < num_procs; ++i) {
         gfq[i + 1] = (p4est_gloidx_t) u64a[i];
+        SC_CHECK_ABORT (gfq[i] <= gfq[i + 1], "invalid quadrant partition");
       }
     }
     else {
@@ -4172,7 +4187,8 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
         (src, NULL, (long) ((save_num_procs - 1) * sizeof (uint64_t)), NULL);
       SC_CHECK_ABORT (!retval, "seek over ignored partition");
       retval = sc_io_source_read (src, &u64int, sizeof (uint64_t), NULL);
-      SC_CHECK_ABORT (!retval, "read quadrant count");
+      SC_CHECK_ABORT (!retval && (p4est_gloidx_t) u64int >= 0,
+                      "read quadrant count");
       p4est_comm_global_first_quadrant ((p4est_gloidx_t) u64int, num_procs,
                                         gfq);
     }
@@ -4196,6 +4212,8 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
     SC_CHECK_ABORT (!retval, "read pertree information");
     for (jt = 0; jt < num_trees; ++jt) {
       pertree[jt + 1] = (p4est_gloidx_t) u64a[jt];
+      SC_CHECK_ABORT (pertree[jt] < pertree[jt + 1],
+                      "invalid pertree information");
     }
     SC_CHECK_ABORT (gfq[num_procs] == pertree[num_trees], "pertree mismatch");
   }
-- 
2.43.0


From 4c9919bda77f320900f1ae55daaf8e3695dfcc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 17/58] fix: inflating checks the range of the levels before
 using them

---
 src/p4est_io.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/p4est_io.c b/src/p4est_io.c
index d849b6d..ec48459 100644
--- a/src/p4est_io.c
+++ b/src/p4est_io.c
@@ -242,7 +242,7 @@ p4est_inflate_internal (sc_MPI_Comm mpicomm,
   size_t              dsize;
   size_t              gk1, gk2;
   size_t              qz, zqoffset, zqthistree;
-  p4est_qcoord_t     *qap;
+  p4est_qcoord_t      qlevel, *qap;
   char               *dap;
 
   P4EST_GLOBAL_PRODUCTION ("Into " P4EST_STRING "_inflate\n");
@@ -359,10 +359,17 @@ p4est_inflate_internal (sc_MPI_Comm mpicomm,
         q->z = *qap++;
 #endif
 /* *INDENT-OFF* HORRIBLE indent bug */
-        q->level = ql = (int8_t) *qap++;
+        qlevel = *qap++;
 /* *INDENT-ON* */
-        P4EST_ASSERT (ql >= 0 && ql <= P4EST_QMAXLEVEL);
-        ++tree->quadrants_per_level[ql];
+        if (qlevel < 0 || qlevel > P4EST_QMAXLEVEL) {
+          /* the resulting forest will not be considered valid */
+          q->level = -1;
+          ql = 0;
+        }
+        else {
+          q->level = ql = (int8_t) qlevel;
+          ++tree->quadrants_per_level[ql];
+        }
         tml = SC_MAX (tml, ql);
         p4est_quadrant_init_data (p4est, jt, q, NULL);
         if (data != NULL) {
-- 
2.43.0


From 4fe2d4e8e5c6658922493609fa7ba8c571abb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 18/58] fix: connectivity validation reads no table before it
 is checked

---
 src/p4est_connectivity.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 919cb4a..66adc86 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -928,6 +928,10 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   }
 
 #ifdef P4_TO_P8
+  if (num_edges == 0 && num_ett != 0) {
+    P4EST_NOTICE ("Zero edges still with edge to tree entries\n");
+    goto failure;
+  }
   for (nett = 0; nett < num_ett; ++nett) {
     if (ett[nett] < 0 || ett[nett] >= num_trees) {
       P4EST_NOTICEF ("Edge to tree %lld out of range\n", (long long) nett);
@@ -940,6 +944,10 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   }
 #endif
 
+  if (num_corners == 0 && num_ctt != 0) {
+    P4EST_NOTICE ("Zero corners still with corner to tree entries\n");
+    goto failure;
+  }
   for (nctt = 0; nctt < num_ctt; ++nctt) {
     if (ctt[nctt] < 0 || ctt[nctt] >= num_trees) {
       P4EST_NOTICEF ("Corner to tree %lld out of range\n", (long long) nctt);
@@ -1019,7 +1027,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
     }
     if (num_edges > 0) {
       for (edge = 0; edge < P8EST_EDGES; ++edge) {
-        p8est_find_edge_transform (conn, tree, edge, &ei);
         aedge = tte[tree * P8EST_EDGES + edge];
         if (aedge < -1 || aedge >= num_edges) {
           P4EST_NOTICEF ("Tree to edge out of range %lld %d\n",
@@ -1082,7 +1089,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
     }
     if (num_corners > 0) {
       for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
-        p4est_find_corner_transform (conn, tree, corner, &ci);
         acorner = ttc[tree * P4EST_CHILDREN + corner];
         if (acorner < -1 || acorner >= num_corners) {
           P4EST_NOTICEF ("Tree to corner out of range %lld %d\n",
@@ -1133,6 +1139,18 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
       }
     }
   }
+
+  /* all tables are consistent and may be used to look up neighbors */
+  for (tree = 0; tree < num_trees; ++tree) {
+#ifdef P4_TO_P8
+    for (edge = 0; edge < P8EST_EDGES; ++edge) {
+      p8est_find_edge_transform (conn, tree, edge, &ei);
+    }
+#endif
+    for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
+      p4est_find_corner_transform (conn, tree, corner, &ci);
+    }
+  }
   good = 1;
 
 failure:
-- 
2.43.0


From 8ae3e4277766d09dc1afbff0b092b13b97ac75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 19/58] fix: reading a connectivity rejects counts that
 overflow

---
 src/p4est_connectivity.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 66adc86..dea29fd 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -1458,6 +1458,12 @@ p4est_connectivity_source (sc_io_source_t * source)
     /* "p4est_topidx_t size mismatch" */
     return NULL;
   }
+  for (tcount = 2; tcount < 8; ++tcount) {
+    if (array10[tcount] >= (uint64_t) P4EST_TOPIDX_MAX) {
+      /* "count out of range" */
+      return NULL;
+    }
+  }
   num_vertices = (p4est_topidx_t) array10[2];
   num_trees = (p4est_topidx_t) array10[3];
   num_edges = (p4est_topidx_t) array10[4];
@@ -1501,6 +1507,22 @@ p4est_connectivity_source (sc_io_source_t * source)
     return NULL;
   }
 
+  if (num_vertices > P4EST_TOPIDX_MAX / 3 ||
+      num_trees > P4EST_TOPIDX_MAX / SC_MAX (P4EST_FACES, P4EST_CHILDREN)) {
+    /* "too many vertices or trees" */
+    return NULL;
+  }
+#ifdef P4_TO_P8
+  if (num_edges > 0 && num_trees > P4EST_TOPIDX_MAX / P8EST_EDGES) {
+    /* "too many trees" */
+    return NULL;
+  }
+#endif
+  if (tree_attr_bytes > ((size_t) -1 / 2) / (size_t) SC_MAX (num_trees, 1)) {
+    /* "too many bytes of tree attributes" */
+    return NULL;
+  }
+
   conn = p4est_connectivity_new (num_vertices, num_trees,
 #ifdef P4_TO_P8
                                  num_edges, num_ett,
-- 
2.43.0


From 18115275bf25a0db86c0e8e2b2d9c881db6895a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 20/58] fix: keep the order of nonempty processes when reducing
 the environment

With add_to_beginning, processes of the group that own elements were moved
in front as well, which scrambled the order of the elements.  Also do not
leave the rank map undefined when the communicator remains as it is.
---
 src/p4est_communication.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index 1e5fc07..ba25ddb 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -161,6 +161,11 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
   int                *ranks, *subranks;
   int                 p;
 
+  /* there is no rank map if the communicator remains as it is */
+  if (ranks_subcomm) {
+    *ranks_subcomm = NULL;
+  }
+
   /* exit if MPI communicator cannot be reduced */
   if (mpisize == 1) {
     return 1;
@@ -195,11 +200,16 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
 
   /* create sub-communicator */
   if (group_add != sc_MPI_GROUP_NULL) {
-    sc_MPI_Group        group_union;
+    sc_MPI_Group        group_union, group_empty;
 
     /* create union with optional group */
     if (add_to_beginning) {
-      mpiret = sc_MPI_Group_union (group_add, subgroup, &group_union);
+      /* only empty processes are moved: the others remain in order */
+      mpiret = sc_MPI_Group_difference (group_add, subgroup, &group_empty);
+      SC_CHECK_MPI (mpiret);
+      mpiret = sc_MPI_Group_union (group_empty, subgroup, &group_union);
+      SC_CHECK_MPI (mpiret);
+      mpiret = sc_MPI_Group_free (&group_empty);
     }
     else {
       mpiret = sc_MPI_Group_union (subgroup, group_add, &group_union);
-- 
2.43.0


From fb61cdf9b311182ae59d65c9d37f79b8f20810d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 21/58] fix: free an owned communicator when it is replaced by
 its duplicate

---
 src/p4est_communication.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index ba25ddb..87a3144 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -73,6 +73,12 @@ p4est_comm_parallel_env_duplicate (p4est_t * p4est)
   /* duplicate MPI communicator */
   mpiret = sc_MPI_Comm_dup (mpicomm, &(p4est->mpicomm));
   SC_CHECK_MPI (mpiret);
+
+  /* the previous communicator is not accessible any longer */
+  if (p4est->mpicomm_owned) {
+    mpiret = sc_MPI_Comm_free (&mpicomm);
+    SC_CHECK_MPI (mpiret);
+  }
   p4est->mpicomm_owned = 1;
 }
 
-- 
2.43.0


From 6951a8d035b48c3fd4306c8f46c51e1fda726763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 22/58] fix: decide by the rank map whether the extruded forest
 keeps its environment

The map was read uninitialized and leaked, and the columns could end up on
another communicator than the forest when all processes remain.
---
 src/p6est_communication.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/p6est_communication.c b/src/p6est_communication.c
index 3a46027..6ead9fb 100644
--- a/src/p6est_communication.c
+++ b/src/p6est_communication.c
@@ -125,10 +125,14 @@ p6est_comm_parallel_env_reduce_ext (p6est_t ** p6est_supercomm,
   p4est_gloidx_t     *n_quadrants;
   int                 submpisize;
   sc_MPI_Comm         submpicomm;
-  int                *ranks;
+  int                *ranks = NULL;
   int                 i;
   int                 is_nonempty;
 
+  if (ranks_subcomm) {
+    *ranks_subcomm = NULL;
+  }
+
   /* reduce MPI communicator of column layout */
   is_nonempty =
     p4est_comm_parallel_env_reduce_ext (&(p6est->columns), group_add,
@@ -139,23 +143,21 @@ p6est_comm_parallel_env_reduce_ext (p6est_t ** p6est_supercomm,
     p6est->columns = NULL;
     p6est_destroy (p6est);
     *p6est_supercomm = NULL;
-    if (ranks_subcomm) {
-      *ranks_subcomm = NULL;
-    }
     P4EST_ASSERT (ranks == NULL);
     return 0;
   }
 
+  /* exit if the communicator was not replaced */
+  if (ranks == NULL) {
+    return 1;
+  }
+
   /* get sub-communicator */
   submpicomm = p6est->columns->mpicomm;
 
   /* update size of new MPI communicator */
   mpiret = sc_MPI_Comm_size (submpicomm, &submpisize);
   SC_CHECK_MPI (mpiret);
-  if (submpisize == p6est->mpisize) {
-    P4EST_ASSERT (ranks == NULL);
-    return 1;
-  }
 
   /* set new parallel environment */
   p6est_comm_parallel_env_release (p6est);
-- 
2.43.0


From 055562fbfcfde16aa898c235e7d2480028845efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 23/58] fix: do not share the data pool when copying an
 extruded forest without data

---
 src/p6est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p6est.c b/src/p6est.c
index 36af898..bfac564 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -609,6 +609,7 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
   }
   else {
     p6est->data_size = 0;
+    p6est->user_data_pool = NULL;
   }
   p6est->layer_pool = p2est_quadrant_mempool_new ();
 
-- 
2.43.0


From 7f58626b335193df9bc1cf1e0777c5d0ebfbf43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 24/58] fix: out of bounds access when converting extruded
 partitions

The last offset was written past the end of the array and its counterpart
read uninitialized.  The counts of layers were also written to the wrong
array, and wrong for several empty processes at the end.
---
 src/p6est.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index bfac564..48a813e 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2184,8 +2184,8 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2224,7 +2224,7 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2251,8 +2251,8 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->columns->global_num_quadrants;
 
@@ -2294,7 +2294,7 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2323,8 +2323,8 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     p6est->columns->global_first_quadrant[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2358,18 +2358,17 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     }
     if (offset == p6est->columns->global_num_quadrants) {
       new_offsets[p] = p6est->global_first_layer[mpisize];
-      break;
     }
     offset += num_columns_in_proc[p];
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
   for (p = 0; p < mpisize; p++) {
-    num_columns_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
+    num_layers_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
   }
 
   P4EST_FREE (new_offsets);
-- 
2.43.0


From 94a045b358224f882e84d7cb1353b25a76acd483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 25/58] fix: allocate layer data after choosing the layer when
 joining columns

The data was allocated for the first candidate and then replaced by the data
of a coarser layer, which is freed with the outgoing column.
---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 48a813e..c380030 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1610,13 +1610,13 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
     }
     p = p2est_quadrant_array_push (work_array);
     *p = *q[0];
-    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 1; j < num_outgoing; j++) {
       P4EST_ASSERT (q[j]->z == p->z);
       if (q[j]->level < p->level) {
         *p = *q[j];
       }
     }
+    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 0; j < num_outgoing; j++) {
       if (q[j]->level > p->level) {
         P4EST_ASSERT (p2est_quadrant_is_ancestor (p, q[j]));
-- 
2.43.0


From d2ffdeb05c02e69d657a1fd16d3a5abfdf2e3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 26/58] fix: do not assert on the data pool of an extruded
 forest without data

---
 src/p6est.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index c380030..d71565b 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1447,7 +1447,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
   int                 i, stackheight;
 #ifdef P4EST_ENABLE_DEBUG
-  size_t              mcount = p6est->user_data_pool->elem_count;
+  size_t              mcount = p6est->user_data_pool == NULL ? 0 :
+    p6est->user_data_pool->elem_count;
   p4est_qcoord_t      startpos, endpos;
 #endif
 
@@ -1554,7 +1555,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   sc_array_resize (descendants, new_count);
 
 #ifdef P4EST_ENABLE_DEBUG
-  P4EST_ASSERT (mcount - p6est->user_data_pool->elem_count ==
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                mcount - p6est->user_data_pool->elem_count ==
                 (old_count - new_count));
 
   q = p2est_quadrant_array_index (descendants, new_count - 1);
@@ -1756,7 +1758,8 @@ p6est_coarsen_layers_ext (p6est_t * p6est, int coarsen_recursive,
   }
   p6est_compress_columns (p6est);
   p6est_update_offsets (p6est);
-  P4EST_ASSERT (p6est->user_data_pool->elem_count == layers->elem_count);
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                p6est->user_data_pool->elem_count == layers->elem_count);
 
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF
-- 
2.43.0


From 77bbe31028b5ad47a80f2851dcb0b68cb2c907bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 27/58] fix: do not reject a corner whose neighbors all qualify
 in p4est_mesh

---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 70961a6..c5b2791 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -426,7 +426,7 @@ mesh_corner_process_inter_tree_corners (p4est_iter_corner_info_t * info,
   }
 
   /* we have excluded between 0 and all quadrants. */
-  P4EST_ASSERT (0 <= goodones && goodones < n_adjacent_quads);
+  P4EST_ASSERT (0 <= goodones && goodones <= n_adjacent_quads);
 
   if (goodones > 0) {
     /* Allocate and fill corner information in the mesh structure */
-- 
2.43.0


From 69bedfa99a80a3cd6ed20edb46723092998e1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 28/58] fix: check the balance of the stored parameters in
 p4est_mesh_new_params

---
 src/p4est_mesh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index c5b2791..2382bd8 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -1265,9 +1265,6 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
   p4est_locidx_t      jl;
   p4est_mesh_t       *mesh;
 
-  /* check whether input condition for p4est is met */
-  P4EST_ASSERT (p4est_is_balanced (p4est, params->btype));
-
   mesh = P4EST_ALLOC_ZERO (p4est_mesh_t, 1);
 
   /* store mesh creation parameters in mesh */
@@ -1279,6 +1276,9 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
     p4est_mesh_params_init (&mesh->params);
   }
 
+  /* check whether input condition for p4est is met */
+  P4EST_ASSERT (p4est_is_balanced (p4est, mesh->params.btype));
+
   /* number of local quadrants and number of local ghost cells */
   lq = mesh->local_num_quadrants = p4est->local_num_quadrants;
   ng = mesh->ghost_num_quadrants = (p4est_locidx_t) ghost->ghosts.elem_count;
-- 
2.43.0


From f505a55df5345b9d101b107edb712e1fdb4732cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 29/58] fix: initialize the tree guess in
 p4est_mesh_quadrant_cumulative

---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 2382bd8..07c4137 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -2164,7 +2164,7 @@ p4est_mesh_quadrant_cumulative (p4est_t * p4est, p4est_mesh_t * mesh,
   p4est_locidx_t      quadrant_id;
   p4est_quadrant_t   *quadrant;
 #ifdef P4EST_ENABLE_DEBUG
-  p4est_topidx_t      dwhich_tree;
+  p4est_topidx_t      dwhich_tree = -1;
   p4est_locidx_t      dquadrant_id;
   p4est_quadrant_t   *dquadrant;
 #endif
-- 
2.43.0


From 3642614a0faa1385be67a4e7ca4990e182ee31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 30/58] fix: permute the attributes and allow for missing
 vertices in p4est_connectivity_permute

---
 src/p4est_connectivity.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index dea29fd..1a19bd7 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4253,9 +4253,18 @@ p4est_connectivity_permute (p4est_connectivity_t * conn, sc_array_t * inperm,
   /* now we reorder the various tables via in-place permutation */
 
   /* tree_to_vertex */
-  sc_array_init_data (&array_view, conn->tree_to_vertex,
-                      P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
-  sc_array_permute (&array_view, permarray, 1);
+  if (conn->tree_to_vertex != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_vertex,
+                        P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
+
+  /* tree_to_attr */
+  if (conn->tree_to_attr != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_attr,
+                        conn->tree_attr_bytes, ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
 
   /* tree_to_tree */
   sc_array_init_data (&array_view, conn->tree_to_tree,
-- 
2.43.0


From 34cb9a3cc130832d3446e666cf27609c6de1a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 31/58] fix: heed stored edge flips in
 p8est_connectivity_join_faces

---
 src/p4est_connectivity.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 1a19bd7..05d4a4c 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4841,6 +4841,23 @@ p4est_connectivity_join_corners (p4est_connectivity_t * conn,
 
 #ifdef P4_TO_P8
 
+/* query whether an explicitly stored edge is reversed within its group */
+static int
+p8est_connectivity_stored_flip (p8est_connectivity_t * conn,
+                                p4est_topidx_t tree, int edge)
+{
+  p4est_topidx_t      e = conn->tree_to_edge[P8EST_EDGES * tree + edge];
+  p4est_topidx_t      it;
+
+  for (it = conn->ett_offset[e]; it < conn->ett_offset[e + 1]; it++) {
+    if (conn->edge_to_tree[it] == tree &&
+        (int) conn->edge_to_edge[it] % P8EST_EDGES == edge) {
+      return (int) conn->edge_to_edge[it] / P8EST_EDGES;
+    }
+  }
+  SC_ABORT_NOT_REACHED ();
+}
+
 static void
 p8est_connectivity_join_edges (p8est_connectivity_t * conn,
                                p4est_topidx_t tree_left,
@@ -4848,6 +4865,7 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
                                int edge_left, int edge_right, int orientation)
 {
   int                 i, c_left, c_right;
+  int                 flip;
   p4est_topidx_t      e, e0, e1, swap;
   p4est_topidx_t      startt, endt, n1, it, end0;
   p4est_topidx_t     *swapspace;
@@ -4906,6 +4924,11 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
   startt = conn->ett_offset[e1];
   endt = conn->ett_offset[e1 + 1];
 
+  /* the edges may already be reversed relative to their stored groups */
+  flip = (orientation ? 1 : 0)
+    ^ p8est_connectivity_stored_flip (conn, tree_left, edge_left)
+    ^ p8est_connectivity_stored_flip (conn, tree_right, edge_right);
+
   n1 = endt - startt;           /* the number of tree edges that border e1 */
   for (it = startt; it < endt; it++) {  /* get all trees that reference e1 */
     p4est_topidx_t      nt = conn->edge_to_tree[it];    /* nt is a tree the borders e1 */
@@ -4915,9 +4938,9 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
 
     nte %= P8EST_EDGES;         /* okay, now nte is nt's numbering for e1 */
     conn->tree_to_edge[P8EST_EDGES * nt + nte] = e0;    /* e1->e0 */
-    /* if edge_left and edge_right have opposite orientations, then the
+    /* if the two groups of edges run in opposite directions, then the
      * orientation information in edge_to_edge has to be toggled */
-    conn->edge_to_edge[it] = P8EST_EDGES * (o ^ orientation) + nte;
+    conn->edge_to_edge[it] = P8EST_EDGES * (o ^ flip) + nte;
   }
 
   /* we now have to move the entries in edge_to_tree and edge_to_edge around */
-- 
2.43.0


From 3545a03591dcef1861834f79f5080ae02e7acc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 32/58] fix: do not leak memory in
 p4est_connectivity_is_equivalent

---
 src/p4est_connectivity.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 05d4a4c..acbdce6 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5132,12 +5132,16 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p8est_find_edge_transform (conn1, t, e, &e1);
         p8est_find_edge_transform (conn2, t, e, &e2);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
+          sc_array_reset (&e1.edge_transforms);
+          sc_array_reset (&e2.edge_transforms);
           return 0;
         }
         /* sort so memory comparison is correct */
         sc_array_sort (&e1.edge_transforms, p8est_edge_compare);
         sc_array_sort (&e2.edge_transforms, p8est_edge_compare);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
+          sc_array_reset (&e1.edge_transforms);
+          sc_array_reset (&e2.edge_transforms);
           return 0;
         }
         for (zz = 0; zz < e1.edge_transforms.elem_count; zz++) {
@@ -5152,6 +5156,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
               t1->naxis[2] != t2->naxis[2] ||
               t1->nedge != t2->nedge ||
               t1->nflip != t2->nflip || t1->ntree != t2->ntree) {
+            sc_array_reset (&e1.edge_transforms);
+            sc_array_reset (&e2.edge_transforms);
             return 0;
           }
         }
@@ -5175,6 +5181,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p4est_find_corner_transform (conn2, t, c, &c2);
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
+          sc_array_reset (&c1.corner_transforms);
+          sc_array_reset (&c2.corner_transforms);
           return 0;
         }
         /* sort so memory comparison is correct */
@@ -5183,6 +5191,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
 
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
+          sc_array_reset (&c1.corner_transforms);
+          sc_array_reset (&c2.corner_transforms);
           return 0;
         }
         for (zz = 0; zz < c1.corner_transforms.elem_count; zz++) {
@@ -5192,6 +5202,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
             (&c2.corner_transforms, zz);
 
           if (t1->ncorner != t2->ncorner || t1->ntree != t2->ntree) {
+            sc_array_reset (&c1.corner_transforms);
+            sc_array_reset (&c2.corner_transforms);
             return 0;
           }
         }
-- 
2.43.0


From 3f909e8de1758ce9deee6414c4dc687597fbb87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 33/58] fix: accept a last line without a newline in ABAQUS
 files

---
 src/p4est_connectivity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index acbdce6..cecb49e 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5268,6 +5268,10 @@ p4est_connectivity_getline_upper (FILE * stream)
       P4EST_FREE (linep);
       return NULL;
     }
+    if (c == EOF) {
+      /* the last line need not be terminated */
+      c = '\n';
+    }
     c = toupper (c);
 
     if (--len == 0) {
-- 
2.43.0


From 0e4a068de8915663cd58b0a1053de40f20dd9773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 34/58] fix: reject ABAQUS files with invalid vertex numbers or
 overfull faces

---
 src/p4est_connectivity.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index cecb49e..86155f6 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5310,10 +5310,15 @@ p4est_connectivity_read_inp_stream (FILE * stream,
   p4est_topidx_t      num_elements = 0;
   int                 fill_trees_and_vertices = (vertices != NULL &&
                                                  tree_to_vertex != NULL);
+  char               *node_seen = NULL;
 
   P4EST_ASSERT ((vertices == NULL && tree_to_vertex == NULL) ||
                 (vertices != NULL && tree_to_vertex != NULL));
 
+  if (fill_trees_and_vertices) {
+    node_seen = P4EST_ALLOC_ZERO (char, *num_vertices);
+  }
+
   for (;;) {
     line = p4est_connectivity_getline_upper (stream);
 
@@ -5358,18 +5363,28 @@ p4est_connectivity_read_inp_stream (FILE * stream,
         retval = sscanf (line, "%lld, %lf, %lf, %lf", &node, &x, &y, &z);
         if (retval != 4) {
           P4EST_LERROR ("Premature end of file");
+          P4EST_FREE (node_seen);
           P4EST_FREE (line);
           return 1;
         }
 
-        if (node > *num_vertices) {
+        if (node < 1 || node > *num_vertices) {
           P4EST_LERRORF
             ("Encountered vertex %lld that will not fit in vertices"
              " array of length %lld.  Are the vertices contiguously"
              " numbered?\n", node, (long long int) *num_vertices);
+          P4EST_FREE (node_seen);
+          P4EST_FREE (line);
+          return 1;
+        }
+
+        if (node_seen[node - 1]) {
+          P4EST_LERRORF ("Encountered vertex %lld repeatedly\n", node);
+          P4EST_FREE (node_seen);
           P4EST_FREE (line);
           return 1;
         }
+        node_seen[node - 1] = 1;
 
         vertices[3 * (node - 1) + 0] = x;
         vertices[3 * (node - 1) + 1] = y;
@@ -5387,6 +5402,7 @@ p4est_connectivity_read_inp_stream (FILE * stream,
         if (num_elements >= *num_trees) {
           P4EST_LERROR ("Encountered element that will not fit into"
                         " tree_to_vertex array. More elements than expected.\n");
+          P4EST_FREE (node_seen);
           P4EST_FREE (line);
           return 1;
         }
@@ -5406,12 +5422,21 @@ p4est_connectivity_read_inp_stream (FILE * stream,
           );
         if (retval != P4EST_CHILDREN) {
           P4EST_LERROR ("Premature end of file");
+          P4EST_FREE (node_seen);
           P4EST_FREE (line);
           return 1;
         }
 
-        for (n = 0; n < P4EST_CHILDREN; ++n)
+        for (n = 0; n < P4EST_CHILDREN; ++n) {
+          if (v[n] < 1 || v[n] > *num_vertices) {
+            P4EST_LERRORF ("Encountered element with invalid vertex %lld\n",
+                           v[n]);
+            P4EST_FREE (node_seen);
+            P4EST_FREE (line);
+            return 1;
+          }
           tree_to_vertex[P4EST_CHILDREN * num_elements + n] = v[n] - 1;
+        }
       }
 
       ++num_elements;
@@ -5421,6 +5446,8 @@ p4est_connectivity_read_inp_stream (FILE * stream,
     P4EST_FREE (line);
   }
 
+  P4EST_FREE (node_seen);
+
   *num_vertices = num_nodes;
   *num_trees = num_elements;
 
@@ -5486,6 +5513,10 @@ p4est_connectivity_read_inp (const char *filename)
 
   /* Compute real tree_to_* fields and complete (edge and) corner fields. */
   p4est_connectivity_complete (conn);
+  if (!p4est_connectivity_is_valid (conn)) {
+    P4EST_LERRORF ("Elements in %s do not form a valid mesh\n", filename);
+    goto dead;
+  }
 
   retval = fclose (fid);
   fid = NULL;
-- 
2.43.0


From 3294fab953eaffd39f106c854f283c7f30937321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 35/58] fix: reject tetrahedra whose node number equals the
 number of nodes

---
 src/p8est_tets_hexes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p8est_tets_hexes.c b/src/p8est_tets_hexes.c
index b5c1081..660a5c5 100644
--- a/src/p8est_tets_hexes.c
+++ b/src/p8est_tets_hexes.c
@@ -197,7 +197,7 @@ p8est_tets_read_ele (const char *elefilename, p4est_topidx_t num_nodes,
       goto dead;
     }
     for (k = 0; k < 4; ++k) {
-      if (nl[k] < 0 || nl[k] > lmax_nodes) {
+      if (nl[k] < 0 || nl[k] >= lmax_nodes) {
         P4EST_LERRORF ("Tet %ld has invalid node number %d\n", (long) iz, k);
         goto dead;
       }
-- 
2.43.0


From aeb22ffe586aaa9a7ad0d501429bf107ba6409d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 36/58] fix: notice malformed attributes in tetgen files

---
 src/p8est_tets_hexes.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/p8est_tets_hexes.c b/src/p8est_tets_hexes.c
index 660a5c5..192b9e2 100644
--- a/src/p8est_tets_hexes.c
+++ b/src/p8est_tets_hexes.c
@@ -67,6 +67,8 @@ p8est_tets_read_node (const char *nodefilename)
   int                 retval;
   int                 k;
   int                 dims, num_attributes, boundary_marker;
+  int                 iskip;
+  double              dskip;
   long                jl, lnum_nodes;
   double             *pc;
   size_t              iz, znum_nodes;
@@ -105,7 +107,7 @@ p8est_tets_read_node (const char *nodefilename)
       goto dead;
     }
     for (k = 0; k < num_attributes; ++k) {
-      retval = fscanf (nodefile, "%*f");
+      retval = fscanf (nodefile, "%lf", &dskip) - 1;
       if (retval != 0) {
         P4EST_LERRORF ("Failed to read node %ld attribute %d\n", (long) iz,
                        k);
@@ -113,7 +115,7 @@ p8est_tets_read_node (const char *nodefilename)
       }
     }
     if (boundary_marker) {
-      retval = fscanf (nodefile, "%*d");
+      retval = fscanf (nodefile, "%d", &iskip) - 1;
       if (retval != 0) {
         P4EST_LERRORF ("Failed to read node %ld boundary marker\n",
                        (long) iz);
@@ -149,6 +151,7 @@ p8est_tets_read_ele (const char *elefilename, p4est_topidx_t num_nodes,
   int                 retval;
   int                 k;
   int                 nodespertet, region;
+  int                 iskip;
   long                jl, lnum_tets, lmax_nodes;
   long                nl[4];
   size_t              iz, znum_tets;
@@ -209,7 +212,7 @@ p8est_tets_read_ele (const char *elefilename, p4est_topidx_t num_nodes,
         retval = fscanf (elefile, "%d", pi) - 1;
       }
       else {
-        retval = fscanf (elefile, "%*d");
+        retval = fscanf (elefile, "%d", &iskip) - 1;
       }
       if (retval != 0) {
         P4EST_LERRORF ("Failed to read tet %ld region attribute\n",
-- 
2.43.0


From 2e26bee9c1f1cb0b7a4b9db9f75b7b985aaf8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 37/58] fix: report no unchanged elements when the old or new
 range is empty

p4est_wrap_partition returned a nonzero first unchanged (old) element
although no element stayed, when one of the ranges is empty and lies
inside the other.
---
 src/p4est_wrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index 506e1ba..98b0da8 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -876,8 +876,8 @@ p4est_wrap_partition_unchanged (p4est_gloidx_t pre_me,
   uf = ul = uof = 0;
 
   /* check whether any quadrants stay at all, and which ones */
-  if (pre_me < post_next && post_me < pre_next) {
-    unext = SC_MIN (pre_next, post_next);
+  unext = SC_MIN (pre_next, post_next);
+  if (pre_me < unext && post_me < unext) {
     if (pre_me <= post_me) {
       uof = (p4est_locidx_t) (post_me - pre_me);
       ul = (p4est_locidx_t) (unext - post_me);
-- 
2.43.0


From a89d3917c7d20dc77cef6916d9a46b0ced5e47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 38/58] fix: p4est_new_points: begin the forest on rank 0 even
 without points there

---
 src/p4est_points.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 1afc170..5989259 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -211,7 +211,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   P4EST_QUADRANT_INIT (&f);
   p4est->global_first_position =
     P4EST_ALLOC_ZERO (p4est_quadrant_t, num_procs + 1);
-  if (num_points == 0) {
+  if (num_points == 0 && rank > 0) {
     P4EST_VERBOSE ("Empty processor");
     first_tree = p4est->first_local_tree = -1;
     first_quad = NULL;
@@ -219,6 +219,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   else {
     /* we are probably not empty */
     if (rank == 0) {
+      /* the forest begins here even if there are no points */
       first_tree = p4est->first_local_tree = 0;
       p4est_quadrant_set_morton_ext128 (&f, maxlevel, &zero);
     }
-- 
2.43.0


From 765e5d5d94f29a2338e65924988e89ce0d70dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 39/58] fix: p4est_new_points: count points that lie beyond the
 range of their process

---
 src/p4est_points.c | 52 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 5989259..1694257 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -118,6 +118,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   p4est_tree_t       *tree;
   p4est_t            *p4est;
   p4est_points_state_t ppstate;
+  p4est_quadrant_t   *allpoints = NULL;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into " P4EST_STRING
                             "_new_points with max level %d max points %lld\n",
@@ -255,6 +256,55 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
     P4EST_ASSERT (first_tree <= last_tree);
   }
 
+  /* points may lie beyond the local range, which ends with the quadrant of
+   * maximum level that contains the first point of the next processor */
+  if (max_points >= 0) {
+    p4est_locidx_t      beyond, extra, lp;
+    p4est_locidx_t     *all_beyond = P4EST_ALLOC (p4est_locidx_t, num_procs);
+
+    beyond = 0;
+    if (first_tree < 0) {
+      beyond = num_points;
+    }
+    else {
+      while (beyond < num_points &&
+             p4est_quadrant_compare_piggy (next_quad, points + num_points -
+                                           (beyond + 1)) <= 0) {
+        ++beyond;
+      }
+    }
+    mpiret = sc_MPI_Allgather (&beyond, 1, P4EST_MPI_LOCIDX,
+                               all_beyond, 1, P4EST_MPI_LOCIDX, mpicomm);
+    SC_CHECK_MPI (mpiret);
+
+    /* the points beyond other ranges that lie in our first quadrant */
+    extra = 0;
+    if (first_tree >= 0) {
+      for (i = rank - 1; i >= 0; --i) {
+        extra += all_beyond[i];
+        if (p4est_quadrant_compare_piggy (p4est->global_first_position + i,
+                                          p4est->global_first_position +
+                                          (i + 1)) != 0) {
+          /* this is the previous non-empty processor */
+          break;
+        }
+      }
+    }
+    P4EST_FREE (all_beyond);
+    if (extra > 0) {
+      /* count them as if they were equal to our first point */
+      P4EST_ASSERT (num_points > 0);
+      allpoints = P4EST_ALLOC (p4est_quadrant_t, extra + num_points);
+      for (lp = 0; lp < extra; ++lp) {
+        allpoints[lp] = points[0];
+      }
+      memcpy (allpoints + extra, points,
+              num_points * sizeof (p4est_quadrant_t));
+      ppstate.points = allpoints;
+      ppstate.num_points = extra + num_points;
+    }
+  }
+
   /* fill the local trees */
   P4EST_QUADRANT_INIT (&a);
   P4EST_QUADRANT_INIT (&b);
@@ -391,6 +441,8 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
 #endif
   }
 
+  P4EST_FREE (allpoints);
+
   /* initialize user pointer and data size */
   p4est_reset_data (p4est, data_size, init_fn, user_pointer);
 
-- 
2.43.0


From 48e249597813aaececbb8cdc2c3eb5125181fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 40/58] fix: p6est_load: allocate layer data by data_size, read
 it only if load_data

---
 src/p6est.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index d71565b..f7190a9 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -992,6 +992,9 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   SC_CHECK_ABORT (!retval, "source data size");
   save_data_size = (size_t) u64a;
 
+  if (data_size == 0) {
+    load_data = 0;
+  }
   if (load_data) {
     SC_CHECK_ABORT (save_data_size == data_size, "data size mismatch");
   }
@@ -1048,8 +1051,9 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       P2EST_QUADRANT_INIT (layer);
       layer->z = loadlayer[0];
       layer->level = (int8_t) loadlayer[1];
+      layer->p.user_data = data_size > 0 ?
+        sc_mempool_alloc (p6est->user_data_pool) : NULL;
       if (load_data) {
-        layer->p.user_data = sc_mempool_alloc (p6est->user_data_pool);
         memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
       }
     }
-- 
2.43.0


From 4ace291f8ce910323ada6cc1c38ffed9714d0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 41/58] fix: p6est_load: set the height of the domain

---
 src/p6est.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/p6est.c b/src/p6est.c
index f7190a9..2834cdf 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -934,7 +934,9 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   size_t              save_data_size, comb_size;
   uint64_t            u64a;
   p4est_gloidx_t     *gfl;
+  p4est_qcoord_t      local_top = 0;
   int                 rank;
+  int                 mpiret;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_load %s\n", filename);
   p4est_log_indent_push ();
@@ -1056,6 +1058,7 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       if (load_data) {
         memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
       }
+      local_top = layer->z + P4EST_QUADRANT_LEN (layer->level);
     }
     sc_array_destroy (loaddata);
   }
@@ -1063,6 +1066,11 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   retval = sc_io_source_destroy (src);
   SC_CHECK_ABORT (!retval, "destroy source");
 
+  /* the last layer of every column ends at the top of the domain */
+  mpiret = sc_MPI_Allreduce (&local_top, &p6est->root_len, 1,
+                             P4EST_MPI_QCOORD, sc_MPI_MAX, mpicomm);
+  SC_CHECK_MPI (mpiret);
+
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF ("Done p6est_load %s\n", filename);
 
-- 
2.43.0


From d17b466a110a2bc88f2a1e7336c7618f7543e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 42/58] fix: p6est_coarsen_layers: make the stack large enough
 for all levels

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 2834cdf..26daec4 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1453,7 +1453,7 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
                           p6est_coarsen_layer_t coarsen_fn,
                           p6est_init_t init_fn, p6est_replace_t replace_fn)
 {
-  p2est_quadrant_t    prevq[P4EST_QMAXLEVEL];
+  p2est_quadrant_t    prevq[P4EST_MAXLEVEL];
   size_t              old_count = descendants->elem_count;
   size_t              zz, new_count = 0;
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
-- 
2.43.0


From db770d38ca25372bd7ed802e88c65f652d936dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 43/58] fix: p6est_refine_layers: never refine beyond
 P4EST_QMAXLEVEL

---
 src/p6est.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 26daec4..57c3499 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1305,6 +1305,9 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
                             (long long) p6est->columns->global_num_quadrants,
                             allowed_level);
   p4est_log_indent_push ();
+  if (allowed_level < 0) {
+    allowed_level = P4EST_QMAXLEVEL;
+  }
   for (jt = columns->first_local_tree; jt <= columns->last_local_tree; ++jt) {
     tree = p4est_tree_array_index (columns->trees, jt);
     tquadrants = &tree->quadrants;
@@ -1322,7 +1325,7 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
         parent = q;
         for (;;) {
           if (!stop_recurse && refine_fn (p6est, jt, col, parent) &&
-              (allowed_level < 0 || (int) parent->level < allowed_level)) {
+              (int) parent->level < allowed_level) {
             level++;
             any_change = 1;
             c[0] = *parent;
-- 
2.43.0


From 2f735d1e44dde1b64db8b46a1ddd0e0a1d773d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 44/58] fix: p6est_balance: pass the user pointer to the
 callbacks in all phases

---
 src/p6est.c | 69 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 57c3499..91ce118 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2450,12 +2450,57 @@ p6est_partition (p6est_t * p6est, p6est_weight_t weight_fn)
   return p6est_partition_ext (p6est, 0, weight_fn);
 }
 
+typedef struct p6est_balance_data
+{
+  int                 diff;
+  p6est_init_t        init_fn;
+  p6est_replace_t     replace_fn;
+  void               *user_pointer;
+}
+p6est_balance_data_t;
+
+static void
+p6est_balance_init (p6est_t * p6est, p4est_topidx_t which_tree,
+                    p4est_quadrant_t * column, p2est_quadrant_t * layer)
+{
+  p6est_balance_data_t *bdata = (p6est_balance_data_t *) p6est->user_pointer;
+
+  /* sneak the user pointer in */
+  p6est->user_pointer = bdata->user_pointer;
+  bdata->init_fn (p6est, which_tree, column, layer);
+
+  /* sneak the user pointer out */
+  p6est->user_pointer = (void *) bdata;
+}
+
+static void
+p6est_balance_replace (p6est_t * p6est, p4est_topidx_t which_tree,
+                       int num_outcolumns, int num_outlayers,
+                       p4est_quadrant_t * outcolumns[],
+                       p2est_quadrant_t * outlayers[],
+                       int num_incolumns, int num_inlayers,
+                       p4est_quadrant_t * incolumns[],
+                       p2est_quadrant_t * inlayers[])
+{
+  p6est_balance_data_t *bdata = (p6est_balance_data_t *) p6est->user_pointer;
+
+  /* sneak the user pointer in */
+  p6est->user_pointer = bdata->user_pointer;
+  bdata->replace_fn (p6est, which_tree, num_outcolumns, num_outlayers,
+                     outcolumns, outlayers, num_incolumns, num_inlayers,
+                     incolumns, inlayers);
+
+  /* sneak the user pointer out */
+  p6est->user_pointer = (void *) bdata;
+}
+
 static int
 p6est_column_refine_thin_layer (p6est_t * p6est,
                                 p4est_topidx_t which_tree,
                                 p4est_quadrant_t * column)
 {
-  int                 max_diff = *((int *) p6est->user_pointer);
+  int                 max_diff =
+    ((p6est_balance_data_t *) p6est->user_pointer)->diff;
   int8_t              horz_level = column->level;
   size_t              first, last, zz;
   sc_array_t         *layers = p6est->layers;
@@ -2480,7 +2525,8 @@ p6est_layer_refine_thick_layer (p6est_t * p6est,
                                 p4est_quadrant_t * column,
                                 p2est_quadrant_t * layer)
 {
-  int                 min_diff = *((int *) p6est->user_pointer);
+  int                 min_diff =
+    ((p6est_balance_data_t *) p6est->user_pointer)->diff;
   int8_t              horz_level = column->level;
   int8_t              vert_level = layer->level;
 
@@ -2498,6 +2544,7 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 {
   p4est_connect_type_t hbtype;
   p6est_refine_col_data_t refine_col;
+  p6est_balance_data_t bdata;
   void               *orig_user_pointer = p6est->user_pointer;
   p6est_profile_t    *profile;
   int                 any_change;
@@ -2509,6 +2556,10 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
                             (long long) p6est->columns->global_num_quadrants);
   p4est_log_indent_push ();
 
+  bdata.init_fn = init_fn;
+  bdata.replace_fn = replace_fn;
+  bdata.user_pointer = orig_user_pointer;
+
   /* first refine columns whose layers are too thin */
   if (max_diff >= min_diff) {
     int                 print_max_diff = SC_MIN (max_diff, P4EST_QMAXLEVEL);
@@ -2517,9 +2568,12 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing maximum layer width:height ratio 2^%d:1\n", print_max_diff);
-    p6est->user_pointer = (void *) &max_diff;
+    bdata.diff = max_diff;
+    p6est->user_pointer = (void *) &bdata;
     p6est_refine_columns_ext (p6est, 1, -1, p6est_column_refine_thin_layer,
-                              init_fn, replace_fn);
+                              init_fn == NULL ? NULL : p6est_balance_init,
+                              replace_fn == NULL ? NULL :
+                              p6est_balance_replace);
     p6est->user_pointer = orig_user_pointer;
   }
 
@@ -2550,9 +2604,12 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing minimum layer width:height ratio 2^%d:1\n", print_min_diff);
-    p6est->user_pointer = (void *) &min_diff;
+    bdata.diff = min_diff;
+    p6est->user_pointer = (void *) &bdata;
     p6est_refine_layers_ext (p6est, 1, -1, p6est_layer_refine_thick_layer,
-                             init_fn, replace_fn);
+                             init_fn == NULL ? NULL : p6est_balance_init,
+                             replace_fn == NULL ? NULL :
+                             p6est_balance_replace);
     p6est->user_pointer = orig_user_pointer;
   }
 
-- 
2.43.0


From 9068234e97ff46d386cf0d9b4a89af3e8fcf002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 45/58] fix: p6est_coarsen_columns: pass the number of outgoing
 layers to the callback

---
 src/p6est.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 91ce118..27e6ae0 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1661,8 +1661,8 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
       }
     }
     if (replace_fn != NULL) {
-      replace_fn (p6est, which_tree, P4EST_CHILDREN, 1, outgoing, q, 1, 1,
-                  incoming, &p);
+      replace_fn (p6est, which_tree, P4EST_CHILDREN, P4EST_CHILDREN,
+                  outgoing, q, 1, 1, incoming, &p);
     }
     for (j = 0; j < num_outgoing; j++) {
       p6est_layer_free_data (p6est, q[j]);
-- 
2.43.0


From 2577ca66fa38a1d77f22caef9f62cd1c40b2fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 46/58] fix: p6est_new: minimum levels below the root layers
 have no effect

---
 src/p6est.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 27e6ae0..d32b633 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -399,13 +399,16 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
   p6est_init_data_t   init_data;
   int                 mpiret, num_procs, rank;
   int                 log_zroot = SC_LOG2_32 (num_zroot - 1) + 1;
-  int                 quadpercol =
-    (1 << (min_zlevel - log_zroot)) * num_zroot;
+  int                 quadpercol;
   int                 i;
 
+  /* the level of the root layers is the coarsest one possible */
+  min_zlevel = SC_MAX (min_zlevel, log_zroot);
+  quadpercol = (1 << (min_zlevel - log_zroot)) * num_zroot;
+
   P4EST_GLOBAL_PRODUCTIONF
     ("Into p6est_new with min layers %lld z-level %d\n",
-     (long long) min_quadrants, SC_MAX (min_zlevel, 0));
+     (long long) min_quadrants, min_zlevel);
   p4est_log_indent_push ();
 
   layers = sc_array_new (sizeof (p2est_quadrant_t));
@@ -436,7 +439,6 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
 
   P4EST_ASSERT (min_zlevel <= P4EST_QMAXLEVEL);
   P4EST_ASSERT (num_zroot >= 1);
-  P4EST_ASSERT (min_zlevel >= log_zroot);
 
   init_data.min_zlevel = min_zlevel;
   init_data.num_zroot = num_zroot;
@@ -490,11 +492,14 @@ p6est_new_from_p4est (p4est_t * p4est, double *top_vertices, double height[3],
   sc_mempool_t       *user_data_pool;
   p6est_init_data_t   init_data;
   int                 num_procs;
-  int                 quadpercol = (1 << min_zlevel);
+  int                 quadpercol;
   int                 i;
 
+  min_zlevel = SC_MAX (min_zlevel, 0);
+  quadpercol = (1 << min_zlevel);
+
   P4EST_GLOBAL_PRODUCTIONF
-    ("Into p6est_new_from_p4est with z-level %d\n", SC_MAX (min_zlevel, 0));
+    ("Into p6est_new_from_p4est with z-level %d\n", min_zlevel);
   p4est_log_indent_push ();
 
   layers = sc_array_new (sizeof (p2est_quadrant_t));
-- 
2.43.0


From 8c25af77734eb0e35d28a5677dc1d4badc8271d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 47/58] fix: p6est_new: round the minimum number of columns up

---
 src/p6est.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index d32b633..0a8505a 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -449,7 +449,9 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
 
   P4EST_GLOBAL_VERBOSE ("Creating p4est for columns\n");
   p4est =
-    p4est_new_ext (mpicomm, connectivity->conn4, min_quadrants / quadpercol,
+    p4est_new_ext (mpicomm, connectivity->conn4,
+                   min_quadrants / quadpercol +
+                   (min_quadrants % quadpercol > 0),
                    min_level, fill_uniform, 0, p6est_init_fn, (void *) p6est);
 
   p6est->user_pointer = user_pointer;
-- 
2.43.0


From d4226703536dbc7dc819931878bbb365982ea347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 48/58] fix: p6est_checksum: return zero on processors other
 than 0

---
 src/p6est.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 0a8505a..7945c75 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2722,7 +2722,8 @@ p6est_checksum (p6est_t * p6est)
   /* 4 bytes per field, two fields */
   globalscount = p6est->global_first_layer[p6est->mpisize] * 8;
 
-  return adler32_combine (columncrc, layercrc, globalscount);
+  return p6est->mpirank == 0 ?
+    (unsigned) adler32_combine (columncrc, layercrc, globalscount) : 0;
 #else
   sc_abort_collective
     ("Configure did not find a recent enough zlib.  Abort.\n");
-- 
2.43.0


From 1695694cd46a153660d361d5f5fe7c3249894410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 49/58] fix: p6est_balance: do not merge layers next to finer
 ones for full balance

---
 src/p6est_profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index d84adfc..4274cde 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -277,7 +277,7 @@ p6est_profile_balance_full_one_pass (sc_array_t * read, sc_array_t * write,
         else {
           nextl = -1;
         }
-        if (n >= SC_MAX (nextl, prevl) - 1) {
+        if (n >= SC_MAX (nextl, prevl)) {
           zy++;
           n--;
         }
-- 
2.43.0


From d86f8952edb37ecdcf12a3f78358e0c0262f9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 50/58] fix: p6est_balance: consider every change of a node
 profile

---
 src/p6est_profile.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index 4274cde..02f516e 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -769,11 +769,6 @@ p6est_profile_balance_local (p6est_profile_t * profile)
       for (j = 0; j < 3; j++) {
         for (i = 0; i < 3; i++, enidx++) {
           nidx = en[enidx];
-          if (!profile->lnode_changed[evenodd][nidx]) {
-            /* if the profile hasn't changed since I wrote to it, there's no
-             * need to balance against it */
-            continue;
-          }
           if (i != 1 && j != 1) {
             if (hbtype == P4EST_CONNECT_FACE) {
               /* skip corners if we don't need to balance them */
@@ -796,7 +791,6 @@ p6est_profile_balance_local (p6est_profile_t * profile)
           sc_array_init_view (&testprof, lc, lr[nidx][0], lr[nidx][1]);
           p6est_profile_union (thisprof, &testprof, work);
           if (work->elem_count > thisprof->elem_count) {
-            P4EST_ASSERT (profile->lnode_changed[evenodd][nidx]);
             any_prof_change = 1;
             sc_array_copy (selfprof, work);
             thisprof = selfprof;
-- 
2.43.0


From 491e9ba0651468469687577d89f7885c4f216704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 51/58] fix: keep the pillow sphere's third coordinate a number
 on the equator

The radicand rounds to below zero there for many radii.
---
 src/p4est_geometry.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p4est_geometry.c b/src/p4est_geometry.c
index 00a9b80..24be5e7 100644
--- a/src/p4est_geometry.c
+++ b/src/p4est_geometry.c
@@ -718,7 +718,9 @@ p4est_geometry_pillow_X (p4est_geometry_t *geom,
 
   xyz[0] = sign_d (xyz[0]) * xp;
   xyz[1] = sign_d (xyz[1]) * yp;
-  xyz[2] = sgnz * sqrt (Rsphere * Rsphere - (xp * xp + yp * yp));
+  /* on the equator, the argument may round to below zero */
+  xyz[2] =
+    sgnz * sqrt (fmax (0., Rsphere * Rsphere - (xp * xp + yp * yp)));
 }                               /* p4est_geometry_pillow_X */
 
 p4est_geometry_t   *
-- 
2.43.0


From e1e452e8047e314147b1e3c4b65c09269088f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 52/58] fix: scale all of the pillow disk FIG32D by its radius

The inner part of the blend was that of the unit disk for every radius, so
that the map folded over for small radii.
---
 src/p4est_geometry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_geometry.c b/src/p4est_geometry.c
index 24be5e7..d66726a 100644
--- a/src/p4est_geometry.c
+++ b/src/p4est_geometry.c
@@ -787,8 +787,8 @@ p4est_geometry_pillow_disk_X (p4est_geometry_t *geom,
 
     w = d * d;
 
-    xyz[0] = w * xp + (1 - w) * xyz[0] / sqrt (2.0);
-    xyz[1] = w * yp + (1 - w) * xyz[1] / sqrt (2.0);
+    xyz[0] = w * xp + (1 - w) * Rdisk * xyz[0] / sqrt (2.0);
+    xyz[1] = w * yp + (1 - w) * Rdisk * xyz[1] / sqrt (2.0);
     xyz[2] = 0.0;
 
     return;
-- 
2.43.0


From 577eb016ce9f2d94a91e70a5c50888090f9c0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 53/58] fix: scale all of the pillow sphere FIG52C by its
 radius

The inner part of the blend was that of the unit ball for every radius, so
that the map folded over for small radii.
---
 src/p8est_geometry.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index e028e9c..1b1e98b 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -230,9 +230,9 @@ p8est_geometry_pillow_sphere_X (p8est_geometry_t *geom,
 
     w = d * d;
 
-    xp = w * xp + (1 - w) * xyz[0] / sqrt (3.0);
-    yp = w * yp + (1 - w) * xyz[1] / sqrt (3.0);
-    zp = w * zp + (1 - w) * xyz[2] / sqrt (3.0);
+    xp = w * xp + (1 - w) * Rsphere * xyz[0] / sqrt (3.0);
+    yp = w * yp + (1 - w) * Rsphere * xyz[1] / sqrt (3.0);
+    zp = w * zp + (1 - w) * Rsphere * xyz[2] / sqrt (3.0);
 
   }
 
-- 
2.43.0


From fdb53396b5c601d4501f409a8fabe17be2d23349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 54/58] fix: name the pieces of extruded VTK files relative to
 the meta file

With a path in the file name, the .pvtu and .visit files referred to
path/path/file, which does not exist, as p4est_vtk_write_footer had it.
---
 src/p6est_vtk.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/p6est_vtk.c b/src/p6est_vtk.c
index 6f80d3d..2c40c66 100644
--- a/src/p6est_vtk.c
+++ b/src/p6est_vtk.c
@@ -721,8 +721,13 @@ p6est_vtk_write_footer (p6est_t * p4est, const char *filename)
   if (procRank == 0) {
     char                visitfilename[BUFSIZ];
     char                pvtufilename[BUFSIZ];
+    const char         *slash, *filename_basename;
     FILE               *pvtufile, *visitfile;
 
+    /* The pieces are located relative to the master files */
+    slash = strrchr (filename, '/');
+    filename_basename = slash != NULL ? slash + 1 : filename;
+
     /* Reopen paraview master file for writing bottom half */
     snprintf (pvtufilename, BUFSIZ, "%s.pvtu", filename);
     pvtufile = fopen (pvtufilename, "ab");
@@ -745,8 +750,8 @@ p6est_vtk_write_footer (p6est_t * p4est, const char *filename)
     fprintf (pvtufile, "    </PPointData>\n");
     for (p = 0; p < numProcs; ++p) {
       fprintf (pvtufile,
-               "    <Piece Source=\"%s_%04d.vtu\"/>\n", filename, p);
-      fprintf (visitfile, "%s_%04d.vtu\n", filename, p);
+               "    <Piece Source=\"%s_%04d.vtu\"/>\n", filename_basename, p);
+      fprintf (visitfile, "%s_%04d.vtu\n", filename_basename, p);
     }
     fprintf (pvtufile, "  </PUnstructuredGrid>\n");
     fprintf (pvtufile, "</VTKFile>\n");
-- 
2.43.0


From da06a2e2decfa6a0e761c5020b4bbfcf697263aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 55/58] fix: set mirror_tree_offsets of an expanded p6est ghost
 without new mirrors

They remained uninitialized on a process that has no mirrors at all.
---
 src/p6est_ghost.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est_ghost.c b/src/p6est_ghost.c
index 323b3d1..68d520d 100644
--- a/src/p6est_ghost.c
+++ b/src/p6est_ghost.c
@@ -201,7 +201,7 @@ p6est_ghost_send_front_layers (p6est_ghost_t * ghost,
   sc_array_uniq (new_mirrors, p2est_quadrant_compare_piggy);
 
   P4EST_ASSERT (new_mirrors->elem_count >= old_count);
-  if (new_mirrors->elem_count > old_count) {
+  if (new_mirrors->elem_count > old_count || old_count == 0) {
     p4est_topidx_t      ti;
     sc_array_t          split;
 
-- 
2.43.0


From 04a76ac47360e00ac5aefbb188b54c92ca61d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:24 +0000
Subject: [PATCH 56/58] fix: edge directions in the plex output of meshes
 without edge lists

---
 src/p4est_plex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/p4est_plex.c b/src/p4est_plex.c
index d5d2108..aade3b1 100644
--- a/src/p4est_plex.c
+++ b/src/p4est_plex.c
@@ -458,6 +458,10 @@ fill_orientations (p4est_quadrant_t * q, p4est_topidx_t t,
           f = p8est_edge_faces[e][i];
           nt = conn->tree_to_tree[P4EST_FACES * t + f];
           nf = conn->tree_to_face[P4EST_FACES * t + f];
+          if (nt == t && nf == f) {
+            /* this face is on the boundary */
+            continue;
+          }
           fo = nf / P8EST_FACES;
           nf = nf % P8EST_FACES;
 
@@ -476,7 +480,7 @@ fill_orientations (p4est_quadrant_t * q, p4est_topidx_t t,
           P4EST_ASSERT (ne >= 0);
           if (nt < ownt || (nt == ownt && ne < owne)) {
             ownt = nt;
-            owne = e;
+            owne = ne;
             o = (cid[0] < cid[1]) ? 0 : 1;
           }
         }
-- 
2.43.0


From 06e5a131c9b6691a035a1018751361c90e7ac802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 57/58] fix: count plex points by their global numbers without
 truncation

---
 src/p4est_plex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_plex.c b/src/p4est_plex.c
index aade3b1..72a7e59 100644
--- a/src/p4est_plex.c
+++ b/src/p4est_plex.c
@@ -750,8 +750,8 @@ p4est_get_plex_data_int (p4est_t * p4est, p4est_ghost_t * ghost,
   sc_array_t         *is_parent, *node_dim;
   sc_array_t         *node_coords;
   int                 ctype_int = p4est_connect_type_int (P4EST_CONNECT_FULL);
-  p4est_locidx_t      num_global, num_global_plus_children, last_global,
-    *child_offsets;
+  p4est_locidx_t      num_global, num_global_plus_children, *child_offsets;
+  p4est_gloidx_t      last_global;
   sc_array_t         *all_global;
   p4est_locidx_t      num_mirrors =
     (p4est_locidx_t) ghost->mirrors.elem_count;
-- 
2.43.0


From 2f84fd9fa71dc21e49430ffb46b1cf9bbf2782fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 58/58] fix: build the nodes of the plex output from a full
 ghost layer

---
 src/p4est_plex.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/p4est_plex.c b/src/p4est_plex.c
index 72a7e59..f288eac 100644
--- a/src/p4est_plex.c
+++ b/src/p4est_plex.c
@@ -1939,8 +1939,15 @@ p4est_get_plex_data_ext (p4est_t * p4est,
     }
   }
   if (ctype != P4EST_CONNECT_FULL) {
+    p4est_ghost_t      *full_ghost;
+
+    /* the nodes of all codimensions require a full ghost layer */
     p4est_lnodes_destroy (*lnodes);
-    *lnodes = p4est_lnodes_new (p4est, *ghost, -ctype);
+    full_ghost = p4est_ghost_new (p4est, P4EST_CONNECT_FULL);
+    *lnodes = p4est_lnodes_new (p4est, full_ghost,
+                                -p4est_connect_type_int
+                                (P4EST_CONNECT_FULL));
+    p4est_ghost_destroy (full_ghost);
   }
   p4est_get_plex_data_int (p4est, *ghost, *lnodes, overlap, 0,
                            first_local_quad, out_points_per_dim,
-- 
2.43.0

