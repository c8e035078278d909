From 0b0e89df77277996829b40359bf8d770d86805fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:00 +0000
Subject: [PATCH 01/53] fix: standalone vertex element_transform_face did not
 write its output element

---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index c11e37c..39a8ad1 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -2189,6 +2189,8 @@ t8_standalone_scheme<T8_ECLASS_VERTEX>::element_transform_face ([[maybe_unused]]
                                                                 [[maybe_unused]] const int is_smaller_face) noexcept
 {
   T8_ASSERT (t8_standalone_scheme<T8_ECLASS_VERTEX>::element_is_valid (elem1));
+  /* A vertex has only one orientation. */
+  element_copy (elem1, elem2);
   return;
 };
 
-- 
2.43.0


From bca1700216056c6bbe496f819725f7a9fe3020e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:00 +0000
Subject: [PATCH 02/53] fix: t8_dtri_is_familypv accepted sets of triangles
 with wrong types as a family

---
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..e870145 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,7 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0


From a56fab1f854cd32d8d6a721e0f2472a9969c95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:44 +0000
Subject: [PATCH 03/53] fix: t8_dtet_is_familypv did not check the type of the
 last tetrahedron

---
 src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
index 3cf1ef0..3ec9253 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_bits.c
@@ -33,7 +33,7 @@ t8_dtet_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN - 1; local_ind++) {
+  for (int local_ind = 1; local_ind < T8_DTET_CHILDREN; local_ind++) {
     if (f[local_ind]->type != t8_dtet_type_of_child_morton[type][local_ind]) {
       return 0;
     }
-- 
2.43.0


From 93e3574639fe24d31dce03433e2885d7cbe07c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:44 +0000
Subject: [PATCH 04/53] fix: face descendants of tetrahedra in pyramids at
 their own level were not written

---
 .../t8_default/t8_default_pyramid/t8_dpyramid_bits.c           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..93ad929 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -953,7 +953,8 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
     const int child_id = t8_dtet_parenttype_beyid_to_Iloc[p->pyramid.type][corner];
     t8_dpyramid_t tmp;
     t8_dpyramid_copy (p, &tmp);
-    for (int i = p->pyramid.level; i < level; i++) {
+    t8_dpyramid_copy (&tmp, d);
+    for (int i = tmp.pyramid.level; i < level; i++) {
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
     }
-- 
2.43.0


From eadde15fd2eee3c9d28b1186f42a53dc769cc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 05/53] fix: standalone element_face_get_parent_face of the
 root element returned -1 instead of face

---
 src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
index 39a8ad1..e1b3fa9 100644
--- a/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
+++ b/src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx
@@ -840,7 +840,7 @@ struct t8_standalone_scheme: public t8_scheme_helpers<TEclass, t8_standalone_sch
     T8_ASSERT (0 <= face && face < T8_ELEMENT_NUM_FACES[TEclass]);
     const t8_standalone_element<TEclass> *el = (const t8_standalone_element<TEclass> *) elem;
     if (el->level == 0)
-      return -1;
+      return face;
     if constexpr (!T8_ELEMENT_NUM_EQUATIONS[TEclass]) {
       /* Check if the least significant bit of the face normal coord is equal to the face_sign bit to get a valid parent face.*/
       const int least_significant_bit = ((el->coords[face / 2]) >> (T8_ELEMENT_MAXLEVEL[TEclass] - el->level)) % 2;
-- 
2.43.0


From 8106d8b6ead9bc0bb4a982ad48e87ee2cd5291ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:35 +0000
Subject: [PATCH 06/53] fix: recursive adapt did not offer families of pyramids
 and tetrahedra in pyramids for coarsening again

---
 src/t8_forest/t8_forest_adapt.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 1c8e00d..519479f 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -593,7 +593,8 @@ t8_forest_adapt (t8_forest_t forest)
              * family (and not the only one).
              * If so, we check this family for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            const int num_new_siblings = scheme->element_get_num_siblings (tree->eclass, elements[0]);
+            if (child_id > 0 && child_id == num_new_siblings - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
@@ -612,7 +613,8 @@ t8_forest_adapt (t8_forest_t forest)
              * If adaptation is recursive and this was the last element in its family
              * (and not the only one), we need to check for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            const int num_new_siblings = scheme->element_get_num_siblings (tree->eclass, elements[0]);
+            if (child_id > 0 && child_id == num_new_siblings - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
-- 
2.43.0


From 33cd675062e8a6786fa9533705cebb5fd782a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:29 +0000
Subject: [PATCH 07/53] fix: balance with repartition did not repartition a
 partitioned cmesh

---
 src/t8_forest/t8_forest.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 04ee2da..1974ef9 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3408,6 +3408,8 @@ t8_forest_commit (t8_forest_t forest)
       else {
         /* balance with repartition */
         t8_forest_balance (forest, 1);
+        /* The trees may have changed their owner, thus a partitioned cmesh has to follow */
+        partitioned = 1;
       }
     }
 
-- 
2.43.0


From fe63826843088816b177e9347a1d117b7abeb6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 08/53] fix: ghost algorithms 1 and 2 crashed at domain
 boundaries and added no remote elements

---
 src/t8_forest/t8_forest_ghost.cxx | 79 +++++++++++++++----------------
 1 file changed, 37 insertions(+), 42 deletions(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index f8c6230..ff9b7ec 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -821,25 +821,18 @@ t8_forest_ghost_fill_remote_v3 (t8_forest_t forest)
 static void
 t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int ghost_method)
 {
-  t8_element_t **half_neighbors = nullptr;
   t8_locidx_t num_local_trees, num_tree_elems;
   t8_locidx_t itree, ielem;
   t8_tree_t tree;
-  t8_eclass_t last_class;
 
   int iface, num_faces;
-  int num_face_children, max_num_face_children = 0;
   int owner;
-  sc_array_t owners, tree_owners;
+  sc_array_t owners;
   int is_atom;
   const t8_scheme *scheme = t8_forest_get_scheme (forest);
 
-  last_class = T8_ECLASS_COUNT;
   num_local_trees = t8_forest_get_num_local_trees (forest);
-  if (ghost_method != 0) {
-    sc_array_init (&owners, sizeof (int));
-    sc_array_init (&tree_owners, sizeof (int));
-  }
+  sc_array_init (&owners, sizeof (int));
 
   /* Loop over the trees of the forest */
   for (itree = 0; itree < num_local_trees; itree++) {
@@ -864,40 +857,45 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       for (iface = 0; iface < num_faces; iface++) {
         /* Get the element class of the neighbor tree */
         const t8_eclass_t neigh_class = t8_forest_element_neighbor_eclass (forest, itree, elem, iface);
-        if (ghost_method == 0) {
+        if (neigh_class == T8_ECLASS_INVALID) {
+          /* There is no neighbor across a domain boundary */
+          continue;
+        }
+        if (ghost_method == 0 && !is_atom) {
           /* Use half neighbors */
           /* Get the number of face children of the element at this face */
-          num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
-          /* regrow the half_neighbors array if necessary.
-           * We also need to reallocate it, if the element class of the neighbor
-           * changes */
-          if (max_num_face_children < num_face_children || last_class != neigh_class) {
-            half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
-            /* Allocate memory for the half size face neighbors */
-            scheme->element_new (neigh_class, num_face_children, half_neighbors);
-            max_num_face_children = num_face_children;
-            last_class = neigh_class;
-          }
-          if (!is_atom) {
-            /* Construct each half size neighbor */
-            (void) t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class, iface,
-                                                          num_face_children, nullptr);
+          const int num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
+          /* Allocate memory for the half size face neighbors */
+          t8_element_t **half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
+          scheme->element_new (neigh_class, num_face_children, half_neighbors);
+          /* Construct each half size neighbor */
+          const t8_gloidx_t neighbor_tree = t8_forest_element_half_face_neighbors (
+            forest, itree, elem, half_neighbors, neigh_class, iface, num_face_children, nullptr);
+          /* If the owner of a half size neighbor is not the current process, add this element as remote */
+          for (int ineigh = 0; neighbor_tree >= 0 && ineigh < num_face_children; ineigh++) {
+            owner = t8_forest_element_find_owner (forest, neighbor_tree, half_neighbors[ineigh], neigh_class);
+            T8_ASSERT (0 <= owner && owner < forest->mpisize);
+            if (owner != forest->mpirank) {
+              t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
+            }
           }
-          else {
-            /* Construct the owners at the face of the neighbor element */
-            t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
-            /* Iterate over all owners and if any is not the current process,
-            * add this element as remote */
-            for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
-              owner = *(int *) sc_array_index (&owners, iowner);
-              T8_ASSERT (0 <= owner && owner < forest->mpisize);
-              if (owner != forest->mpirank) {
-                /* Add the element as a remote element */
-                t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
-              }
+          scheme->element_destroy (neigh_class, num_face_children, half_neighbors);
+          T8_FREE (half_neighbors);
+        }
+        else {
+          /* Construct the owners at the face of the neighbor element */
+          t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
+          /* Iterate over all owners and if any is not the current process,
+           * add this element as remote */
+          for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
+            owner = *(int *) sc_array_index (&owners, iowner);
+            T8_ASSERT (0 <= owner && owner < forest->mpisize);
+            if (owner != forest->mpirank) {
+              /* Add the element as a remote element */
+              t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
             }
-            sc_array_truncate (&owners);
           }
+          sc_array_truncate (&owners);
         }
       } /* end face loop */
     }   /* end element loop */
@@ -908,10 +906,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
     forest->profile->ghosts_remotes = ghost->remote_processes->elem_count;
   }
   /* Clean-up memory */
-  if (ghost_method != 0) {
-    sc_array_reset (&owners);
-    sc_array_reset (&tree_owners);
-  }
+  sc_array_reset (&owners);
 }
 
 /** 
-- 
2.43.0


From 2884ca38962abd8db71c416c8736a393f2728e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 09/53] fix: leaf face neighbors in a tree that is local and
 ghost were reported twice

---
 src/t8_forest/t8_forest.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 1974ef9..5b3f0e3 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1812,8 +1812,6 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     }
   }
 
-  struct t8_lfn_user_data user_data;
-
   // Now we iterate over the leaf arrays of the neighbor tree
   // or neighbor ghost tree and find all leaf face neighbors of the element.
   *num_neighbors = 0;
@@ -1833,6 +1831,8 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     auto &tree_leaves = leaf_array->first;
     const bool leaf_array_is_ghost = leaf_array->second;
     T8_ASSERT (tree_leaves != NULL);
+    // Collect the neighbors of each leaf array separately
+    struct t8_lfn_user_data user_data;
     const t8_element_t *first_descendant;
     /*
     * Compute the index of the first leaf in tree_leaves that is an ancestor or descendant of
-- 
2.43.0


From ec72686759f369b69ca89b8b121b0d1733a73177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:48 +0000
Subject: [PATCH 10/53] fix: recursive adapt lost elements that were asked to
 be refined at the maximum level

---
 src/t8_forest/t8_forest_adapt.cxx | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 519479f..b3cd0d0 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -343,20 +343,22 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
     const int num_children = scheme->element_get_num_children (tree_class, el_buffer[0]);
     const int is_family = 0;
     const int num_elements_to_adapt_callback = 1;
-    const int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme,
-                                             is_family, num_elements_to_adapt_callback, el_buffer);
+    int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme, is_family,
+                                       num_elements_to_adapt_callback, el_buffer);
     T8_ASSERT (refine != -1);
+    if (refine == 1
+        && !(scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
+             && scheme->element_is_refinable (tree_class, el_buffer[0]))) {
+      /* only refine if element is refinable and if we do not exceed the maximum allowed level */
+      refine = 0;
+    }
     if (refine == 1) {
       /* The element should be refined */
-      if (scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
-          && scheme->element_is_refinable (tree_class, el_buffer[0])) {
-        /* only refine if element is refinable and if we do not exceed the maximum allowed level */
-        /* Create the children and add them to the list */
-        scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
-        scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
-        for (int ci = num_children - 1; ci >= 0; ci--) {
-          (void) sc_list_prepend (elem_list, el_buffer[ci]);
-        }
+      /* Create the children and add them to the list */
+      scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
+      scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
+      for (int ci = num_children - 1; ci >= 0; ci--) {
+        (void) sc_list_prepend (elem_list, el_buffer[ci]);
       }
     }
     else if (refine == -2) {
-- 
2.43.0


From 41965c67bd4b4364e74ddcac3dd5d06fed42c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 11/53] fix: uniform cmesh partition of empty processes
 pretended to share a tree

---
 src/t8_cmesh/t8_cmesh.cxx | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27c7e7c..677a3d2 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1666,26 +1666,8 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
   *last_local_tree = -1;  // Initialize for the case of num_trees <= 0
   if (last_child <= first_child) {
     /* This process is empty. */
-    /* Find the next non-empty proc */
-    int next_non_empty = cmesh->mpirank + 1;
-    t8_gloidx_t first_child_next_non_empty = 0;
-    t8_gloidx_t last_child_next_non_empty = 0;
-    do {
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty + 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      next_non_empty++;
-    } while (last_child_next_non_empty <= first_child_next_non_empty && next_non_empty < cmesh->mpisize - 1);
-
-    if (next_non_empty >= cmesh->mpisize - 1) {
-      next_non_empty = cmesh->mpisize - 1;
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize - 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-    }
-    T8_ASSERT (first_child_next_non_empty < last_child_next_non_empty);
+    /* The elements of the processes are contiguous, thus the next non-empty process starts at our first element. */
+    const t8_gloidx_t first_child_next_non_empty = first_child;
     // Loop over trees to find the one containing first_child_next_non_empty, which gives us the first and last local tree.
     t8_gloidx_t current_tree_element_offset = 0;
     for (t8_gloidx_t igtree = 0; igtree < num_trees; ++igtree) {
@@ -1699,12 +1681,13 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
         }
         /* We have found the first tree; since this process is empty, we can immediately return,
            * ending the for loop. */
-        *first_local_tree = igtree;
-        *last_local_tree = igtree - 1;
-        /* If our first element is not the very first element in the tree, we share
-           * this tree with the previous process. */
+        /* If the next non-empty process shares its first tree with a previous process, we store the first
+           * tree that it does not share. */
+        *first_local_tree = current_tree_element_offset < first_child_next_non_empty ? igtree + 1 : igtree;
+        *last_local_tree = *first_local_tree - 1;
+        /* By definition the first tree of an empty process is not shared. */
         if (first_tree_shared != nullptr) {
-          *first_tree_shared = current_tree_element_offset < first_child_next_non_empty ? 1 : 0;
+          *first_tree_shared = 0;
         }
       }
       current_tree_element_offset += num_leaf_elems_in_tree;
-- 
2.43.0


From 0fc62de536a218d2ce6b57ac685366d59971c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:44 +0000
Subject: [PATCH 12/53] fix: attributes were overwritten when later trees or
 ghosts have no attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx | 6 ++++++
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx  | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index 7d0f789..af93ec2 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -100,7 +100,13 @@ t8_cmesh_add_attributes (const t8_cmesh_t cmesh, sc_hash_t *ghost_ids)
 
   t8_ghost_facejoin_t temp_facejoin = { 0, 0, 0 };
 
+  /* Count the ghosts whose attributes are inserted. Those without any attributes are done already. */
   t8_locidx_t ghosts_inserted = 0;
+  for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ++ighost) {
+    if (t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->num_attributes == 0) {
+      ghosts_inserted++;
+    }
+  }
   ltree = -1;
   for (si = 0, sj = 0; si < stash->attributes.elem_count; si++, sj++) {
     attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 87f88d1..07a2604 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -743,7 +743,11 @@ t8_cmesh_trees_add_attribute (const t8_cmesh_trees_t trees, const int proc, cons
   attr_info->attribute_size = attr->attr_size;
   /* If we are not yet at the last attribute of the part,
    * get next attribute and set its offset*/
-  if (!(index == (size_t) tree->num_attributes - 1 && part->num_trees == tree_id + 1 - part->first_tree_id)) {
+  /* The attribute infos of a part are stored contiguously, starting with those of the first tree.
+   * They are followed by the data of the first attribute. */
+  t8_attribute_info_struct_t *const first_info
+    = (t8_attribute_info_struct_t *) T8_TREE_FIRST_ATT_INFO (t8_part_tree_get_tree (part, part->first_tree_id));
+  if ((char *) (attr_info + 1) < (char *) first_info + first_info->attribute_offset) {
     /* Store offset of current attribute */
     offset = attr_info->attribute_offset;
     attr_info = attr_info + 1;
-- 
2.43.0


From 8596212e3439c34d8cb27134e5ea3f157f7561cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:21 +0000
Subject: [PATCH 13/53] fix: empty processes in t8_cmesh_set_partition_range
 could spoil the partition table

---
 src/t8_cmesh/t8_cmesh.cxx                     |  3 ++-
 .../t8_cmesh_internal/t8_cmesh_partition.cxx  | 20 +++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 677a3d2..0683455 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -305,7 +305,8 @@ t8_cmesh_set_partition_range (t8_cmesh_t cmesh, const int set_face_knowledge, co
     cmesh->first_tree = first_local_tree;
     cmesh->first_tree_shared = 0;
   }
-  cmesh->num_local_trees = last_local_tree - cmesh->first_tree + 1;
+  /* If last_local_tree is smaller than the first tree then this process is empty. */
+  cmesh->num_local_trees = last_local_tree < cmesh->first_tree ? 0 : last_local_tree - cmesh->first_tree + 1;
   cmesh->set_partition = 1;
   /* Overwrite previous partition settings */
   if (cmesh->tree_offsets != nullptr) {
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 2e56c4d..8831057 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -194,6 +194,12 @@ t8_cmesh_gather_treecount_ext (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const i
 
   tree_offset = cmesh->first_tree_shared ? -cmesh->first_tree - 1 : cmesh->first_tree;
   if (cmesh->tree_offsets == nullptr) {
+    /* The first tree of an empty process is arbitrary, we mark these processes with an invalid tree id. */
+    const t8_gloidx_t empty_marker = cmesh->num_trees + 1;
+    is_empty = cmesh->num_local_trees <= 0;
+    if (is_empty) {
+      tree_offset = empty_marker;
+    }
     SC_CHECK_ABORT (t8_shmem_init (comm) > 0, "Error in shared memory setup.");
     t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
     /* Only allocate the shmem array, if it is not already allocated */
@@ -205,23 +211,17 @@ t8_cmesh_gather_treecount_ext (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const i
     }
     t8_shmem_array_end_writing (cmesh->tree_offsets);
 
-    if (cmesh->num_local_trees <= 0) {
-      /* This process is empty */
-      is_empty = 1;
-    }
-    else {
-      is_empty = 0;
-    }
     /* Communicate whether we have empty processes */
     sc_MPI_Allreduce (&is_empty, &has_empty, 1, sc_MPI_INT, sc_MPI_LOR, comm);
     if (has_empty) {
-      int next_nonempty;
-
       const t8_gloidx_t *tree_offset_array = t8_shmem_array_get_gloidx_array (cmesh->tree_offsets);
       /* there exist empty ranks, we have to recalculate the offset.
        * Each empty rank stores the offset of the next nonempty rank */
       if (is_empty) {
-        next_nonempty = t8_offset_next_nonempty_rank (cmesh->mpirank, cmesh->mpisize, tree_offset_array);
+        int next_nonempty = cmesh->mpirank + 1;
+        while (next_nonempty < cmesh->mpisize && tree_offset_array[next_nonempty] == empty_marker) {
+          next_nonempty++;
+        }
         /* Set the tree offset to the first nonshared tree of the next rank */
         tree_offset = t8_offset_first (next_nonempty, tree_offset_array);
         if (tree_offset_array[next_nonempty] < 0) {
-- 
2.43.0


From 0a47ee171fbbceaa36af5a505ef09a6b8f806590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:06 +0000
Subject: [PATCH 14/53] fix: t8_cmesh_bcast broadcast from rank 0 instead of
 the given root

---
 src/t8_cmesh/t8_cmesh.cxx                         | 2 +-
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c   | 8 ++++----
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 0683455..4eb552d 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -767,7 +767,7 @@ t8_cmesh_bcast (const t8_cmesh_t cmesh_in, const int root, sc_MPI_Comm comm)
     cmesh_out->num_ghosts = 0;
     T8_ASSERT (cmesh_out->set_partition == 0);
     if (meta_info.cmesh.profile != nullptr) {
-      t8_cmesh_set_profiling (cmesh_in, 1);
+      t8_cmesh_set_profiling (cmesh_out, 1);
     }
     for (iclass = 0; iclass < T8_ECLASS_COUNT; iclass++) {
       cmesh_out->num_trees_per_eclass[iclass] = meta_info.num_trees_per_eclass[iclass];
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index ca7571d..22990b2 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -309,18 +309,18 @@ t8_stash_bcast (const t8_stash_t stash, const int root, sc_MPI_Comm comm, const
   }
   if (elem_counts[0] > 0) {
     mpiret = sc_MPI_Bcast (stash->attributes.array, elem_counts[0] * sizeof (t8_stash_attribute_struct_t), sc_MPI_BYTE,
-                           0, comm);
+                           root, comm);
     SC_CHECK_MPI (mpiret);
     t8_stash_bcast_attributes (&stash->attributes, root, comm);
   }
   if (elem_counts[1] > 0) {
     mpiret
-      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, 0, comm);
+      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, root, comm);
     SC_CHECK_MPI (mpiret);
   }
   if (elem_counts[2] > 0) {
-    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, 0,
-                           comm);
+    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE,
+                           root, comm);
     SC_CHECK_MPI (mpiret);
   }
   return stash;
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 07a2604..f95a5b7 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1061,7 +1061,7 @@ t8_cmesh_trees_bcast (const t8_cmesh_t cmesh_in, const int root, const sc_MPI_Co
 
   for (ipart = 0; ipart < num_parts; ipart++) {
     part = t8_cmesh_trees_get_part (trees, ipart);
-    if (mpirank == 0) {
+    if (mpirank == root) {
       /* Gather information about part */
       part_info.num_trees = part->num_trees;
       part_info.first_tree_id = part->first_tree_id;
-- 
2.43.0


From 16a205d6d18c9b1bea769337f80e499163235a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:48 +0000
Subject: [PATCH 15/53] fix: t8_cmesh_bcast leaked persistent attributes on the
 receiving processes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 22990b2..5ce0775 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -284,6 +284,8 @@ t8_stash_bcast_attributes (sc_array_t *attributes, const int root, sc_MPI_Comm c
     for (iatt = 0; iatt < num_atts; iatt++) {
       att = (t8_stash_attribute_struct_t *) sc_array_index (attributes, iatt);
       att->attr_data = T8_ALLOC (char, att->attr_size);
+      /* We allocated the memory on this process and thus have to free it. */
+      att->is_owned = 1;
       memcpy (att->attr_data, buffer + copied_bytes, att->attr_size);
       copied_bytes += att->attr_size;
     }
-- 
2.43.0


From 3bcd2ac257d8bc30cd6736041ef046a8035dde9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:51 +0000
Subject: [PATCH 16/53] fix: a copied cmesh did not know the local ids of its
 ghost trees

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
index db490a3..f77dfdf 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
@@ -87,5 +87,13 @@ t8_cmesh_copy (t8_cmesh_t cmesh, const t8_cmesh_t cmesh_from, sc_MPI_Comm comm)
       t8_cmesh_trees_start_part (cmesh->trees, ipart, first_tree, num_trees, first_ghost, num_ghosts, 0);
       t8_cmesh_trees_copy_part (cmesh->trees, ipart, cmesh_from->trees, ipart);
     }
+    /* Fill the hash table that maps the global ids of the ghosts to their local ids */
+    for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ighost++) {
+      t8_trees_glo_lo_hash_t *hash_entry
+        = (t8_trees_glo_lo_hash_t *) sc_mempool_alloc (cmesh->trees->global_local_mempool);
+      hash_entry->global_id = t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->treeid;
+      hash_entry->local_id = cmesh->num_local_trees + ighost;
+      sc_hash_insert_unique (cmesh->trees->ghost_globalid_to_local_id, hash_entry, NULL);
+    }
   }
 }
-- 
2.43.0


From 2e1d3ccdd383c5887af1fc7046ad465b41c43cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:51 +0000
Subject: [PATCH 17/53] fix: cmesh partition misplaced attributes behind trees
 without attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 8831057..9a0cbba 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -762,9 +762,10 @@ t8_cmesh_partition_copy_data (char *send_buffer, t8_cmesh_t cmesh, const t8_cmes
         last_size = attr_info->attribute_size;
       }
       temp_offset_att += tree_copy->num_attributes * sizeof (t8_attribute_info_struct_t);
+      /* Trees without attributes do not shift the offsets, thus we only count trees with attributes. */
+      last_num_att = tree_copy->num_attributes;
     }
     temp_offset_tree += sizeof (t8_ctree_struct_t);
-    last_num_att = tree_copy->num_attributes;
   }
 
   /* Copy all ghosts and set their face entries and offsets */
-- 
2.43.0


From c40aa7a23b53905ec3b9c60c61b8ac04632c3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:13 +0000
Subject: [PATCH 18/53] fix: t8_cmesh_offset_percent used the first tree of
 empty processes instead of the partition table

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 9a0cbba..2cfc116 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1814,8 +1814,9 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
 
   /* Allocate new partition array. */
   partition_array = t8_cmesh_alloc_offsets (mpisize, comm);
-  /* get the first local tree from the current cmesh */
-  old_first_tree = t8_cmesh_get_first_treeid (cmesh);
+  /* Get the first local tree from the current partition. Note that the cmesh itself may store
+   * any first tree if this process is empty. */
+  old_first_tree = t8_offset_first (mpirank, old_partition);
   /* Get the number of local trees of next smaller process, or
    * 0 if we are rank 0. */
   old_num_trees_pm1 = t8_offset_num_trees (mpirank > 0 ? mpirank - 1 : 0, old_partition);
-- 
2.43.0


From a45024594def35a2f655b59066cd6b7c0da01ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:48 +0000
Subject: [PATCH 19/53] fix: t8_cmesh_is_equal ignored the keys of attributes

---
 .../t8_cmesh_internal/t8_cmesh_trees.cxx      | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index f95a5b7..2a0a2fd 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1177,6 +1177,22 @@ t8_cmesh_trees_is_face_consistent (const t8_cmesh_t cmesh, const t8_cmesh_trees_
   return ret;
 }
 
+/* Compare the package ids, keys and sizes of the attributes of two trees or ghosts that have
+ * the same number of attributes. */
+static int
+t8_cmesh_trees_attribute_infos_are_equal (const t8_attribute_info_struct_t *infos_a,
+                                          const t8_attribute_info_struct_t *infos_b, const int num_attributes)
+{
+  for (int iattribute = 0; iattribute < num_attributes; iattribute++) {
+    if (infos_a[iattribute].package_id != infos_b[iattribute].package_id
+        || infos_a[iattribute].key != infos_b[iattribute].key
+        || infos_a[iattribute].attribute_size != infos_b[iattribute].attribute_size) {
+      return 0;
+    }
+  }
+  return 1;
+}
+
 int
 t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a, const t8_cmesh_trees_t trees_b)
 {
@@ -1231,6 +1247,10 @@ t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a,
       /* Get pointers to all attributes */
       first_atta = T8_TREE_ATTR_INFO (treea, 0);
       first_attb = T8_TREE_ATTR_INFO (treeb, 0);
+      /* The attributes must be stored under the same keys and have the same sizes */
+      if (!t8_cmesh_trees_attribute_infos_are_equal (first_atta, first_attb, treea->num_attributes)) {
+        return 0;
+      }
       atta = (char *) T8_TREE_ATTR (treea, first_atta);
       attb = (char *) T8_TREE_ATTR (treeb, first_attb);
       if (memcmp (atta, attb, attsizea)) {
@@ -1266,6 +1286,10 @@ t8_cmesh_trees_is_equal (const t8_cmesh_t cmesh, const t8_cmesh_trees_t trees_a,
       /* Get pointers to all attributes */
       first_atta = T8_GHOST_ATTR_INFO (ghosta, 0);
       first_attb = T8_GHOST_ATTR_INFO (ghostb, 0);
+      /* The attributes must be stored under the same keys and have the same sizes */
+      if (!t8_cmesh_trees_attribute_infos_are_equal (first_atta, first_attb, ghosta->num_attributes)) {
+        return 0;
+      }
       atta = (char *) T8_GHOST_ATTR (ghosta, first_atta);
       attb = (char *) T8_GHOST_ATTR (ghostb, first_attb);
       if (memcmp (atta, attb, attsizea)) {
-- 
2.43.0


From 73524761e27148e4113e21a71170e85db431087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:04 +0000
Subject: [PATCH 20/53] fix: setting a cmesh attribute again did not overwrite
 it

---
 .../t8_cmesh_internal/t8_cmesh_commit.cxx     |  6 ++--
 .../t8_cmesh_internal/t8_cmesh_stash.c        | 35 +++++++++++++++++--
 .../t8_cmesh_internal/t8_cmesh_stash.h        |  1 +
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index af93ec2..02688bd 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -163,6 +163,9 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
       cmesh->num_trees_per_eclass[entry->eclass]++;
       cmesh->num_local_trees_per_eclass[entry->eclass]++;
     }
+    /* TODO: currently the attributes array still has to be sorted,
+     *       find a way around it */
+    t8_stash_attribute_sort (cmesh->stash);
     for (si = 0; si < stash->attributes.elem_count; si++) {
       attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
       /* attribute->id is a gloidx that is casted to a locidx here.
@@ -178,9 +181,6 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
 
     /* Add attributes */
-    /* TODO: currently the attributes array still has to be sorted,
-     *       find a way around it */
-    t8_stash_attribute_sort (cmesh->stash);
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
     cmesh->first_tree = 0;
     t8_cmesh_add_attributes (cmesh, nullptr);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 5ce0775..882afd8 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -167,7 +167,9 @@ t8_stash_add_attribute (const t8_stash_t stash, const t8_gloidx_t id, const int
   t8_stash_attribute_struct_t *sattr;
 
   T8_ASSERT (stash != NULL);
+  const size_t order = stash->attributes.elem_count;
   sattr = (t8_stash_attribute_struct_t *) sc_array_push (&stash->attributes);
+  sattr->order = order;
   sattr->attr_size = size;
   sattr->id = id;
   sattr->is_owned = !copy ? 0 : 1;
@@ -217,7 +219,8 @@ t8_stash_attribute_is_owned (const t8_stash_t stash, const size_t index)
 
 /* Compare two attribute entries A1 and A2.
  * A1 is smaller than A2 if and only if its treeid is smaller or (if equal)
- * its package id is smaller or (if also equal) its key is smaller.
+ * its package id is smaller or (if also equal) its key is smaller or
+ * (if also equal) it was added earlier.
  */
 static int
 t8_stash_attribute_compare (const void *v1, const void *v2)
@@ -227,7 +230,10 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 
   if (A1->id == A2->id) {
     if (A1->package_id == A2->package_id) {
-      return A1->key < A2->key ? -1 : A1->key > A2->key;
+      if (A1->key == A2->key) {
+        return A1->order < A2->order ? -1 : A1->order > A2->order;
+      }
+      return A1->key < A2->key ? -1 : 1;
     }
     return A1->package_id < A2->package_id ? -1 : 1;
   }
@@ -236,11 +242,34 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 
 /* Sort the attribute entries in the order
  * (treeid, packageid, key)
+ * Attributes that were overwritten are removed.
  */
 void
 t8_stash_attribute_sort (const t8_stash_t stash)
 {
-  sc_array_sort (&stash->attributes, t8_stash_attribute_compare);
+  sc_array_t *attributes = &stash->attributes;
+  size_t num_kept = 0;
+
+  sc_array_sort (attributes, t8_stash_attribute_compare);
+  for (size_t iatt = 0; iatt < attributes->elem_count; iatt++) {
+    const t8_stash_attribute_struct_t *att = (t8_stash_attribute_struct_t *) sc_array_index (attributes, iatt);
+    if (num_kept > 0) {
+      t8_stash_attribute_struct_t *last = (t8_stash_attribute_struct_t *) sc_array_index (attributes, num_kept - 1);
+      if (last->id == att->id && last->package_id == att->package_id && last->key == att->key) {
+        /* This attribute overwrites the last one. */
+        if (last->is_owned) {
+          T8_FREE (last->attr_data);
+        }
+        *last = *att;
+        continue;
+      }
+    }
+    if (num_kept != iatt) {
+      *(t8_stash_attribute_struct_t *) sc_array_index (attributes, num_kept) = *att;
+    }
+    num_kept++;
+  }
+  sc_array_resize (attributes, num_kept);
 }
 
 static void
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
index 270a29d..6c10b86 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
@@ -70,6 +70,7 @@ typedef struct t8_stash_attribute
   int is_owned;     /**< True if the data was copied, false if the data is still owned by user. */
   int package_id;   /**< The id of the package that set this attribute. */
   int key;          /**< The key used by the package to identify this attribute. */
+  size_t order;     /**< The number of attributes that were added to the stash before this attribute. */
 } t8_stash_attribute_struct_t;
 
 /** The stash data structure is used to store information about the cmesh
-- 
2.43.0


From fdb8a5b425e498f22a4a94abe8b0ece3a7198408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:36 +0000
Subject: [PATCH 21/53] fix: t8_cmesh_offset_percent aborted in debug mode
 unless the percentages of all processes add up to 100

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 2cfc116..5e21a55 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1786,13 +1786,8 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
   const t8_gloidx_t *old_partition;
   int mpirank, mpisize, mpiret;
   int created = 0;
-#if T8_ENABLE_DEBUG
-  int total = 0;
-  int proc_perc = percent;
-  sc_MPI_Allreduce (&proc_perc, &total, 1, sc_MPI_INT, sc_MPI_SUM, comm);
-  T8_ASSERT (total == 100);
-#endif
 
+  T8_ASSERT (0 <= percent && percent <= 100);
   T8_ASSERT (t8_cmesh_is_committed (cmesh));
   T8_ASSERT (t8_cmesh_comm_is_valid (cmesh, comm));
 
-- 
2.43.0


From ecda0fd8d43df55ce8ac0c60c9b9df14d267bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 22/53] fix: join by vertices ignored coordinates beyond the
 dimension of the trees

The extent of the mesh was computed from the first dim coordinates only. A 1D mesh that
runs along the y or z axis had extent zero, hence tolerance zero, and no face was joined.
---
 src/t8_cmesh/t8_cmesh_helpers.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_helpers.cxx b/src/t8_cmesh/t8_cmesh_helpers.cxx
index d3ef1bb..6674832 100644
--- a/src/t8_cmesh/t8_cmesh_helpers.cxx
+++ b/src/t8_cmesh/t8_cmesh_helpers.cxx
@@ -51,10 +51,9 @@ t8_cmesh_set_join_by_vertices (t8_cmesh_t cmesh, const t8_gloidx_t ntrees, const
   for (int itree = 0; itree < ntrees; itree++) {
     const t8_eclass_t eclass = eclasses[itree];
     const int nverts = t8_eclass_num_vertices[eclass];
-    const int edim = t8_eclass_to_dimension[eclass];
 
     for (int ivert = 0; ivert < nverts; ivert++) {
-      for (int icoord = 0; icoord < edim; icoord++) {
+      for (int icoord = 0; icoord < T8_ECLASS_MAX_DIM; icoord++) {
         const double coord
           = vertices[T8_3D_TO_1D (ntrees, T8_ECLASS_MAX_CORNERS, T8_ECLASS_MAX_DIM, itree, ivert, icoord)];
 
-- 
2.43.0


From 06e8babbe297504b7ae3b796180bee92935d0679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 23/53] fix: msh reader misread element lines with repeated
 blanks and crashed on short ones

Splitting at every single blank made a line with two blanks between the numbers yield the
same node twice. A line with too few nodes passed NULL to sscanf instead of reporting
the premature end of the line.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index af46d40..1023d30 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1347,19 +1347,16 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
          *
          * We ignore the tree number and read the nodes.
          */
-        line_modify = line;
-        T8_ASSERT (strcmp (line_modify, "\0"));
-        /* move line_modify to the next word in the line */
-        (void) strsep (&line_modify, " ");
+        (void) strtoll (line, &line_modify, 10);
 
         /* At this point line_modify contains only the node indices. */
         const int num_nodes = t8_eclass_num_vertices[eclass];
         std::vector<t8_gloidx_t> node_indices (num_nodes, -1);
         for (int i_node = 0; i_node < num_nodes; i_node++) {
           const int t8_vertex_num = t8_msh_tree_vertex_to_t8_vertex_num[eclass][i_node];
-          T8_ASSERT (strcmp (line_modify, "\0"));
-          retval = sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]);
-          if (retval != 1) {
+          char *number_end;
+          node_indices[t8_vertex_num] = strtoll (line_modify, &number_end, 10);
+          if (number_end == line_modify) {
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
@@ -1371,7 +1368,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_nodes[t8_vertex_num] = *vertices.find (Node);
 
           /* move line_modify to the next word in the line */
-          (void) strsep (&line_modify, " ");
+          line_modify = number_end;
         }
 
         /* Add the node indices to return vector. */
-- 
2.43.0


From 2ea12488ac7c4bbfd01daaae0508313bd79926c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 24/53] fix: msh reader dereferenced the end iterator for
 undefined nodes

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 1023d30..e7efda7 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1365,7 +1365,14 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           }
           /* Get node from the hashtable */
           Node.index = node_indices[t8_vertex_num];
-          tree_nodes[t8_vertex_num] = *vertices.find (Node);
+          const auto node_it = vertices.find (Node);
+          if (node_it == vertices.end ()) {
+            t8_global_errorf ("Node %li of a tree is not defined in the $Nodes section.\n", (long) Node.index);
+            free (line);
+            t8_cmesh_destroy (&cmesh);
+            return std::nullopt;
+          }
+          tree_nodes[t8_vertex_num] = *node_it;
 
           /* move line_modify to the next word in the line */
           line_modify = number_end;
-- 
2.43.0


From b4abbafb7c63282e56c9f93c11c8676e13207634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 25/53] fix: msh reader destroyed the cmesh twice when reading
 the elements failed

t8_cmesh_msh_file_4_read_eles destroyed its copy of the handle and t8_cmesh_from_msh_file
then destroyed the freed cmesh again.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index e7efda7..0cf11ae 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1255,7 +1255,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Premature end of line while reading num trees.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
   }
@@ -1270,7 +1269,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   num_trees = lnum_trees;
@@ -1288,7 +1286,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (retval < 0) {
       t8_global_errorf ("Premature end of line while reading trees.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     retval = sscanf (line, "%i %li %i %li", &entity_dim, &entity_tag, &ele_type, &num_ele_in_block);
@@ -1297,7 +1294,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Error while reading element block information.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Check if the tree type is supported */
@@ -1305,7 +1301,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
       t8_global_errorf ("tree type %i is not supported by t8code.\n", ele_type);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     eclass = t8_msh_tree_type_to_eclass[ele_type];
@@ -1325,7 +1320,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
       }
@@ -1337,7 +1331,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
@@ -1360,7 +1353,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           /* Get node from the hashtable */
@@ -1369,7 +1361,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (node_it == vertices.end ()) {
             t8_global_errorf ("Node %li of a tree is not defined in the $Nodes section.\n", (long) Node.index);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           tree_nodes[t8_vertex_num] = *node_it;
@@ -1407,7 +1398,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (!t8_cmesh_process_tree_geometry (cmesh, eclass, dim, tree_count, cad_geometry_base, linear_geometry_base,
                                                tree_nodes)) {
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
 
@@ -1421,7 +1411,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   free (line);
   if (tree_count == 0) {
     t8_global_errorf ("Warning: No %iD elements found in msh file.\n", dim);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   return std::make_optional<t8_msh_tree_vertex_indices> (vertex_indices);
-- 
2.43.0


From 38e31f4306a8f6b63860fabf03002c81e389d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 26/53] fix: msh reader leaked the index buffer when reading
 the nodes failed

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 0cf11ae..3ab1f96 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -407,7 +407,6 @@ t8_msh_file_4_read_nodes (FILE *fp)
   size_t linen = 1024;
   int retval;
   long num_nodes_in_block, lnum_nodes, lnum_blocks;
-  long *index_buffer;
 
   T8_ASSERT (fp != NULL);
   /* Go to the beginning of the file */
@@ -464,7 +463,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       return std::nullopt;
     }
     /* Read all node indices in this block */
-    index_buffer = T8_ALLOC (long, num_nodes_in_block);
+    std::vector<long> index_buffer (num_nodes_in_block);
     for (ln = 0; ln < num_nodes_in_block; ++ln) {
       retval = t8_cmesh_msh_read_next_line (&line, &linen, fp);
       if (retval < 0) {
@@ -539,7 +538,6 @@ t8_msh_file_4_read_nodes (FILE *fp)
       T8_ASSERT (emplaced.first->index == index_buffer[ln]);
       last_index = index_buffer[ln];
     }
-    T8_FREE (index_buffer);
   }
   free (line);
   t8_debugf ("Successfully read all Nodes.\n");
-- 
2.43.0


From 8a49f48b6e61f5e6ddf04c19ff5a278229779080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 27/53] fix: msh reader stored only half of the node parameters
 of a tree

The size of the attribute was computed with sizeof (int) for an array of doubles, so the
parameters of the corners 4 to 7 were missing and reading them ran past the attribute.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 3ab1f96..b86f3c1 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -445,7 +445,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
   /* read each node and add it to the hash table */
   last_index = 0;
   std::array<double, 3> coords;
-  std::array<double, 2> params;
+  std::array<double, 2> params = { 0, 0 };
   int entity_dim;
   t8_locidx_t entity_tag;
   int parametric;
@@ -557,8 +557,8 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                             std::array<t8_msh_file_node, T8_ECLASS_MAX_CORNERS> *tree_nodes, int num_nodes)
 {
 
-  int entity_dim_array[T8_ECLASS_MAX_CORNERS * 2];
-  double parameter_array[T8_ECLASS_MAX_CORNERS * 2];
+  int entity_dim_array[T8_ECLASS_MAX_CORNERS * 2] = { 0 };
+  double parameter_array[T8_ECLASS_MAX_CORNERS * 2] = { 0 };
 
   for (int node_i = 0; node_i < num_nodes; node_i++) {
     t8_msh_file_node &current_node = (*tree_nodes)[node_i];
@@ -578,7 +578,7 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                           entity_dim_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
 
   t8_cmesh_set_attribute (cmesh, tree_count, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY,
-                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
+                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (double), 0);
 }
 
 #if T8_ENABLE_OCC
-- 
2.43.0


From d6a0fba7962031039ec43628b46aae5beb96c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 28/53] fix: msh reader gave different nodes the same global
 vertex id

The id was the node index modulo the number of nodes, which is not injective when the
node indices of the file are not consecutive.
---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index b86f3c1..bf2ce1a 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1375,7 +1375,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_vertices[3 * i_node] = tree_nodes[i_node].coordinates[0];
           tree_vertices[3 * i_node + 1] = tree_nodes[i_node].coordinates[1];
           tree_vertices[3 * i_node + 2] = tree_nodes[i_node].coordinates[2];
-          global_id_of_node[i_node] = tree_nodes[i_node].index % vertices.size ();
+          global_id_of_node[i_node] = tree_nodes[i_node].index;
         }
         t8_cmesh_set_tree_vertices (cmesh, tree_count, tree_vertices.data (), num_nodes);
         t8_cmesh_set_global_vertices_of_tree (cmesh, tree_count, global_id_of_node, num_nodes);
-- 
2.43.0


From f43f265fb5efb9f74714dd7fd6f07e39a7c0eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:16 +0000
Subject: [PATCH 29/53] fix: spherical shells of several layers were joined by
 degenerate vertices (integer division)

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index afe23d4..3e670d1 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -3480,8 +3480,8 @@ t8_cmesh_new_spherical_shell (t8_cmesh_t cmesh, t8_eclass_t eclass, t8_geometry_
       /* Transfer the coordinates from the 2D forest mesh to the cmesh via stacking 3D elements along radial direction. */
       for (int istack = 0; istack < num_layers; istack++) {
         {
-          const double iscale = 1.0 + istack / num_layers;
-          const double oscale = 1.0 + (istack + 1) / num_layers;
+          const double iscale = 1.0 + istack / (double) num_layers;
+          const double oscale = 1.0 + (istack + 1) / (double) num_layers;
 
           double elem_vertices_3d[T8_ECLASS_MAX_CORNERS * 3];
           for (int ivert = 0; ivert < t8_eclass_num_vertices[eclass_2d]; ivert++) {
-- 
2.43.0


From d607056f22bf61e3f18712c72a00f0a9f7267b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:04 +0000
Subject: [PATCH 30/53] fix: periodic hypercubes of triangles and prisms were
 joined in y direction with the wrong orientation

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 3e670d1..9558dfa 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -773,7 +773,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 6);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
         t8_cmesh_set_join (cmesh, 0, 0, 3, 4, 0);
         t8_cmesh_set_join (cmesh, 1, 1, 3, 4, 0);
       }
@@ -791,7 +791,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 3);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
       }
       break;
     case T8_ECLASS_TET:
-- 
2.43.0


From 4b623657843a7aa18c14d61b34f1d6e293fe3111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:04 +0000
Subject: [PATCH 31/53] fix: padded hypercubes of tetrahedra and prisms used
 wrong tree ids with an offset

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 9558dfa..07375a2 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1195,10 +1195,10 @@ t8_cmesh_set_vertices_3D (t8_cmesh_t cmesh, const t8_eclass_t eclass, const doub
         }
 
         /* Map vertices of current hex on to respective trees inside. */
-        const t8_gloidx_t hex_id = hex_z_id * hexs_y * hexs_x + hex_y_id * hexs_x + hex_x_id + offset;
+        const t8_gloidx_t hex_id = hex_z_id * hexs_y * hexs_x + hex_y_id * hexs_x + hex_x_id;
         if (eclass == T8_ECLASS_HEX) {
           /* No mapping is required. */
-          t8_cmesh_set_tree_vertices (cmesh, hex_id, vertices, use_axis_aligned_geom ? 2 : 8);
+          t8_cmesh_set_tree_vertices (cmesh, hex_id + offset, vertices, use_axis_aligned_geom ? 2 : 8);
         }
         else if (eclass == T8_ECLASS_TET) {
           const t8_gloidx_t tree_id_0 = hex_id * 6 + offset;
@@ -1487,7 +1487,7 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
           t8_locidx_t tree_id_0 = poly_id * 6 + 5;
           t8_locidx_t tree_id_1
             = poly_z_id == polygons_z - 1 ? base_id * 6 + 1 : (poly_id + polygons_y * polygons_x) * 6 + 1;
-          t8_cmesh_set_join (cmesh, tree_id_0, tree_id_1, 0, 3, 2);
+          t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 2);
           tree_id_0 = poly_id * 6 + 4;
           tree_id_1 = poly_z_id == polygons_z - 1 ? base_id * 6 + 2 : (poly_id + polygons_y * polygons_x) * 6 + 2;
           t8_cmesh_set_join (cmesh, tree_id_0 + offset, tree_id_1 + offset, 0, 3, 0);
-- 
2.43.0


From 7c37ef5543dec4067fa7129ce7a58277b8112e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 32/53] fix: trees of a padded line had the wrong length unless
 the line has length 1

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 07375a2..33ed6a3 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1362,11 +1362,8 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
     /* Get the direction of the line */
     double line_dir[3];
     t8_axpyz (boundary, boundary + 3, line_dir, -1.0);
-    /* Get length of one tree */
-    double length;
-    length = t8_norm (line_dir) / (double) polygons_x;
-    //length = t8_dist (boundary, boundary + 3) / length;
-    t8_ax (line_dir, length);
+    /* Scale it to the length of one tree */
+    t8_ax (line_dir, 1.0 / (double) polygons_x);
 
     double vertices[6];
     /* Set first vertex to lower end of line */
-- 
2.43.0


From d0255dc783cf234cd553c4e07bf6a59c76ceded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 33/53] fix: row of cubes was joined along faces that do not
 touch

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 33ed6a3..42d5f88 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2894,7 +2894,7 @@ t8_cmesh_new_row_of_cubes (t8_cmesh_t cmesh, t8_locidx_t num_trees, const int se
 
   /* Join the hexes. */
   for (t8_locidx_t tree_id = 0; tree_id < num_trees - 1; tree_id++) {
-    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 0, 1, 0);
+    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 1, 0, 0);
   }
 
   /* Check whether the cmesh will be partitioed */
-- 
2.43.0


From 500255126443680fde418435a1868423445425f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:47 +0000
Subject: [PATCH 34/53] fix: faces of odd cubes in the long brick of pyramids
 were joined wrongly

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 42d5f88..16d9101 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2804,19 +2804,19 @@ t8_cmesh_new_long_brick_pyramid (t8_cmesh_t cmesh, sc_MPI_Comm comm, int num_cub
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 2, 2, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 1, 2, 1);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 0, 1, 0);
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 3, 0);
     }
   }
   /* over cube face connection */
   for (current_cube = 0; current_cube < num_cubes - 1; current_cube++) {
     if (current_cube % 2 == 0) {
-      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 2, 0, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 3, 3, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 1, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 1);
     }
   }
   /* vertices */
-- 
2.43.0


From df16fa53a4a44f12a2b984dccd30496771f41ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:27 +0000
Subject: [PATCH 35/53] fix: prism cake with rotated trees was joined along
 faces that do not touch

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 16d9101..e85c497 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2104,12 +2104,12 @@ t8_cmesh_new_prism_cake_funny_oriented (t8_cmesh_t cmesh, sc_MPI_Comm comm)
     t8_cmesh_set_tree_class (cmesh, i, T8_ECLASS_PRISM);
   }
 
-  t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 3);
-  t8_cmesh_set_join (cmesh, 1, 2, 1, 2, 0);
-  t8_cmesh_set_join (cmesh, 2, 3, 0, 0, 0);
-  t8_cmesh_set_join (cmesh, 3, 4, 1, 0, 0);
-  t8_cmesh_set_join (cmesh, 4, 5, 2, 2, 0);
-  t8_cmesh_set_join (cmesh, 5, 0, 1, 1, 0);
+  t8_cmesh_set_join (cmesh, 0, 1, 1, 1, 1);
+  t8_cmesh_set_join (cmesh, 1, 2, 0, 0, 1);
+  t8_cmesh_set_join (cmesh, 2, 3, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 3, 4, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 4, 5, 2, 1, 0);
+  t8_cmesh_set_join (cmesh, 5, 0, 0, 2, 1);
 
   for (i = 0; i < 6; i++) {
     t8_cmesh_set_tree_vertices (cmesh, i, vertices + i * 18, 6);
-- 
2.43.0


From bcbb2038281bdf09de5b80ed29fb4feeffb0bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 36/53] fix: face list misses faces between an element and
 itself and, in 1D, faces to one finer neighbor

---
 mesh_handle/competences/dg_competences.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 55ad31b..52dca34 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -224,14 +224,15 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           m_faces.push_back (std::move (f));
           m_element_face_vector[handle_id][iface] = face_idx;
         }
-        else if (num_neighs == 1) {
+        else if (num_neighs == 1 && elem.get_level () >= neighs[0]->get_level ()) {
           const int neigh_id = neighs[0]->get_element_handle_id ();
           const int neigh_rank = mesh.get_rank (neigh_id);
 
           if (elem.get_level () == neighs[0]->get_level ()) {
             /* --- CONFORMAL or MPI_CONFORMAL --- */
             // Insert only from the side with the smaller handle_id so that each conformal face appears exactly once.
-            if (handle_id < neigh_id) {
+            // An element that is its own neighbor (periodic mesh) inserts the face from the side that is visited first.
+            if (handle_id <= neigh_id) {
               face f;
               f.type = (neigh_rank != LOCAL_RANK) ? face_type::MPI_CONFORMAL : face_type::CONFORMAL;
               f.sides.push_back ({ handle_id, iface, LOCAL_RANK });
@@ -249,7 +250,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
               m_element_face_vector[neigh_id][dual_faces[0]] = face_idx;
             }
           }
-          else if (elem.get_level () > neighs[0]->get_level ()) {
+          else {
             /* --- Small side of a MORTAR or MPI_MORTAR --- */
             /* The large (coarser) neighbour owns and inserts this face.
              * We only need to do something here if the neighbor is remote.
@@ -282,10 +283,9 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
             }
             m_element_face_vector[neigh_id][dual_faces[0]] = face_idx;
           }
-          // No other case possible without incomplete trees.
         }
         else {
-          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1) ---  */
+          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1, or one finer neighbor in 1D) ---  */
           // We are the coarse element; neighs are all small mortars.
           bool any_remote = std::any_of (neighs.begin (), neighs.end (), [&] (const auto* neigh) {
             return mesh.get_rank (neigh->get_element_handle_id ()) != LOCAL_RANK;
-- 
2.43.0


From 32664b4b46036f3111cbeffe2c531e114775621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:38 +0000
Subject: [PATCH 37/53] fix: zero geometry wrote behind the output instead of
 zeroing it

---
 .../t8_geometry_implementations/t8_geometry_zero.cxx        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 0c40d27..8823357 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -41,9 +41,9 @@ t8_geometry_zero::t8_geom_evaluate ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_u
 {
   /* Set the out_coords to 0 */
   for (size_t coord = 0; coord < num_coords; coord++) {
-    out_coords[0 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[1 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[2 + num_coords * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[0 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[1 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[2 + coord * T8_ECLASS_MAX_DIM] = 0;
   }
 }
 
-- 
2.43.0


From 07836f11ceb3c06d0131d660a2335b23f5d254a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:47 +0000
Subject: [PATCH 38/53] fix: zero geometry computed its jacobian with an
 uninitialised tree class

---
 .../t8_geometry_implementations/t8_geometry_zero.cxx         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 8823357..7a89dd5 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -58,9 +58,10 @@ t8_geometry_zero::t8_geom_evaluate_jacobian ([[maybe_unused]] t8_cmesh_t cmesh,
 }
 
 inline void
-t8_geometry_zero::t8_geom_load_tree_data ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_unused]] t8_gloidx_t gtreeid)
+t8_geometry_zero::t8_geom_load_tree_data (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
 {
-  /* Do nothing. */
+  /* The jacobian needs the class of the tree. */
+  t8_geometry::t8_geom_load_tree_data (cmesh, gtreeid);
 }
 
 T8_EXTERN_C_BEGIN ();
-- 
2.43.0


From 9e2e1e5a6120406456c1b539dfe33dd0108a293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:48 +0000
Subject: [PATCH 39/53] fix: geometries of derived cmeshes used the tree data
 of a destroyed cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 4eb552d..4065c47 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1232,6 +1232,8 @@ t8_cmesh_reset (t8_cmesh_t *pcmesh)
   }
 
   if (cmesh->geometry_handler != nullptr) {
+    /* The handler may be shared with derived cmeshes and must not keep pointing to the tree data of this one. */
+    cmesh->geometry_handler->deactivate_tree ();
     cmesh->geometry_handler->unref ();
     cmesh->geometry_handler = nullptr;
   }
-- 
2.43.0


From ecc80ba211b385b2c12b040f9559fae650e6fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 40/53] fix: stretched element points used the wrong stride and
 overran a buffer for more than eight points

---
 src/t8_forest/t8_forest.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 5b3f0e3..39eebf5 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -439,14 +439,16 @@ t8_forest_element_from_ref_coords_ext (t8_forest_t forest, t8_locidx_t ltreeid,
     T8_ASSERT (geom_type == T8_GEOMETRY_TYPE_LINEAR || geom_type == T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED);
 #endif /* T8_ENABLE_DEBUG */
     const int tree_dim = t8_eclass_to_dimension[tree_class];
-    double stretched_ref_coords[T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM];
+    /* The schemes expect the reference coordinates of consecutive points to be T8_ECLASS_MAX_DIM apart. */
+    double *stretched_ref_coords = T8_ALLOC (double, T8_ECLASS_MAX_DIM *num_coords);
     for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
       for (int dim = 0; dim < tree_dim; ++dim) {
-        stretched_ref_coords[i_coord * tree_dim + dim]
-          = 0.5 + ((ref_coords[i_coord * tree_dim + dim] - 0.5) * stretch_factors[dim]);
+        stretched_ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim]
+          = 0.5 + ((ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim] - 0.5) * stretch_factors[dim]);
       }
     }
     scheme->element_get_reference_coords (tree_class, element, stretched_ref_coords, num_coords, tree_ref_coords);
+    T8_FREE (stretched_ref_coords);
   }
   else {
     scheme->element_get_reference_coords (tree_class, element, ref_coords, num_coords, tree_ref_coords);
-- 
2.43.0


From 3dab3dc3f43cd86be8e67c1106f2bbf62cbe1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 41/53] fix: points of a vertex tree were read behind its only
 vertex

---
 src/t8_geometry/t8_geometry_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 23235bb..43063a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -114,7 +114,7 @@ t8_geom_compute_linear_geometry (t8_eclass_t tree_class, const double *tree_vert
     for (i_coord = 0; i_coord < num_coords; i_coord++) {
       const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
       for (i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; i_dim++) {
-        out_coords[offset_domain_dim + i_dim] = tree_vertices[offset_domain_dim + i_dim];
+        out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
       }
     }
     break;
-- 
2.43.0


From ddfd6d513ecc8ee5dd93d23815facdacaa7577ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:54 +0000
Subject: [PATCH 42/53] fix: axis aligned lines and quads off the first axes
 used the wrong reference coordinates

---
 src/t8_geometry/t8_geometry_helpers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 43063a6..8a1e086 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -227,9 +227,14 @@ t8_geom_compute_linear_axis_aligned_geometry (const t8_eclass_t tree_class, cons
   for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
     const size_t offset_tree_dim = i_coord * dimension;
     const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
+    /* The reference axes run along the directions in which the tree extends. */
+    int ref_dim = 0;
     for (int i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; ++i_dim) {
       out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
-      out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_dim] * vector[i_dim];
+      if (dimension == T8_ECLASS_MAX_DIM || (ref_dim < dimension && fabs (vector[i_dim]) > SC_EPS)) {
+        out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + ref_dim] * vector[i_dim];
+        ++ref_dim;
+      }
     }
   }
 }
-- 
2.43.0


From 1e72d1a86319b8a43eda127e6939023df47aed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:24 +0000
Subject: [PATCH 43/53] fix: every point was inside triangles and quads whose
 plane contains the z direction

---
 src/t8_geometry/t8_geometry_helpers.c | 34 ++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 8a1e086..9fad3b1 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -620,7 +620,10 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * We check whether such a solution exists by computing
    * certain determinants of 2x2 submatrizes of the 3x3 matrix
    *
-   *  | v w e_3 | with v = p_1 - p_0, w = p_2 - p_0, and e_3 = (0 0 1)^t (third unit vector)
+   *  | v w e_k | with v = p_1 - p_0, w = p_2 - p_0, and e_k the k-th unit vector.
+   *
+   * We choose k such that the determinant of this matrix is as large as possible.
+   * It is only zero for all k if the triangle is degenerated.
    */
 
   T8_ASSERT (tolerance > 0); /* negative values and zero are not allowed */
@@ -628,16 +631,25 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
   /* b = point - p_0 */
   t8_axpyz (p_0, point, b, -1);
 
-  /* Let d = det (v w e_3) */
-  const double det_vwe3 = v[0] * w[1] - v[1] * w[0];
+  /* det (v w e_k) is the k-th coordinate of the cross product of v and w. */
+  double dets[3];
+  t8_cross_3D (v, w, dets);
+  int k = 2;
+  for (int i_dim = 0; i_dim < 2; ++i_dim) {
+    if (fabs (dets[i_dim]) > fabs (dets[k])) {
+      k = i_dim;
+    }
+  }
+  const int i = (k + 1) % 3;
+  const int j = (k + 2) % 3;
 
   /* The system has a solution, we need to compute it and
    * check whether 0 <= x,y and x + y <= 1 */
-  /* x = det (b w e_3) / d
-   * y = det (v b e_3) / d
+  /* x = det (b w e_k) / d
+   * y = det (v b e_k) / d
    */
-  const double x = (b[0] * w[1] - b[1] * w[0]) / det_vwe3;
-  const double y = (v[0] * b[1] - v[1] * b[0]) / det_vwe3;
+  const double x = (b[i] * w[j] - b[j] * w[i]) / dets[k];
+  const double y = (v[i] * b[j] - v[j] * b[i]) / dets[k];
 
   if (x < -tolerance || y < -tolerance || x + y > 1 + tolerance) {
     /* The solution is not admissible.
@@ -650,11 +662,11 @@ t8_triangle_point_inside (const double p_0[3], const double v[3], const double w
    * is actually p - p_0.
    * Since the system of equations is overrepresented (3 equations, 2 variables)
    * this may actually break.
-   * If it breaks, it will break in the z coordinate of the result.
+   * If it breaks, it will break in the k-th coordinate of the result.
    */
-  const double z = v[2] * x + w[2] * y;
-  /* Must match the last coordinate of b = p - p_0 */
-  if (fabs (z - b[2]) > tolerance) {
+  const double z = v[k] * x + w[k] * y;
+  /* Must match the k-th coordinate of b = p - p_0 */
+  if (fabs (z - b[k]) > tolerance) {
     /* Does not match. Point lies outside. */
     return 0;
   }
-- 
2.43.0


From 44edbca0af45dff3959698fd31dd4e14e7ac29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:00 +0000
Subject: [PATCH 44/53] fix: points on the boundary of volume elements were
 lost by rounding since the tolerance was ignored

---
 .../t8_geometry_implementations/t8_geometry_linear.cxx          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
index 771b6f5..8537869 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx
@@ -186,6 +186,8 @@ t8_geometry_linear::t8_geom_point_batch_inside_element (t8_forest_t forest, t8_l
       const int afacecorner = scheme->element_get_face_corner (tree_class, element, iface, 0);
       double point_on_face[3];
       t8_forest_element_coordinate (forest, ltreeid, element, afacecorner, point_on_face);
+      /* Allow the points to lie up to the tolerance on the outside of the face. */
+      t8_axpy (face_normal, point_on_face, tolerance);
       for (int ipoint = 0; ipoint < num_points; ipoint++) {
         const int is_inside_iface = t8_plane_point_inside (point_on_face, face_normal, &points[ipoint * 3]);
         if (is_inside_iface == 0) {
-- 
2.43.0


From dbe834444d1b7fcbd5596f8925cc9749051b4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:31 +0000
Subject: [PATCH 45/53] fix: uniform bounds of partitioned meshes were wrong
 where a rounded quotient is an integer

---
 src/t8_cmesh/t8_cmesh.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 4065c47..7560c46 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1623,8 +1623,21 @@ t8_cmesh_determine_partition (const t8_gloidx_t element_index, const t8_gloidx_t
   else {
     /*Use the mirror_element_index to map the whole range of [first_elem_of_iproc, last_elem_of_iproc) to first_proc*/
     const t8_gloidx_t mirror_element_index = global_num_elements - element_index - 1;
-    const int first_proc_rank
+    int first_proc_rank
       = num_procs - 1 - t8_A_times_B_over_C_intA (num_procs, mirror_element_index, global_num_elements);
+    /* The quotient is computed in floating point arithmetic and may be off by one if it is (almost) an integer. */
+    while (first_proc_rank > 0
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                > (uint64_t) element_index) {
+      first_proc_rank--;
+    }
+    while (first_proc_rank < num_procs - 1
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank + 1, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                <= (uint64_t) element_index) {
+      first_proc_rank++;
+    }
     const int first_proc_adjusted = first_proc_rank - process_offset;
 #if T8_ENABLE_DEBUG
     T8_ASSERT (0 <= first_proc_rank && first_proc_rank < num_procs);
-- 
2.43.0


From 41041ed0fd5a1482d58c5900978a92b70c728c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:37 +0000
Subject: [PATCH 46/53] fix: leaves of the maximum level aborted balance checks
 and ghost layers of mixed meshes

The half size neighbours of leaves that cannot be refined were requested.
---
 src/t8_forest/t8_forest_balance.cxx | 7 ++++---
 src/t8_forest/t8_forest_ghost.cxx   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/t8_forest/t8_forest_balance.cxx b/src/t8_forest/t8_forest_balance.cxx
index e4aa236..4516f37 100644
--- a/src/t8_forest/t8_forest_balance.cxx
+++ b/src/t8_forest/t8_forest_balance.cxx
@@ -75,10 +75,11 @@ t8_forest_balance_adapt (t8_forest_t forest, t8_forest_t forest_from, const t8_l
    * Otherwise there cannot exist neighbors of level greater than the element's level plus one.
    * The variable maxlevel_existing is only set if we enter this function from t8_forest_balance.
    * If we enter from the check function is_balanced, then it may not be set.
+   * An element of the maximum possible level never has finer neighbors.
    */
-
-  if (forest_from->maxlevel_existing <= 0
-      || scheme->element_get_level (tree_class, element) <= forest_from->maxlevel_existing - 2) {
+  const int level = scheme->element_get_level (tree_class, element);
+  if (level < forest_from->maxlevel
+      && (forest_from->maxlevel_existing <= 0 || level <= forest_from->maxlevel_existing - 2)) {
 
     pdone = (int *) forest->t8code_data;
 
diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index ff9b7ec..fd8c502 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -847,7 +847,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       /* Get the element of the tree */
       const t8_element_t *elem = t8_forest_get_tree_leaf_element (tree, ielem);
       num_faces = scheme->element_get_num_faces (tree_class, elem);
-      if (scheme->element_get_level (tree_class, elem) == scheme->get_maxlevel (tree_class)) {
+      if (scheme->element_get_level (tree_class, elem) >= t8_forest_get_maxlevel (forest)) {
         /* flag to decide whether this element is at the maximum level */
         is_atom = 1;
       }
-- 
2.43.0


From 5f875ee934c6416a6f7a385821896659118dc0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:26 +0000
Subject: [PATCH 47/53] fix: open PPointData and PCellData of pvtu files if
 there are only vector fields

---
 src/t8_vtk/t8_vtk.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/t8_vtk/t8_vtk.c b/src/t8_vtk/t8_vtk.c
index 3a9480b..0f1170e 100644
--- a/src/t8_vtk/t8_vtk.c
+++ b/src/t8_vtk/t8_vtk.c
@@ -107,15 +107,16 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
       }
     }
 
-    if (strcmp (vtkPointDataString, "")) {
-      fprintf (pvtufile, "    <PPointData Scalars=\"%s\"", vtkPointDataString);
+    if (strcmp (vtkPointDataString, "") || strcmp (vtkPointVectorString, "")) {
+      fprintf (pvtufile, "    <PPointData");
+      if (strcmp (vtkPointDataString, "")) {
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkPointDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
-        fprintf (pvtufile, " Vectors=\"%s\">\n", vtkPointVectorString);
-      }
-      else {
-        fprintf (pvtufile, ">\n");
+        fprintf (pvtufile, " Vectors=\"%s\"", vtkPointVectorString);
       }
+      fprintf (pvtufile, ">\n");
       /* Write data fields */
       for (idata = 0; idata < num_scalars; idata++) {
         sreturn = snprintf (description, BUFSIZ, "%s_%s", data[idata].description, "points");
@@ -187,15 +188,16 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
                              data[idata].description);
       }
     }
-    if (strcmp (vtkCellDataString, "")) {
-      fprintf (pvtufile, "    <PCellData Scalars=\"%s\"", vtkCellDataString);
+    if (strcmp (vtkCellDataString, "") || strcmp (vtkCellVectorString, "")) {
+      fprintf (pvtufile, "    <PCellData");
+      if (strcmp (vtkCellDataString, "")) {
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkCellDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
-        fprintf (pvtufile, " Vectors=\"%s\">\n", vtkCellVectorString);
-      }
-      else {
-        fprintf (pvtufile, ">\n");
+        fprintf (pvtufile, " Vectors=\"%s\"", vtkCellVectorString);
       }
+      fprintf (pvtufile, ">\n");
       wrote_cell_data = 1;
     }
   }
-- 
2.43.0


From e328f12de6408fed041b296d4b7bcee83df91bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:26 +0000
Subject: [PATCH 48/53] fix: vector data of vtk files has three components,
 also in zero-dimensional forests

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 35bcb21..4505431 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -688,7 +688,7 @@ t8_forest_vtk_write_cells (t8_forest_t forest, FILE *vtufile, const int write_tr
       T8_ASSERT (data[idata].type == T8_VTK_VECTOR);
       snprintf (component_string, BUFSIZ, "NumberOfComponents=\"3\"");
       freturn = t8_forest_vtk_write_cell_data (forest, vtufile, data[idata].description, T8_VTK_FLOAT_NAME,
-                                               component_string, 8 * forest->dimension,
+                                               component_string, 8 * 3,
                                                t8_forest_vtk_cells_vector_kernel, write_ghosts, data[idata].data);
     }
     if (!freturn) {
@@ -772,7 +772,7 @@ t8_forest_vtk_write_points (t8_forest_t forest, FILE *vtufile, const int write_g
         }
 
         freturn = t8_forest_vtk_write_cell_data (forest, vtufile, description, T8_VTK_FLOAT_NAME, component_string,
-                                                 8 * forest->dimension, t8_forest_vtk_vertices_vector_kernel,
+                                                 8 * 3, t8_forest_vtk_vertices_vector_kernel,
                                                  write_ghosts, data[idata].data);
       }
       if (!freturn) {
-- 
2.43.0


From 9722fc64e68c3dac0738432c8ebb9bb1d8b0aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:26 +0000
Subject: [PATCH 49/53] fix: do not dereference a null tree when a cmesh ghost
 without coordinates is written

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 4505431..13add2f 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -1033,8 +1033,8 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
         /* Get a pointer to this ghosts vertices */
         vertices = (double *) t8_cmesh_get_attribute (cmesh, t8_get_package_id (), 0, ighost + num_loc_trees);
         if (vertices == nullptr) {
-          t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh tree %i.\n", vtufilename,
-                     tree->treeid);
+          t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh ghost %i.\n", vtufilename,
+                     ighost);
           fclose (vtufile);
           return write_failure;
         }
-- 
2.43.0


From 7779d4ed42e0a92534961ff223e772c2923a65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:26 +0000
Subject: [PATCH 50/53] fix: decrementing an element array iterator aborted in
 debug mode

---
 src/t8_data/t8_element_array_iterator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_data/t8_element_array_iterator.hxx b/src/t8_data/t8_element_array_iterator.hxx
index e792d24..b88cab4 100644
--- a/src/t8_data/t8_element_array_iterator.hxx
+++ b/src/t8_data/t8_element_array_iterator.hxx
@@ -201,7 +201,7 @@ struct t8_element_array_iterator
   operator-= (const difference_type n)
   {
     current_index -= n;
-    T8_ASSERT (current_index < 0);
+    T8_ASSERT (current_index >= 0);
     return *this;
   }
   /* Comparison operators */
-- 
2.43.0


From bac7bf3b90d97bdc47dbc792693cede3ae1e8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:26 +0000
Subject: [PATCH 51/53] fix: orthogonal tripod of multiples of (1, -1, 1) was
 not a number

---
 src/t8_types/t8_vec.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/t8_types/t8_vec.hxx b/src/t8_types/t8_vec.hxx
index eba279d..79706a2 100644
--- a/src/t8_types/t8_vec.hxx
+++ b/src/t8_types/t8_vec.hxx
@@ -302,6 +302,13 @@ t8_orthogonal_tripod (const TVecV1 &v1, TVecV2 &v2, TVecV3 &v3)
   v2[2] = -v1[0];
 
   t8_axpy (v1, v2, -t8_dot (v1, v2) / t8_dot (v1, v1));
+  if (t8_dot (v2, v2) <= 1e-8 * t8_dot (v1, v1)) {
+    /* v1 is (nearly) a multiple of (1, -1, 1) and thus parallel to the vector that we started with. Use another one. */
+    v2[0] = v1[1];
+    v2[1] = v1[2];
+    v2[2] = v1[0];
+    t8_axpy (v1, v2, -t8_dot (v1, v2) / t8_dot (v1, v1));
+  }
   t8_cross_3D (v1, v2, v3);
 
   t8_normalize (v2);
-- 
2.43.0


From 1f553012632140a6d611b120b947ace7600a86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:55 +0000
Subject: [PATCH 52/53] fix: table of edges leaving a prism face named edges
 that do not touch the corner

---
 src/t8_eclass/t8_eclass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_eclass/t8_eclass.h b/src/t8_eclass/t8_eclass.h
index 82f8369..07ca827 100644
--- a/src/t8_eclass/t8_eclass.h
+++ b/src/t8_eclass/t8_eclass.h
@@ -126,7 +126,7 @@ typedef enum t8_eclass {
   { { 2, 1 }, { 2, 0 }, { 1, 0 } },                                                                       /* triangle */  \
   { { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 4, 5, 6, 7 }, { 8, 9, 10, 11 }, { 8, 9, 10, 11 } }, /* hex */       \
   { { 0, 1, 2 }, { 0, 3, 4 }, { 1, 3, 5 }, { 2, 4, 5 } },                                                 /* tet */       \
-  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 6, 7, 8 }, { 6, 7, 8 } },                           /* prism */     \
+  { { 2, 1, 5, 4 }, { 2, 0, 5, 3 }, { 1, 0, 4, 3 }, { 8, 6, 7 }, { 8, 6, 7 } },                           /* prism */     \
   { { -1 } },                                                                                             /* pyramid */   \
 }
 /** Mapping of edge vertex to tree vertex for each eclass. */
-- 
2.43.0


From 05792113df294f0f950a18eb18eeaa5d7bd9591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 53/53] fix: interpolation result was wrong when written over
 its coefficients

---
 src/t8_geometry/t8_geometry_helpers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 9fad3b1..e848e26 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -58,6 +58,8 @@ t8_geom_linear_interpolation (const double *coefficients, const double *corner_v
              * coefficients[2];
       }
     }
+  }
+  for (int i_dim = 0; i_dim < corner_value_dim; i_dim++) {
     evaluated_function[i_dim] = temp[i_dim];
   }
 }
@@ -91,6 +93,8 @@ t8_geom_triangular_interpolation (const double *coefficients, const double *corn
                   + (corner_values[2 * corner_value_dim + i_dim] - corner_values[corner_value_dim + i_dim])
                       * coefficients[interpolation_dim - 1] /* (p3 - p2) * ref_coords */
                   + corner_values[i_dim];                   /* p1 */
+  }
+  for (int i_dim = 0; i_dim < corner_value_dim; i_dim++) {
     evaluated_function[i_dim] = temp[i_dim];
   }
 }
-- 
2.43.0

