From 46827d9a11755e2cde2dcaaa46e482ae01b162d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 1/7] fix: offset component slices by the start of the group
 range

Slices of queries with an "exclude" filter start at the length of the child
group, but the component slices always started at index 0, so they did not
match the entity slice or the items produced by iteration.
---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..5cec82a 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
-- 
2.43.0


From 02e261eb6860fcbdf7544c075709826392d39184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 2/7] fix: keep entity versions in place when swapping dense
 indexes

Grouping swapped whole sparse slots, including their versions, so the
components of two entities with different versions became unreachable.
---
 src/entity/sparse_vec.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/entity/sparse_vec.rs b/src/entity/sparse_vec.rs
index 612eb89..c525df0 100644
--- a/src/entity/sparse_vec.rs
+++ b/src/entity/sparse_vec.rs
@@ -102,9 +102,15 @@ impl SparseVec {
         debug_assert!(b < self.slots.len());
         debug_assert_ne!(a, b);
 
-        let entity_a = &mut *self.slots.as_mut_ptr().add(a);
-        let entity_b = &mut *self.slots.as_mut_ptr().add(b);
-        mem::swap(entity_a, entity_b);
+        let slot_a = &mut *self.slots.as_mut_ptr().add(a);
+        let slot_b = &mut *self.slots.as_mut_ptr().add(b);
+
+        // The versions belong to the sparse indexes, so only the dense indexes
+        // must be swapped.
+        match (slot_a, slot_b) {
+            (Some(slot_a), Some(slot_b)) => mem::swap(&mut slot_a.index, &mut slot_b.index),
+            (slot_a, slot_b) => mem::swap(slot_a, slot_b),
+        }
     }
 
     /// Removes all entities from the storage.
-- 
2.43.0


From a4d3d01fce62ef9bf22906f97daf12efa146513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 3/7] fix: do not revive destroyed entities in maintain

Entities allocated with exclusive access were still visited by the next call
to `maintain`, which added them back to the world even if they had been
destroyed in the meantime.
---
 src/entity/entity_allocator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..af876e8 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -15,11 +15,23 @@ impl EntityAllocator {
     pub fn allocate(&mut self) -> Option<Entity> {
         let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
 
+        // The returned entity must not be visited by the next call to `maintain`,
+        // because it may already be destroyed by then.
         if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
+            let recycled_index = self.recycled.len() - recycled_since_maintain - 1;
+            self.recycled.remove(recycled_index)
         } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
+            // Preserve the new indexes which were not yet maintained.
+            while self.last_maintained_index < u64::from(index) {
+                self.recycled
+                    .push_back(Entity::with_index(self.last_maintained_index as u32));
+
+                *self.recycled_since_maintain.get_mut() += 1;
+                self.last_maintained_index += 1;
+            }
+
             *self.next_index_to_allocate.get_mut() += 1;
+            self.last_maintained_index += 1;
             Some(Entity::with_index(index))
         } else {
             None
-- 
2.43.0


From 6f8333dd8b69dd831c325df2fa32cfe5ef1cbf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 4/7] fix: accept groups and layouts of the maximum declared
 size

The masks could not represent the full range of bits, so groups with
`MAX_GROUP_ARITY` components and layouts with `MAX_GROUP_COUNT` groups
panicked.
---
 src/component/group_mask.rs   | 12 ++++--------
 src/component/storage_mask.rs |  6 +++---
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..455ec93 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -11,21 +11,17 @@ impl GroupMask {
     #[inline]
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        // Use a wider type to allow masks with all bits set.
+        Self((((1_u128 << (to - from)) - 1) << from) as u64)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
-        assert!(from <= to);
-
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!Self::from_to(from, to).0)
     }
 
     #[inline]
diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..6e2a049 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -10,11 +10,11 @@ impl StorageMask {
     #[inline]
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        // Use a wider type to allow masks with all bits set.
+        Self((((1_u32 << (to - from)) - 1) << from) as u16)
     }
 }
 
-- 
2.43.0


From b4bbb0cd1a91993ada2c7801fc931bc4da7bd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 5/7] fix: do not yield entities with excluded components in
 dense queries

When a child group adds more than one component, the entities that belong to
the parent group but not to the child group may still have some of the
excluded components, so the difference of the groups is not the result of the
query.
---
 README.md                          | 8 ++++----
 src/component/component_storage.rs | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 683260b..79c3779 100644
--- a/README.md
+++ b/README.md
@@ -80,7 +80,7 @@ arrays.
 ```rust
 let mut world = World::builder()
     .add_group::<(A, B)>()
-    .add_group::<(A, B, C, D>)>()
+    .add_group::<(A, B, C)>()
     .build();
 ```
 
@@ -107,11 +107,11 @@ world
     .slice()
     .map(|_| ());
 
-/// Get all A and B components of entities with A and B, and without C and D as
-/// a tuple.
+/// Get all A and B components of entities with A and B, and without C as a tuple
+/// of slices.
 world
     .query_all::<(&A, &B)>()
-    .exclude::<(&C, &D)>()
+    .exclude::<&C>()
     .slice()
     .map(|_| ());
 ```
diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..4fbd818 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -287,6 +287,12 @@ impl ComponentStorage {
             return None;
         }
 
+        // If the child group adds more than one component, the entities that
+        // belong only to the parent group may still have some of them.
+        if child_group.metadata.new_storage_range().len() != 1 {
+            return None;
+        }
+
         let parent_group = unsafe { self.groups.get_unchecked(usize::from(group_end) - 2) };
         Some(child_group.len..parent_group.len)
     }
-- 
2.43.0


From 2219a3355f652c69f9c053078871e3c71c613119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 6/7] fix: accept nested groups added in any order

Adding a group after one of its supersets either panicked or corrupted the
layout, because the superset check and the order of the components were
inverted.
---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..68273f3 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_cached_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From 001563903f9ad27e18e6b5a9950874b531d34e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 7/7] fix: optional parts and entities in an exclude filter do
 not filter

Dense iteration ignored such parts, while sparse iteration and single
entity queries matched nothing.
---
 src/query/mod.rs        |  8 ++++----
 src/query/query_part.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/query/mod.rs b/src/query/mod.rs
index 8245b9e..051d430 100644
--- a/src/query/mod.rs
+++ b/src/query/mod.rs
@@ -224,7 +224,7 @@ where
     }
 
     fn contains_none(view: &Self::View<'_>, entity: Entity) -> bool {
-        !<Q as QueryPart>::contains(view, entity)
+        <Q as QueryPart>::contains_none(view, entity)
     }
 
     fn get<'a>(view: &'a mut Self::View<'_>, entity: Entity) -> Option<Self::Item<'a>> {
@@ -253,7 +253,7 @@ where
     }
 
     fn contains_none_raw(sparse: Self::Sparse<'_>, sparse_index: usize) -> bool {
-        !<Q as QueryPart>::contains_raw(sparse, sparse_index)
+        <Q as QueryPart>::contains_none_raw(sparse, sparse_index)
     }
 
     unsafe fn get_sparse_raw<'a>(
@@ -320,7 +320,7 @@ macro_rules! impl_query {
             }
 
             fn contains_none(view: &Self::View<'_>, entity: Entity) -> bool {
-                $(!$Ty::contains(&view.$idx, entity))&&+
+                $($Ty::contains_none(&view.$idx, entity))&&+
             }
 
             fn get<'a>(view: &'a mut Self::View<'_>, entity: Entity) -> Option<Self::Item<'a>> {
@@ -407,7 +407,7 @@ macro_rules! impl_query {
             }
 
             fn contains_none_raw(sparse: Self::Sparse<'_>, sparse_index: usize) -> bool {
-                $(!$Ty::contains_raw(sparse.$idx, sparse_index))&&+
+                $($Ty::contains_none_raw(sparse.$idx, sparse_index))&&+
             }
 
             unsafe fn get_sparse_raw<'a>(
diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 5cec82a..5e5ac1c 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -42,6 +42,14 @@ pub unsafe trait QueryPart {
     #[must_use]
     fn contains(view: &Self::View<'_>, entity: Entity) -> bool;
 
+    /// Returns whether an "exclude" filter on the view lets `entity` pass.
+    ///
+    /// Parts that are present for all entities do not filter any of them.
+    #[must_use]
+    fn contains_none(view: &Self::View<'_>, entity: Entity) -> bool {
+        !Self::contains(view, entity)
+    }
+
     /// Returns the sparse key mapped to `entity`, if any.
     #[must_use]
     fn get_sparse_key(view: &Self::View<'_>, entity: Entity) -> Option<Self::SparseKey>;
@@ -69,6 +77,13 @@ pub unsafe trait QueryPart {
     #[must_use]
     fn contains_raw(sparse: Self::Sparse<'_>, sparse_index: usize) -> bool;
 
+    /// Returns whether an "exclude" filter on the sparse vecs lets the sparse
+    /// index pass.
+    #[must_use]
+    fn contains_none_raw(sparse: Self::Sparse<'_>, sparse_index: usize) -> bool {
+        !Self::contains_raw(sparse, sparse_index)
+    }
+
     /// Returns the sparse key extracted from the sparse vecs.
     #[must_use]
     fn get_sparse_key_raw(sparse: Self::Sparse<'_>, entity: Entity) -> Option<Self::SparseKey>;
@@ -113,6 +128,11 @@ unsafe impl QueryPart for Entity {
         true
     }
 
+    #[inline]
+    fn contains_none(_view: &Self::View<'_>, _entity: Entity) -> bool {
+        true
+    }
+
     #[inline]
     fn get_sparse_key(_view: &Self::View<'_>, entity: Entity) -> Option<Self::SparseKey> {
         Some(entity)
@@ -150,6 +170,11 @@ unsafe impl QueryPart for Entity {
         true
     }
 
+    #[inline]
+    fn contains_none_raw(_sparse: Self::Sparse<'_>, _sparse_index: usize) -> bool {
+        true
+    }
+
     #[inline]
     fn get_sparse_key_raw<'a>(
         _sparse: Self::Sparse<'_>,
@@ -363,6 +388,10 @@ where
         true
     }
 
+    fn contains_none(_view: &Self::View<'_>, _entity: Entity) -> bool {
+        true
+    }
+
     fn get_sparse_key(_view: &Self::View<'_>, entity: Entity) -> Option<Self::SparseKey> {
         Some(entity)
     }
@@ -391,6 +420,10 @@ where
         true
     }
 
+    fn contains_none_raw(_sparse: Self::Sparse<'_>, _sparse_index: usize) -> bool {
+        true
+    }
+
     fn get_sparse_key_raw(_sparse: Self::Sparse<'_>, entity: Entity) -> Option<Self::SparseKey> {
         Some(entity)
     }
@@ -446,6 +479,10 @@ where
         true
     }
 
+    fn contains_none(_view: &Self::View<'_>, _entity: Entity) -> bool {
+        true
+    }
+
     fn get_sparse_key(_view: &Self::View<'_>, entity: Entity) -> Option<Self::SparseKey> {
         Some(entity)
     }
@@ -474,6 +511,10 @@ where
         true
     }
 
+    fn contains_none_raw(_sparse: Self::Sparse<'_>, _sparse_index: usize) -> bool {
+        true
+    }
+
     fn get_sparse_key_raw<'a>(
         _sparse: Self::Sparse<'_>,
         entity: Entity,
-- 
2.43.0

