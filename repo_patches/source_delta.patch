From 3c49759ad72d43dacdb039a60a9cb46e6e1243a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 01/14] fix: remove_entity must leave entities of another
 archetype alone

The component group was never compared with the archetype of the entity, so a
mismatching group read component data of the wrong type (or a null pointer).
---
 src/registry/registry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..a62ccd0 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,13 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        if archetype.descriptor().len() != G::DESCRIPTOR.len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From c2f73badd4ceac5a60fb3817d03d9c325b7205e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 02/14] fix: reject invalid component groups when querying an
 entity

A group with duplicate component types has the invalid (empty) descriptor, which
is a subset of every archetype: has_components returned true, get_components and
get_components_mut dereferenced null pointers.
---
 src/registry/registry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index a62ccd0..31fa93a 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -120,6 +120,9 @@ impl Registry {
     /// Returns false if entity is invalid or does not have all of the specified components.
     /// If you need to check for only a single components, prefer to use [`Registry::has_component`] instead.
     pub fn has_components<'registry, G: ComponentGroup>(&'registry self, entity: Entity) -> bool {
+        if !G::DESCRIPTOR.is_valid() {
+            return false;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return false,
             Some(v) => v,
@@ -154,6 +157,9 @@ impl Registry {
         &'registry self,
         entity: Entity,
     ) -> Option<G::RefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
@@ -195,6 +201,9 @@ impl Registry {
         &'registry mut self,
         entity: Entity,
     ) -> Option<G::MutRefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
-- 
2.43.0


From f3b2a1c65168793b6f1b74eb096ac1981517b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 03/14] fix: iterating an invalid component group must not
 underflow

The descriptor of an invalid group has length 0, constructing the iterator
panicked when overflow checks are enabled instead of yielding nothing.
---
 src/archetype_registry/iterators/archetype_iter.rs            | 2 +-
 src/archetype_registry/iterators/archetype_iter_mut.rs        | 2 +-
 src/archetype_registry/iterators/filter_archetype_iter.rs     | 2 +-
 src/archetype_registry/iterators/filter_archetype_iter_mut.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
-- 
2.43.0


From ae623b2b73f4f9511fa2327ab46086602e7ef24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 04/14] fix: adding the 14th and removing one of 14 components
 must not panic

The shift loops ran one element past the used part of the components array, which
is out of bounds for a full archetype.
---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..e06b4fe 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,9 +159,10 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
+                v.components[self.len() as usize - 1] = ComponentDescriptor::INVALID;
 
                 v.len -= 1;
                 v.archetype_id =
-- 
2.43.0


From 67d143f6f3f374783cebeac363ae92d207c5606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 05/14] fix: one archetype id per set of components

Component groups hashed the unused tail of the descriptor array as well, whereas
adding/removing a component only hashes the used part. Entities with equal sets of
components ended up in different archetypes, exact iteration missed entities which
reached the set by adding or removing a component.
---
 src/descriptors/component_group_descriptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..84eb990 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,8 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the used descriptors are part of the id, as it is for added/removed components.
+        let id = ArchetypeDescriptor::compute_archetype_id(sorted_descriptors.split_at(N).0);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From 9bfdf97364dc4d9af20794760335693ab5bf7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 06/14] fix: growing a large archetype must not deallocate its
 data

Doubling 2^23 exceeds the maximum capacity, upon which all column memory was
deallocated and the next write went to a null pointer.
---
 src/archetype/data_access.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..ee67ac5 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -502,10 +502,13 @@ impl Archetype {
     /// Resizes the backing memory by the default amount if necessary.
     unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
+            assert!(self.capacity() < MAX_ENTITIES_PER_ARCHETYPE);
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
             } else {
-                self.capacity() as usize
+                // Do not grow past the maximum.
+                self.capacity()
+                    .min(MAX_ENTITIES_PER_ARCHETYPE - self.capacity()) as usize
             };
             self.resize_capacity(additional_capacity as isize);
         }
-- 
2.43.0


From 4db55089c211c0d214eba5a643304ce2392b36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 07/14] fix: free slots are reusable once all slots have been
 in use

When the slot table reached its maximum size no entity could be created anymore,
even if entities had been destroyed.
---
 src/entity_registry/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..ad4c52f 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -30,11 +30,12 @@ impl EntityRegistry {
     pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;
 
     pub fn can_register_new_entity(&self) -> bool {
-        self.entities.len() < Self::MAX_ENTITY_COUNT
+        self.next_free_slot != IndexInArchetype::INVALID_VALUE
+            || self.entities.len() < Self::MAX_ENTITY_COUNT
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
-- 
2.43.0


From 00684f741f51aaedf0acb773079ecc6b917d3f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 08/14] fix: return the components instead of panicking if the
 archetype is full

---
 src/registry/registry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 31fa93a..4aa1390 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From 7c83377b48cc42d30ffdbad6418cda4efab1f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 09/14] fix: off-by-one in the archetype index range checks

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..5548490 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -113,7 +113,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -141,7 +141,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From 02d49e7d27974eb16fe45643bfed29bd50208187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 10/14] fix: zero sized allocations and null pointers in
 archetypes

Zero sized components and archetypes without capacity called the allocator with a
zero sized layout (or a null pointer), which is undefined behaviour. Slices of an
archetype without capacity were created from null pointers.
---
 src/archetype/data_access.rs | 53 ++++++++++++++++++++++++------------
 src/archetype/mod.rs         | 13 +++++++--
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index ee67ac5..67ba164 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -2,7 +2,7 @@ use super::Archetype;
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
+use alloc::alloc::{alloc, dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
@@ -430,26 +430,43 @@ impl Archetype {
             size_of::<Entity>() * old_capacity as usize,
             align_of::<Entity>(),
         );
-        self.entity_associations = realloc(
-            self.entity_associations as *mut u8,
-            layout,
-            size_of::<Entity>() * new_capacity,
-        ) as *mut Entity;
+        self.entity_associations = if old_capacity == 0 {
+            alloc(Layout::from_size_align_unchecked(
+                size_of::<Entity>() * new_capacity,
+                align_of::<Entity>(),
+            ))
+        } else {
+            realloc(
+                self.entity_associations as *mut u8,
+                layout,
+                size_of::<Entity>() * new_capacity,
+            )
+        } as *mut Entity;
         assert_ne!(self.entity_associations, core::ptr::null_mut());
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
             .iter_mut()
             .enumerate()
         {
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue; // Zero sized components do not occupy any memory.
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * old_capacity as usize,
                 component_type.align as usize,
             );
-            *pointer = realloc(
-                *pointer,
-                layout,
-                component_type.size as usize * new_capacity,
-            );
+            *pointer = if old_capacity == 0 {
+                alloc(Layout::from_size_align_unchecked(
+                    component_type.size as usize * new_capacity,
+                    component_type.align as usize,
+                ))
+            } else {
+                realloc(
+                    *pointer,
+                    layout,
+                    component_type.size as usize * new_capacity,
+                )
+            };
             assert_ne!(*pointer, core::ptr::null_mut());
         }
         self.capacity = new_capacity as u32;
@@ -463,23 +480,25 @@ impl Archetype {
             .iter_mut()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
-            dealloc(*pointer, layout);
-            *pointer = core::ptr::null_mut();
+            if layout.size() > 0 {
+                dealloc(*pointer, layout);
+            }
+            *pointer = core::ptr::null_mut::<u8>().wrapping_add(component_type.align as usize);
+        }
+        if self.capacity == 0 {
+            return;
         }
         let layout = Layout::from_size_align_unchecked(
             size_of::<Entity>() * self.capacity() as usize,
             align_of::<Entity>(),
         );
         dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        self.entity_associations = core::ptr::NonNull::dangling().as_ptr();
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..cd22382 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -42,10 +42,14 @@ impl Archetype {
         let mut archetype = Self {
             descriptor: archetype_descriptor.clone(),
             pointers: [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY],
-            entity_associations: core::ptr::null_mut(),
+            entity_associations: core::ptr::NonNull::dangling().as_ptr(),
             entity_count: 0,
             capacity: 0,
         };
+        // Without allocated memory the pointers must still be non-null and aligned.
+        for (index, component) in archetype.descriptor.components().iter().enumerate() {
+            archetype.pointers[index] = core::ptr::null_mut::<u8>().wrapping_add(component.align as usize);
+        }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
@@ -61,8 +65,11 @@ impl Archetype {
                         component.size as usize * capacity as usize,
                         component.align as usize,
                     );
-                    archetype.pointers[index] = alloc(layout);
-                    assert_ne!(archetype.pointers[index], core::ptr::null_mut());
+                    // Zero sized components do not occupy any memory.
+                    if layout.size() > 0 {
+                        archetype.pointers[index] = alloc(layout);
+                        assert_ne!(archetype.pointers[index], core::ptr::null_mut());
+                    }
                 }
                 archetype.capacity = capacity;
             }
-- 
2.43.0


From 90477d56bbd99f6cbdcc7c1834934c86f8e268a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 11/14] fix: no double drop of components if dropping one
 panics

Components were dropped while the entity was still registered: if a drop panicked,
the entity (and its already dropped components) stayed accessible and were dropped
again later on. The same held for using an archetype after drop_entities.
---
 src/archetype/data_access.rs | 8 +++++---
 src/registry/registry.rs     | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 67ba164..a8110d2 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -314,13 +314,13 @@ impl Archetype {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
             // Is the last one, so just drop it.
-            self.drop_entity(index);
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
@@ -394,8 +394,10 @@ impl Archetype {
     /// Drops all the entities in the archetype.
     /// Does not deallocate the memory.
     pub unsafe fn drop_entities(&mut self) {
+        let count = self.len() as usize;
+        self.entity_count = 0;
         for (idx, descriptor) in self.descriptor.components().iter().enumerate() {
-            (descriptor.fns.drop_handler)(self.pointers[idx], self.len() as usize);
+            (descriptor.fns.drop_handler)(self.pointers[idx], count);
         }
     }
 
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 4aa1390..e7dd149 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -51,7 +51,7 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -62,9 +62,12 @@ impl Registry {
                     .unwrap()
                     .set_index_in_archetype(index_in_archetype);
             }
+            archetype.decrement_len_unchecked();
         };
         let _v = self.entities.destroy_entity(entity);
         debug_assert!(_v);
+        // Dropping runs user code, which may panic. So forget about the entity first.
+        unsafe { archetype.drop_entity(archetype.len()) };
         true
     }
 
-- 
2.43.0


From a8b6101ea1b3d727897f668ea7ddd689f59367a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 12/14] fix: different sets of components never share an
 archetype

Archetype ids are 32-bit hashes. Two sets of components having the same id ended
up in the same archetype, reading and writing component data of the wrong type.
E.g. components with the ids (15177, 25291, 49365) and (20881, 31347, 58780).
---
 src/archetype_registry/mod.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 5548490..536e406 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,14 +68,33 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches the mappings for the given (valid) descriptor.
+    /// Ids are hashes, so archetypes having the same id are told apart using their components.
+    fn search_sorted_mappings(
+        &self,
+        archetype_descriptor: &ArchetypeDescriptor,
+    ) -> Result<usize, usize> {
+        self.sorted_mappings[archetype_descriptor.len() as usize - 1].binary_search_by(|e| {
+            e.id.cmp(&archetype_descriptor.archetype_id())
+                .then_with(|| {
+                    let components = self.archetypes[e.archetype_index as usize]
+                        .descriptor()
+                        .components();
+                    components
+                        .iter()
+                        .map(|c| c.component_type_id)
+                        .cmp(archetype_descriptor.components().iter().map(|c| c.component_type_id))
+                })
+        })
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
+        match self.search_sorted_mappings(archetype_descriptor)
         {
             Ok(found_index) => Some(
                 &self.archetypes
@@ -94,8 +113,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
+        match self.search_sorted_mappings(archetype_descriptor)
         {
             Ok(found_index) => Some(
                 &mut self.archetypes
@@ -169,8 +187,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
+        return match self.search_sorted_mappings(archetype_descriptor)
         {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
-- 
2.43.0


From 681256764d32202d3bba75b9bf28178da77324b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 13/14] fix: valid sets of components always have a valid
 archetype id

E.g. components with the ids (44972, 49780, 52911) hash to the reserved value and
could not be used together.
---
 src/descriptors/archetype_descriptor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index e06b4fe..441bce8 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let id = ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())));
+        if !id.is_valid() {
+            // The hash happens to be the value reserved for invalid archetypes.
+            return ArchetypeId::from_u32(0);
+        }
+        id
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From f4b3c34a0f1c0d7588fd13bdfa3082f791288e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 14/14] fix: refuse component types exceeding the documented
 size/align limits

The size was truncated to 16 bits, using such a component (which is possible from
safe code) accessed memory out of bounds.
---
 src/descriptors/component_descriptor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/component_descriptor.rs b/src/descriptors/component_descriptor.rs
index 6650898..d81c6e5 100644
--- a/src/descriptors/component_descriptor.rs
+++ b/src/descriptors/component_descriptor.rs
@@ -9,8 +9,14 @@ macro_rules! define_component_descriptor {
     ($item:ident) => {
         ComponentDescriptor {
             component_type_id: $item::ID,
-            size: core::mem::size_of::<$item>() as u16,
-            align: core::mem::align_of::<$item>() as u16,
+            size: {
+                assert!(core::mem::size_of::<$item>() <= u16::MAX as usize);
+                core::mem::size_of::<$item>() as u16
+            },
+            align: {
+                assert!(core::mem::align_of::<$item>() <= u16::MAX as usize);
+                core::mem::align_of::<$item>() as u16
+            },
             fns: ComponentDescriptorFnPointers {
                 drop_handler: ComponentDescriptor::drop_handler_wrapper::<$item>,
             },
-- 
2.43.0

