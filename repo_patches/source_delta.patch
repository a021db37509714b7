From 18c367769133fa6c7ec07cdb9c9a4ce4e185bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 01/15] Kani hooks (cfg(kani)): finite-map stand-in for std
 HashMap/HashSet, representation access for buffers

---
 pasture-algorithms/src/convexhull.rs          |   3 +
 pasture-algorithms/src/voxel_grid.rs          |   6 +-
 pasture-core/src/containers/point_buffer.rs   |  51 ++-
 pasture-core/src/kani_support.rs              | 312 ++++++++++++++++++
 .../layout/conversion/attribute_conversion.rs |   6 +-
 pasture-core/src/lib.rs                       |   3 +
 6 files changed, 378 insertions(+), 3 deletions(-)
 create mode 100644 pasture-core/src/kani_support.rs

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..87c91f7 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -1,6 +1,9 @@
 use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::{layout::attributes::POSITION_3D, nalgebra::Vector3};
+#[cfg(kani)]
+use pasture_core::kani_support::{HashMap, HashSet};
+#[cfg(not(kani))]
 use std::collections::{HashMap, HashSet};
 use std::hash::{Hash, Hasher};
 use std::usize;
diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..b62ed92 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -1,4 +1,8 @@
-use std::{collections::HashMap, u16};
+#[cfg(kani)]
+use pasture_core::kani_support::HashMap;
+#[cfg(not(kani))]
+use std::collections::HashMap;
+use std::u16;
 
 use pasture_core::{
     containers::{BorrowedBuffer, OwningBuffer, UntypedPoint, UntypedPointBuffer},
diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..5bba96f 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1,5 +1,9 @@
 use anyhow::Result;
-use std::{collections::HashMap, iter::FromIterator, ops::Range};
+#[cfg(kani)]
+use crate::kani_support::HashMap;
+#[cfg(not(kani))]
+use std::collections::HashMap;
+use std::{iter::FromIterator, ops::Range};
 
 use crate::layout::{
     PointAttributeDefinition, PointAttributeMember, PointLayout, PointType, PrimitiveType,
@@ -887,6 +891,51 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     }
 }
 
+/// Access to the representation of a `VectorBuffer` for the Kani verifier
+#[cfg(kani)]
+impl VectorBuffer {
+    pub fn kani_from_parts(point_layout: PointLayout, storage: Vec<u8>, length: usize) -> Self {
+        Self {
+            storage,
+            point_layout,
+            length,
+        }
+    }
+    /// Representation invariant
+    pub fn kani_is_well_formed(&self) -> bool {
+        self.storage.len() == self.length * self.point_layout.size_of_point_entry() as usize
+    }
+}
+
+/// Access to the representation of a `HashMapBuffer` for the Kani verifier
+#[cfg(kani)]
+impl HashMapBuffer {
+    pub fn kani_from_parts(
+        point_layout: PointLayout,
+        columns: Vec<(PointAttributeDefinition, Vec<u8>)>,
+        length: usize,
+    ) -> Self {
+        Self {
+            attributes_storage: HashMap::kani_from_entries(columns),
+            point_layout,
+            length,
+        }
+    }
+    /// Representation invariant
+    pub fn kani_is_well_formed(&self) -> bool {
+        self.attributes_storage.len() == self.point_layout.attributes().count()
+            && self.point_layout.attributes().all(|attribute| {
+                match self
+                    .attributes_storage
+                    .get(attribute.attribute_definition())
+                {
+                    Some(column) => column.len() == self.length * attribute.size() as usize,
+                    None => false,
+                }
+            })
+    }
+}
+
 /// Helper struct to push point data into a `HashMapBuffer` attribute by attribute. This allows constructing a point buffer
 /// from multiple ranges of attribute data, since regular point buffers do not allow pushing just a single attribute into
 /// the buffer, as buffers always have to store complete points (even with columnar memory layout)
diff --git a/pasture-core/src/kani_support.rs b/pasture-core/src/kani_support.rs
new file mode 100644
index 0000000..2e33d5d
--- /dev/null
+++ b/pasture-core/src/kani_support.rs
@@ -0,0 +1,312 @@
+//! Verification support, compiled only by the Kani verifier (`cfg(kani)`); no effect on regular builds.
+//!
+//! `std::collections::HashMap`/`HashSet` are outside the verifier's reach (SIMD probing, random hashing).
+//! The types below have the same interface and stand for their contract: a finite map/set without duplicate
+//! keys. Iteration order is unspecified in `std`, here it is insertion order.
+
+use std::{borrow::Borrow, iter::FromIterator};
+
+/// Finite map with the interface of `std::collections::HashMap`
+#[derive(Debug, Clone)]
+pub struct HashMap<K, V> {
+    entries: Vec<(K, V)>,
+}
+
+impl<K, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        Self { entries: Vec::new() }
+    }
+}
+
+impl<K: Eq, V> HashMap<K, V> {
+    pub fn new() -> Self {
+        Self { entries: Vec::new() }
+    }
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+    /// Creates a map from entries with pairwise distinct keys
+    pub fn kani_from_entries(entries: Vec<(K, V)>) -> Self {
+        Self { entries }
+    }
+    fn position<Q: Eq + ?Sized>(&self, key: &Q) -> Option<usize>
+    where
+        K: Borrow<Q>,
+    {
+        let mut index = 0;
+        while index < self.entries.len() {
+            if self.entries[index].0.borrow() == key {
+                return Some(index);
+            }
+            index += 1;
+        }
+        None
+    }
+    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+        match self.position(&key) {
+            Some(index) => Some(std::mem::replace(&mut self.entries[index].1, value)),
+            None => {
+                self.entries.push((key, value));
+                None
+            }
+        }
+    }
+    pub fn get<Q: Eq + ?Sized>(&self, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.position(key) {
+            Some(index) => Some(&self.entries[index].1),
+            None => None,
+        }
+    }
+    pub fn get_mut<Q: Eq + ?Sized>(&mut self, key: &Q) -> Option<&mut V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.position(key) {
+            Some(index) => Some(&mut self.entries[index].1),
+            None => None,
+        }
+    }
+    pub fn get_key_value<Q: Eq + ?Sized>(&self, key: &Q) -> Option<(&K, &V)>
+    where
+        K: Borrow<Q>,
+    {
+        self.position(key)
+            .map(|index| (&self.entries[index].0, &self.entries[index].1))
+    }
+    pub fn contains_key<Q: Eq + ?Sized>(&self, key: &Q) -> bool
+    where
+        K: Borrow<Q>,
+    {
+        self.position(key).is_some()
+    }
+    pub fn remove<Q: Eq + ?Sized>(&mut self, key: &Q) -> Option<V>
+    where
+        K: Borrow<Q>,
+    {
+        self.position(key).map(|index| self.entries.remove(index).1)
+    }
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
+        let index = self.position(&key);
+        Entry {
+            map: self,
+            key,
+            index,
+        }
+    }
+    pub fn len(&self) -> usize {
+        self.entries.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.entries.is_empty()
+    }
+    pub fn clear(&mut self) {
+        self.entries.clear()
+    }
+    pub fn reserve(&mut self, _additional: usize) {}
+    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
+        self.entries.iter().map(|entry| (&entry.0, &entry.1))
+    }
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
+        self.entries.iter_mut().map(|entry| (&entry.0, &mut entry.1))
+    }
+    pub fn keys(&self) -> impl Iterator<Item = &K> {
+        self.entries.iter().map(|entry| &entry.0)
+    }
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.entries.iter().map(|entry| &entry.1)
+    }
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
+        self.entries.iter_mut().map(|entry| &mut entry.1)
+    }
+    pub fn into_keys(self) -> impl Iterator<Item = K> {
+        self.entries.into_iter().map(|entry| entry.0)
+    }
+    pub fn into_values(self) -> impl Iterator<Item = V> {
+        self.entries.into_iter().map(|entry| entry.1)
+    }
+    pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ {
+        self.entries.drain(..)
+    }
+    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut keep: F) {
+        self.entries.retain_mut(|entry| keep(&entry.0, &mut entry.1))
+    }
+}
+
+/// Entry of a [`HashMap`]
+pub struct Entry<'m, K, V> {
+    map: &'m mut HashMap<K, V>,
+    key: K,
+    index: Option<usize>,
+}
+
+impl<'m, K: Eq, V> Entry<'m, K, V> {
+    pub fn or_insert_with<F: FnOnce() -> V>(self, default: F) -> &'m mut V {
+        let index = match self.index {
+            Some(index) => index,
+            None => {
+                self.map.entries.push((self.key, default()));
+                self.map.entries.len() - 1
+            }
+        };
+        &mut self.map.entries[index].1
+    }
+    pub fn or_insert(self, default: V) -> &'m mut V {
+        self.or_insert_with(|| default)
+    }
+    pub fn or_default(self) -> &'m mut V
+    where
+        V: Default,
+    {
+        self.or_insert_with(Default::default)
+    }
+    pub fn and_modify<F: FnOnce(&mut V)>(self, modify: F) -> Self {
+        if let Some(index) = self.index {
+            modify(&mut self.map.entries[index].1);
+        }
+        self
+    }
+}
+
+impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
+        let mut map = Self::new();
+        for (key, value) in iter {
+            map.insert(key, value);
+        }
+        map
+    }
+}
+
+impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
+        for (key, value) in iter {
+            self.insert(key, value);
+        }
+    }
+}
+
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::vec::IntoIter<(K, V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.entries.into_iter()
+    }
+}
+
+impl<'m, K, V> IntoIterator for &'m HashMap<K, V> {
+    type Item = (&'m K, &'m V);
+    type IntoIter =
+        std::iter::Map<std::slice::Iter<'m, (K, V)>, fn(&'m (K, V)) -> (&'m K, &'m V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.entries.iter().map(|entry| (&entry.0, &entry.1))
+    }
+}
+
+impl<'m, K, V> IntoIterator for &'m mut HashMap<K, V> {
+    type Item = (&'m K, &'m mut V);
+    type IntoIter =
+        std::iter::Map<std::slice::IterMut<'m, (K, V)>, fn(&'m mut (K, V)) -> (&'m K, &'m mut V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.entries.iter_mut().map(|entry| (&entry.0, &mut entry.1))
+    }
+}
+
+impl<K: Eq + Borrow<Q>, Q: Eq + ?Sized, V> std::ops::Index<&Q> for HashMap<K, V> {
+    type Output = V;
+    fn index(&self, key: &Q) -> &V {
+        self.get(key).expect("no entry found for key")
+    }
+}
+
+impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len() == other.len()
+            && self
+                .iter()
+                .all(|(key, value)| other.get(key).map_or(false, |v| *value == *v))
+    }
+}
+
+impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
+
+/// Finite set with the interface of `std::collections::HashSet`
+#[derive(Debug, Clone)]
+pub struct HashSet<T> {
+    map: HashMap<T, ()>,
+}
+
+impl<T> Default for HashSet<T> {
+    fn default() -> Self {
+        Self { map: HashMap::default() }
+    }
+}
+
+impl<T: Eq> HashSet<T> {
+    pub fn new() -> Self {
+        Self { map: HashMap::new() }
+    }
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+    pub fn insert(&mut self, value: T) -> bool {
+        if self.map.contains_key(&value) {
+            false
+        } else {
+            self.map.insert(value, ());
+            true
+        }
+    }
+    pub fn contains<Q: Eq + ?Sized>(&self, value: &Q) -> bool
+    where
+        T: Borrow<Q>,
+    {
+        self.map.contains_key(value)
+    }
+    pub fn remove<Q: Eq + ?Sized>(&mut self, value: &Q) -> bool
+    where
+        T: Borrow<Q>,
+    {
+        self.map.remove(value).is_some()
+    }
+    pub fn len(&self) -> usize {
+        self.map.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.map.is_empty()
+    }
+    pub fn clear(&mut self) {
+        self.map.clear()
+    }
+    pub fn iter(&self) -> impl Iterator<Item = &T> {
+        self.map.keys()
+    }
+}
+
+impl<T: Eq> FromIterator<T> for HashSet<T> {
+    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
+        let mut set = Self::new();
+        for value in iter {
+            set.insert(value);
+        }
+        set
+    }
+}
+
+impl<T: Eq> Extend<T> for HashSet<T> {
+    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
+        for value in iter {
+            self.insert(value);
+        }
+    }
+}
+
+impl<T> IntoIterator for HashSet<T> {
+    type Item = T;
+    type IntoIter = std::iter::Map<std::vec::IntoIter<(T, ())>, fn((T, ())) -> T>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.map.into_iter().map(|entry| entry.0)
+    }
+}
diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..047a204 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -16,7 +16,11 @@
 use lazy_static::lazy_static;
 use nalgebra::Vector3;
 use num_traits::AsPrimitive;
-use std::{collections::HashMap, ops::Range};
+#[cfg(kani)]
+use crate::kani_support::HashMap;
+#[cfg(not(kani))]
+use std::collections::HashMap;
+use std::ops::Range;
 
 use crate::layout::{PointAttributeDataType, PointAttributeDefinition, PointLayout};
 
diff --git a/pasture-core/src/lib.rs b/pasture-core/src/lib.rs
index e3b13aa..c6eeec9 100644
--- a/pasture-core/src/lib.rs
+++ b/pasture-core/src/lib.rs
@@ -10,6 +10,9 @@ pub extern crate nalgebra;
 extern crate self as pasture_core;
 
 pub mod containers;
+/// Stand-ins for types outside the reach of the Kani verifier
+#[cfg(kani)]
+pub mod kani_support;
 /// Defines attributes and data layout of point cloud data
 pub mod layout;
 /// Useful mathematical tools when working with point clooud data
-- 
2.43.0


From bac61adee400b3e6ae1fdc8b92dedf2d45f74751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 02/15] Kani hooks (cfg(kani)): layout representation access,
 itertools stand-in

---
 pasture-core/src/kani_support.rs        | 52 +++++++++++++++++++++++++
 pasture-core/src/layout/point_layout.rs | 17 ++++++++
 2 files changed, 69 insertions(+)

diff --git a/pasture-core/src/kani_support.rs b/pasture-core/src/kani_support.rs
index 2e33d5d..7dea2c0 100644
--- a/pasture-core/src/kani_support.rs
+++ b/pasture-core/src/kani_support.rs
@@ -310,3 +310,55 @@ impl<T> IntoIterator for HashSet<T> {
         self.map.into_iter().map(|entry| entry.0)
     }
 }
+
+/// The part of `itertools::Itertools` whose implementation depends on `std::collections::HashMap`, plus some of its
+/// companions
+pub trait Itertools: Iterator + Sized {
+    /// The distinct elements in order of their first occurrence
+    fn unique(self) -> std::vec::IntoIter<Self::Item>
+    where
+        Self::Item: Eq,
+    {
+        let mut elements: Vec<Self::Item> = Vec::new();
+        for element in self {
+            if !elements.contains(&element) {
+                elements.push(element);
+            }
+        }
+        elements.into_iter()
+    }
+    fn all_unique(&mut self) -> bool
+    where
+        Self::Item: Eq,
+    {
+        let mut elements: Vec<Self::Item> = Vec::new();
+        for element in self {
+            if elements.contains(&element) {
+                return false;
+            }
+            elements.push(element);
+        }
+        true
+    }
+    fn collect_vec(self) -> Vec<Self::Item> {
+        self.collect()
+    }
+    fn sorted_by<F: FnMut(&Self::Item, &Self::Item) -> std::cmp::Ordering>(
+        self,
+        compare: F,
+    ) -> std::vec::IntoIter<Self::Item> {
+        let mut elements: Vec<Self::Item> = self.collect();
+        elements.sort_by(compare);
+        elements.into_iter()
+    }
+    fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(
+        self,
+        key: F,
+    ) -> std::vec::IntoIter<Self::Item> {
+        let mut elements: Vec<Self::Item> = self.collect();
+        elements.sort_by_key(key);
+        elements.into_iter()
+    }
+}
+
+impl<I: Iterator> Itertools for I {}
diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..9a52d5b 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1,5 +1,8 @@
 use std::{alloc::Layout, borrow::Cow, fmt::Display, iter::FromIterator, ops::Range};
 
+#[cfg(kani)]
+use crate::kani_support::Itertools;
+#[cfg(not(kani))]
 use itertools::Itertools;
 use nalgebra::{Vector3, Vector4};
 use static_assertions::const_assert;
@@ -1019,6 +1022,20 @@ impl PointLayout {
     }
 }
 
+/// Access to the representation of a `PointLayout` for the Kani verifier
+#[cfg(kani)]
+impl PointLayout {
+    pub fn kani_from_parts(attributes: Vec<PointAttributeMember>, memory_layout: Layout) -> Self {
+        Self {
+            attributes,
+            memory_layout,
+        }
+    }
+    pub fn kani_memory_layout(&self) -> Layout {
+        self.memory_layout
+    }
+}
+
 impl Display for PointLayout {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         writeln!(f, "PointLayout {{")?;
-- 
2.43.0


From 9f93156e238bcbabc689964b239eee49053890e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 03/15] fix: bounds checks of mutable buffer slices use the
 length of the slice, not the end of its range in the parent

---
 pasture-core/src/containers/slice.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..9ea10ac 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,18 +219,11 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
-        local_index + self.point_range.start
+        get_and_check_global_point_index(local_index, &self.point_range)
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
-        if local_range.start >= local_range.end {
-            // Doesn't matter what range we return, as long as it is empty
-            self.point_range.end..self.point_range.end
-        } else {
-            (local_range.start + self.point_range.start)..(local_range.end + self.point_range.start)
-        }
+        get_and_check_global_point_range(local_range, &self.point_range)
     }
 }
 
-- 
2.43.0


From 8ccb8d78bc46abdeacadbb7f4d93683d8962fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 04/15] fix: slicing a buffer slice accepts every range within
 the slice, including ranges that reach its end

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 9ea10ac..25c21cc 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -417,8 +417,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -437,8 +437,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From c10096ddb07a88ae7790ad19743d66f9fad904cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 05/15] fix: skipping a point or attribute iterator past the
 end of the buffer ends the iteration

---
 pasture-core/src/containers/attribute_iterators.rs | 6 +++---
 pasture-core/src/containers/point_iterators.rs     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..e0158bc 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -97,7 +97,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.attribute_data.len());
         self.next()
     }
 }
@@ -141,7 +141,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.attribute_data.len());
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..bf702a6 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -80,7 +80,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.point_data.len());
         self.next()
     }
 }
@@ -123,7 +123,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.point_data.len());
         self.next()
     }
 }
-- 
2.43.0


From c18d4cf06374f1623c9283057b9f3104fd80b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 06/15] fix: aligning a value close to the maximum of its type
 does not overflow

---
 pasture-core/src/math/arithmetic.rs | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/math/arithmetic.rs b/pasture-core/src/math/arithmetic.rs
index 1017a43..0a47096 100644
--- a/pasture-core/src/math/arithmetic.rs
+++ b/pasture-core/src/math/arithmetic.rs
@@ -15,7 +15,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                excess => self + (alignment - excess),
+            }
         }
     }
 }
@@ -25,7 +28,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                excess => self + (alignment - excess),
+            }
         }
     }
 }
@@ -35,7 +41,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                excess => self + (alignment - excess),
+            }
         }
     }
 }
@@ -45,7 +54,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                excess => self + (alignment - excess),
+            }
         }
     }
 }
@@ -55,7 +67,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                excess => self + (alignment - excess),
+            }
         }
     }
 }
@@ -65,7 +80,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                excess => self + (alignment - excess),
+            }
         }
     }
 }
-- 
2.43.0


From 3b16e2d52bb7213fcfe44d8205f25eed7177c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 07/15] Kani hooks (cfg(kani)): converter table stand-in

---
 pasture-core/src/kani_support.rs              | 111 ++++++++++++++++++
 .../layout/conversion/attribute_conversion.rs |   5 +-
 2 files changed, 114 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/kani_support.rs b/pasture-core/src/kani_support.rs
index 7dea2c0..6d21460 100644
--- a/pasture-core/src/kani_support.rs
+++ b/pasture-core/src/kani_support.rs
@@ -362,3 +362,114 @@ pub trait Itertools: Iterator + Sized {
 }
 
 impl<I: Iterator> Itertools for I {}
+
+/// `lazy_static!` inside of a function: the initializer is evaluated on the first call
+macro_rules! lazy_static {
+    ($($(#[$meta:meta])* static ref $name:ident : $type:ty = $init:expr;)*) => {
+        $(
+            #[allow(non_snake_case)]
+            let $name: &$type = {
+                static mut VALUE: Option<$type> = None;
+                #[allow(static_mut_refs)]
+                unsafe {
+                    if VALUE.is_none() {
+                        VALUE = Some($init);
+                    }
+                    VALUE.as_ref().unwrap()
+                }
+            };
+        )*
+    };
+}
+pub(crate) use lazy_static;
+
+use crate::layout::PointAttributeDataType;
+
+type Conversion = (PointAttributeDataType, PointAttributeDataType);
+
+const MAX_WATCHED: usize = 9;
+static mut WATCHED: [u16; MAX_WATCHED] = [u16::MAX; MAX_WATCHED];
+
+/// Number of a conversion between two of the fixed-size datatypes
+fn conversion_code(key: &Conversion) -> u16 {
+    fn code(datatype: &PointAttributeDataType) -> u16 {
+        match datatype {
+            PointAttributeDataType::U8 => 0,
+            PointAttributeDataType::I8 => 1,
+            PointAttributeDataType::U16 => 2,
+            PointAttributeDataType::I16 => 3,
+            PointAttributeDataType::U32 => 4,
+            PointAttributeDataType::I32 => 5,
+            PointAttributeDataType::U64 => 6,
+            PointAttributeDataType::I64 => 7,
+            PointAttributeDataType::F32 => 8,
+            PointAttributeDataType::F64 => 9,
+            PointAttributeDataType::Vec3u8 => 10,
+            PointAttributeDataType::Vec3u16 => 11,
+            PointAttributeDataType::Vec3f32 => 12,
+            PointAttributeDataType::Vec3i32 => 13,
+            PointAttributeDataType::Vec3f64 => 14,
+            PointAttributeDataType::Vec4u8 => 15,
+            _ => 16,
+        }
+    }
+    code(&key.0) * 32 + code(&key.1)
+}
+
+/// Selects the keys (at most 9) for which [`WatchedMap`] is observed. Must be called before the map is built
+pub fn kani_watch_conversions(keys: &[Conversion]) {
+    let mut index = 0;
+    while index < keys.len() {
+        unsafe { WATCHED[index] = conversion_code(&keys[index]) };
+        index += 1;
+    }
+}
+
+fn watched(key: &Conversion) -> Option<usize> {
+    let code = conversion_code(key);
+    let mut index = 0;
+    while index < MAX_WATCHED {
+        if unsafe { WATCHED[index] } == code {
+            return Some(index);
+        }
+        index += 1;
+    }
+    None
+}
+
+/// Finite map from pairs of datatypes, restricted to the watched keys. Lookups of other keys are rejected, so every
+/// lookup gives what a full map gives
+pub struct WatchedMap<K, V> {
+    entries: [Option<V>; MAX_WATCHED],
+    _key: std::marker::PhantomData<K>,
+}
+
+impl<V: Copy> WatchedMap<Conversion, V> {
+    pub fn new() -> Self {
+        Self {
+            entries: [None; MAX_WATCHED],
+            _key: std::marker::PhantomData,
+        }
+    }
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+    pub fn insert(&mut self, key: Conversion, value: V) -> Option<V> {
+        match watched(&key) {
+            Some(index) => self.entries[index].replace(value),
+            None => None,
+        }
+    }
+    pub fn get(&self, key: &Conversion) -> Option<&V> {
+        match watched(key) {
+            Some(index) => self.entries[index].as_ref(),
+            None => {
+                kani::assert(false, "KANI SUPPORT: lookup of a conversion that is not watched");
+                None
+            }
+        }
+    }
+    pub fn contains_key(&self, key: &Conversion) -> bool {
+        self.get(key).is_some()
+    }
+}
diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 047a204..5ad1ae8 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -13,11 +13,12 @@
 //! The conversion then operates on these two buffers. As this is a *highly* unsafe operation where all sorts of things
 //! could go wrong, any conversion is only valid together with the *exact* `PointLayout` of both `A` and `B`!
 
+#[cfg(kani)]
+use crate::kani_support::{lazy_static, WatchedMap as HashMap};
+#[cfg(not(kani))]
 use lazy_static::lazy_static;
 use nalgebra::Vector3;
 use num_traits::AsPrimitive;
-#[cfg(kani)]
-use crate::kani_support::HashMap;
 #[cfg(not(kani))]
 use std::collections::HashMap;
 use std::ops::Range;
-- 
2.43.0


From 1fdabd8e0a3c9c66362730362a6152f07e823028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 08/15] fix: collecting an iterator into a VectorBuffer gives
 exactly the points of the iterator

---
 pasture-core/src/containers/point_buffer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 5bba96f..99a2550 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -855,8 +855,9 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
+        // The upper bound is only the number of points if it is also the lower bound, it is not for e.g. `filter`
+        let (min_length, max_length) = iter.size_hint();
+        if let Some(known_length) = max_length.filter(|length| *length == min_length) {
             let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
             let storage = vec![0; num_bytes];
             let mut buffer = Self {
-- 
2.43.0


From 1bacb2c92acecb5d05e8ebc8525dc04f3209d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 09/15] fix: pushing the same attribute twice does not
 desynchronize the columns of a HashMapBuffer

---
 pasture-core/src/containers/point_buffer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 99a2550..293b704 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1001,12 +1001,11 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             return;
         }
 
-        // Check that all attributes are complete! We don't have to check the exact size of the vectors,
-        // as this is checked in `push_attribute_range`, it is sufficient to verify that no vector is empty
+        // Check that all attributes are complete! An attribute can be missing, or it can have been pushed more than once
         assert!(self
             .attributes_storage
-            .values()
-            .all(|vector| !vector.is_empty()));
+            .iter()
+            .all(|(attribute, vector)| vector.len() == num_new_points * attribute.size() as usize));
 
         for (attribute, mut data) in self.attributes_storage {
             // Can safely unwrap, because self.attributes_storage was initialized from the `PointLayout` of the buffer!
-- 
2.43.0


From 72ebe07ef9c8dcffba0983f32fffa677def8118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 10/15] fix: pushing no points into a HashMapBuffer with an
 empty layout does not divide by zero

---
 pasture-core/src/containers/point_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 293b704..5afa481 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1327,6 +1327,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(0, point_bytes.len());
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
-- 
2.43.0


From 6cde5c6d97a4ce2f678467eccd44c1574ec96fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 11/15] fix: bounding boxes of positions with infinite
 coordinates are the smallest ones

---
 pasture-algorithms/src/bounds.rs | 8 ++++----
 pasture-core/src/math/bounds.rs  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-algorithms/src/bounds.rs b/pasture-algorithms/src/bounds.rs
index 5711a88..97755a0 100644
--- a/pasture-algorithms/src/bounds.rs
+++ b/pasture-algorithms/src/bounds.rs
@@ -28,8 +28,8 @@ pub fn calculate_bounds<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Option<AABB
 }
 
 fn calculate_bounds_from_default_positions<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> AABB<f64> {
-    let mut pos_min = Point3::new(f64::MAX, f64::MAX, f64::MAX);
-    let mut pos_max = Point3::new(f64::MIN, f64::MIN, f64::MIN);
+    let mut pos_min = Point3::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
+    let mut pos_max = Point3::new(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
     for pos in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         if pos.x < pos_min.x {
             pos_min.x = pos.x;
@@ -56,8 +56,8 @@ fn calculate_bounds_from_default_positions<'a, T: BorrowedBuffer<'a>>(buffer: &'
 fn calculate_bounds_from_custom_positions<'a, T: BorrowedBuffer<'a>>(
     buffer: &'a T,
 ) -> Result<AABB<f64>> {
-    let mut pos_min = Point3::new(f64::MAX, f64::MAX, f64::MAX);
-    let mut pos_max = Point3::new(f64::MIN, f64::MIN, f64::MIN);
+    let mut pos_min = Point3::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
+    let mut pos_max = Point3::new(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
     let attribute_view = buffer
         .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
         .context("Can't convert POSITION_3D attribute to Vector3<f64>")?;
diff --git a/pasture-core/src/math/bounds.rs b/pasture-core/src/math/bounds.rs
index ca4805e..1c93d81 100644
--- a/pasture-core/src/math/bounds.rs
+++ b/pasture-core/src/math/bounds.rs
@@ -268,8 +268,8 @@ impl AABB<f64> {
 
 impl<U: Into<Point3<f64>>> FromIterator<U> for AABB<f64> {
     fn from_iter<V: IntoIterator<Item = U>>(iter: V) -> Self {
-        let mut min = Point3::new(f64::MAX, f64::MAX, f64::MAX);
-        let mut max = Point3::new(f64::MIN, f64::MIN, f64::MIN);
+        let mut min = Point3::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
+        let mut max = Point3::new(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
         for point in iter.into_iter() {
             let point: Point3<f64> = point.into();
             min.x = if min.x < point.x { min.x } else { point.x };
-- 
2.43.0


From 73ee16f9ce2fd57a14e9fefa75431bfb6209e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 12/15] Kani hooks (cfg(kani)): map stand-in without heap
 memory of its own

---
 pasture-core/src/containers/point_buffer.rs |   4 +-
 pasture-core/src/kani_support.rs            | 190 ++++++++++++++------
 2 files changed, 141 insertions(+), 53 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 5afa481..94c717a 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -911,9 +911,9 @@ impl VectorBuffer {
 /// Access to the representation of a `HashMapBuffer` for the Kani verifier
 #[cfg(kani)]
 impl HashMapBuffer {
-    pub fn kani_from_parts(
+    pub fn kani_from_parts<I: IntoIterator<Item = (PointAttributeDefinition, Vec<u8>)>>(
         point_layout: PointLayout,
-        columns: Vec<(PointAttributeDefinition, Vec<u8>)>,
+        columns: I,
         length: usize,
     ) -> Self {
         Self {
diff --git a/pasture-core/src/kani_support.rs b/pasture-core/src/kani_support.rs
index 6d21460..1b7711c 100644
--- a/pasture-core/src/kani_support.rs
+++ b/pasture-core/src/kani_support.rs
@@ -6,47 +6,68 @@
 
 use std::{borrow::Borrow, iter::FromIterator};
 
-/// Finite map with the interface of `std::collections::HashMap`
+/// Largest number of entries of a [`HashMap`]; larger maps are rejected
+const MAX_ENTRIES: usize = 5;
+
+/// Finite map with the interface of `std::collections::HashMap`. The first `len` entries are occupied
 #[derive(Debug, Clone)]
 pub struct HashMap<K, V> {
-    entries: Vec<(K, V)>,
+    entries: [Option<(K, V)>; MAX_ENTRIES],
+    len: usize,
 }
 
 impl<K, V> Default for HashMap<K, V> {
     fn default() -> Self {
-        Self { entries: Vec::new() }
+        Self {
+            entries: [None, None, None, None, None],
+            len: 0,
+        }
     }
 }
 
 impl<K: Eq, V> HashMap<K, V> {
     pub fn new() -> Self {
-        Self { entries: Vec::new() }
+        Self::default()
     }
     pub fn with_capacity(_capacity: usize) -> Self {
         Self::new()
     }
     /// Creates a map from entries with pairwise distinct keys
-    pub fn kani_from_entries(entries: Vec<(K, V)>) -> Self {
-        Self { entries }
+    pub fn kani_from_entries<I: IntoIterator<Item = (K, V)>>(entries: I) -> Self {
+        let mut map = Self::new();
+        for (key, value) in entries {
+            map.push(key, value);
+        }
+        map
+    }
+    fn push(&mut self, key: K, value: V) -> usize {
+        let index = self.len;
+        if index >= MAX_ENTRIES {
+            kani::assert(false, "KANI SUPPORT: too many entries for the map stand-in");
+            loop {}
+        }
+        self.entries[index] = Some((key, value));
+        self.len += 1;
+        index
     }
     fn position<Q: Eq + ?Sized>(&self, key: &Q) -> Option<usize>
     where
         K: Borrow<Q>,
     {
         let mut index = 0;
-        while index < self.entries.len() {
-            if self.entries[index].0.borrow() == key {
-                return Some(index);
+        while index < self.len {
+            match &self.entries[index] {
+                Some(entry) if entry.0.borrow() == key => return Some(index),
+                _ => index += 1,
             }
-            index += 1;
         }
         None
     }
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
-        match self.position(&key) {
-            Some(index) => Some(std::mem::replace(&mut self.entries[index].1, value)),
+        match self.get_mut(&key) {
+            Some(old) => Some(std::mem::replace(old, value)),
             None => {
-                self.entries.push((key, value));
+                self.push(key, value);
                 None
             }
         }
@@ -55,38 +76,53 @@ impl<K: Eq, V> HashMap<K, V> {
     where
         K: Borrow<Q>,
     {
-        match self.position(key) {
-            Some(index) => Some(&self.entries[index].1),
-            None => None,
-        }
+        self.get_key_value(key).map(|entry| entry.1)
     }
     pub fn get_mut<Q: Eq + ?Sized>(&mut self, key: &Q) -> Option<&mut V>
     where
         K: Borrow<Q>,
     {
-        match self.position(key) {
-            Some(index) => Some(&mut self.entries[index].1),
-            None => None,
+        for entry in self.entries.iter_mut() {
+            match entry {
+                Some(entry) if entry.0.borrow() == key => return Some(&mut entry.1),
+                Some(_) => (),
+                None => return None,
+            }
         }
+        None
     }
     pub fn get_key_value<Q: Eq + ?Sized>(&self, key: &Q) -> Option<(&K, &V)>
     where
         K: Borrow<Q>,
     {
-        self.position(key)
-            .map(|index| (&self.entries[index].0, &self.entries[index].1))
+        for entry in self.entries.iter() {
+            match entry {
+                Some(entry) if entry.0.borrow() == key => return Some((&entry.0, &entry.1)),
+                Some(_) => (),
+                None => return None,
+            }
+        }
+        None
     }
     pub fn contains_key<Q: Eq + ?Sized>(&self, key: &Q) -> bool
     where
         K: Borrow<Q>,
     {
-        self.position(key).is_some()
+        self.get(key).is_some()
     }
     pub fn remove<Q: Eq + ?Sized>(&mut self, key: &Q) -> Option<V>
     where
         K: Borrow<Q>,
     {
-        self.position(key).map(|index| self.entries.remove(index).1)
+        let index = self.position(key)?;
+        self.len -= 1;
+        let removed = self.entries[index].take();
+        let mut at = index;
+        while at < self.len {
+            self.entries[at] = self.entries[at + 1].take();
+            at += 1;
+        }
+        removed.map(|entry| entry.1)
     }
     pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
         let index = self.position(&key);
@@ -97,41 +133,45 @@ impl<K: Eq, V> HashMap<K, V> {
         }
     }
     pub fn len(&self) -> usize {
-        self.entries.len()
+        self.len
     }
     pub fn is_empty(&self) -> bool {
-        self.entries.is_empty()
+        self.len == 0
     }
     pub fn clear(&mut self) {
-        self.entries.clear()
+        *self = Self::new()
     }
     pub fn reserve(&mut self, _additional: usize) {}
     pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
-        self.entries.iter().map(|entry| (&entry.0, &entry.1))
+        self.into_iter()
     }
     pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
-        self.entries.iter_mut().map(|entry| (&entry.0, &mut entry.1))
+        self.into_iter()
     }
     pub fn keys(&self) -> impl Iterator<Item = &K> {
-        self.entries.iter().map(|entry| &entry.0)
+        self.iter().map(|entry| entry.0)
     }
     pub fn values(&self) -> impl Iterator<Item = &V> {
-        self.entries.iter().map(|entry| &entry.1)
+        self.iter().map(|entry| entry.1)
     }
     pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
-        self.entries.iter_mut().map(|entry| &mut entry.1)
+        self.iter_mut().map(|entry| entry.1)
     }
     pub fn into_keys(self) -> impl Iterator<Item = K> {
-        self.entries.into_iter().map(|entry| entry.0)
+        self.into_iter().map(|entry| entry.0)
     }
     pub fn into_values(self) -> impl Iterator<Item = V> {
-        self.entries.into_iter().map(|entry| entry.1)
+        self.into_iter().map(|entry| entry.1)
     }
     pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ {
-        self.entries.drain(..)
+        std::mem::take(self).into_iter()
     }
     pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut keep: F) {
-        self.entries.retain_mut(|entry| keep(&entry.0, &mut entry.1))
+        for (key, mut value) in std::mem::take(self) {
+            if keep(&key, &mut value) {
+                self.push(key, value);
+            }
+        }
     }
 }
 
@@ -146,12 +186,9 @@ impl<'m, K: Eq, V> Entry<'m, K, V> {
     pub fn or_insert_with<F: FnOnce() -> V>(self, default: F) -> &'m mut V {
         let index = match self.index {
             Some(index) => index,
-            None => {
-                self.map.entries.push((self.key, default()));
-                self.map.entries.len() - 1
-            }
+            None => self.map.push(self.key, default()),
         };
-        &mut self.map.entries[index].1
+        &mut self.map.entries[index].as_mut().unwrap().1
     }
     pub fn or_insert(self, default: V) -> &'m mut V {
         self.or_insert_with(|| default)
@@ -164,7 +201,7 @@ impl<'m, K: Eq, V> Entry<'m, K, V> {
     }
     pub fn and_modify<F: FnOnce(&mut V)>(self, modify: F) -> Self {
         if let Some(index) = self.index {
-            modify(&mut self.map.entries[index].1);
+            modify(&mut self.map.entries[index].as_mut().unwrap().1);
         }
         self
     }
@@ -188,29 +225,80 @@ impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
     }
 }
 
+/// Owning iterator over the occupied entries
+pub struct IntoIter<K, V> {
+    map: HashMap<K, V>,
+    at: usize,
+}
+impl<K, V> Iterator for IntoIter<K, V> {
+    type Item = (K, V);
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.at >= self.map.len {
+            return None;
+        }
+        self.at += 1;
+        self.map.entries[self.at - 1].take()
+    }
+}
 impl<K, V> IntoIterator for HashMap<K, V> {
     type Item = (K, V);
-    type IntoIter = std::vec::IntoIter<(K, V)>;
+    type IntoIter = IntoIter<K, V>;
     fn into_iter(self) -> Self::IntoIter {
-        self.entries.into_iter()
+        IntoIter { map: self, at: 0 }
     }
 }
 
+/// Iterator over the occupied entries
+pub struct Iter<'m, K, V> {
+    entries: &'m [Option<(K, V)>; MAX_ENTRIES],
+    at: usize,
+}
+impl<'m, K, V> Iterator for Iter<'m, K, V> {
+    type Item = (&'m K, &'m V);
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.at >= MAX_ENTRIES {
+            return None;
+        }
+        match &self.entries[self.at] {
+            Some(entry) => {
+                self.at += 1;
+                Some((&entry.0, &entry.1))
+            }
+            None => None,
+        }
+    }
+}
 impl<'m, K, V> IntoIterator for &'m HashMap<K, V> {
     type Item = (&'m K, &'m V);
-    type IntoIter =
-        std::iter::Map<std::slice::Iter<'m, (K, V)>, fn(&'m (K, V)) -> (&'m K, &'m V)>;
+    type IntoIter = Iter<'m, K, V>;
     fn into_iter(self) -> Self::IntoIter {
-        self.entries.iter().map(|entry| (&entry.0, &entry.1))
+        Iter {
+            entries: &self.entries,
+            at: 0,
+        }
     }
 }
 
+/// Mutable iterator over the occupied entries
+pub struct IterMut<'m, K, V> {
+    entries: std::slice::IterMut<'m, Option<(K, V)>>,
+}
+impl<'m, K, V> Iterator for IterMut<'m, K, V> {
+    type Item = (&'m K, &'m mut V);
+    fn next(&mut self) -> Option<Self::Item> {
+        match self.entries.next() {
+            Some(Some(entry)) => Some((&entry.0, &mut entry.1)),
+            _ => None,
+        }
+    }
+}
 impl<'m, K, V> IntoIterator for &'m mut HashMap<K, V> {
     type Item = (&'m K, &'m mut V);
-    type IntoIter =
-        std::iter::Map<std::slice::IterMut<'m, (K, V)>, fn(&'m mut (K, V)) -> (&'m K, &'m mut V)>;
+    type IntoIter = IterMut<'m, K, V>;
     fn into_iter(self) -> Self::IntoIter {
-        self.entries.iter_mut().map(|entry| (&entry.0, &mut entry.1))
+        IterMut {
+            entries: self.entries.iter_mut(),
+        }
     }
 }
 
@@ -305,7 +393,7 @@ impl<T: Eq> Extend<T> for HashSet<T> {
 
 impl<T> IntoIterator for HashSet<T> {
     type Item = T;
-    type IntoIter = std::iter::Map<std::vec::IntoIter<(T, ())>, fn((T, ())) -> T>;
+    type IntoIter = std::iter::Map<<HashMap<T, ()> as IntoIterator>::IntoIter, fn((T, ())) -> T>;
     fn into_iter(self) -> Self::IntoIter {
         self.map.into_iter().map(|entry| entry.0)
     }
-- 
2.43.0


From 33f82dfa3db58540ae79a60632c3398fb94859eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:21 +0000
Subject: [PATCH 13/15] fix: attributes added to a layout never overlap
 attributes that were declared out of order

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 9a52d5b..5c8f55e 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1011,14 +1011,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // If there are previous attributes, the next field starts where the last of them in memory ends. This does not
+        // have to be the attribute that was added last, attributes can be declared in any order
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From d71fe2ed269afede941c45ac28e45756e22eaae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 14/15] fix: layouts packed to more than one byte have the
 alignment and size of the packed struct

---
 pasture-core/src/layout/point_layout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 5c8f55e..e389a85 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -829,9 +829,13 @@ impl PointLayout {
                 current_max_alignment,
                 point_attribute.datatype().min_alignment(),
             ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
-            }
+            FieldAlignment::Packed(max_alignment) => std::cmp::min(
+                max_alignment,
+                std::cmp::max(
+                    current_max_alignment,
+                    point_attribute.datatype().min_alignment(),
+                ),
+            ),
         };
 
         self.attributes
-- 
2.43.0


From d9817f0214a0149c68bf5949abf4b524d422f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 15/15] fix: converting raw points keeps the attributes whose
 datatypes are the same in both layouts

---
 .../layout/conversion/attribute_conversion.rs | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 5ad1ae8..e336045 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -75,23 +75,23 @@ impl RawPointConverter {
         let converters = from_layout
             .attributes()
             .filter(|&from_attribute| to_layout.has_attribute_with_name(from_attribute.name()))
-            .filter_map(|from_attribute| {
+            .map(|from_attribute| {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
+                // No converter means that both attributes have the same datatype, so their values are simply copied
                 let conversion_fn = get_converter_for_attributes(
                     from_attribute.attribute_definition(),
                     to_attribute.attribute_definition(),
-                );
-                conversion_fn.map(|conversion_fn| {
-                    RawAttributeConverter::new(
-                        conversion_fn,
-                        from_attribute.offset(),
-                        from_attribute.size(),
-                        to_attribute.offset(),
-                        to_attribute.size(),
-                    )
-                })
+                )
+                .unwrap_or(convert_unit);
+                RawAttributeConverter::new(
+                    conversion_fn,
+                    from_attribute.offset(),
+                    from_attribute.size(),
+                    to_attribute.offset(),
+                    to_attribute.size(),
+                )
             })
             .collect::<Vec<_>>();
 
-- 
2.43.0

