From b34e2d8148d544d2f0045d2671879214db31a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 01/14] fix: bounds-check mutable slices against the slice
 length

---
 pasture-core/src/containers/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..24683e0 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,12 +219,12 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
+        assert!(local_index < self.point_range.len());
         local_index + self.point_range.start
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
+        assert!(local_range.end <= self.point_range.len());
         if local_range.start >= local_range.end {
             // Doesn't matter what range we return, as long as it is empty
             self.point_range.end..self.point_range.end
-- 
2.43.0


From f447c4edf15c804b75fb86e8d9b5688dabe42e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 02/14] fix: allow nested slices that span the whole slice

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 24683e0..b664823 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -424,8 +424,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -444,8 +444,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From 727e84120ef48bacf4514e7cb858cb50003aed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 03/14] fix: nth() of point and attribute iterators must not
 step past the end

---
 pasture-core/src/containers/attribute_iterators.rs | 9 ++++++---
 pasture-core/src/containers/point_iterators.rs     | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..468f75c 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -55,7 +55,8 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        // Never step past the end, otherwise the next call would go out of bounds
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -97,7 +98,8 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        // Never step past the end, otherwise the next call would go out of bounds
+        self.current_index = self.current_index.saturating_add(n).min(self.attribute_data.len());
         self.next()
     }
 }
@@ -141,7 +143,8 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        // Never step past the end, otherwise the next call would go out of bounds
+        self.current_index = self.current_index.saturating_add(n).min(self.attribute_data.len());
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..f9c3431 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -42,7 +42,8 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        // Never step past the end, otherwise the next call would go out of bounds
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -80,7 +81,8 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        // Never step past the end, otherwise the next call would go out of bounds
+        self.current_index = self.current_index.saturating_add(n).min(self.point_data.len());
         self.next()
     }
 }
@@ -123,7 +125,8 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        // Never step past the end, otherwise the next call would go out of bounds
+        self.current_index = self.current_index.saturating_add(n).min(self.point_data.len());
         self.next()
     }
 }
-- 
2.43.0


From 586aaeb0440f074df8f59fb358cfb50cb6fa7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 04/14] fix: VectorBuffer::from_iter must not take an inexact
 upper bound as length

---
 pasture-core/src/containers/point_buffer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..328e5de 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -851,8 +851,9 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
+        // The length is only known if lower and upper bound are equal (e.g. not for a filtered iterator)
+        let (min_length, max_length) = iter.size_hint();
+        if let Some(known_length) = max_length.filter(|max_length| *max_length == min_length) {
             let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
             let storage = vec![0; num_bytes];
             let mut buffer = Self {
-- 
2.43.0


From f9c514926dc2f5e985fa66d50da6fbabe0f50192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 05/14] fix: HashMapBufferAttributePusher::done must check
 exact attribute sizes

---
 pasture-core/src/containers/point_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 328e5de..d4485b5 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -952,12 +952,12 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             return;
         }
 
-        // Check that all attributes are complete! We don't have to check the exact size of the vectors,
-        // as this is checked in `push_attribute_range`, it is sufficient to verify that no vector is empty
+        // Check that all attributes are complete! The exact size has to match, since the same attribute could have
+        // been pushed multiple times
         assert!(self
             .attributes_storage
-            .values()
-            .all(|vector| !vector.is_empty()));
+            .iter()
+            .all(|(attribute, vector)| vector.len() == num_new_points * attribute.size() as usize));
 
         for (attribute, mut data) in self.attributes_storage {
             // Can safely unwrap, because self.attributes_storage was initialized from the `PointLayout` of the buffer!
-- 
2.43.0


From d9e8bcaade7d7129b1589de79d1631433e3b7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 06/14] fix: HashMapBuffer::push_points must not divide by zero
 for empty layouts

---
 pasture-core/src/containers/point_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index d4485b5..6d6dd72 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1279,6 +1279,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(0, point_bytes.len());
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
-- 
2.43.0


From fb355cd9ba920c87a152c687017f9f506b469f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 07/14] fix: PointLayout::add_attribute must not overlap
 attributes that are not sorted by offset

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..69f5faf 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1008,14 +1008,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // If there are previous attributes, the offset to this attribute is equal to the largest end offset of
+        // all previous attributes (they are not necessarily sorted by their offset)
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 71b7b84f86060812ca1a81b27000b50a8977edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 08/14] fix: alignment of packed PointLayouts must follow
 repr(packed(N))

---
 pasture-core/src/layout/point_layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 69f5faf..f1660bb 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -826,8 +826,8 @@ impl PointLayout {
                 current_max_alignment,
                 point_attribute.datatype().min_alignment(),
             ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
+            FieldAlignment::Packed(_) => {
+                std::cmp::max(current_max_alignment, alignment_requirement_of_field)
             }
         };
 
-- 
2.43.0


From 94428424bd1e2951419c16d099e710170ddb529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 09/14] fix: RawPointConverter must also copy attributes with
 equal datatypes

---
 .../src/layout/conversion/attribute_conversion.rs    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..651c253 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -74,10 +74,14 @@ impl RawPointConverter {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
-                let conversion_fn = get_converter_for_attributes(
-                    from_attribute.attribute_definition(),
-                    to_attribute.attribute_definition(),
-                );
+                let conversion_fn = if from_attribute.datatype() == to_attribute.datatype() {
+                    Some(convert_unit as AttributeConversionFn)
+                } else {
+                    get_converter_for_attributes(
+                        from_attribute.attribute_definition(),
+                        to_attribute.attribute_definition(),
+                    )
+                };
                 conversion_fn.map(|conversion_fn| {
                     RawAttributeConverter::new(
                         conversion_fn,
-- 
2.43.0


From b246cd161b1afee3c351b394581506b72372fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 10/14] fix: Projection::new must return an error for invalid
 coordinate systems

---
 pasture-algorithms/src/reprojection.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 8496ed4..d6917d0 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -1,6 +1,6 @@
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::math::AABB;
 use pasture_core::nalgebra::{Point3, Vector3};
@@ -26,6 +26,12 @@ impl Projection {
                 target_cstr.as_ptr(),
                 std::ptr::null_mut(),
             );
+            if projection.is_null() {
+                proj_sys::proj_context_destroy(proj_context);
+                return Err(anyhow!(
+                    "Could not create projection from {source_crs} to {target_crs}"
+                ));
+            }
 
             Ok(Self {
                 proj_context,
-- 
2.43.0


From b552918c0e1b718127253c601c0aac3a25a84414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 11/14] fix: derive(PointType) uses the real field offsets and
 alignment of the struct

The macro recomputed the layout from the field types and one #[repr] argument. That is wrong for
structs with several #[repr] attributes, with align(N), and for #[repr(packed(N))] structs without
repr(C), whose fields the compiler may reorder: size, alignment and offsets of the PointLayout then
differ from the memory of the struct.
---
 pasture-derive/src/layout.rs |   6 +-
 pasture-derive/src/lib.rs    | 114 +++++++++--------------------------
 2 files changed, 31 insertions(+), 89 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index d33a1f1..1d02bf7 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -4,7 +4,7 @@ use syn::{NestedMeta, Result};
 #[derive(Debug)]
 pub(crate) enum StructMemberLayout {
     C,
-    Packed(u64),
+    Packed,
 }
 
 /// Is the given Attribute a #[repr(...)] attribute?
@@ -121,8 +121,8 @@ pub(crate) fn get_struct_member_layout(
 
             let maybe_packed = list.nested.iter().find(|arg| arg_is_packed(arg));
             if let Some(packed_arg) = maybe_packed {
-                let packing = get_packing_from_arg(packed_arg)?;
-                return Ok(StructMemberLayout::Packed(packing));
+                get_packing_from_arg(packed_arg)?;
+                return Ok(StructMemberLayout::Packed);
             }
 
             let maybe_repr_c = list.nested.iter().find(|arg| arg_is_c(arg));
diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 701e9fe..3fc68e1 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -2,12 +2,12 @@ extern crate proc_macro;
 use std::collections::HashSet;
 
 //use anyhow::{anyhow, bail, Result};
-use layout::{get_struct_member_layout, StructMemberLayout};
+use layout::get_struct_member_layout;
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::DeriveInput;
 use syn::{
-    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit,
+    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit, Member,
     NestedMeta, PathArguments, Result, Type, TypePath,
 };
 
@@ -33,48 +33,6 @@ enum PasturePrimitiveType {
 }
 
 impl PasturePrimitiveType {
-    fn min_alignment(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 1,
-            PasturePrimitiveType::Vec3u16 => 2,
-            PasturePrimitiveType::Vec3f32 => 4,
-            PasturePrimitiveType::Vec3f64 => 8,
-            PasturePrimitiveType::Vec3i32 => 4,
-            &PasturePrimitiveType::Vec4u8 => 1,
-        }
-    }
-
-    fn size(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 3,
-            PasturePrimitiveType::Vec3u16 => 6,
-            PasturePrimitiveType::Vec3f32 => 12,
-            PasturePrimitiveType::Vec3f64 => 24,
-            PasturePrimitiveType::Vec3i32 => 12,
-            &PasturePrimitiveType::Vec4u8 => 4,
-        }
-    }
-
     fn as_token_stream(&self) -> quote::__private::TokenStream {
         match self {
             PasturePrimitiveType::U8 => quote! {pasture_core::layout::PointAttributeDataType::U8},
@@ -304,6 +262,7 @@ fn get_attribute_name_from_field(field: &Field) -> Result<String> {
 /// Describes a single field within a `PointType` struct. Contains the name of the field, the point attribute
 /// that the field maps to, as well as the primitive type of the field
 struct FieldLayoutDescription {
+    pub member: Member,
     pub attribute_name: String,
     pub primitive_type: PasturePrimitiveType,
 }
@@ -311,12 +270,17 @@ struct FieldLayoutDescription {
 fn get_field_layout_descriptions(fields: &Fields) -> Result<Vec<FieldLayoutDescription>> {
     fields
         .iter()
-        .map(|field| match field.ty {
+        .enumerate()
+        .map(|(index, field)| match field.ty {
             Type::Path(ref type_path) => {
                 let primitive_type = type_path_to_primitive_type(type_path)?;
                 let attribute_name = get_attribute_name_from_field(field)?;
 
                 Ok(FieldLayoutDescription {
+                    member: match &field.ident {
+                        Some(ident) => Member::Named(ident.clone()),
+                        None => Member::Unnamed(index.into()),
+                    },
                     attribute_name,
                     primitive_type,
                 })
@@ -343,41 +307,19 @@ fn field_parameters(data: &Data, ident: &Ident) -> Result<Vec<FieldLayoutDescrip
     }
 }
 
-fn calculate_offsets_and_alignment(
-    fields: &[FieldLayoutDescription],
+/// Checks that the memory layout of the struct is well-defined, i.e. that it is `#[repr(C)]` or `#[repr(packed)]`
+fn check_struct_member_layout(
     data: &Data,
     ident: &Ident,
     type_attributes: &[Attribute],
-) -> Result<(Vec<u64>, u64)> {
-    let struct_data = match data {
-        Data::Struct(struct_data) => struct_data,
-        _ => {
-            return Err(Error::new_spanned(
-                ident,
-                "#[derive(PointType)] is only valid for structs",
-            ))
-        }
-    };
-    let struct_layout = get_struct_member_layout(type_attributes, struct_data)?;
-
-    let mut current_offset = 0;
-    let mut max_alignment = 1;
-    let mut offsets = vec![];
-    for field in fields {
-        let min_alignment = match struct_layout {
-            StructMemberLayout::C => field.primitive_type.min_alignment(),
-            StructMemberLayout::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, field.primitive_type.min_alignment())
-            }
-        };
-        max_alignment = std::cmp::max(min_alignment, max_alignment);
-
-        let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
-        offsets.push(aligned_offset);
-        current_offset = aligned_offset + field.primitive_type.size();
+) -> Result<()> {
+    match data {
+        Data::Struct(struct_data) => get_struct_member_layout(type_attributes, struct_data).map(|_| ()),
+        _ => Err(Error::new_spanned(
+            ident,
+            "#[derive(PointType)] is only valid for structs",
+        )),
     }
-
-    Ok((offsets, max_alignment))
 }
 
 /// Custom `derive` macro that implements the [`PointType`](pasture_core::layout::PointType) trait for the type that it is applied to.
@@ -445,19 +387,19 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             return why.to_compile_error().into();
         }
     };
-    let (offsets, type_alignment) =
-        match calculate_offsets_and_alignment(&fields, &input.data, name, input.attrs.as_slice()) {
-            Ok(inner) => inner,
-            Err(why) => {
-                return why.to_compile_error().into();
-            }
-        };
+    if let Err(why) = check_struct_member_layout(&input.data, name, input.attrs.as_slice()) {
+        return why.to_compile_error().into();
+    }
 
-    let attribute_descriptions = fields.iter().zip(offsets.iter()).map(|(field, offset)| {
+    // The offsets and the alignment are the ones that the compiler determined. They can't be calculated from the
+    // fields alone, because they depend on all `#[repr(...)]` arguments of the type (e.g. on `align(N)`, or on the
+    // order that the compiler chooses for the fields of a `#[repr(packed(N))]` struct)
+    let attribute_descriptions = fields.iter().map(|field| {
         let attribute_name = &field.attribute_name;
         let primitive_type = &field.primitive_type.as_token_stream();
+        let member = &field.member;
         quote! {
-            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(#offset)
+            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(std::mem::offset_of!(#name, #member) as u64)
         }
     });
 
@@ -466,7 +408,7 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             fn layout() -> pasture_core::layout::PointLayout {
                 pasture_core::layout::PointLayout::from_members_and_alignment(&[
                     #(#attribute_descriptions ,)*
-                ], #type_alignment)
+                ], std::mem::align_of::<#name>() as u64)
             }
         }
     };
-- 
2.43.0


From 1546e8d032e2755734bdf605a2e52b6d9580675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 12/14] fix: align_to must not overflow when the aligned value
 is representable

align_to computed 'self + alignment - 1' first, which overflows (and panics with overflow checks) for
values close to the maximum even if they are aligned already, e.g. u8::MAX.align_to(1).
---
 pasture-core/src/math/arithmetic.rs | 36 ++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/math/arithmetic.rs b/pasture-core/src/math/arithmetic.rs
index 1017a43..bbf3fb1 100644
--- a/pasture-core/src/math/arithmetic.rs
+++ b/pasture-core/src/math/arithmetic.rs
@@ -15,7 +15,11 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            // No `self + alignment - 1` here, it can overflow even if the result does not
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -25,7 +29,11 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            // No `self + alignment - 1` here, it can overflow even if the result does not
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -35,7 +43,11 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            // No `self + alignment - 1` here, it can overflow even if the result does not
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -45,7 +57,11 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            // No `self + alignment - 1` here, it can overflow even if the result does not
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -55,7 +71,11 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            // No `self + alignment - 1` here, it can overflow even if the result does not
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -65,7 +85,11 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            // No `self + alignment - 1` here, it can overflow even if the result does not
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 1bbc33590b61555311c51018e5692dc8032e69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 13/14] fix: the voxel grid's maximum of negative attribute
 values must not be 0

centroid_max_pool started its maximum at 0.0, so a voxel whose GPS times are all negative got the GPS
time 0 that none of its points has.
---
 pasture-algorithms/src/voxel_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..dd6a6af 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -169,7 +169,7 @@ fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
     attribute_definition: &PointAttributeDefinition,
     point_type: PointAttributeDataType,
 ) -> f64 {
-    let mut curr_max = 0.0;
+    let mut curr_max = f64::NEG_INFINITY;
     let mut value;
     for p in &v.points {
         match point_type {
-- 
2.43.0


From 70492e0ad3169c7164ff8a80fda79ac43cfae5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 14/14] fix: use the eigenvalues of the scaled covariance
 matrix and really shift its diagonal by the smallest one

---
 pasture-algorithms/src/normal_estimation.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3bf9f89..32b9ae9 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -425,7 +425,11 @@ fn get_largest_eigen_vector(scaled_matrix: &DMatrix<f64>) -> Vector3<f64> {
 
 /// for a given 3x3 matrix the functions calculates the eigen vector of the smallest eigen value that can be found
 fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
-    let scale = covariance_matrix.abs().max();
+    let scale = match covariance_matrix.abs().max() {
+        // all points are identical, there is nothing to scale
+        max if max == 0.0 => 1.0,
+        max => max,
+    };
     let mut covariance_matrix_scaled = DMatrix::<f64>::zeros(3, 3);
     for i in 0..covariance_matrix.len() {
         covariance_matrix_scaled[i] = covariance_matrix[i] / scale;
@@ -436,15 +440,14 @@ fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
         covariance_matrix_scaled[index] = value / scale;
     }
 
-    let eigen_values = solve_polynomial(covariance_matrix);
+    let eigen_values = solve_polynomial(&covariance_matrix_scaled);
     // undo scale for smallest eigen vector
     let eigen_value = eigen_values[0] * scale;
 
     // subtract the smallest eigen value from the diagonal of the matrix
-    covariance_matrix_scaled
-        .diagonal()
-        .iter_mut()
-        .for_each(|x| *x -= eigen_values[0]);
+    for i in 0..covariance_matrix_scaled.nrows() {
+        covariance_matrix_scaled[(i, i)] -= eigen_values[0];
+    }
 
     let eigen_vector = get_largest_eigen_vector(&covariance_matrix_scaled);
     (eigen_value, eigen_vector)
-- 
2.43.0

