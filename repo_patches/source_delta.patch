From 918d0867f559d118a298b3ab87589e05952b372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 01/24] fix: resolve object references of nested property sets
 at their own offset

---
 src/one/property_set/note_tag_container.rs | 48 +++++++++++--------
 src/one/property_set/text_run_data.rs      | 55 +++++++++++++---------
 src/onestore/mapping_table.rs              | 31 ++++++++++++
 3 files changed, 92 insertions(+), 42 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..79a752d 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -37,10 +37,19 @@ impl Data {
             None => return Ok(None),
         };
 
+        // The references of all property sets are stored one after another
+        let mut object_offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?;
+        let mut object_space_offset =
+            ObjectSpaceReference::get_offset(PropertyType::NoteTags, object)?;
+
         let data = prop_sets
             .iter()
             .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
+                let object =
+                    Self::parse_object(object, prop_id, props, object_offset, object_space_offset);
+                object_offset += object.props.object_ids.len();
+                object_space_offset += object.props.object_space_ids.len();
+
                 let data = Self::parse_data(object)?;
 
                 Ok(data)
@@ -75,43 +84,44 @@ impl Data {
         object: &'a Object,
         id: PropertyId,
         props: &PropertySet,
-    ) -> Result<Object<'a>> {
-        Ok(Object {
+        object_offset: usize,
+        object_space_offset: usize,
+    ) -> Object<'a> {
+        Object {
             context_id: object.context_id,
             jc_id: JcId(id.value()),
             props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
+                object_ids: Self::get_object_ids(props, object, object_offset),
+                object_space_ids: Self::get_object_space_ids(props, object, object_space_offset),
                 context_ids: vec![],
                 properties: props.clone(),
             },
             file_data: None,
-            mapping: object.mapping.clone(),
-        })
+            mapping: object
+                .mapping
+                .with_offset(object_offset, object_space_offset),
+        }
     }
 
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
             .object_ids
             .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
+            .skip(offset)
             .take(ObjectReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_space_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
-            .object_ids
+            .object_space_ids
             .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
+            .skip(offset)
             .take(ObjectSpaceReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..4ded3a0 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -19,10 +19,21 @@ pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
         None => return Ok(None),
     };
 
+    // The references of all property sets are stored one after another
+    let mut object_offset = ObjectReference::get_offset(PropertyType::TextRunData, object)?;
+    let mut object_space_offset =
+        ObjectSpaceReference::get_offset(PropertyType::TextRunData, object)?;
+
     let data = prop_sets
         .iter()
-        .map(|props| parse_object(object, prop_id, props))
-        .collect::<Result<Vec<_>>>()?;
+        .map(|props| {
+            let data = parse_object(object, prop_id, props, object_offset, object_space_offset);
+            object_offset += data.props.object_ids.len();
+            object_space_offset += data.props.object_space_ids.len();
+
+            data
+        })
+        .collect();
 
     Ok(Some(data))
 }
@@ -31,45 +42,43 @@ fn parse_object<'a>(
     object: &'a Object,
     prop_id: PropertyId,
     props: &PropertySet,
-) -> Result<Object<'a>> {
-    Ok(Object {
+    object_offset: usize,
+    object_space_offset: usize,
+) -> Object<'a> {
+    Object {
         context_id: object.context_id,
         jc_id: JcId(prop_id.value()),
         props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
+            object_ids: get_object_ids(props, object, object_offset),
+            object_space_ids: get_object_space_ids(props, object, object_space_offset),
             context_ids: vec![],
             properties: props.clone(),
         },
         file_data: None,
-        mapping: object.mapping.clone(),
-    })
+        mapping: object
+            .mapping
+            .with_offset(object_offset, object_space_offset),
+    }
 }
 
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
+fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+    object
         .props
         .object_ids
         .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
 
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
+fn get_object_space_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+    object
         .props
-        .object_ids
+        .object_space_ids
         .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectSpaceReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..bd21a46 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -52,6 +52,37 @@ impl MappingTable {
         self.get(index, cid, &self.object_spaces)
     }
 
+    /// Re-base the table so that index 0 refers to the reference at the given offsets.
+    ///
+    /// This is used for nested property sets which only see a part of the object's references.
+    pub(crate) fn with_offset(
+        &self,
+        object_offset: usize,
+        object_space_offset: usize,
+    ) -> MappingTable {
+        fn shift<T: Copy>(
+            table: &HashMap<CompactId, Vec<(usize, T)>>,
+            offset: usize,
+        ) -> HashMap<CompactId, Vec<(usize, T)>> {
+            table
+                .iter()
+                .map(|(cid, entries)| {
+                    let entries = entries
+                        .iter()
+                        .map(|(i, id)| (i.wrapping_sub(offset), *id))
+                        .collect();
+
+                    (*cid, entries)
+                })
+                .collect()
+        }
+
+        MappingTable {
+            objects: shift(&self.objects, object_offset),
+            object_spaces: shift(&self.object_spaces, object_space_offset),
+        }
+    }
+
     fn get<T: Copy>(
         &self,
         index: usize,
-- 
2.43.0


From ee8615cef986e51144d677a1d174e5a0a7fa987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 02/24] fix: accept an empty number list format instead of
 panicking

---
 src/one/property_set/number_list_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..d533cfc 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -64,7 +64,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
 }
 
 fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+    decode_utf16(data.into_iter().skip(1))
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
         .collect()
 }
-- 
2.43.0


From 6b174a90d9ddcee3f728e531ed3a308002049c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 03/24] fix: read the vertical ink scaling factor from its own
 property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From ff80235a39318e86dfa2ace6561dbf2951a9746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 04/24] fix: do not swap the width and height of ink strokes

---
 src/one/property_set/stroke_properties_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/stroke_properties_node.rs b/src/one/property_set/stroke_properties_node.rs
index 3dc46e1..6715e64 100644
--- a/src/one/property_set/stroke_properties_node.rs
+++ b/src/one/property_set/stroke_properties_node.rs
@@ -29,10 +29,10 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let pen_tip = simple::parse_u8(PropertyType::InkPenTip, object)?;
     let raster_operation = simple::parse_u8(PropertyType::InkRasterOperation, object)?;
     let transparency = simple::parse_u8(PropertyType::InkTransparency, object)?;
-    let ink_width = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
+    let ink_height = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no height".into())
     })?;
-    let ink_height = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
+    let ink_width = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no width".into())
     })?;
     let color = simple::parse_u32(PropertyType::InkColor, object)?;
-- 
2.43.0


From 7d1b9b6d82e69883f08a2af32064b25ba78a3a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 05/24] fix: read the page size as the 32-bit value it is
 stored as

---
 src/one/property/page_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/page_size.rs b/src/one/property/page_size.rs
index 2caa930..ad4e0bd 100644
--- a/src/one/property/page_size.rs
+++ b/src/one/property/page_size.rs
@@ -31,8 +31,8 @@ pub(crate) enum PageSize {
 impl PageSize {
     pub(crate) fn parse(prop_type: PropertyType, object: &Object) -> Result<Option<PageSize>> {
         let value = match object.props().get(prop_type) {
-            Some(value) => value.to_u8().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData("page size is not a u8".into())
+            Some(value) => value.to_u32().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("page size is not a u32".into())
             })?,
             None => return Ok(None),
         };
-- 
2.43.0


From 01e70235db920fc4f777b020cd16cac239e30ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 06/24] fix: resolve object space references at the index of
 the property

---
 src/one/property/object_space_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..755c2bb 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,7 +39,7 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
+            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
 
         Ok(Some(object_space_ids))
-- 
2.43.0


From 03830808d11ee301862ac47bec72b862a0956723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 07/24] fix: count references held by single nested property
 sets

---
 src/one/property/object_reference.rs       | 1 +
 src/one/property/object_space_reference.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..3acf2f7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -80,6 +80,7 @@ impl ObjectReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 755c2bb..25b4e4d 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -61,6 +61,7 @@ impl ObjectSpaceReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
-- 
2.43.0


From 296720eef2a5e3b38b5a0377ea6c96070491eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 08/24] fix: reject embedded ink runs without ink data instead
 of panicking

---
 src/onenote/rich_text.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..64b8747 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,16 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let embedded_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteData("embedded ink data is missing".into())
+                        })?;
+
+                    return parse_embedded_ink_data(embedded_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From 7436c2b2da92a742078379ca925f4f3ec20fa171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 09/24] fix: reject truncated or oversized multi-byte integers

---
 src/shared/multi_byte.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/shared/multi_byte.rs b/src/shared/multi_byte.rs
index ce18f21..d1416fe 100644
--- a/src/shared/multi_byte.rs
+++ b/src/shared/multi_byte.rs
@@ -58,6 +58,7 @@ fn decode(input: &[u8]) -> Result<Vec<u64>> {
 fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
     let mut value: u64 = 0;
     let mut count = 0;
+    let mut terminated = false;
 
     for byte in data {
         if count == 10 {
@@ -75,11 +76,21 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
         }
 
         let flag = byte & 0x80 == 0x80;
-        value |= (*byte as u64 & 0x7F) << shift;
+        let bits = *byte as u64 & 0x7F;
+
+        if bits << shift >> shift != bits {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "multi-byte integer exceeds 64-bit width".into(),
+            )
+            .into());
+        }
+
+        value |= bits << shift;
 
         count += 1;
 
         if !flag {
+            terminated = true;
             break;
         }
     }
@@ -90,6 +101,12 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
         );
     }
 
+    if !terminated {
+        return Err(
+            ErrorKind::MalformedOneNoteFileData("multi-byte integer is truncated".into()).into(),
+        );
+    }
+
     Ok((value, count))
 }
 
-- 
2.43.0


From f536f187c81f09c3bab561a1063cf372a24a3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 10/24] fix: keep the roots of the newest revision

---
 src/onestore/revision.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..437ba50 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -52,19 +52,26 @@ impl<'a, 'b> Revision<'a> {
             .transpose()?;
 
         if let Some(rev) = revision_cache.get(&CellId(context_id, revision_manifest.rev_id)) {
-            roots.extend(rev.roots.iter());
-            objects.extend(rev.objects.clone());
+            for (role, root) in rev.roots.iter() {
+                roots.entry(*role).or_insert(*root);
+            }
+            for (id, object) in rev.objects.iter() {
+                objects.entry(*id).or_insert_with(|| object.clone());
+            }
 
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        // Roots of this revision must not replace the roots declared by a newer revision
+        let declared_roots = revision_manifest
+            .root_declare
+            .iter()
+            .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
+            .collect::<Result<HashMap<_, _>>>()?;
+
+        for (role, root) in declared_roots {
+            roots.entry(role).or_insert(root);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 2f6c08b65cce31a9cb52b8f1540e4d39da7a962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 11/24] fix: reject base revision cycles instead of looping
 forever

---
 src/onestore/object_space.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..38e5417 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -81,8 +81,16 @@ impl<'a, 'b> ObjectSpace<'a> {
         let mut roots = HashMap::new();
 
         let mut rev_id = Some(revision_manifest_id);
+        let mut visited = HashSet::new();
 
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(ErrorKind::MalformedOneStoreData(
+                    "revision manifest is its own base revision".into(),
+                )
+                .into());
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From 6e0c6318d0ca636f7d456ea26dd095f9770fb9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 12/24] fix: bound the nesting of property sets

---
 src/onestore/types/prop_set.rs | 24 ++++++++++++++++++++++--
 src/onestore/types/property.rs | 18 ++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..bf0ea28 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// How deep property sets may be nested.
+const MAX_DEPTH: usize = 32;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,18 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        Self::parse_nested(reader, 0)
+    }
+
+    /// Parse a property set that is contained in `depth` other property sets.
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +39,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..b0352cd 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,17 @@ impl PropertyValue {
     //     }
     // }
 
+    #[cfg(test)]
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        Self::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse a property value of a property set that is contained in `depth` other property sets.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +144,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth + 1))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From 5524d59b0eed7378a568cd78f59881651dfd921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 13/24] fix: reject objects that contain themselves and bound
 their nesting

---
 src/onenote/notebook.rs      |  1 +
 src/onenote/outline.rs       |  2 ++
 src/onenote/table.rs         |  1 +
 src/onestore/object_space.rs | 37 ++++++++++++++++++++++++++++++++++++
 4 files changed, 41 insertions(+)

diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..d4a7e00 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -48,6 +48,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
 }
 
 fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+    let _nested = space.enter(content_id)?;
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..170f379 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -315,6 +315,7 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
 }
 
 fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineGroup> {
+    let _nested = space.enter(group_id)?;
     let group_object = space
         .get_object(group_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline group is missing".into()))?;
@@ -338,6 +339,7 @@ pub(crate) fn parse_outline_element(
     element_id: ExGuid,
     space: &ObjectSpace,
 ) -> Result<OutlineElement> {
+    let _nested = space.enter(element_id)?;
     let element_object = space
         .get_object(element_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline element is missing".into()))?;
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..84c86ac 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -165,6 +165,7 @@ impl TableCell {
 }
 
 pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table> {
+    let _nested = space.enter(table_id)?;
     let table_object = space
         .get_object(table_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("table object is missing".into()))?;
diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 38e5417..24facb8 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,6 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
@@ -25,6 +26,20 @@ pub(crate) struct ObjectSpace<'a> {
     context: ExGuid,
     roots: HashMap<RevisionRole, ExGuid>,
     objects: HashMap<ExGuid, Object<'a>>,
+    /// The objects that are being parsed, from the outermost to the innermost
+    nesting: RefCell<Vec<ExGuid>>,
+}
+
+/// How deep objects may be nested.
+const MAX_NESTING: usize = 128;
+
+/// Marks an object as being parsed until it's dropped.
+pub(crate) struct Nested<'s>(&'s RefCell<Vec<ExGuid>>);
+
+impl Drop for Nested<'_> {
+    fn drop(&mut self) {
+        self.0.borrow_mut().pop();
+    }
 }
 
 impl<'a, 'b> ObjectSpace<'a> {
@@ -32,6 +47,26 @@ impl<'a, 'b> ObjectSpace<'a> {
         self.objects.get(&id)
     }
 
+    /// Start parsing an object that contains other objects.
+    ///
+    /// This fails if the object is contained in itself or if it is nested too deeply.
+    pub(crate) fn enter(&self, id: ExGuid) -> Result<Nested<'_>> {
+        let mut nesting = self.nesting.borrow_mut();
+
+        if nesting.contains(&id) {
+            return Err(ErrorKind::MalformedOneNoteData("object contains itself".into()).into());
+        }
+        if nesting.len() >= MAX_NESTING {
+            return Err(
+                ErrorKind::MalformedOneNoteData("objects are nested too deeply".into()).into(),
+            );
+        }
+
+        nesting.push(id);
+
+        Ok(Nested(&self.nesting))
+    }
+
     pub(crate) fn content_root(&self) -> Option<ExGuid> {
         self.roots.get(&RevisionRole::DefaultContent).copied()
     }
@@ -69,6 +104,7 @@ impl<'a, 'b> ObjectSpace<'a> {
                     context: context_id,
                     roots: HashMap::new(),
                     objects: HashMap::new(),
+                    nesting: RefCell::default(),
                 },
             ));
         }
@@ -110,6 +146,7 @@ impl<'a, 'b> ObjectSpace<'a> {
             context: context_id,
             roots,
             objects,
+            nesting: RefCell::default(),
         };
 
         Ok((cell_id, space))
-- 
2.43.0


From 1928f07198f24fcf2c793bbf02c45b069cec343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 14/24] fix: read data element fragments to their end

---
 src/fsshttpb/data_element/data_element_fragment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..eb350f6 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -41,7 +41,9 @@ impl DataElement {
         let offset = CompactU64::parse(reader)?.value();
         let length = CompactU64::parse(reader)?.value();
 
-        let data = reader.read(size as usize)?.to_vec();
+        let data = reader.read(length as usize)?.to_vec();
+
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
 
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
-- 
2.43.0


From d60244611e2e3416742115422e3987af5777f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 15/24] fix: resolve storage manifests and serial numbers in
 file order

---
 src/fsshttpb/data_element/mod.rs           | 18 +++++++++++-------
 src/fsshttpb/data_element/storage_index.rs | 17 +++++++++++------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..e369587 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -29,8 +29,8 @@ pub(crate) mod storage_manifest;
 /// [\[MS-FSSHTTPB\] 2.2.1.12]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/99a25464-99b5-4262-a964-baabed2170eb
 #[derive(Debug)]
 pub(crate) struct DataElementPackage {
-    pub(crate) storage_indexes: HashMap<ExGuid, StorageIndex>,
-    pub(crate) storage_manifests: HashMap<ExGuid, StorageManifest>,
+    pub(crate) storage_indexes: Vec<(ExGuid, StorageIndex)>,
+    pub(crate) storage_manifests: Vec<(ExGuid, StorageManifest)>,
     pub(crate) cell_manifests: HashMap<ExGuid, ExGuid>,
     pub(crate) revision_manifests: HashMap<ExGuid, RevisionManifest>,
     pub(crate) object_groups: HashMap<ExGuid, ObjectGroup>,
@@ -113,17 +113,21 @@ impl DataElementPackage {
 
     /// Find the first storage index.
     pub(crate) fn find_storage_index(&self) -> Option<&StorageIndex> {
-        self.storage_indexes.values().next()
+        self.storage_indexes.first().map(|(_, index)| index)
     }
 
     /// Look up a storage index by its ID.
     pub(crate) fn find_storage_index_by_id(&self, id: ExGuid) -> Option<&StorageIndex> {
-        self.storage_indexes.get(&id)
+        self.storage_indexes
+            .iter()
+            .rev()
+            .find(|(index_id, _)| *index_id == id)
+            .map(|(_, index)| index)
     }
 
     /// Find the first storage manifest.
     pub(crate) fn find_storage_manifest(&self) -> Option<&StorageManifest> {
-        self.storage_manifests.values().next()
+        self.storage_manifests.first().map(|(_, manifest)| manifest)
     }
 
     /// Resolve a revision manifest ID, falling back when revision mappings are missing.
@@ -184,12 +188,12 @@ impl DataElement {
             0x01 => {
                 package
                     .storage_indexes
-                    .insert(id, Self::parse_storage_index(reader)?);
+                    .push((id, Self::parse_storage_index(reader)?));
             }
             0x02 => {
                 package
                     .storage_manifests
-                    .insert(id, Self::parse_storage_manifest(reader)?);
+                    .push((id, Self::parse_storage_manifest(reader)?));
             }
             0x03 => {
                 package
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..86b43b3 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -6,6 +6,7 @@ use crate::fsshttpb::data::object_types::ObjectType;
 use crate::fsshttpb::data::serial_number::SerialNumber;
 use crate::fsshttpb::data::stream_object::ObjectHeader;
 use crate::fsshttpb::data_element::DataElement;
+use crate::shared::guid::Guid;
 use std::collections::HashMap;
 
 /// A storage index.
@@ -19,6 +20,8 @@ pub(crate) struct StorageIndex {
     pub(crate) manifest_mappings: Vec<StorageIndexManifestMapping>,
     pub(crate) cell_mappings: HashMap<CellId, StorageIndexCellMapping>,
     pub(crate) revision_mappings: HashMap<ExGuid, StorageIndexRevisionMapping>,
+    /// The first revision mapping for each serial number
+    pub(crate) serial_mappings: HashMap<(Guid, u64), ExGuid>,
 }
 
 impl StorageIndex {
@@ -33,12 +36,9 @@ impl StorageIndex {
     }
 
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
-        self.revision_mappings
-            .values()
-            .find(|mapping| {
-                mapping.serial.guid == serial.guid && mapping.serial.serial == serial.serial
-            })
-            .map(|mapping| mapping.revision_mapping)
+        self.serial_mappings
+            .get(&(serial.guid, serial.serial))
+            .copied()
     }
 }
 
@@ -72,6 +72,7 @@ impl DataElement {
         let mut manifest_mappings = vec![];
         let mut cell_mappings = HashMap::new();
         let mut revision_mappings = HashMap::new();
+        let mut serial_mappings = HashMap::new();
 
         loop {
             if ObjectHeader::has_end_8(reader, ObjectType::DataElement)? {
@@ -91,6 +92,9 @@ impl DataElement {
                 ObjectType::StorageIndexRevisionMapping => {
                     let (id, mapping) = Self::parse_storage_index_revision_mapping(reader)?;
 
+                    serial_mappings
+                        .entry((mapping.serial.guid, mapping.serial.serial))
+                        .or_insert(mapping.revision_mapping);
                     revision_mappings.insert(id, mapping);
                 }
                 _ => {
@@ -108,6 +112,7 @@ impl DataElement {
             manifest_mappings,
             cell_mappings,
             revision_mappings,
+            serial_mappings,
         })
     }
 
-- 
2.43.0


From 301fa578ba79e09ddca30b415e33fdf15caff7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 16/24] fix: resolve the header cell through its own mapping

---
 src/fsshttpb/data_element/mod.rs           | 16 ++++------------
 src/fsshttpb/data_element/storage_index.rs |  4 ++--
 src/onestore/mod.rs                        |  6 +++---
 3 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index e369587..e77eecb 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data_element::data_element_fragment::DataElementFragment;
 use crate::fsshttpb::data_element::object_data_blob::ObjectDataBlob;
 use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
-use crate::fsshttpb::data_element::storage_index::StorageIndex;
+use crate::fsshttpb::data_element::storage_index::{StorageIndex, StorageIndexCellMapping};
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -72,20 +72,12 @@ impl DataElementPackage {
     /// Look up the object groups referenced by a cell.
     pub(crate) fn find_objects(
         &self,
-        cell: ExGuid,
+        mapping: &StorageIndexCellMapping,
         storage_index: &StorageIndex,
     ) -> Result<Vec<&ObjectGroup>> {
         let revision_mapping_id = self
-            .resolve_cell_revision_manifest_id(storage_index, cell)
-            .or_else(|| {
-                storage_index
-                    .cell_mappings
-                    .values()
-                    .find(|mapping| mapping.id == cell)
-                    .and_then(|mapping| {
-                        storage_index.find_revision_mapping_by_serial(&mapping.serial)
-                    })
-            })
+            .resolve_cell_revision_manifest_id(storage_index, mapping.id)
+            .or_else(|| storage_index.find_revision_mapping_by_serial(&mapping.serial))
             .ok_or_else(|| {
                 ErrorKind::MalformedFssHttpBData("revision manifest id not found".into())
             })?;
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index 86b43b3..cf9c20d 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -25,8 +25,8 @@ pub(crate) struct StorageIndex {
 }
 
 impl StorageIndex {
-    pub(crate) fn find_cell_mapping_id(&self, cell_id: CellId) -> Option<ExGuid> {
-        self.cell_mappings.get(&cell_id).map(|mapping| mapping.id)
+    pub(crate) fn find_cell_mapping(&self, cell_id: CellId) -> Option<&StorageIndexCellMapping> {
+        self.cell_mappings.get(&cell_id)
     }
 
     pub(crate) fn find_revision_mapping_id(&self, id: ExGuid) -> Option<ExGuid> {
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index a273412..c824d9f 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -56,8 +56,8 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
 
-    let header_cell_mapping_id = storage_index
-        .find_cell_mapping_id(header_cell_id)
+    let header_cell_mapping = storage_index
+        .find_cell_mapping(header_cell_id)
         .ok_or_else(|| {
             ErrorKind::MalformedOneStoreData("header cell mapping id not found".into())
         })?;
@@ -65,7 +65,7 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
     // [ONESTORE] 2.7.2: Parse header cell
     let header_cell = package
         .data_element_package
-        .find_objects(header_cell_mapping_id, storage_index)?
+        .find_objects(header_cell_mapping, storage_index)?
         .into_iter()
         .next()
         .ok_or_else(|| {
-- 
2.43.0


From f98e2f922590d5fb2f1cc5dcb08fc49b0207ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 17/24] fix: find the entries of a notebook given by its bare
 file name

---
 src/onenote/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..98d340f 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -72,6 +72,12 @@ impl Parser {
         let base_dir = path.parent().ok_or_else(|| ErrorKind::InvalidPath {
             message: "path has no parent directory".into(),
         })?;
+        // The parent of a bare file name is empty which is not a path that can be resolved
+        let base_dir = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
         let (entries, color) = notebook::parse_toc(store.data_root())?;
         let entries = entries
             .iter()
-- 
2.43.0


From 9143f75ebb16b393180865142d4430d151dd36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 18/24] fix: do not follow links to tables of contents outside
 of a section group

---
 src/onenote/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 98d340f..b325235 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -173,6 +173,17 @@ impl Parser {
                 .unwrap_or_default();
 
             if is_toc {
+                if !entry
+                    .path()
+                    .canonicalize()?
+                    .starts_with(path.canonicalize()?)
+                {
+                    return Err(ErrorKind::InvalidPath {
+                        message: "table of contents escapes its section group".into(),
+                    }
+                    .into());
+                }
+
                 return self
                     .parse_notebook(&entry.path())
                     .map(|group| SectionGroup {
-- 
2.43.0


From 596fcf666b06765680822ae05cedd73cea10135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 19/24] fix: reject notebook entries that lead back to the
 notebook's directory

---
 src/onenote/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index b325235..2f7181b 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -265,7 +265,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
             .map_err(|err| ErrorKind::InvalidPath {
                 message: format!("failed to resolve entry path: {err}").into(),
             })?;
-        if !candidate_canon.starts_with(&base_canon) {
+        if candidate_canon == base_canon || !candidate_canon.starts_with(&base_canon) {
             return Err(ErrorKind::InvalidPath {
                 message: "section entry escapes base directory".into(),
             }
-- 
2.43.0


From 75ed79ed34107aaba2d7a22e7597fafd0a77ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:42 +0000
Subject: [PATCH 20/24] fix: do not select revisions by null serial numbers

---
 src/fsshttpb/data_element/storage_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index cf9c20d..28228cc 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -36,6 +36,11 @@ impl StorageIndex {
     }
 
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
+        // A null serial number doesn't identify a revision
+        if serial.guid.is_nil() && serial.serial == 0 {
+            return None;
+        }
+
         self.serial_mappings
             .get(&(serial.guid, serial.serial))
             .copied()
-- 
2.43.0


From 68518480a3f801fded7a50af34a9878ea146e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 21/24] fix: reject reference arrays that are longer than the
 stored references

---
 src/one/property/object_reference.rs       | 6 ++++++
 src/one/property/object_space_reference.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 3acf2f7..1c1665c 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -52,6 +52,12 @@ impl ObjectReference {
 
         let references = object.props().object_ids();
 
+        if references.len().saturating_sub(offset) < count as usize {
+            return Err(
+                ErrorKind::MalformedOneNoteFileData("object id index corrupt".into()).into(),
+            );
+        }
+
         // Look up the object references by offset/count and resolve them
         let object_ids = references
             .iter()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 25b4e4d..6dabea7 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -33,6 +33,13 @@ impl ObjectSpaceReference {
 
         let references = object.props().object_space_ids();
 
+        if references.len().saturating_sub(offset) < count as usize {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "object space id index corrupt".into(),
+            )
+            .into());
+        }
+
         // Look up the object space references by offset/count and resolve them
         let object_space_ids = references
             .iter()
-- 
2.43.0


From ab530660318d85f07f118227a607f1346cda2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:42 +0000
Subject: [PATCH 22/24] fix: reject object space references that do not resolve

The error for an unresolved reference was built but then dropped together with
the reference, so that a page vanished from its series without notice.
---
 src/one/property/object_space_reference.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 6dabea7..775639f 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -46,8 +46,8 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
-            .collect();
+            .map(|(index, id)| Self::resolve_id(index + offset, id, object))
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_space_ids))
     }
-- 
2.43.0


From 61658931937a166df10dff49bb1155014002a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 23/24] fix: read the end of object group metadata as a 16-bit
 header

---
 src/fsshttpb/data/stream_object.rs        | 10 ++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..1c48161 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -196,6 +196,16 @@ impl ObjectHeader {
         }
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = reader.bytes().get(..2).ok_or(ErrorKind::UnexpectedEof)?;
+        let data = u16::from_le_bytes([data[0], data[1]]);
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     pub(crate) fn has_end_8(reader: Reader, object_type: ObjectType) -> Result<bool> {
         let data = reader.bytes().first().ok_or(ErrorKind::UnexpectedEof)?;
         let expected = object_type.to_u8().ok_or_else(|| {
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From b4a216242bd00c9cde7084fbe27dd2c9068d50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:59 +0000
Subject: [PATCH 24/24] fix: bound how often shared objects are repeated

Objects that are shared by several parents at every level of nesting made the
parser build content of a size exponential in the size of the file.
---
 src/onestore/object_space.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 24facb8..6139ddb 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
@@ -28,11 +28,19 @@ pub(crate) struct ObjectSpace<'a> {
     objects: HashMap<ExGuid, Object<'a>>,
     /// The objects that are being parsed, from the outermost to the innermost
     nesting: RefCell<Vec<ExGuid>>,
+    /// How many objects have been parsed so far, counting repeated ones every time
+    entered: Cell<usize>,
 }
 
 /// How deep objects may be nested.
 const MAX_NESTING: usize = 128;
 
+/// How often an object may be contained in other objects on average.
+///
+/// Objects have one parent usually. When objects at every level are shared by several parents,
+/// the size of the content grows exponentially with the number of levels.
+const MAX_REPETITION: usize = 256;
+
 /// Marks an object as being parsed until it's dropped.
 pub(crate) struct Nested<'s>(&'s RefCell<Vec<ExGuid>>);
 
@@ -49,7 +57,8 @@ impl<'a, 'b> ObjectSpace<'a> {
 
     /// Start parsing an object that contains other objects.
     ///
-    /// This fails if the object is contained in itself or if it is nested too deeply.
+    /// This fails if the object is contained in itself, if it is nested too deeply or if the
+    /// objects are shared by too many others.
     pub(crate) fn enter(&self, id: ExGuid) -> Result<Nested<'_>> {
         let mut nesting = self.nesting.borrow_mut();
 
@@ -62,7 +71,14 @@ impl<'a, 'b> ObjectSpace<'a> {
             );
         }
 
+        if self.entered.get() >= self.objects.len().saturating_mul(MAX_REPETITION) {
+            return Err(
+                ErrorKind::MalformedOneNoteData("objects are repeated too often".into()).into(),
+            );
+        }
+
         nesting.push(id);
+        self.entered.set(self.entered.get() + 1);
 
         Ok(Nested(&self.nesting))
     }
@@ -105,6 +121,7 @@ impl<'a, 'b> ObjectSpace<'a> {
                     roots: HashMap::new(),
                     objects: HashMap::new(),
                     nesting: RefCell::default(),
+                    entered: Cell::default(),
                 },
             ));
         }
@@ -147,6 +164,7 @@ impl<'a, 'b> ObjectSpace<'a> {
             roots,
             objects,
             nesting: RefCell::default(),
+            entered: Cell::default(),
         };
 
         Ok((cell_id, space))
-- 
2.43.0

