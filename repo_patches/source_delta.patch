From f744ce587195320fa4d06326a51b341e91e7a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 01/23] fix: do not panic on an empty number list format

---
 src/one/property_set/number_list_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..5f29611 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -64,7 +64,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
 }
 
 fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+    decode_utf16(data.iter().skip(1).copied())
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
         .collect()
 }
-- 
2.43.0


From d6584878bb1548ab3f824392e86b907ab384e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 02/23] fix: report missing embedded ink references instead of
 panicking

---
 src/onenote/rich_text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..171efd8 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,18 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let embedded_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteData(
+                                "embedded ink reference is missing".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(embedded_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From fd7dc4c4ab75aba60e4cfe013894269cc0a57842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 03/23] fix: reject revision chains that contain a cycle

---
 src/onestore/object_space.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..6874084 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -81,8 +81,16 @@ impl<'a, 'b> ObjectSpace<'a> {
         let mut roots = HashMap::new();
 
         let mut rev_id = Some(revision_manifest_id);
+        let mut visited = HashSet::new();
 
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(ErrorKind::MalformedOneStoreData(
+                    "revision chain contains a cycle".into(),
+                )
+                .into());
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From dadcb84c6be1f2308acd1b640e7add3939d268fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 04/23] fix: assign the ink stroke width and height from their
 own properties

---
 src/one/property_set/stroke_properties_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/stroke_properties_node.rs b/src/one/property_set/stroke_properties_node.rs
index 3dc46e1..6715e64 100644
--- a/src/one/property_set/stroke_properties_node.rs
+++ b/src/one/property_set/stroke_properties_node.rs
@@ -29,10 +29,10 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let pen_tip = simple::parse_u8(PropertyType::InkPenTip, object)?;
     let raster_operation = simple::parse_u8(PropertyType::InkRasterOperation, object)?;
     let transparency = simple::parse_u8(PropertyType::InkTransparency, object)?;
-    let ink_width = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
+    let ink_height = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no height".into())
     })?;
-    let ink_height = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
+    let ink_width = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no width".into())
     })?;
     let color = simple::parse_u32(PropertyType::InkColor, object)?;
-- 
2.43.0


From 52f40a2d816955c1f7fc4edacfc2f4756c31cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 05/23] fix: read the vertical ink scaling from its own
 property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From c3c9a9613d7f85ce36e8d481ebd7a0fe698fb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:30 +0000
Subject: [PATCH 06/23] fix: consume the end header of data element fragments

---
 src/fsshttpb/data_element/data_element_fragment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..57a4300 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -43,6 +43,8 @@ impl DataElement {
 
         let data = reader.read(size as usize)?.to_vec();
 
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
+
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
             id,
-- 
2.43.0


From 34c0ee97427ecf7f87ce036e9ce799724cecf52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 07/23] fix: read the page size as the 32-bit value it is
 stored as

---
 src/one/property/page_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/page_size.rs b/src/one/property/page_size.rs
index 2caa930..ad4e0bd 100644
--- a/src/one/property/page_size.rs
+++ b/src/one/property/page_size.rs
@@ -31,8 +31,8 @@ pub(crate) enum PageSize {
 impl PageSize {
     pub(crate) fn parse(prop_type: PropertyType, object: &Object) -> Result<Option<PageSize>> {
         let value = match object.props().get(prop_type) {
-            Some(value) => value.to_u8().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData("page size is not a u8".into())
+            Some(value) => value.to_u32().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("page size is not a u32".into())
             })?,
             None => return Ok(None),
         };
-- 
2.43.0


From 899f1dfab4376e7feb55efa4df041e97199764c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 08/23] fix: resolve object space references by their own
 stream position

---
 src/one/property/object_space_reference.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..d7bc827 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,8 +39,8 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
-            .collect();
+            .map(|(index, id)| Self::resolve_id(index + offset, id, object))
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_space_ids))
     }
-- 
2.43.0


From 2ee100518c59ab6c5bf40829c46a4863b5d7a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 09/23] fix: reject reference arrays that exceed their id
 stream

---
 src/one/property/object_reference.rs       |  9 ++++++---
 src/one/property/object_space_reference.rs | 11 ++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..dd207fe 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -50,13 +50,16 @@ impl ObjectReference {
         // Determine offset for the property for which we want to look up the object reference
         let offset = Self::get_offset(prop_type, object)?;
 
-        let references = object.props().object_ids();
+        let references = object
+            .props()
+            .object_ids()
+            .get(offset..)
+            .and_then(|ids| ids.get(..count as usize))
+            .ok_or_else(|| ErrorKind::MalformedOneNoteFileData("object id index corrupt".into()))?;
 
         // Look up the object references by offset/count and resolve them
         let object_ids = references
             .iter()
-            .skip(offset)
-            .take(count as usize)
             .enumerate()
             .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index d7bc827..dd3f220 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -31,13 +31,18 @@ impl ObjectSpaceReference {
         // reference
         let offset = Self::get_offset(prop_type, object)?;
 
-        let references = object.props().object_space_ids();
+        let references = object
+            .props()
+            .object_space_ids()
+            .get(offset..)
+            .and_then(|ids| ids.get(..count as usize))
+            .ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("object space id index corrupt".into())
+            })?;
 
         // Look up the object space references by offset/count and resolve them
         let object_space_ids = references
             .iter()
-            .skip(offset)
-            .take(count as usize)
             .enumerate()
             .map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect::<Result<_>>()?;
-- 
2.43.0


From 22362f149dd647e3806e117cfbea128572ba377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 10/23] fix: take the object space ids of nested property sets
 from the object space id stream

---
 src/one/property_set/note_tag_container.rs | 2 +-
 src/one/property_set/text_run_data.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..ebfee07 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -104,7 +104,7 @@ impl Data {
     fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
         Ok(object
             .props
-            .object_ids
+            .object_space_ids
             .iter()
             .skip(ObjectSpaceReference::get_offset(
                 PropertyType::NoteTags,
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..2a79aad 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -63,7 +63,7 @@ fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>
 fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
     Ok(object
         .props
-        .object_ids
+        .object_space_ids
         .iter()
         .skip(ObjectSpaceReference::get_offset(
             PropertyType::TextRunData,
-- 
2.43.0


From 5090ec3dd4937b421216bbdb8fc6fea14acd8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 11/23] fix: give each nested property set its own part of the
 id streams

---
 src/one/property_set/note_tag_container.rs | 44 +++++++++++--------
 src/one/property_set/text_run_data.rs      | 51 ++++++++++++----------
 src/onestore/mapping_table.rs              | 26 +++++++++++
 3 files changed, 81 insertions(+), 40 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index ebfee07..f2e586e 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -37,10 +37,19 @@ impl Data {
             None => return Ok(None),
         };
 
+        // Each note tag continues the ID streams where the previous one ended
+        let mut object_offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?;
+        let mut object_space_offset =
+            ObjectSpaceReference::get_offset(PropertyType::NoteTags, object)?;
+
         let data = prop_sets
             .iter()
             .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
+                let object =
+                    Self::parse_object(object, prop_id, props, object_offset, object_space_offset);
+                object_offset += ObjectReference::count_references(props.values());
+                object_space_offset += ObjectSpaceReference::count_references(props.values());
+
                 let data = Self::parse_data(object)?;
 
                 Ok(data)
@@ -75,43 +84,42 @@ impl Data {
         object: &'a Object,
         id: PropertyId,
         props: &PropertySet,
-    ) -> Result<Object<'a>> {
-        Ok(Object {
+        object_offset: usize,
+        object_space_offset: usize,
+    ) -> Object<'a> {
+        Object {
             context_id: object.context_id,
             jc_id: JcId(id.value()),
             props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
+                object_ids: Self::get_object_ids(props, object, object_offset),
+                object_space_ids: Self::get_object_space_ids(props, object, object_space_offset),
                 context_ids: vec![],
                 properties: props.clone(),
             },
             file_data: None,
-            mapping: object.mapping.clone(),
-        })
+            mapping: object.mapping.nested(object_offset, object_space_offset),
+        }
     }
 
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
             .object_ids
             .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
+            .skip(offset)
             .take(ObjectReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_space_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
             .object_space_ids
             .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
+            .skip(offset)
             .take(ObjectSpaceReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index 2a79aad..685ed84 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -19,10 +19,21 @@ pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
         None => return Ok(None),
     };
 
+    // Each text run continues the ID streams where the previous one ended
+    let mut object_offset = ObjectReference::get_offset(PropertyType::TextRunData, object)?;
+    let mut object_space_offset =
+        ObjectSpaceReference::get_offset(PropertyType::TextRunData, object)?;
+
     let data = prop_sets
         .iter()
-        .map(|props| parse_object(object, prop_id, props))
-        .collect::<Result<Vec<_>>>()?;
+        .map(|props| {
+            let object = parse_object(object, prop_id, props, object_offset, object_space_offset);
+            object_offset += ObjectReference::count_references(props.values());
+            object_space_offset += ObjectSpaceReference::count_references(props.values());
+
+            object
+        })
+        .collect();
 
     Ok(Some(data))
 }
@@ -31,45 +42,41 @@ fn parse_object<'a>(
     object: &'a Object,
     prop_id: PropertyId,
     props: &PropertySet,
-) -> Result<Object<'a>> {
-    Ok(Object {
+    object_offset: usize,
+    object_space_offset: usize,
+) -> Object<'a> {
+    Object {
         context_id: object.context_id,
         jc_id: JcId(prop_id.value()),
         props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
+            object_ids: get_object_ids(props, object, object_offset),
+            object_space_ids: get_object_space_ids(props, object, object_space_offset),
             context_ids: vec![],
             properties: props.clone(),
         },
         file_data: None,
-        mapping: object.mapping.clone(),
-    })
+        mapping: object.mapping.nested(object_offset, object_space_offset),
+    }
 }
 
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
+fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+    object
         .props
         .object_ids
         .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
 
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
+fn get_object_space_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+    object
         .props
         .object_space_ids
         .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectSpaceReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..6535f7b 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -52,6 +52,32 @@ impl MappingTable {
         self.get(index, cid, &self.object_spaces)
     }
 
+    /// The mapping table of a nested property set whose IDs start at the given positions of the
+    /// ID streams of its object.
+    pub(crate) fn nested(&self, object_offset: usize, object_space_offset: usize) -> MappingTable {
+        MappingTable {
+            objects: Self::shift(&self.objects, object_offset),
+            object_spaces: Self::shift(&self.object_spaces, object_space_offset),
+        }
+    }
+
+    fn shift<T: Copy>(
+        table: &HashMap<CompactId, Vec<(usize, T)>>,
+        offset: usize,
+    ) -> HashMap<CompactId, Vec<(usize, T)>> {
+        table
+            .iter()
+            .map(|(cid, entries)| {
+                let entries = entries
+                    .iter()
+                    .map(|(index, id)| (index.wrapping_sub(offset), *id))
+                    .collect();
+
+                (*cid, entries)
+            })
+            .collect()
+    }
+
     fn get<T: Copy>(
         &self,
         index: usize,
-- 
2.43.0


From 0f5e83abc30d00d899db21633f1d6cdcd91e9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 12/23] fix: resolve the header cell through its own mapping

---
 src/fsshttpb/data_element/mod.rs           | 16 ++++------------
 src/fsshttpb/data_element/storage_index.rs |  4 ++--
 src/onestore/mod.rs                        |  6 +++---
 3 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..baca356 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data_element::data_element_fragment::DataElementFragment;
 use crate::fsshttpb::data_element::object_data_blob::ObjectDataBlob;
 use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
-use crate::fsshttpb::data_element::storage_index::StorageIndex;
+use crate::fsshttpb::data_element::storage_index::{StorageIndex, StorageIndexCellMapping};
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -72,20 +72,12 @@ impl DataElementPackage {
     /// Look up the object groups referenced by a cell.
     pub(crate) fn find_objects(
         &self,
-        cell: ExGuid,
+        cell: &StorageIndexCellMapping,
         storage_index: &StorageIndex,
     ) -> Result<Vec<&ObjectGroup>> {
         let revision_mapping_id = self
-            .resolve_cell_revision_manifest_id(storage_index, cell)
-            .or_else(|| {
-                storage_index
-                    .cell_mappings
-                    .values()
-                    .find(|mapping| mapping.id == cell)
-                    .and_then(|mapping| {
-                        storage_index.find_revision_mapping_by_serial(&mapping.serial)
-                    })
-            })
+            .resolve_cell_revision_manifest_id(storage_index, cell.id)
+            .or_else(|| storage_index.find_revision_mapping_by_serial(&cell.serial))
             .ok_or_else(|| {
                 ErrorKind::MalformedFssHttpBData("revision manifest id not found".into())
             })?;
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..9628516 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -22,8 +22,8 @@ pub(crate) struct StorageIndex {
 }
 
 impl StorageIndex {
-    pub(crate) fn find_cell_mapping_id(&self, cell_id: CellId) -> Option<ExGuid> {
-        self.cell_mappings.get(&cell_id).map(|mapping| mapping.id)
+    pub(crate) fn find_cell_mapping(&self, cell_id: CellId) -> Option<&StorageIndexCellMapping> {
+        self.cell_mappings.get(&cell_id)
     }
 
     pub(crate) fn find_revision_mapping_id(&self, id: ExGuid) -> Option<ExGuid> {
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index a273412..c824d9f 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -56,8 +56,8 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
 
-    let header_cell_mapping_id = storage_index
-        .find_cell_mapping_id(header_cell_id)
+    let header_cell_mapping = storage_index
+        .find_cell_mapping(header_cell_id)
         .ok_or_else(|| {
             ErrorKind::MalformedOneStoreData("header cell mapping id not found".into())
         })?;
@@ -65,7 +65,7 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
     // [ONESTORE] 2.7.2: Parse header cell
     let header_cell = package
         .data_element_package
-        .find_objects(header_cell_mapping_id, storage_index)?
+        .find_objects(header_cell_mapping, storage_index)?
         .into_iter()
         .next()
         .ok_or_else(|| {
-- 
2.43.0


From 8f6e99169ed5ec547db0b126f1a09bbdd590b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 13/23] fix: do not pick an arbitrary storage index or manifest

---
 src/fsshttpb/data_element/mod.rs | 26 +++++++++++++++++++++-----
 src/onestore/mod.rs              |  2 +-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index baca356..e0d21bd 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -103,9 +103,9 @@ impl DataElementPackage {
         self.object_data_blobs.get(&id).map(|blob| blob.value())
     }
 
-    /// Find the first storage index.
+    /// Find the storage index if there is only one.
     pub(crate) fn find_storage_index(&self) -> Option<&StorageIndex> {
-        self.storage_indexes.values().next()
+        Self::find_single(&self.storage_indexes)
     }
 
     /// Look up a storage index by its ID.
@@ -113,9 +113,25 @@ impl DataElementPackage {
         self.storage_indexes.get(&id)
     }
 
-    /// Find the first storage manifest.
-    pub(crate) fn find_storage_manifest(&self) -> Option<&StorageManifest> {
-        self.storage_manifests.values().next()
+    /// Find the storage manifest a storage index refers to, falling back to the only one.
+    pub(crate) fn find_storage_manifest(
+        &self,
+        storage_index: &StorageIndex,
+    ) -> Option<&StorageManifest> {
+        storage_index
+            .manifest_mappings
+            .iter()
+            .find_map(|mapping| self.storage_manifests.get(&mapping.mapping_id))
+            .or_else(|| Self::find_single(&self.storage_manifests))
+    }
+
+    fn find_single<T>(elements: &HashMap<ExGuid, T>) -> Option<&T> {
+        let mut values = elements.values();
+
+        match (values.next(), values.next()) {
+            (Some(element), None) => Some(element),
+            _ => None,
+        }
     }
 
     /// Resolve a revision manifest ID, falling back when revision mappings are missing.
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index c824d9f..c89082e 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -51,7 +51,7 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage index is missing".into()))?;
     let storage_manifest = package
         .data_element_package
-        .find_storage_manifest()
+        .find_storage_manifest(storage_index)
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage manifest is missing".into()))?;
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
-- 
2.43.0


From 42a5d0e7c122aa271d969adf4888d586c914e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 14/23] fix: only look up a revision by a serial number that is
 unambiguous

---
 src/fsshttpb/data_element/storage_index.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index 9628516..6bfeacd 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -33,12 +33,19 @@ impl StorageIndex {
     }
 
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
-        self.revision_mappings
+        let mut revision_mappings = self
+            .revision_mappings
             .values()
-            .find(|mapping| {
+            .filter(|mapping| {
                 mapping.serial.guid == serial.guid && mapping.serial.serial == serial.serial
             })
-            .map(|mapping| mapping.revision_mapping)
+            .map(|mapping| mapping.revision_mapping);
+
+        // A serial number that is shared by different revisions doesn't identify any of them
+        let revision_mapping = revision_mappings.next()?;
+        revision_mappings
+            .all(|id| id == revision_mapping)
+            .then_some(revision_mapping)
     }
 }
 
-- 
2.43.0


From 5b7b4b9e0da94b3d95182b0639e6884ca6eea5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 15/23] fix: pick the table of contents of a section group
 independent of the directory order

---
 src/onenote/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..b1c7aab 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -158,21 +158,24 @@ impl Parser {
             .to_string_lossy()
             .to_string();
 
-        for entry in path.read_dir()? {
-            let entry = entry?;
+        // The order of directory entries is unspecified so sort them to always use the same file
+        let mut entries = path
+            .read_dir()?
+            .map(|entry| Ok(entry?.path()))
+            .collect::<Result<Vec<_>>>()?;
+        entries.sort();
+
+        for entry in entries {
             let is_toc = entry
-                .path()
                 .extension()
                 .map(|ext| ext == OsStr::new("onetoc2"))
                 .unwrap_or_default();
 
             if is_toc {
-                return self
-                    .parse_notebook(&entry.path())
-                    .map(|group| SectionGroup {
-                        display_name,
-                        entries: group.entries,
-                    });
+                return self.parse_notebook(&entry).map(|group| SectionGroup {
+                    display_name,
+                    entries: group.entries,
+                });
             }
         }
 
-- 
2.43.0


From 5f3f03dbf9fc571df77975866e91dc2203b0561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 16/23] fix: parse object spaces in a fixed order

---
 src/fsshttpb/data/cell_id.rs               | 2 +-
 src/fsshttpb/data/exguid.rs                | 2 +-
 src/fsshttpb/data_element/storage_index.rs | 6 +++---
 src/shared/guid.rs                         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fsshttpb/data/cell_id.rs b/src/fsshttpb/data/cell_id.rs
index d28883d..e9a2f1d 100644
--- a/src/fsshttpb/data/cell_id.rs
+++ b/src/fsshttpb/data/cell_id.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data::exguid::ExGuid;
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.10]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/75bf8297-ef9c-458a-95a3-ad6265bfa864
 /// [\[MS-FSSHTTPB\] 2.2.1.11]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/d3f4d22d-6fb4-4032-8587-f3eb9c256e45
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct CellId(pub ExGuid, pub ExGuid);
 
 impl CellId {
diff --git a/src/fsshttpb/data/exguid.rs b/src/fsshttpb/data/exguid.rs
index 2e19ce5..c1cb262 100644
--- a/src/fsshttpb/data/exguid.rs
+++ b/src/fsshttpb/data/exguid.rs
@@ -9,7 +9,7 @@ use std::fmt;
 /// See [\[MS-FSSHTTPB\] 2.2.1.7].
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.7]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/bff58e9f-8222-4fbb-b112-5826d5febedd
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct ExGuid {
     pub guid: Guid,
     pub value: u32,
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index 6bfeacd..a49ea20 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -6,7 +6,7 @@ use crate::fsshttpb::data::object_types::ObjectType;
 use crate::fsshttpb::data::serial_number::SerialNumber;
 use crate::fsshttpb::data::stream_object::ObjectHeader;
 use crate::fsshttpb::data_element::DataElement;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 /// A storage index.
 ///
@@ -17,7 +17,7 @@ use std::collections::HashMap;
 #[allow(dead_code)]
 pub(crate) struct StorageIndex {
     pub(crate) manifest_mappings: Vec<StorageIndexManifestMapping>,
-    pub(crate) cell_mappings: HashMap<CellId, StorageIndexCellMapping>,
+    pub(crate) cell_mappings: BTreeMap<CellId, StorageIndexCellMapping>,
     pub(crate) revision_mappings: HashMap<ExGuid, StorageIndexRevisionMapping>,
 }
 
@@ -77,7 +77,7 @@ pub(crate) struct StorageIndexRevisionMapping {
 impl DataElement {
     pub(crate) fn parse_storage_index(reader: Reader) -> Result<StorageIndex> {
         let mut manifest_mappings = vec![];
-        let mut cell_mappings = HashMap::new();
+        let mut cell_mappings = BTreeMap::new();
         let mut revision_mappings = HashMap::new();
 
         loop {
diff --git a/src/shared/guid.rs b/src/shared/guid.rs
index 4a2061a..cc4ba70 100644
--- a/src/shared/guid.rs
+++ b/src/shared/guid.rs
@@ -12,7 +12,7 @@ use uuid::Uuid;
 ///
 /// [\[1\]]: https://stackoverflow.com/questions/10190817/guid-byte-order-in-net
 /// [\[2\]]: https://docs.microsoft.com/en-us/dotnet/api/system.guid.tobytearray?view=net-5.0#remarks
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct Guid(pub Uuid);
 
 impl Guid {
-- 
2.43.0


From f29a08f5de74dca86de45ffd225e4db5f692f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 17/23] fix: keep the roots and objects of newer revisions

---
 src/onestore/revision.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..3f580a7 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -52,19 +52,22 @@ impl<'a, 'b> Revision<'a> {
             .transpose()?;
 
         if let Some(rev) = revision_cache.get(&CellId(context_id, revision_manifest.rev_id)) {
-            roots.extend(rev.roots.iter());
-            objects.extend(rev.objects.clone());
+            for (role, object_id) in rev.roots.iter() {
+                roots.entry(*role).or_insert(*object_id);
+            }
+            for (object_id, object) in rev.objects.iter() {
+                objects.entry(*object_id).or_insert_with(|| object.clone());
+            }
 
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        // Roots that have been declared by a newer revision already take precedence
+        for root in revision_manifest.root_declare.iter() {
+            roots
+                .entry(RevisionRole::parse(root.root_id)?)
+                .or_insert(root.object_id);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 9cbbe3ab860a8d13d7c3243200126c4ac74e65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 18/23] fix: reject incomplete and oversized multi-byte
 integers

---
 src/shared/multi_byte.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/shared/multi_byte.rs b/src/shared/multi_byte.rs
index ce18f21..770b88d 100644
--- a/src/shared/multi_byte.rs
+++ b/src/shared/multi_byte.rs
@@ -75,22 +75,23 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
         }
 
         let flag = byte & 0x80 == 0x80;
-        value |= (*byte as u64 & 0x7F) << shift;
+        let bits = *byte as u64 & 0x7F;
+        if bits << shift >> shift != bits {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "multi-byte integer exceeds 64-bit width".into(),
+            )
+            .into());
+        }
+        value |= bits << shift;
 
         count += 1;
 
         if !flag {
-            break;
+            return Ok((value, count));
         }
     }
 
-    if count == 0 {
-        return Err(
-            ErrorKind::MalformedOneNoteFileData("multi-byte integer has no data".into()).into(),
-        );
-    }
-
-    Ok((value, count))
+    Err(ErrorKind::MalformedOneNoteFileData("multi-byte integer is incomplete".into()).into())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 760250fc6ba0dba7b884700bba7d67cd1b59a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 19/23] fix: limit the nesting of property sets

---
 src/onestore/types/prop_set.rs | 23 +++++++++++++++++++++--
 src/onestore/types/property.rs | 18 ++++++++++++++----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..d4e3d91 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// How deeply property sets may be nested inside each other.
+const MAX_NESTING: usize = 64;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,17 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        PropertySet::parse_nested(reader, 0)
+    }
+
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_NESTING {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +38,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..45f0bf5 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,17 @@ impl PropertyValue {
     //     }
     // }
 
+    #[cfg(test)]
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        PropertyValue::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse the value of a property of a property set that is nested in `depth` other ones.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +144,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth + 1))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From 164a4d042037038ffeec976b78f209e743699e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 20/23] fix: limit the nesting of outlines and tables

---
 src/onenote/content.rs |  8 ++++++--
 src/onenote/outline.rs | 38 ++++++++++++++++++++++++++++++--------
 src/onenote/table.rs   | 12 ++++++------
 3 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/onenote/content.rs b/src/onenote/content.rs
index 3e07842..86af930 100644
--- a/src/onenote/content.rs
+++ b/src/onenote/content.rs
@@ -77,7 +77,11 @@ impl Content {
     }
 }
 
-pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<Content> {
+pub(crate) fn parse_content(
+    content_id: ExGuid,
+    space: &ObjectSpace,
+    depth: usize,
+) -> Result<Content> {
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
@@ -94,7 +98,7 @@ pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<C
             Content::EmbeddedFile(parse_embedded_file(content_id, space)?)
         }
         PropertySetId::RichTextNode => Content::RichText(parse_rich_text(content_id, space)?),
-        PropertySetId::TableNode => Content::Table(parse_table(content_id, space)?),
+        PropertySetId::TableNode => Content::Table(parse_table(content_id, space, depth)?),
         PropertySetId::InkContainer => Content::Ink(parse_ink(content_id, space)?),
         _ => Content::Unknown,
     };
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..fb106eb 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -6,6 +6,9 @@ use crate::onenote::content::{Content, parse_content};
 use crate::onenote::list::{List, parse_list};
 use crate::onestore::object_space::ObjectSpace;
 
+/// How deeply outline groups and elements (including those in tables) may be nested.
+const MAX_NESTING: usize = 64;
+
 /// A content outline.
 ///
 /// See [\[MS-ONE\] 1.3.2.1] and [\[MS-ONE\] 2.2.20].
@@ -265,7 +268,7 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
     let items = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, 0))
         .collect::<Result<_>>()?;
 
     let outline = Outline {
@@ -287,7 +290,15 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
     Ok(outline)
 }
 
-fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineItem> {
+fn check_nesting(depth: usize) -> Result<()> {
+    if depth > MAX_NESTING {
+        return Err(ErrorKind::MalformedOneNoteData("outline is nested too deeply".into()).into());
+    }
+
+    Ok(())
+}
+
+fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<OutlineItem> {
     let content_type = space
         .get_object(item_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline item is missing".into()))?
@@ -299,9 +310,11 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     })?;
 
     let item = match id {
-        PropertySetId::OutlineGroup => OutlineItem::Group(parse_outline_group(item_id, space)?),
+        PropertySetId::OutlineGroup => {
+            OutlineItem::Group(parse_outline_group(item_id, space, depth)?)
+        }
         PropertySetId::OutlineElementNode => {
-            OutlineItem::Element(parse_outline_element(item_id, space)?)
+            OutlineItem::Element(parse_outline_element(item_id, space, depth)?)
         }
         _ => {
             return Err(ErrorKind::MalformedOneNoteData(
@@ -314,7 +327,13 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     Ok(item)
 }
 
-fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineGroup> {
+fn parse_outline_group(
+    group_id: ExGuid,
+    space: &ObjectSpace,
+    depth: usize,
+) -> Result<OutlineGroup> {
+    check_nesting(depth)?;
+
     let group_object = space
         .get_object(group_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline group is missing".into()))?;
@@ -323,7 +342,7 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
     let outlines = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, depth + 1))
         .collect::<Result<_>>()?;
 
     let group = OutlineGroup {
@@ -337,7 +356,10 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
 pub(crate) fn parse_outline_element(
     element_id: ExGuid,
     space: &ObjectSpace,
+    depth: usize,
 ) -> Result<OutlineElement> {
+    check_nesting(depth)?;
+
     let element_object = space
         .get_object(element_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline element is missing".into()))?;
@@ -346,13 +368,13 @@ pub(crate) fn parse_outline_element(
     let children = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, depth + 1))
         .collect::<Result<_>>()?;
 
     let contents = data
         .contents
         .into_iter()
-        .map(|content_id| parse_content(content_id, space))
+        .map(|content_id| parse_content(content_id, space, depth + 1))
         .collect::<Result<_>>()?;
 
     let list_contents = data
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..a87c6f8 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -164,7 +164,7 @@ impl TableCell {
     }
 }
 
-pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table> {
+pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<Table> {
     let table_object = space
         .get_object(table_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("table object is missing".into()))?;
@@ -173,7 +173,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     let contents = data
         .rows
         .into_iter()
-        .map(|row_id| parse_row(row_id, space))
+        .map(|row_id| parse_row(row_id, space, depth))
         .collect::<Result<_>>()?;
 
     let table = Table {
@@ -191,7 +191,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     Ok(table)
 }
 
-fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
+fn parse_row(row_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<TableRow> {
     let row_object = space
         .get_object(row_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("row object is missing".into()))?;
@@ -200,7 +200,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     let contents = data
         .cells
         .into_iter()
-        .map(|cell_id| parse_cell(cell_id, space))
+        .map(|cell_id| parse_cell(cell_id, space, depth))
         .collect::<Result<_>>()?;
 
     let row = TableRow { contents };
@@ -208,7 +208,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     Ok(row)
 }
 
-fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
+fn parse_cell(cell_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<TableCell> {
     let cell_object = space
         .get_object(cell_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("cell object is missing".into()))?;
@@ -217,7 +217,7 @@ fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
     let contents = data
         .contents
         .into_iter()
-        .map(|element_id| parse_outline_element(element_id, space))
+        .map(|element_id| parse_outline_element(element_id, space, depth))
         .collect::<Result<_>>()?;
 
     let cell = TableCell {
-- 
2.43.0


From 5477dcd9833d2e4351df6558875bd21233bcf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 21/23] fix: limit the nesting of tables of contents

---
 src/onenote/notebook.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..cdb762f 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -6,6 +6,9 @@ use crate::onestore::object_space::ObjectSpace;
 use crate::property::common::Color;
 use itertools::Itertools;
 
+/// How deeply the entries of a table of contents may be nested.
+const MAX_NESTING: usize = 64;
+
 /// A OneNote notebook.
 #[derive(Clone, Debug)]
 pub struct Notebook {
@@ -35,7 +38,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
         .content_root()
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("notebook has no content root".into()))?;
 
-    let entry = parse_toc_entry(content_id, space)?;
+    let entry = parse_toc_entry(content_id, space, 0)?;
     let toc = entry
         .entries
         .into_iter()
@@ -47,7 +50,14 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
     Ok((toc, entry.color))
 }
 
-fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<TocEntry> {
+    if depth > MAX_NESTING {
+        return Err(ErrorKind::MalformedOneNoteData(
+            "table of contents is nested too deeply".into(),
+        )
+        .into());
+    }
+
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
@@ -67,7 +77,7 @@ fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry>
         let children = toc
             .children
             .into_iter()
-            .map(|content_id| parse_toc_entry(content_id, space))
+            .map(|content_id| parse_toc_entry(content_id, space, depth + 1))
             .collect::<Result<Vec<_>>>()?
             .into_iter()
             .flat_map(|entry| entry.entries)
-- 
2.43.0


From 9732541396b8456e3789c76b32cc99372a9001d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 22/23] fix: limit the nesting of section groups

---
 src/onenote/mod.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index b1c7aab..302c1a8 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -27,6 +27,9 @@ pub(crate) mod rich_text;
 pub(crate) mod section;
 pub(crate) mod table;
 
+/// How deeply section groups may be nested.
+const MAX_NESTING: usize = 64;
+
 /// The OneNote file parser.
 ///
 /// Use [`Parser::parse_notebook`] to load a notebook from a `.onetoc2` file or
@@ -57,6 +60,10 @@ impl Parser {
     /// Returns [`ErrorKind::NotATocFile`] if the file is not a notebook table of
     /// contents.
     pub fn parse_notebook(&self, path: &Path) -> Result<Notebook> {
+        self.parse_nested_notebook(path, 0)
+    }
+
+    fn parse_nested_notebook(&self, path: &Path, depth: usize) -> Result<Notebook> {
         let file = File::open(path)?;
         let data = Parser::read(file)?;
         let packaging = OneStorePackaging::parse(&mut Reader::new(data.as_slice()))?;
@@ -85,7 +92,7 @@ impl Parser {
                 if path.is_file() {
                     self.parse_section(&path).map(SectionEntry::Section)
                 } else {
-                    self.parse_section_group(&path)
+                    self.parse_section_group(&path, depth + 1)
                         .map(SectionEntry::SectionGroup)
                 }
             })
@@ -149,7 +156,14 @@ impl Parser {
         )
     }
 
-    fn parse_section_group(&self, path: &Path) -> Result<SectionGroup> {
+    fn parse_section_group(&self, path: &Path, depth: usize) -> Result<SectionGroup> {
+        if depth > MAX_NESTING {
+            return Err(ErrorKind::InvalidPath {
+                message: "section groups are nested too deeply".into(),
+            }
+            .into());
+        }
+
         let display_name = path
             .file_name()
             .ok_or_else(|| ErrorKind::InvalidPath {
@@ -172,10 +186,12 @@ impl Parser {
                 .unwrap_or_default();
 
             if is_toc {
-                return self.parse_notebook(&entry).map(|group| SectionGroup {
-                    display_name,
-                    entries: group.entries,
-                });
+                return self
+                    .parse_nested_notebook(&entry, depth)
+                    .map(|group| SectionGroup {
+                        display_name,
+                        entries: group.entries,
+                    });
             }
         }
 
-- 
2.43.0


From f976c97423dec8b60f15504b4bee3e8e8f557ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:33 +0000
Subject: [PATCH 23/23] fix: end object group metadata declarations with their
 16-bit end header

---
 src/fsshttpb/data/stream_object.rs        | 12 ++++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..5f3581b 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,18 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = match reader.bytes() {
+            [a, b, ..] => u16::from_le_bytes([*a, *b]),
+            _ => return Err(ErrorKind::UnexpectedEof.into()),
+        };
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0

