From b45b64721c0db9f0dc75fbfe783c966dd1c20a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 01/22] fix: read the object group metadata block's end as a
 16-bit end header

The type of the block (0x79) does not fit into the six bits of an 8-bit end
header, so an object group with a metadata block could never be parsed.
---
 src/fsshttpb/data/stream_object.rs        | 14 ++++++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..084d00a 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,20 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let bytes = reader.bytes();
+        if bytes.len() < 2 {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
+
+        let data = u16::from_le_bytes([bytes[0], bytes[1]]);
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From 767390bc00a396e9f77cce7857fb3f3c35b9d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 02/22] fix: consume the end of a data element fragment

Every other data element reads its end header; without it the end is taken
for the start of the next element and the package is rejected.
---
 src/fsshttpb/data_element/data_element_fragment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..57a4300 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -43,6 +43,8 @@ impl DataElement {
 
         let data = reader.read(size as usize)?.to_vec();
 
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
+
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
             id,
-- 
2.43.0


From f45b6248ef60ee05277647538b7c7c35d46d196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 03/22] fix: keep the roots of newer revisions

A revision's base revisions are parsed after it; the roots they declare
overwrote the ones the newer revision had declared.
---
 src/onestore/revision.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..994708c 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -58,13 +58,16 @@ impl<'a, 'b> Revision<'a> {
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        // The base revisions are parsed after the revisions that build on them: roots that have
+        // been declared already take precedence.
+        let declared = revision_manifest
+            .root_declare
+            .iter()
+            .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
+            .collect::<Result<HashMap<_, _>>>()?;
+        for (role, object_id) in declared {
+            roots.entry(role).or_insert(object_id);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 71c0c2b999e436a8660d0a224ecd7cc1fc7f0581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 04/22] fix: reject cyclic base revisions

Parsing a file whose revisions form a cycle never terminated.
---
 src/onestore/object_space.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..eb0a405 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -82,7 +82,16 @@ impl<'a, 'b> ObjectSpace<'a> {
 
         let mut rev_id = Some(revision_manifest_id);
 
+        let mut visited = HashSet::new();
+
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(ErrorKind::MalformedOneStoreData(
+                    "revision is its own base revision".into(),
+                )
+                .into());
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From ac611a69de5260af20e1c369285f99848f0b92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 05/22] fix: accept an empty number list format

---
 src/one/property_set/number_list_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..d533cfc 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -64,7 +64,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
 }
 
 fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+    decode_utf16(data.into_iter().skip(1))
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
         .collect()
 }
-- 
2.43.0


From 40a8d77b672a5bf5d48827658efb723753b37f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 06/22] fix: reject embedded objects without a data reference

---
 src/onenote/rich_text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..ec5b96f 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,18 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let ink_data_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteData(
+                                "embedded object has no data reference".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(ink_data_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From 0a1e4139628ef6d440e043fd1d92e9535d610ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 07/22] fix: read the vertical ink scaling from its own
 property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From 30611db6396eae55e77d912f873b9f9f7411c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 08/22] fix: do not swap the width and height of ink strokes

---
 src/one/property_set/stroke_properties_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/stroke_properties_node.rs b/src/one/property_set/stroke_properties_node.rs
index 3dc46e1..6715e64 100644
--- a/src/one/property_set/stroke_properties_node.rs
+++ b/src/one/property_set/stroke_properties_node.rs
@@ -29,10 +29,10 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let pen_tip = simple::parse_u8(PropertyType::InkPenTip, object)?;
     let raster_operation = simple::parse_u8(PropertyType::InkRasterOperation, object)?;
     let transparency = simple::parse_u8(PropertyType::InkTransparency, object)?;
-    let ink_width = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
+    let ink_height = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no height".into())
     })?;
-    let ink_height = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
+    let ink_width = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no width".into())
     })?;
     let color = simple::parse_u32(PropertyType::InkColor, object)?;
-- 
2.43.0


From b0ff87db3783b1c4e3fac859a3d49d40085aec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 09/22] fix: resolve object space references at their own
 position

---
 src/one/property/object_space_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..755c2bb 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,7 +39,7 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
+            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
 
         Ok(Some(object_space_ids))
-- 
2.43.0


From ed56cc758bc7afe1330dc0e5dea688206c64edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 10/22] fix: take object space references of nested property
 sets from their own list

---
 src/one/property_set/note_tag_container.rs | 2 +-
 src/one/property_set/text_run_data.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..ebfee07 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -104,7 +104,7 @@ impl Data {
     fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
         Ok(object
             .props
-            .object_ids
+            .object_space_ids
             .iter()
             .skip(ObjectSpaceReference::get_offset(
                 PropertyType::NoteTags,
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..2a79aad 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -63,7 +63,7 @@ fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>
 fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
     Ok(object
         .props
-        .object_ids
+        .object_space_ids
         .iter()
         .skip(ObjectSpaceReference::get_offset(
             PropertyType::TextRunData,
-- 
2.43.0


From 08c46f3d651e1b662b49a7daacadd4977c79b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 11/22] fix: skip the references of preceding nested property
 sets

---
 src/one/property_set/note_tag_container.rs | 41 +++++++++++++++------
 src/one/property_set/text_run_data.rs      | 42 +++++++++++++++-------
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index ebfee07..6cadfcb 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -39,8 +39,9 @@ impl Data {
 
         let data = prop_sets
             .iter()
-            .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
+            .enumerate()
+            .map(|(i, props)| {
+                let object = Self::parse_object(object, prop_id, props, &prop_sets[..i])?;
                 let data = Self::parse_data(object)?;
 
                 Ok(data)
@@ -75,13 +76,14 @@ impl Data {
         object: &'a Object,
         id: PropertyId,
         props: &PropertySet,
+        preceding: &[PropertySet],
     ) -> Result<Object<'a>> {
         Ok(Object {
             context_id: object.context_id,
             jc_id: JcId(id.value()),
             props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
+                object_ids: Self::get_object_ids(props, preceding, object)?,
+                object_space_ids: Self::get_object_space_ids(props, preceding, object)?,
                 context_ids: vec![],
                 properties: props.clone(),
             },
@@ -90,26 +92,43 @@ impl Data {
         })
     }
 
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
+    fn get_object_ids(
+        props: &PropertySet,
+        preceding: &[PropertySet],
+        object: &Object,
+    ) -> Result<Vec<CompactId>> {
+        let offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?
+            + preceding
+                .iter()
+                .map(|set| ObjectReference::count_references(set.values()))
+                .sum::<usize>();
+
         Ok(object
             .props
             .object_ids
             .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
+            .skip(offset)
             .take(ObjectReference::count_references(props.values()))
             .copied()
             .collect())
     }
 
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
+    fn get_object_space_ids(
+        props: &PropertySet,
+        preceding: &[PropertySet],
+        object: &Object,
+    ) -> Result<Vec<CompactId>> {
+        let offset = ObjectSpaceReference::get_offset(PropertyType::NoteTags, object)?
+            + preceding
+                .iter()
+                .map(|set| ObjectSpaceReference::count_references(set.values()))
+                .sum::<usize>();
+
         Ok(object
             .props
             .object_space_ids
             .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
+            .skip(offset)
             .take(ObjectSpaceReference::count_references(props.values()))
             .copied()
             .collect())
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index 2a79aad..4972ba3 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -21,7 +21,8 @@ pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
 
     let data = prop_sets
         .iter()
-        .map(|props| parse_object(object, prop_id, props))
+        .enumerate()
+        .map(|(i, props)| parse_object(object, prop_id, props, &prop_sets[..i]))
         .collect::<Result<Vec<_>>>()?;
 
     Ok(Some(data))
@@ -31,13 +32,14 @@ fn parse_object<'a>(
     object: &'a Object,
     prop_id: PropertyId,
     props: &PropertySet,
+    preceding: &[PropertySet],
 ) -> Result<Object<'a>> {
     Ok(Object {
         context_id: object.context_id,
         jc_id: JcId(prop_id.value()),
         props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
+            object_ids: get_object_ids(props, preceding, object)?,
+            object_space_ids: get_object_space_ids(props, preceding, object)?,
             context_ids: vec![],
             properties: props.clone(),
         },
@@ -46,29 +48,43 @@ fn parse_object<'a>(
     })
 }
 
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
+fn get_object_ids(
+    props: &PropertySet,
+    preceding: &[PropertySet],
+    object: &Object,
+) -> Result<Vec<CompactId>> {
+    let offset = ObjectReference::get_offset(PropertyType::TextRunData, object)?
+        + preceding
+            .iter()
+            .map(|set| ObjectReference::count_references(set.values()))
+            .sum::<usize>();
+
     Ok(object
         .props
         .object_ids
         .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectReference::count_references(props.values()))
         .copied()
         .collect())
 }
 
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
+fn get_object_space_ids(
+    props: &PropertySet,
+    preceding: &[PropertySet],
+    object: &Object,
+) -> Result<Vec<CompactId>> {
+    let offset = ObjectSpaceReference::get_offset(PropertyType::TextRunData, object)?
+        + preceding
+            .iter()
+            .map(|set| ObjectSpaceReference::count_references(set.values()))
+            .sum::<usize>();
+
     Ok(object
         .props
         .object_space_ids
         .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectSpaceReference::count_references(props.values()))
         .copied()
         .collect())
-- 
2.43.0


From 4b00d79e9138e03d2ad131602c11ece9a4c26e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 12/22] fix: resolve references of nested property sets at
 their own position

---
 src/one/property_set/note_tag_container.rs | 50 +++++++++-------------
 src/one/property_set/text_run_data.rs      | 49 +++++++++------------
 src/onestore/mapping_table.rs              | 33 +++++++++++++-
 3 files changed, 72 insertions(+), 60 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 6cadfcb..81154d5 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -78,59 +78,51 @@ impl Data {
         props: &PropertySet,
         preceding: &[PropertySet],
     ) -> Result<Object<'a>> {
+        let objects_offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?
+            + preceding
+                .iter()
+                .map(|set| ObjectReference::count_references(set.values()))
+                .sum::<usize>();
+        let object_spaces_offset =
+            ObjectSpaceReference::get_offset(PropertyType::NoteTags, object)?
+                + preceding
+                    .iter()
+                    .map(|set| ObjectSpaceReference::count_references(set.values()))
+                    .sum::<usize>();
+
         Ok(Object {
             context_id: object.context_id,
             jc_id: JcId(id.value()),
             props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, preceding, object)?,
-                object_space_ids: Self::get_object_space_ids(props, preceding, object)?,
+                object_ids: Self::get_object_ids(props, objects_offset, object),
+                object_space_ids: Self::get_object_space_ids(props, object_spaces_offset, object),
                 context_ids: vec![],
                 properties: props.clone(),
             },
             file_data: None,
-            mapping: object.mapping.clone(),
+            mapping: object.mapping.nested(objects_offset, object_spaces_offset),
         })
     }
 
-    fn get_object_ids(
-        props: &PropertySet,
-        preceding: &[PropertySet],
-        object: &Object,
-    ) -> Result<Vec<CompactId>> {
-        let offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?
-            + preceding
-                .iter()
-                .map(|set| ObjectReference::count_references(set.values()))
-                .sum::<usize>();
-
-        Ok(object
+    fn get_object_ids(props: &PropertySet, offset: usize, object: &Object) -> Vec<CompactId> {
+        object
             .props
             .object_ids
             .iter()
             .skip(offset)
             .take(ObjectReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 
-    fn get_object_space_ids(
-        props: &PropertySet,
-        preceding: &[PropertySet],
-        object: &Object,
-    ) -> Result<Vec<CompactId>> {
-        let offset = ObjectSpaceReference::get_offset(PropertyType::NoteTags, object)?
-            + preceding
-                .iter()
-                .map(|set| ObjectSpaceReference::count_references(set.values()))
-                .sum::<usize>();
-
-        Ok(object
+    fn get_object_space_ids(props: &PropertySet, offset: usize, object: &Object) -> Vec<CompactId> {
+        object
             .props
             .object_space_ids
             .iter()
             .skip(offset)
             .take(ObjectSpaceReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index 4972ba3..e555060 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -34,58 +34,49 @@ fn parse_object<'a>(
     props: &PropertySet,
     preceding: &[PropertySet],
 ) -> Result<Object<'a>> {
+    let objects_offset = ObjectReference::get_offset(PropertyType::TextRunData, object)?
+        + preceding
+            .iter()
+            .map(|set| ObjectReference::count_references(set.values()))
+            .sum::<usize>();
+    let object_spaces_offset = ObjectSpaceReference::get_offset(PropertyType::TextRunData, object)?
+        + preceding
+            .iter()
+            .map(|set| ObjectSpaceReference::count_references(set.values()))
+            .sum::<usize>();
+
     Ok(Object {
         context_id: object.context_id,
         jc_id: JcId(prop_id.value()),
         props: ObjectPropSet {
-            object_ids: get_object_ids(props, preceding, object)?,
-            object_space_ids: get_object_space_ids(props, preceding, object)?,
+            object_ids: get_object_ids(props, objects_offset, object),
+            object_space_ids: get_object_space_ids(props, object_spaces_offset, object),
             context_ids: vec![],
             properties: props.clone(),
         },
         file_data: None,
-        mapping: object.mapping.clone(),
+        mapping: object.mapping.nested(objects_offset, object_spaces_offset),
     })
 }
 
-fn get_object_ids(
-    props: &PropertySet,
-    preceding: &[PropertySet],
-    object: &Object,
-) -> Result<Vec<CompactId>> {
-    let offset = ObjectReference::get_offset(PropertyType::TextRunData, object)?
-        + preceding
-            .iter()
-            .map(|set| ObjectReference::count_references(set.values()))
-            .sum::<usize>();
-
-    Ok(object
+fn get_object_ids(props: &PropertySet, offset: usize, object: &Object) -> Vec<CompactId> {
+    object
         .props
         .object_ids
         .iter()
         .skip(offset)
         .take(ObjectReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
 
-fn get_object_space_ids(
-    props: &PropertySet,
-    preceding: &[PropertySet],
-    object: &Object,
-) -> Result<Vec<CompactId>> {
-    let offset = ObjectSpaceReference::get_offset(PropertyType::TextRunData, object)?
-        + preceding
-            .iter()
-            .map(|set| ObjectSpaceReference::count_references(set.values()))
-            .sum::<usize>();
-
-    Ok(object
+fn get_object_space_ids(props: &PropertySet, offset: usize, object: &Object) -> Vec<CompactId> {
+    object
         .props
         .object_space_ids
         .iter()
         .skip(offset)
         .take(ObjectSpaceReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..b305365 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -18,6 +18,8 @@ use std::collections::HashMap;
 pub(crate) struct MappingTable {
     objects: HashMap<CompactId, Vec<(usize, ExGuid)>>,
     object_spaces: HashMap<CompactId, Vec<(usize, CellId)>>,
+    objects_offset: usize,
+    object_spaces_offset: usize,
 }
 
 impl MappingTable {
@@ -41,15 +43,42 @@ impl MappingTable {
         MappingTable {
             objects: objects_map,
             object_spaces: object_spaces_map,
+            objects_offset: 0,
+            object_spaces_offset: 0,
+        }
+    }
+
+    /// The same mapping for a nested property set that has the given number of references in
+    /// front of its own.
+    pub(crate) fn nested(
+        &self,
+        objects_offset: usize,
+        object_spaces_offset: usize,
+    ) -> MappingTable {
+        MappingTable {
+            objects: self.objects.clone(),
+            object_spaces: self.object_spaces.clone(),
+            objects_offset: self.objects_offset.saturating_add(objects_offset),
+            object_spaces_offset: self
+                .object_spaces_offset
+                .saturating_add(object_spaces_offset),
         }
     }
 
     pub(crate) fn get_object(&self, index: usize, cid: CompactId) -> Option<ExGuid> {
-        self.get(index, cid, &self.objects)
+        self.get(
+            index.saturating_add(self.objects_offset),
+            cid,
+            &self.objects,
+        )
     }
 
     pub(crate) fn get_object_space(&self, index: usize, cid: CompactId) -> Option<CellId> {
-        self.get(index, cid, &self.object_spaces)
+        self.get(
+            index.saturating_add(self.object_spaces_offset),
+            cid,
+            &self.object_spaces,
+        )
     }
 
     fn get<T: Copy>(
-- 
2.43.0


From c6c75c2d652b69a3467fe73dc0ed28ab1a141091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 13/22] fix: count the references of a preceding nested
 property set

---
 src/one/property/object_reference.rs       | 1 +
 src/one/property/object_space_reference.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..d4742b7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -76,6 +76,7 @@ impl ObjectReference {
             .map(|v| match v {
                 PropertyValue::ObjectId => 1,
                 PropertyValue::ObjectIds(c) => *c as usize,
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 PropertyValue::PropertyValues(_, sets) => sets
                     .iter()
                     .map(|set| Self::count_references(set.values()))
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 755c2bb..0874199 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -57,6 +57,7 @@ impl ObjectSpaceReference {
             .map(|v| match v {
                 PropertyValue::ObjectSpaceId => 1,
                 PropertyValue::ObjectSpaceIds(c) => *c as usize,
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 PropertyValue::PropertyValues(_, sets) => sets
                     .iter()
                     .map(|set| Self::count_references(set.values()))
-- 
2.43.0


From 8ce7f07c363f23016fefaa1b75cdf23faea36e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 14/22] fix: pick a storage index and manifest independent of
 the hash order

---
 src/fsshttpb/data/exguid.rs      |  2 +-
 src/fsshttpb/data_element/mod.rs | 12 ++++++++----
 src/shared/guid.rs               |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fsshttpb/data/exguid.rs b/src/fsshttpb/data/exguid.rs
index 2e19ce5..c1cb262 100644
--- a/src/fsshttpb/data/exguid.rs
+++ b/src/fsshttpb/data/exguid.rs
@@ -9,7 +9,7 @@ use std::fmt;
 /// See [\[MS-FSSHTTPB\] 2.2.1.7].
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.7]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/bff58e9f-8222-4fbb-b112-5826d5febedd
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct ExGuid {
     pub guid: Guid,
     pub value: u32,
diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..6c85c1b 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -111,9 +111,11 @@ impl DataElementPackage {
         self.object_data_blobs.get(&id).map(|blob| blob.value())
     }
 
-    /// Find the first storage index.
+    /// Find the storage index with the smallest ID.
     pub(crate) fn find_storage_index(&self) -> Option<&StorageIndex> {
-        self.storage_indexes.values().next()
+        let id = self.storage_indexes.keys().min()?;
+
+        self.storage_indexes.get(id)
     }
 
     /// Look up a storage index by its ID.
@@ -121,9 +123,11 @@ impl DataElementPackage {
         self.storage_indexes.get(&id)
     }
 
-    /// Find the first storage manifest.
+    /// Find the storage manifest with the smallest ID.
     pub(crate) fn find_storage_manifest(&self) -> Option<&StorageManifest> {
-        self.storage_manifests.values().next()
+        let id = self.storage_manifests.keys().min()?;
+
+        self.storage_manifests.get(id)
     }
 
     /// Resolve a revision manifest ID, falling back when revision mappings are missing.
diff --git a/src/shared/guid.rs b/src/shared/guid.rs
index 4a2061a..cc4ba70 100644
--- a/src/shared/guid.rs
+++ b/src/shared/guid.rs
@@ -12,7 +12,7 @@ use uuid::Uuid;
 ///
 /// [\[1\]]: https://stackoverflow.com/questions/10190817/guid-byte-order-in-net
 /// [\[2\]]: https://docs.microsoft.com/en-us/dotnet/api/system.guid.tobytearray?view=net-5.0#remarks
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct Guid(pub Uuid);
 
 impl Guid {
-- 
2.43.0


From 3417928479514712543a7481df1f3b3d39d70d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 15/22] fix: look up revisions by serial number independent of
 the hash order

---
 src/fsshttpb/data_element/mod.rs           | 5 +++--
 src/fsshttpb/data_element/storage_index.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 6c85c1b..16e1541 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -81,10 +81,11 @@ impl DataElementPackage {
                 storage_index
                     .cell_mappings
                     .values()
-                    .find(|mapping| mapping.id == cell)
-                    .and_then(|mapping| {
+                    .filter(|mapping| mapping.id == cell)
+                    .filter_map(|mapping| {
                         storage_index.find_revision_mapping_by_serial(&mapping.serial)
                     })
+                    .min()
             })
             .ok_or_else(|| {
                 ErrorKind::MalformedFssHttpBData("revision manifest id not found".into())
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..1e7e0ef 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -35,10 +35,11 @@ impl StorageIndex {
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
         self.revision_mappings
             .values()
-            .find(|mapping| {
+            .filter(|mapping| {
                 mapping.serial.guid == serial.guid && mapping.serial.serial == serial.serial
             })
             .map(|mapping| mapping.revision_mapping)
+            .min()
     }
 }
 
-- 
2.43.0


From 3b2e0e11e840045b0b707766841a97be41a9149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 16/22] fix: strip the section file extension only once

---
 src/onenote/section.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/onenote/section.rs b/src/onenote/section.rs
index 084d939..946fcbc 100644
--- a/src/onenote/section.rs
+++ b/src/onenote/section.rs
@@ -66,10 +66,10 @@ pub(crate) fn parse_section(store: OneStore, filename: String) -> Result<Section
     let metadata = parse_metadata(store.data_root())?;
     let content = parse_content(store.data_root())?;
 
-    let display_name = metadata
-        .display_name
-        .unwrap_or(filename)
-        .trim_end_matches(".one")
+    let display_name = metadata.display_name.unwrap_or(filename);
+    let display_name = display_name
+        .strip_suffix(".one")
+        .unwrap_or(&display_name)
         .to_string();
 
     let page_series = content
-- 
2.43.0


From 1db4b79750acea9df5fb88c485f09a46c5c89325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 17/22] fix: reject table of contents entries that contain each
 other

---
 src/onenote/notebook.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..d67aa7d 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -25,6 +25,9 @@ impl Notebook {
     }
 }
 
+/// How deeply the entries of a table of contents may be nested.
+const MAX_TOC_DEPTH: usize = 64;
+
 struct TocEntry {
     entries: Vec<(u32, String)>,
     color: Option<Color>,
@@ -35,7 +38,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
         .content_root()
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("notebook has no content root".into()))?;
 
-    let entry = parse_toc_entry(content_id, space)?;
+    let entry = parse_toc_entry(content_id, space, &mut vec![])?;
     let toc = entry
         .entries
         .into_iter()
@@ -47,7 +50,18 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
     Ok((toc, entry.color))
 }
 
-fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+fn parse_toc_entry(
+    content_id: ExGuid,
+    space: &ObjectSpace,
+    ancestors: &mut Vec<ExGuid>,
+) -> Result<TocEntry> {
+    if ancestors.len() >= MAX_TOC_DEPTH || ancestors.contains(&content_id) {
+        return Err(ErrorKind::MalformedOneNoteData(
+            "notebook entries contain each other or are nested too deeply".into(),
+        )
+        .into());
+    }
+
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
@@ -64,15 +78,19 @@ fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry>
             color: toc.color,
         })
     } else {
+        ancestors.push(content_id);
+
         let children = toc
             .children
             .into_iter()
-            .map(|content_id| parse_toc_entry(content_id, space))
+            .map(|content_id| parse_toc_entry(content_id, space, ancestors))
             .collect::<Result<Vec<_>>>()?
             .into_iter()
             .flat_map(|entry| entry.entries)
             .collect();
 
+        ancestors.pop();
+
         Ok(TocEntry {
             entries: children,
             color: toc.color,
-- 
2.43.0


From 1a48c53c0f44af01584c621f5366ac1ffa59c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 18/22] fix: do not follow a table of contents out of its
 section group

---
 src/onenote/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..917b802 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -167,6 +167,8 @@ impl Parser {
                 .unwrap_or_default();
 
             if is_toc {
+                ensure_contained(path, &entry.path())?;
+
                 return self
                     .parse_notebook(&entry.path())
                     .map(|group| SectionGroup {
@@ -237,6 +239,13 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
     }
 
     let candidate = base_dir.join(&sanitized);
+    ensure_contained(base_dir, &candidate)?;
+
+    Ok(candidate)
+}
+
+/// Check that a file or directory does not lead out of a directory through symbolic links.
+fn ensure_contained(base_dir: &Path, candidate: &Path) -> Result<()> {
     if candidate.exists() {
         let base_canon = base_dir
             .canonicalize()
@@ -256,7 +265,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
         }
     }
 
-    Ok(candidate)
+    Ok(())
 }
 
 impl Default for Parser {
-- 
2.43.0


From e17087e3d7141d029ef9325630cd89852bc5187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 19/22] fix: find the sections of a notebook in the current
 directory

---
 src/onenote/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 917b802..7394b20 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -72,6 +72,12 @@ impl Parser {
         let base_dir = path.parent().ok_or_else(|| ErrorKind::InvalidPath {
             message: "path has no parent directory".into(),
         })?;
+        // The parent of a bare file name is the current directory
+        let base_dir = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
         let (entries, color) = notebook::parse_toc(store.data_root())?;
         let entries = entries
             .iter()
-- 
2.43.0


From 3c1eb122d5bb3beec53513a30f4aff69b13a8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 20/22] fix: reject outlines that contain themselves

---
 src/onenote/outline.rs | 67 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..3b65a95 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -1,10 +1,14 @@
 use crate::errors::{ErrorKind, Result};
 use crate::fsshttpb::data::exguid::ExGuid;
+use crate::one::property::PropertyType;
 use crate::one::property::layout_alignment::LayoutAlignment;
+use crate::one::property::object_reference::ObjectReference;
 use crate::one::property_set::{PropertySetId, outline_element_node, outline_group, outline_node};
 use crate::onenote::content::{Content, parse_content};
 use crate::onenote::list::{List, parse_list};
+use crate::onestore::object::Object;
 use crate::onestore::object_space::ObjectSpace;
+use std::collections::HashMap;
 
 /// A content outline.
 ///
@@ -262,6 +266,8 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline node is missing".into()))?;
     let data = outline_node::parse(outline_object)?;
 
+    check_nesting(outline_id, space, &mut vec![], &mut HashMap::new())?;
+
     let items = data
         .children
         .into_iter()
@@ -371,3 +377,64 @@ pub(crate) fn parse_outline_element(
 
     Ok(element)
 }
+
+/// How deeply the objects of an outline may be nested.
+const MAX_OUTLINE_DEPTH: usize = 256;
+
+/// Check that no object of an outline contains itself or is nested too deeply and determine
+/// the height of the object tree.
+fn check_nesting(
+    id: ExGuid,
+    space: &ObjectSpace,
+    ancestors: &mut Vec<ExGuid>,
+    heights: &mut HashMap<ExGuid, usize>,
+) -> Result<usize> {
+    let known_height = heights.get(&id).copied();
+
+    if ancestors.len() + known_height.unwrap_or(1) > MAX_OUTLINE_DEPTH || ancestors.contains(&id) {
+        return Err(ErrorKind::MalformedOneNoteData(
+            "outline objects contain each other or are nested too deeply".into(),
+        )
+        .into());
+    }
+
+    if let Some(height) = known_height {
+        return Ok(height);
+    }
+
+    let mut height = 1;
+
+    if let Some(object) = space.get_object(id) {
+        ancestors.push(id);
+
+        for property in child_properties(object) {
+            for child_id in ObjectReference::parse_vec(*property, object)?.unwrap_or_default() {
+                height = height.max(1 + check_nesting(child_id, space, ancestors, heights)?);
+            }
+        }
+
+        ancestors.pop();
+    }
+
+    heights.insert(id, height);
+
+    Ok(height)
+}
+
+/// The properties that refer to the outline objects contained in an object.
+fn child_properties(object: &Object) -> &'static [PropertyType] {
+    match PropertySetId::from_jcid(object.id()) {
+        Some(
+            PropertySetId::OutlineNode
+            | PropertySetId::OutlineGroup
+            | PropertySetId::TableNode
+            | PropertySetId::TableRowNode
+            | PropertySetId::TableCellNode,
+        ) => &[PropertyType::ElementChildNodes],
+        Some(PropertySetId::OutlineElementNode) => &[
+            PropertyType::ElementChildNodes,
+            PropertyType::ContentChildNodes,
+        ],
+        _ => &[],
+    }
+}
-- 
2.43.0


From 2ba13608c3ed3d5c919b64eba8205c02e2b735b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 21/22] verif: entry points to private decoders, behind
 cfg(onenote_verif)

---
 src/lib.rs   |   4 ++
 src/verif.rs | 136 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 140 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 36acd07..83933a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,6 +66,7 @@
 #![warn(missing_docs)]
 #![deny(unused_must_use)]
 #![cfg_attr(feature = "backtrace", feature(error_generic_member_access))]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 mod macros;
@@ -78,6 +79,9 @@ mod onestore;
 mod reader;
 mod shared;
 mod utils;
+#[cfg(onenote_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 pub(crate) type Reader<'a, 'b> = &'b mut reader::Reader<'a>;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..888aeb1
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,136 @@
+//! Entry points to private decoders for the verification harness.
+//!
+//! Only compiled with `--cfg onenote_verif`. Every function decodes from the start of `data` and
+//! returns the decoded value and the number of bytes used, or `None` for an error.
+
+#![allow(missing_docs)]
+
+use crate::fsshttpb::data::cell_id::CellId;
+use crate::fsshttpb::data::compact_u64::CompactU64;
+use crate::fsshttpb::data::exguid::ExGuid;
+use crate::fsshttpb::data::object_types::ObjectType;
+use crate::fsshttpb::data::serial_number::SerialNumber;
+use crate::fsshttpb::data::stream_object::ObjectHeader;
+use crate::reader::Reader;
+use crate::shared::guid::Guid;
+use crate::shared::multi_byte;
+use num_traits::FromPrimitive;
+
+type Decoded<T> = Option<(T, usize)>;
+type Id = ([u8; 16], u32);
+
+fn run<T>(
+    data: &[u8],
+    decode: impl FnOnce(crate::Reader) -> crate::errors::Result<T>,
+) -> Decoded<T> {
+    let mut reader = Reader::new(data);
+    let value = decode(&mut reader).ok()?;
+
+    Some((value, data.len() - reader.remaining()))
+}
+
+fn id(value: ExGuid) -> Id {
+    (*value.guid.0.as_bytes(), value.value)
+}
+
+pub fn compact_u64(data: &[u8]) -> Decoded<u64> {
+    run(data, |r| Ok(CompactU64::parse(r)?.value()))
+}
+
+/// Fixed width integers and floats (as bits), by their width in bytes; 0 stands for a float.
+pub fn fixed(data: &[u8], width: usize) -> Decoded<u128> {
+    run(data, |r| {
+        Ok(match width {
+            0 => r.get_f32()?.to_bits() as u128,
+            1 => r.get_u8()? as u128,
+            2 => r.get_u16()? as u128,
+            4 => r.get_u32()? as u128,
+            8 => r.get_u64()? as u128,
+            _ => r.get_u128()?,
+        })
+    })
+}
+
+pub fn guid(data: &[u8]) -> Decoded<[u8; 16]> {
+    run(data, |r| Ok(*Guid::parse(r)?.0.as_bytes()))
+}
+
+pub fn guid_text(data: &[u8]) -> Decoded<String> {
+    run(data, |r| Ok(Guid::parse(r)?.to_string()))
+}
+
+pub fn guid_from_text(text: &str) -> Option<[u8; 16]> {
+    Guid::from_str(text).ok().map(|guid| *guid.0.as_bytes())
+}
+
+pub fn ex_guid(data: &[u8]) -> Decoded<Id> {
+    run(data, |r| ExGuid::parse(r).map(id))
+}
+
+pub fn ex_guids(data: &[u8]) -> Decoded<Vec<Id>> {
+    run(data, |r| {
+        Ok(ExGuid::parse_array(r)?.into_iter().map(id).collect())
+    })
+}
+
+pub fn cell_id(data: &[u8]) -> Decoded<(Id, Id)> {
+    run(data, |r| CellId::parse(r).map(|c| (id(c.0), id(c.1))))
+}
+
+pub fn cell_ids(data: &[u8]) -> Decoded<Vec<(Id, Id)>> {
+    run(data, |r| {
+        Ok(CellId::parse_array(r)?
+            .into_iter()
+            .map(|c| (id(c.0), id(c.1)))
+            .collect())
+    })
+}
+
+pub fn serial_number(data: &[u8]) -> Decoded<([u8; 16], u64)> {
+    run(data, |r| {
+        SerialNumber::parse(r).map(|s| (*s.guid.0.as_bytes(), s.serial))
+    })
+}
+
+/// A stream object header of 16 or 32 bits, or of either width (0): type, compound flag, length.
+pub fn header(data: &[u8], bits: u32) -> Decoded<(u64, bool, u64)> {
+    run(data, |r| {
+        let header = match bits {
+            16 => ObjectHeader::parse_16(r)?,
+            _ => ObjectHeader::parse(r)?,
+        };
+
+        Ok((
+            header.object_type as u64,
+            header.compound,
+            header.length as u64,
+        ))
+    })
+}
+
+/// Expect a header of the type, in the given width (0: either, 8 and 16 with `end`: an end header).
+pub fn expect(data: &[u8], kind: u64, bits: u32, end: bool) -> Decoded<()> {
+    let kind = ObjectType::from_u64(kind)?;
+
+    run(data, |r| match (bits, end) {
+        (8, _) => ObjectHeader::try_parse_end_8(r, kind),
+        (16, true) => ObjectHeader::try_parse_end_16(r, kind),
+        (16, false) => ObjectHeader::try_parse_16(r, kind),
+        (32, _) => ObjectHeader::try_parse_32(r, kind),
+        _ => ObjectHeader::try_parse(r, kind),
+    })
+}
+
+/// Whether an end header of the type comes next.
+pub fn has_end(data: &[u8], kind: u64, bits: u32) -> Decoded<bool> {
+    let kind = ObjectType::from_u64(kind)?;
+
+    run(data, |r| match bits {
+        8 => ObjectHeader::has_end_8(r, kind),
+        _ => ObjectHeader::has_end_16(r, kind),
+    })
+}
+
+pub fn multi_byte_signed(data: &[u8]) -> Option<Vec<i64>> {
+    multi_byte::decode_signed(data).ok()
+}
-- 
2.43.0


From 9c0d573b5dd45034274490cbf51d2f396dafa041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:05 +0000
Subject: [PATCH 22/22] fix: reject property sets that are nested too deeply

---
 src/onestore/types/prop_set.rs | 25 +++++++++++++++++++++++--
 src/onestore/types/property.rs | 18 ++++++++++++++----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..3c5c5c0 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,13 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// How deep property sets may be nested in each other.
+///
+/// Property sets that are nested any deeper are rejected as they could exhaust the stack.
+const MAX_PROPERTY_SET_DEPTH: usize = 64;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +20,17 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        Self::parse_nested(reader, 0)
+    }
+
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_PROPERTY_SET_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +40,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..ea5af3b 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,17 @@ impl PropertyValue {
     //     }
     // }
 
+    #[cfg(test)]
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        Self::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse a property value of a property set that is nested `depth` property sets deep.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +144,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth + 1))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0

