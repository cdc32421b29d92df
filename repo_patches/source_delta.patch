From a56370c802cee155694e6aa5c60e07a2fd83c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 01/25] fix: report a cyclic revision chain as an error instead
 of looping forever

---
 src/onestore/object_space.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..6874084 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -81,8 +81,16 @@ impl<'a, 'b> ObjectSpace<'a> {
         let mut roots = HashMap::new();
 
         let mut rev_id = Some(revision_manifest_id);
+        let mut visited = HashSet::new();
 
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(ErrorKind::MalformedOneStoreData(
+                    "revision chain contains a cycle".into(),
+                )
+                .into());
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From 6b7516674a191172a78f02e60de35ce12ad5e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 02/25] fix: let the newest revision win when several revisions
 declare a root

---
 src/onestore/revision.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..e5fca76 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -58,13 +58,13 @@ impl<'a, 'b> Revision<'a> {
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        // Revisions are visited from newest to oldest so a root that is already known
+        // must not be overridden by an older revision.
+        for root in revision_manifest.root_declare.iter() {
+            roots
+                .entry(RevisionRole::parse(root.root_id)?)
+                .or_insert(root.object_id);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 39b4364458862b9f43ecb1cd0bfd3bf455031d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 03/25] fix: read the vertical ink scaling factor from its own
 property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From 0fddd0704f34c8e838dd8663b4ae2d774b5cda00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 04/25] fix: report missing embedded object references instead
 of panicking

---
 src/onenote/rich_text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..2001dc6 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,18 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let object_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteData(
+                                "embedded object has no object reference".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(object_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From 229a5e0224997608a0d112d6dc5bc33983cc2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 05/25] fix: do not panic on an empty number list format

---
 src/one/property_set/number_list_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..d533cfc 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -64,7 +64,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
 }
 
 fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+    decode_utf16(data.into_iter().skip(1))
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
         .collect()
 }
-- 
2.43.0


From 8f22004a28e8320362c15b7d830e4c27b943a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 06/25] fix: report cyclic, too deep or excessively shared
 content instead of exhausting the stack

---
 src/onenote/content.rs       |  9 +++++--
 src/onenote/mod.rs           |  1 +
 src/onenote/nesting.rs       | 51 ++++++++++++++++++++++++++++++++++++
 src/onenote/notebook.rs      | 11 +++++---
 src/onenote/outline.rs       | 33 ++++++++++++++++-------
 src/onenote/table.rs         | 19 +++++++++-----
 src/onestore/object_space.rs |  4 +++
 7 files changed, 107 insertions(+), 21 deletions(-)
 create mode 100644 src/onenote/nesting.rs

diff --git a/src/onenote/content.rs b/src/onenote/content.rs
index 3e07842..40dfcf9 100644
--- a/src/onenote/content.rs
+++ b/src/onenote/content.rs
@@ -4,6 +4,7 @@ use crate::one::property_set::PropertySetId;
 use crate::onenote::embedded_file::{EmbeddedFile, parse_embedded_file};
 use crate::onenote::image::{Image, parse_image};
 use crate::onenote::ink::{Ink, parse_ink};
+use crate::onenote::nesting::Nesting;
 use crate::onenote::rich_text::{RichText, parse_rich_text};
 use crate::onenote::table::{Table, parse_table};
 use crate::onestore::object_space::ObjectSpace;
@@ -77,7 +78,11 @@ impl Content {
     }
 }
 
-pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<Content> {
+pub(crate) fn parse_content(
+    content_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: &mut Nesting,
+) -> Result<Content> {
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
@@ -94,7 +99,7 @@ pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<C
             Content::EmbeddedFile(parse_embedded_file(content_id, space)?)
         }
         PropertySetId::RichTextNode => Content::RichText(parse_rich_text(content_id, space)?),
-        PropertySetId::TableNode => Content::Table(parse_table(content_id, space)?),
+        PropertySetId::TableNode => Content::Table(parse_table(content_id, space, nesting)?),
         PropertySetId::InkContainer => Content::Ink(parse_ink(content_id, space)?),
         _ => Content::Unknown,
     };
diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..726b551 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -17,6 +17,7 @@ pub(crate) mod image;
 pub(crate) mod ink;
 pub(crate) mod list;
 pub(crate) mod math_inline_object;
+pub(crate) mod nesting;
 pub(crate) mod note_tag;
 pub(crate) mod notebook;
 pub(crate) mod outline;
diff --git a/src/onenote/nesting.rs b/src/onenote/nesting.rs
new file mode 100644
index 0000000..be9da71
--- /dev/null
+++ b/src/onenote/nesting.rs
@@ -0,0 +1,51 @@
+use crate::errors::{ErrorKind, Result};
+use crate::onestore::object_space::ObjectSpace;
+
+/// The maximum depth of nested content.
+const MAX_DEPTH: usize = 64;
+
+/// The number of visits that are always allowed, and the additional number per object.
+const MIN_VISITS: usize = 1024;
+const MAX_VISITS_PER_OBJECT: usize = 16;
+
+/// Keeps track of the nesting of objects that can contain each other.
+///
+/// Such objects form a tree in a valid file. In a malformed file however they may reference
+/// themselves or be nested so deeply (or be shared so often) that following all references
+/// is not feasible. This turns such cases into errors.
+pub(crate) struct Nesting {
+    depth: usize,
+    remaining: usize,
+}
+
+impl Nesting {
+    pub(crate) fn new(space: &ObjectSpace) -> Nesting {
+        Nesting {
+            depth: 0,
+            remaining: space
+                .object_count()
+                .saturating_mul(MAX_VISITS_PER_OBJECT)
+                .saturating_add(MIN_VISITS),
+        }
+    }
+
+    /// Run `parse` for an object that is nested inside the current one.
+    pub(crate) fn enter<T>(&mut self, parse: impl FnOnce(&mut Nesting) -> Result<T>) -> Result<T> {
+        if self.depth == MAX_DEPTH {
+            return Err(ErrorKind::MalformedOneNoteData(
+                "content is nested too deeply or references itself".into(),
+            )
+            .into());
+        }
+
+        self.remaining = self.remaining.checked_sub(1).ok_or_else(|| {
+            ErrorKind::MalformedOneNoteData("content is referenced too often".into())
+        })?;
+
+        self.depth += 1;
+        let result = parse(self);
+        self.depth -= 1;
+
+        result
+    }
+}
diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..a898ff9 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -1,6 +1,7 @@
 use crate::errors::{ErrorKind, Result};
 use crate::fsshttpb::data::exguid::ExGuid;
 use crate::one::property_set::toc_container;
+use crate::onenote::nesting::Nesting;
 use crate::onenote::section::SectionEntry;
 use crate::onestore::object_space::ObjectSpace;
 use crate::property::common::Color;
@@ -35,7 +36,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
         .content_root()
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("notebook has no content root".into()))?;
 
-    let entry = parse_toc_entry(content_id, space)?;
+    let entry = parse_toc_entry(content_id, space, &mut Nesting::new(space))?;
     let toc = entry
         .entries
         .into_iter()
@@ -47,7 +48,11 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
     Ok((toc, entry.color))
 }
 
-fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+fn parse_toc_entry(
+    content_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: &mut Nesting,
+) -> Result<TocEntry> {
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
@@ -67,7 +72,7 @@ fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry>
         let children = toc
             .children
             .into_iter()
-            .map(|content_id| parse_toc_entry(content_id, space))
+            .map(|content_id| nesting.enter(|nesting| parse_toc_entry(content_id, space, nesting)))
             .collect::<Result<Vec<_>>>()?
             .into_iter()
             .flat_map(|entry| entry.entries)
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..b3c3fae 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -4,6 +4,7 @@ use crate::one::property::layout_alignment::LayoutAlignment;
 use crate::one::property_set::{PropertySetId, outline_element_node, outline_group, outline_node};
 use crate::onenote::content::{Content, parse_content};
 use crate::onenote::list::{List, parse_list};
+use crate::onenote::nesting::Nesting;
 use crate::onestore::object_space::ObjectSpace;
 
 /// A content outline.
@@ -262,10 +263,11 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline node is missing".into()))?;
     let data = outline_node::parse(outline_object)?;
 
+    let mut nesting = Nesting::new(space);
     let items = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, &mut nesting))
         .collect::<Result<_>>()?;
 
     let outline = Outline {
@@ -287,7 +289,11 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
     Ok(outline)
 }
 
-fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineItem> {
+fn parse_outline_item(
+    item_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: &mut Nesting,
+) -> Result<OutlineItem> {
     let content_type = space
         .get_object(item_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline item is missing".into()))?
@@ -299,10 +305,12 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     })?;
 
     let item = match id {
-        PropertySetId::OutlineGroup => OutlineItem::Group(parse_outline_group(item_id, space)?),
-        PropertySetId::OutlineElementNode => {
-            OutlineItem::Element(parse_outline_element(item_id, space)?)
-        }
+        PropertySetId::OutlineGroup => OutlineItem::Group(
+            nesting.enter(|nesting| parse_outline_group(item_id, space, nesting))?,
+        ),
+        PropertySetId::OutlineElementNode => OutlineItem::Element(
+            nesting.enter(|nesting| parse_outline_element(item_id, space, nesting))?,
+        ),
         _ => {
             return Err(ErrorKind::MalformedOneNoteData(
                 format!("invalid outline item type: {:?}", id).into(),
@@ -314,7 +322,11 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     Ok(item)
 }
 
-fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineGroup> {
+fn parse_outline_group(
+    group_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: &mut Nesting,
+) -> Result<OutlineGroup> {
     let group_object = space
         .get_object(group_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline group is missing".into()))?;
@@ -323,7 +335,7 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
     let outlines = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let group = OutlineGroup {
@@ -337,6 +349,7 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
 pub(crate) fn parse_outline_element(
     element_id: ExGuid,
     space: &ObjectSpace,
+    nesting: &mut Nesting,
 ) -> Result<OutlineElement> {
     let element_object = space
         .get_object(element_id)
@@ -346,13 +359,13 @@ pub(crate) fn parse_outline_element(
     let children = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let contents = data
         .contents
         .into_iter()
-        .map(|content_id| parse_content(content_id, space))
+        .map(|content_id| parse_content(content_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let list_contents = data
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..5c2cdbe 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -4,6 +4,7 @@ use crate::one::property::color::Color;
 use crate::one::property::layout_alignment::LayoutAlignment;
 use crate::one::property::outline_indent_distance::OutlineIndentDistance;
 use crate::one::property_set::{table_cell_node, table_node, table_row_node};
+use crate::onenote::nesting::Nesting;
 use crate::onenote::note_tag::{NoteTag, parse_note_tags};
 use crate::onenote::outline::{OutlineElement, parse_outline_element};
 use crate::onestore::object_space::ObjectSpace;
@@ -164,7 +165,11 @@ impl TableCell {
     }
 }
 
-pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table> {
+pub(crate) fn parse_table(
+    table_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: &mut Nesting,
+) -> Result<Table> {
     let table_object = space
         .get_object(table_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("table object is missing".into()))?;
@@ -173,7 +178,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     let contents = data
         .rows
         .into_iter()
-        .map(|row_id| parse_row(row_id, space))
+        .map(|row_id| parse_row(row_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let table = Table {
@@ -191,7 +196,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     Ok(table)
 }
 
-fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
+fn parse_row(row_id: ExGuid, space: &ObjectSpace, nesting: &mut Nesting) -> Result<TableRow> {
     let row_object = space
         .get_object(row_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("row object is missing".into()))?;
@@ -200,7 +205,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     let contents = data
         .cells
         .into_iter()
-        .map(|cell_id| parse_cell(cell_id, space))
+        .map(|cell_id| parse_cell(cell_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let row = TableRow { contents };
@@ -208,7 +213,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     Ok(row)
 }
 
-fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
+fn parse_cell(cell_id: ExGuid, space: &ObjectSpace, nesting: &mut Nesting) -> Result<TableCell> {
     let cell_object = space
         .get_object(cell_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("cell object is missing".into()))?;
@@ -217,7 +222,9 @@ fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
     let contents = data
         .contents
         .into_iter()
-        .map(|element_id| parse_outline_element(element_id, space))
+        .map(|element_id| {
+            nesting.enter(|nesting| parse_outline_element(element_id, space, nesting))
+        })
         .collect::<Result<_>>()?;
 
     let cell = TableCell {
diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 6874084..de30239 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -32,6 +32,10 @@ impl<'a, 'b> ObjectSpace<'a> {
         self.objects.get(&id)
     }
 
+    pub(crate) fn object_count(&self) -> usize {
+        self.objects.len()
+    }
+
     pub(crate) fn content_root(&self) -> Option<ExGuid> {
         self.roots.get(&RevisionRole::DefaultContent).copied()
     }
-- 
2.43.0


From 5cb0cbae756aaf47d565c71fb3ea826fd14a2b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 07/25] fix: limit the nesting of property sets instead of
 exhausting the stack

---
 src/onestore/types/prop_set.rs | 24 ++++++++++++++++++++++--
 src/onestore/types/property.rs | 18 ++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..5d3abc1 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// The maximum depth of property sets that are nested inside each other.
+const MAX_DEPTH: usize = 64;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,18 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        Self::parse_nested(reader, 0)
+    }
+
+    /// Parse a property set that is nested inside `depth` other property sets.
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +39,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..0762b2e 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,17 @@ impl PropertyValue {
     //     }
     // }
 
+    #[cfg(test)]
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        Self::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse a property value of a property set with the specified nesting depth.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +144,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth + 1)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From dbef17a663e2251ef1914c441e2642bdafc27406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 08/25] fix: count the references of nested property sets when
 locating later references

---
 src/one/property/object_reference.rs       | 1 +
 src/one/property/object_space_reference.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..3acf2f7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -80,6 +80,7 @@ impl ObjectReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..60a8182 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -61,6 +61,7 @@ impl ObjectSpaceReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
-- 
2.43.0


From f665f831deb1376c328a399b064381b5f5580bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 09/25] fix: resolve object space references by their index in
 the whole stream

---
 src/one/property/object_space_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 60a8182..25b4e4d 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,7 +39,7 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
+            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
 
         Ok(Some(object_space_ids))
-- 
2.43.0


From a92c709db57b0902a29918793b181ebb07d53759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 10/25] fix: resolve the references of each nested property set
 from its own part of the streams

---
 src/one/property/mod.rs                    |  2 +-
 src/one/property/references.rs             | 64 +++++++++++++++++++++
 src/one/property_set/note_tag_container.rs | 65 ++--------------------
 src/one/property_set/text_run_data.rs      | 63 ++-------------------
 src/onestore/mapping_table.rs              | 31 +++++++++++
 5 files changed, 106 insertions(+), 119 deletions(-)

diff --git a/src/one/property/mod.rs b/src/one/property/mod.rs
index 9b89f91..6a689a8 100644
--- a/src/one/property/mod.rs
+++ b/src/one/property/mod.rs
@@ -19,7 +19,7 @@ pub(crate) mod object_space_reference;
 pub(crate) mod outline_indent_distance;
 pub(crate) mod page_size;
 pub(crate) mod paragraph_alignment;
-mod references;
+pub(crate) mod references;
 pub(crate) mod simple;
 pub(crate) mod time;
 
diff --git a/src/one/property/references.rs b/src/one/property/references.rs
index 1df7c36..cb3ffb3 100644
--- a/src/one/property/references.rs
+++ b/src/one/property/references.rs
@@ -1,6 +1,12 @@
 use crate::errors::{ErrorKind, Result};
 use crate::one::property::PropertyType;
+use crate::one::property::object_reference::ObjectReference;
+use crate::one::property::object_space_reference::ObjectSpaceReference;
 use crate::onestore::object::Object;
+use crate::onestore::types::compact_id::CompactId;
+use crate::onestore::types::jcid::JcId;
+use crate::onestore::types::object_prop_set::ObjectPropSet;
+use crate::onestore::types::prop_set::PropertySet;
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 
 pub(crate) struct References;
@@ -29,4 +35,62 @@ impl References {
 
         Ok(predecessors)
     }
+
+    /// Turn the property sets that are stored in a property into objects of their own.
+    ///
+    /// The references of the property sets are stored one after another in the reference streams
+    /// of the containing object.
+    pub(crate) fn get_nested_objects<'a>(
+        prop_type: PropertyType,
+        object: &Object<'a>,
+        id: PropertyId,
+        prop_sets: &[PropertySet],
+    ) -> Result<Vec<Object<'a>>> {
+        let mut object_offset = ObjectReference::get_offset(prop_type, object)?;
+        let mut object_space_offset = ObjectSpaceReference::get_offset(prop_type, object)?;
+
+        let objects = prop_sets
+            .iter()
+            .map(|props| {
+                let object_count = ObjectReference::count_references(props.values());
+                let object_space_count = ObjectSpaceReference::count_references(props.values());
+
+                let object_ids =
+                    Self::get_range(object.props().object_ids(), object_offset, object_count);
+                let object_space_ids = Self::get_range(
+                    object.props().object_space_ids(),
+                    object_space_offset,
+                    object_space_count,
+                );
+                let mapping = object.mapping().slice(
+                    object_offset,
+                    &object_ids,
+                    object_space_offset,
+                    &object_space_ids,
+                );
+
+                object_offset += object_count;
+                object_space_offset += object_space_count;
+
+                Object {
+                    context_id: object.context_id(),
+                    jc_id: JcId(id.value()),
+                    props: ObjectPropSet {
+                        object_ids,
+                        object_space_ids,
+                        context_ids: vec![],
+                        properties: props.clone(),
+                    },
+                    file_data: None,
+                    mapping,
+                }
+            })
+            .collect();
+
+        Ok(objects)
+    }
+
+    fn get_range(ids: &[CompactId], offset: usize, count: usize) -> Vec<CompactId> {
+        ids.iter().skip(offset).take(count).copied().collect()
+    }
 }
diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..833beb9 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -3,14 +3,9 @@ use crate::fsshttpb::data::exguid::ExGuid;
 use crate::one::property::PropertyType;
 use crate::one::property::note_tag::ActionItemStatus;
 use crate::one::property::object_reference::ObjectReference;
-use crate::one::property::object_space_reference::ObjectSpaceReference;
+use crate::one::property::references::References;
 use crate::one::property::time::Time;
 use crate::onestore::object::Object;
-use crate::onestore::types::compact_id::CompactId;
-use crate::onestore::types::jcid::JcId;
-use crate::onestore::types::object_prop_set::ObjectPropSet;
-use crate::onestore::types::prop_set::PropertySet;
-use crate::onestore::types::property::PropertyId;
 
 /// A note tag state container.
 ///
@@ -37,15 +32,11 @@ impl Data {
             None => return Ok(None),
         };
 
-        let data = prop_sets
-            .iter()
-            .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
-                let data = Self::parse_data(object)?;
-
-                Ok(data)
-            })
-            .collect::<Result<Vec<_>>>()?;
+        let data =
+            References::get_nested_objects(PropertyType::NoteTags, object, prop_id, prop_sets)?
+                .into_iter()
+                .map(Self::parse_data)
+                .collect::<Result<Vec<_>>>()?;
 
         Ok(Some(data))
     }
@@ -70,48 +61,4 @@ impl Data {
             item_status,
         })
     }
-
-    fn parse_object<'a>(
-        object: &'a Object,
-        id: PropertyId,
-        props: &PropertySet,
-    ) -> Result<Object<'a>> {
-        Ok(Object {
-            context_id: object.context_id,
-            jc_id: JcId(id.value()),
-            props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
-                context_ids: vec![],
-                properties: props.clone(),
-            },
-            file_data: None,
-            mapping: object.mapping.clone(),
-        })
-    }
-
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
-            .props
-            .object_ids
-            .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
-            .take(ObjectReference::count_references(props.values()))
-            .copied()
-            .collect())
-    }
-
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
-            .props
-            .object_ids
-            .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
-            .take(ObjectSpaceReference::count_references(props.values()))
-            .copied()
-            .collect())
-    }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..76633c9 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -1,15 +1,9 @@
 use crate::errors::{ErrorKind, Result};
 use crate::one::property::PropertyType;
-use crate::one::property::object_reference::ObjectReference;
-use crate::one::property::object_space_reference::ObjectSpaceReference;
+use crate::one::property::references::References;
 use crate::onestore::object::Object;
-use crate::onestore::types::compact_id::CompactId;
-use crate::onestore::types::jcid::JcId;
-use crate::onestore::types::object_prop_set::ObjectPropSet;
-use crate::onestore::types::prop_set::PropertySet;
-use crate::onestore::types::property::PropertyId;
 
-pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
+pub(crate) fn parse<'a>(object: &Object<'a>) -> Result<Option<Vec<Object<'a>>>> {
     let (prop_id, prop_sets) = match object.props().get(PropertyType::TextRunData) {
         Some(value) => value.to_property_values().ok_or_else(|| {
             ErrorKind::MalformedOneNoteFileData(
@@ -19,57 +13,8 @@ pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
         None => return Ok(None),
     };
 
-    let data = prop_sets
-        .iter()
-        .map(|props| parse_object(object, prop_id, props))
-        .collect::<Result<Vec<_>>>()?;
+    let data =
+        References::get_nested_objects(PropertyType::TextRunData, object, prop_id, prop_sets)?;
 
     Ok(Some(data))
 }
-
-fn parse_object<'a>(
-    object: &'a Object,
-    prop_id: PropertyId,
-    props: &PropertySet,
-) -> Result<Object<'a>> {
-    Ok(Object {
-        context_id: object.context_id,
-        jc_id: JcId(prop_id.value()),
-        props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
-            context_ids: vec![],
-            properties: props.clone(),
-        },
-        file_data: None,
-        mapping: object.mapping.clone(),
-    })
-}
-
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
-        .props
-        .object_ids
-        .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
-        .take(ObjectReference::count_references(props.values()))
-        .copied()
-        .collect())
-}
-
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
-        .props
-        .object_ids
-        .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
-        .take(ObjectSpaceReference::count_references(props.values()))
-        .copied()
-        .collect())
-}
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..671ab07 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -44,6 +44,37 @@ impl MappingTable {
         }
     }
 
+    /// Create the mapping table for a range of the object's reference streams.
+    ///
+    /// The `object_offset` and `object_space_offset` are the positions of `objects` and
+    /// `object_spaces` in their streams.
+    pub(crate) fn slice(
+        &self,
+        object_offset: usize,
+        objects: &[CompactId],
+        object_space_offset: usize,
+        object_spaces: &[CompactId],
+    ) -> MappingTable {
+        let mut objects_map: HashMap<CompactId, Vec<(usize, ExGuid)>> = HashMap::new();
+        for (i, cid) in objects.iter().enumerate() {
+            if let Some(id) = self.get_object(object_offset + i, *cid) {
+                objects_map.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        let mut object_spaces_map: HashMap<CompactId, Vec<(usize, CellId)>> = HashMap::new();
+        for (i, cid) in object_spaces.iter().enumerate() {
+            if let Some(id) = self.get_object_space(object_space_offset + i, *cid) {
+                object_spaces_map.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        MappingTable {
+            objects: objects_map,
+            object_spaces: object_spaces_map,
+        }
+    }
+
     pub(crate) fn get_object(&self, index: usize, cid: CompactId) -> Option<ExGuid> {
         self.get(index, cid, &self.objects)
     }
-- 
2.43.0


From 17cddcf5f142a4ae121db4f4d35e3c43d7e6978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 11/25] fix: parse a notebook that is given by its bare file
 name

---
 src/onenote/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 726b551..91f2bad 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -73,6 +73,12 @@ impl Parser {
         let base_dir = path.parent().ok_or_else(|| ErrorKind::InvalidPath {
             message: "path has no parent directory".into(),
         })?;
+        // The parent of a bare file name is an empty path which cannot be resolved
+        let base_dir = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
         let (entries, color) = notebook::parse_toc(store.data_root())?;
         let entries = entries
             .iter()
-- 
2.43.0


From 53840d5e1df09326ce744b57d478f7ffca9eabef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 12/25] fix: only remove the section extension once and only
 from file names

---
 src/onenote/section.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/onenote/section.rs b/src/onenote/section.rs
index 084d939..1921f1a 100644
--- a/src/onenote/section.rs
+++ b/src/onenote/section.rs
@@ -66,11 +66,12 @@ pub(crate) fn parse_section(store: OneStore, filename: String) -> Result<Section
     let metadata = parse_metadata(store.data_root())?;
     let content = parse_content(store.data_root())?;
 
-    let display_name = metadata
-        .display_name
-        .unwrap_or(filename)
-        .trim_end_matches(".one")
-        .to_string();
+    let display_name = metadata.display_name.unwrap_or_else(|| {
+        filename
+            .strip_suffix(".one")
+            .unwrap_or(&filename)
+            .to_string()
+    });
 
     let page_series = content
         .page_series
-- 
2.43.0


From 8a85d7ece8e903f08e80676b8c66137d7070df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 13/25] fix: do not let the directory order select the table of
 contents of a section group

---
 src/onenote/mod.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 91f2bad..3999b36 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -165,28 +165,33 @@ impl Parser {
             .to_string_lossy()
             .to_string();
 
+        let mut toc_paths = vec![];
         for entry in path.read_dir()? {
-            let entry = entry?;
-            let is_toc = entry
-                .path()
+            let toc_path = entry?.path();
+            let is_toc = toc_path
                 .extension()
                 .map(|ext| ext == OsStr::new("onetoc2"))
                 .unwrap_or_default();
 
             if is_toc {
-                return self
-                    .parse_notebook(&entry.path())
-                    .map(|group| SectionGroup {
-                        display_name,
-                        entries: group.entries,
-                    });
+                toc_paths.push(toc_path);
             }
         }
 
-        Err(ErrorKind::TocFileMissing {
-            dir: path.as_os_str().to_string_lossy().into_owned(),
-        }
-        .into())
+        // The order of directory entries is arbitrary so don't let it decide which file is used
+        let toc_path = toc_paths
+            .into_iter()
+            .min()
+            .ok_or_else(|| ErrorKind::TocFileMissing {
+                dir: path.as_os_str().to_string_lossy().into_owned(),
+            })?;
+
+        let group = self.parse_notebook(&toc_path)?;
+
+        Ok(SectionGroup {
+            display_name,
+            entries: group.entries,
+        })
     }
 
     fn read(file: File) -> Result<Vec<u8>> {
-- 
2.43.0


From d073bcd1d231f9763a92b0d3d7699a0cc99cdaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 14/25] fix: refuse a section group whose table of contents is
 located outside the group

---
 src/onenote/mod.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 3999b36..c0b572f 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -186,6 +186,8 @@ impl Parser {
                 dir: path.as_os_str().to_string_lossy().into_owned(),
             })?;
 
+        ensure_contained(path, &toc_path)?;
+
         let group = self.parse_notebook(&toc_path)?;
 
         Ok(SectionGroup {
@@ -250,27 +252,34 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
 
     let candidate = base_dir.join(&sanitized);
     if candidate.exists() {
-        let base_canon = base_dir
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve base directory: {err}").into(),
-            })?;
-        let candidate_canon = candidate
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve entry path: {err}").into(),
-            })?;
-        if !candidate_canon.starts_with(&base_canon) {
-            return Err(ErrorKind::InvalidPath {
-                message: "section entry escapes base directory".into(),
-            }
-            .into());
-        }
+        ensure_contained(base_dir, &candidate)?;
     }
 
     Ok(candidate)
 }
 
+/// Make sure that a path is located inside the base directory after resolving symbolic links.
+fn ensure_contained(base_dir: &Path, candidate: &Path) -> Result<()> {
+    let base_canon = base_dir
+        .canonicalize()
+        .map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve base directory: {err}").into(),
+        })?;
+    let candidate_canon = candidate
+        .canonicalize()
+        .map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve entry path: {err}").into(),
+        })?;
+    if !candidate_canon.starts_with(&base_canon) {
+        return Err(ErrorKind::InvalidPath {
+            message: "section entry escapes base directory".into(),
+        }
+        .into());
+    }
+
+    Ok(())
+}
+
 impl Default for Parser {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 6eea33bcc6d3ff2e9a6377e8b3ec5cb993644af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 15/25] fix: refuse section groups that link back to their own
 directory

---
 src/onenote/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index c0b572f..6dab05b 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -276,6 +276,13 @@ fn ensure_contained(base_dir: &Path, candidate: &Path) -> Result<()> {
         }
         .into());
     }
+    // A link back to the base directory would be followed over and over again
+    if candidate_canon == base_canon {
+        return Err(ErrorKind::InvalidPath {
+            message: "section entry refers to its own base directory".into(),
+        }
+        .into());
+    }
 
     Ok(())
 }
-- 
2.43.0


From 233ea2787f78d41b80639cc6790a9c6573ea124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 16/25] fix: report I/O errors while looking up notebook
 entries instead of skipping the entries

---
 src/onenote/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 6dab05b..3addae7 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -84,19 +84,19 @@ impl Parser {
             .iter()
             .map(|name| resolve_entry_path(base_dir, name))
             .collect::<Result<Vec<_>>>()?;
-        let sections = entries
-            .into_iter()
-            .filter(|p| p.exists())
-            .filter(|p| !p.ends_with("OneNote_RecycleBin"))
-            .map(|path| {
-                if path.is_file() {
-                    self.parse_section(&path).map(SectionEntry::Section)
-                } else {
-                    self.parse_section_group(&path)
-                        .map(SectionEntry::SectionGroup)
-                }
-            })
-            .collect::<Result<_>>()?;
+        let mut sections = vec![];
+        for path in entries {
+            if path.ends_with("OneNote_RecycleBin") || !path.try_exists()? {
+                continue;
+            }
+
+            let section = if path.metadata()?.is_file() {
+                SectionEntry::Section(self.parse_section(&path)?)
+            } else {
+                SectionEntry::SectionGroup(self.parse_section_group(&path)?)
+            };
+            sections.push(section);
+        }
 
         Ok(Notebook {
             entries: sections,
@@ -251,7 +251,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
     }
 
     let candidate = base_dir.join(&sanitized);
-    if candidate.exists() {
+    if candidate.try_exists()? {
         ensure_contained(base_dir, &candidate)?;
     }
 
-- 
2.43.0


From 4449ce45f5c1ac8409a96640ceebb40fa2070024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 17/25] fix: reject truncated and oversized integers in packed
 ink data

---
 src/shared/multi_byte.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/shared/multi_byte.rs b/src/shared/multi_byte.rs
index ce18f21..46f94ba 100644
--- a/src/shared/multi_byte.rs
+++ b/src/shared/multi_byte.rs
@@ -75,12 +75,19 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
         }
 
         let flag = byte & 0x80 == 0x80;
-        value |= (*byte as u64 & 0x7F) << shift;
+        let bits = *byte as u64 & 0x7F;
+        if (bits << shift) >> shift != bits {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "multi-byte integer exceeds 64-bit width".into(),
+            )
+            .into());
+        }
+        value |= bits << shift;
 
         count += 1;
 
         if !flag {
-            break;
+            return Ok((value, count));
         }
     }
 
@@ -90,7 +97,7 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
         );
     }
 
-    Ok((value, count))
+    Err(ErrorKind::MalformedOneNoteFileData("multi-byte integer is truncated".into()).into())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a660d130149ae36e9a3856b8474acf0dcc5541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 18/25] fix: parse the end of data element fragments

---
 src/fsshttpb/data_element/data_element_fragment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..57a4300 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -43,6 +43,8 @@ impl DataElement {
 
         let data = reader.read(size as usize)?.to_vec();
 
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
+
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
             id,
-- 
2.43.0


From 5d8685cdf3efb2a0a741d1998762aaba7d5ddd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 19/25] fix: expect a 16-bit end header after the object group
 metadata

---
 src/fsshttpb/data/stream_object.rs        | 10 ++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..d382921 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,16 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = reader.bytes().get(..2).ok_or(ErrorKind::UnexpectedEof)?;
+        let data = u16::from_le_bytes([data[0], data[1]]);
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From 3dfc48a271020f782a08e313b7d2cabdc59c6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 20/25] fix: always check that object declarations and data
 match

---
 src/fsshttpb/data_element/object_group.rs | 7 +++++++
 src/onestore/revision.rs                  | 7 -------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index c267e56..b7e01b9 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -208,6 +208,13 @@ impl DataElement {
 
         ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
 
+        if declarations.len() != objects.len() {
+            return Err(ErrorKind::MalformedFssHttpBData(
+                "object declaration/data counts do not match".into(),
+            )
+            .into());
+        }
+
         Ok(ObjectGroup {
             declarations,
             metadata,
diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index e5fca76..70a8bb9 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -99,13 +99,6 @@ impl<'a, 'b> Revision<'a> {
                 continue;
             }
 
-            if group.declarations.len() != group.objects.len() {
-                return Err(ErrorKind::MalformedOneStoreData(
-                    "object declaration/data counts do not match".into(),
-                )
-                .into());
-            }
-
             let object = Object::parse(
                 object_id,
                 context_id,
-- 
2.43.0


From ba37acdb96ba522149c3b8e0212f6a4258ad7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 21/25] fix: do not resolve an ambiguous revision by the hash
 map order

---
 src/fsshttpb/data_element/mod.rs           | 16 ++++------------
 src/fsshttpb/data_element/storage_index.rs | 17 ++++++++++++-----
 src/onestore/mod.rs                        |  6 +++---
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..baca356 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data_element::data_element_fragment::DataElementFragment;
 use crate::fsshttpb::data_element::object_data_blob::ObjectDataBlob;
 use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
-use crate::fsshttpb::data_element::storage_index::StorageIndex;
+use crate::fsshttpb::data_element::storage_index::{StorageIndex, StorageIndexCellMapping};
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -72,20 +72,12 @@ impl DataElementPackage {
     /// Look up the object groups referenced by a cell.
     pub(crate) fn find_objects(
         &self,
-        cell: ExGuid,
+        cell: &StorageIndexCellMapping,
         storage_index: &StorageIndex,
     ) -> Result<Vec<&ObjectGroup>> {
         let revision_mapping_id = self
-            .resolve_cell_revision_manifest_id(storage_index, cell)
-            .or_else(|| {
-                storage_index
-                    .cell_mappings
-                    .values()
-                    .find(|mapping| mapping.id == cell)
-                    .and_then(|mapping| {
-                        storage_index.find_revision_mapping_by_serial(&mapping.serial)
-                    })
-            })
+            .resolve_cell_revision_manifest_id(storage_index, cell.id)
+            .or_else(|| storage_index.find_revision_mapping_by_serial(&cell.serial))
             .ok_or_else(|| {
                 ErrorKind::MalformedFssHttpBData("revision manifest id not found".into())
             })?;
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..41a6401 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -22,8 +22,8 @@ pub(crate) struct StorageIndex {
 }
 
 impl StorageIndex {
-    pub(crate) fn find_cell_mapping_id(&self, cell_id: CellId) -> Option<ExGuid> {
-        self.cell_mappings.get(&cell_id).map(|mapping| mapping.id)
+    pub(crate) fn find_cell_mapping(&self, cell_id: CellId) -> Option<&StorageIndexCellMapping> {
+        self.cell_mappings.get(&cell_id)
     }
 
     pub(crate) fn find_revision_mapping_id(&self, id: ExGuid) -> Option<ExGuid> {
@@ -33,12 +33,19 @@ impl StorageIndex {
     }
 
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
-        self.revision_mappings
+        let mut revision_ids = self
+            .revision_mappings
             .values()
-            .find(|mapping| {
+            .filter(|mapping| {
                 mapping.serial.guid == serial.guid && mapping.serial.serial == serial.serial
             })
-            .map(|mapping| mapping.revision_mapping)
+            .map(|mapping| mapping.revision_mapping);
+
+        // The mappings have no order so don't guess if the serial number is ambiguous
+        let revision_id = revision_ids.next()?;
+        revision_ids
+            .all(|id| id == revision_id)
+            .then_some(revision_id)
     }
 }
 
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index a273412..c824d9f 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -56,8 +56,8 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
 
-    let header_cell_mapping_id = storage_index
-        .find_cell_mapping_id(header_cell_id)
+    let header_cell_mapping = storage_index
+        .find_cell_mapping(header_cell_id)
         .ok_or_else(|| {
             ErrorKind::MalformedOneStoreData("header cell mapping id not found".into())
         })?;
@@ -65,7 +65,7 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
     // [ONESTORE] 2.7.2: Parse header cell
     let header_cell = package
         .data_element_package
-        .find_objects(header_cell_mapping_id, storage_index)?
+        .find_objects(header_cell_mapping, storage_index)?
         .into_iter()
         .next()
         .ok_or_else(|| {
-- 
2.43.0


From 6b1ca3e6d24b4c7dd8c510b720aba0e878dd02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 22/25] fix: do not let the hash map order select the storage
 index and manifest

---
 src/fsshttpb/data_element/mod.rs | 25 ++++++++++++++++++++-----
 src/onestore/mod.rs              |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index baca356..622b5fc 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -103,9 +103,9 @@ impl DataElementPackage {
         self.object_data_blobs.get(&id).map(|blob| blob.value())
     }
 
-    /// Find the first storage index.
+    /// Find the storage index of a package that contains only a single one.
     pub(crate) fn find_storage_index(&self) -> Option<&StorageIndex> {
-        self.storage_indexes.values().next()
+        Self::find_single(&self.storage_indexes)
     }
 
     /// Look up a storage index by its ID.
@@ -113,9 +113,24 @@ impl DataElementPackage {
         self.storage_indexes.get(&id)
     }
 
-    /// Find the first storage manifest.
-    pub(crate) fn find_storage_manifest(&self) -> Option<&StorageManifest> {
-        self.storage_manifests.values().next()
+    /// Find the storage manifest that is referenced by the storage index.
+    ///
+    /// Falls back to the only storage manifest of the package if there is no matching reference.
+    pub(crate) fn find_storage_manifest(
+        &self,
+        storage_index: &StorageIndex,
+    ) -> Option<&StorageManifest> {
+        storage_index
+            .manifest_mappings
+            .iter()
+            .find_map(|mapping| self.storage_manifests.get(&mapping.mapping_id))
+            .or_else(|| Self::find_single(&self.storage_manifests))
+    }
+
+    fn find_single<T>(elements: &HashMap<ExGuid, T>) -> Option<&T> {
+        let mut values = elements.values();
+
+        values.next().filter(|_| values.next().is_none())
     }
 
     /// Resolve a revision manifest ID, falling back when revision mappings are missing.
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index c824d9f..c89082e 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -51,7 +51,7 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage index is missing".into()))?;
     let storage_manifest = package
         .data_element_package
-        .find_storage_manifest()
+        .find_storage_manifest(storage_index)
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage manifest is missing".into()))?;
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
-- 
2.43.0


From 7d73f702e2a98c777830ee75aaebbc1ab572abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 23/25] fix: limit the nesting of section groups instead of
 exhausting the stack

---
 src/onenote/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 3addae7..2833c6e 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -28,6 +28,9 @@ pub(crate) mod rich_text;
 pub(crate) mod section;
 pub(crate) mod table;
 
+/// The maximum depth of nested section groups.
+const MAX_GROUP_DEPTH: usize = 128;
+
 /// The OneNote file parser.
 ///
 /// Use [`Parser::parse_notebook`] to load a notebook from a `.onetoc2` file or
@@ -58,6 +61,10 @@ impl Parser {
     /// Returns [`ErrorKind::NotATocFile`] if the file is not a notebook table of
     /// contents.
     pub fn parse_notebook(&self, path: &Path) -> Result<Notebook> {
+        self.parse_nested_notebook(path, 0)
+    }
+
+    fn parse_nested_notebook(&self, path: &Path, depth: usize) -> Result<Notebook> {
         let file = File::open(path)?;
         let data = Parser::read(file)?;
         let packaging = OneStorePackaging::parse(&mut Reader::new(data.as_slice()))?;
@@ -93,7 +100,7 @@ impl Parser {
             let section = if path.metadata()?.is_file() {
                 SectionEntry::Section(self.parse_section(&path)?)
             } else {
-                SectionEntry::SectionGroup(self.parse_section_group(&path)?)
+                SectionEntry::SectionGroup(self.parse_section_group(&path, depth + 1)?)
             };
             sections.push(section);
         }
@@ -156,7 +163,14 @@ impl Parser {
         )
     }
 
-    fn parse_section_group(&self, path: &Path) -> Result<SectionGroup> {
+    fn parse_section_group(&self, path: &Path, depth: usize) -> Result<SectionGroup> {
+        if depth > MAX_GROUP_DEPTH {
+            return Err(ErrorKind::InvalidPath {
+                message: "section groups are nested too deeply".into(),
+            }
+            .into());
+        }
+
         let display_name = path
             .file_name()
             .ok_or_else(|| ErrorKind::InvalidPath {
@@ -188,7 +202,7 @@ impl Parser {
 
         ensure_contained(path, &toc_path)?;
 
-        let group = self.parse_notebook(&toc_path)?;
+        let group = self.parse_nested_notebook(&toc_path, depth)?;
 
         Ok(SectionGroup {
             display_name,
-- 
2.43.0


From b0a8974fd03e154afda447965eb48b096cb4b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 24/25] fix: accept notebook entry names that start or end with
 punctuation or contain repeated spaces

---
 src/onenote/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 2833c6e..a460517 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -4,7 +4,7 @@ use crate::onenote::notebook::Notebook;
 use crate::onenote::section::{Section, SectionEntry, SectionGroup};
 use crate::onestore::parse_store;
 use crate::reader::Reader;
-use sanitise_file_name::sanitise;
+use sanitise_file_name::{Options, sanitise_with_options};
 use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{BufReader, Read};
@@ -237,7 +237,17 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
                 let name = name.to_str().ok_or_else(|| ErrorKind::InvalidPath {
                     message: "section entry contains non-utf8 characters".into(),
                 })?;
-                let clean = sanitise(name);
+                // Only check for unsafe names. Names that would just look odd, such as ones
+                // starting with an underscore or ending with a comma, are valid.
+                let clean = sanitise_with_options(
+                    name,
+                    &Options {
+                        normalise_whitespace: false,
+                        trim_spaces_and_full_stops: false,
+                        trim_more_punctuation: false,
+                        ..Options::DEFAULT
+                    },
+                );
                 if clean != name {
                     return Err(ErrorKind::InvalidPath {
                         message: format!("section entry contains invalid characters: {name}")
-- 
2.43.0


From dbd7cc7198ab40d297e3435006e2f966b1fb33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:48 +0000
Subject: [PATCH 25/25] fix: keep the position of references behind nil
 references

Nil references have no entry in the object reference array, so the references
following one resolved to the wrong object or to none.
---
 src/onestore/mapping_table.rs    |  5 +++++
 src/onestore/object.rs           | 19 ++++++++++++++-----
 src/onestore/types/compact_id.rs |  5 +++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index 671ab07..89d8376 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -30,6 +30,11 @@ impl MappingTable {
     ) -> MappingTable {
         let mut objects_map: HashMap<CompactId, Vec<(usize, ExGuid)>> = HashMap::new();
         for (i, (cid, id)) in objects.enumerate() {
+            // Nil references don't refer to an object
+            if id.is_nil() {
+                continue;
+            }
+
             objects_map.entry(cid).or_default().push((i, id));
         }
 
diff --git a/src/onestore/object.rs b/src/onestore/object.rs
index ad5ab1c..8478375 100644
--- a/src/onestore/object.rs
+++ b/src/onestore/object.rs
@@ -7,6 +7,7 @@ use crate::onestore::object_space::GroupData;
 use crate::onestore::types::jcid::JcId;
 use crate::onestore::types::object_prop_set::ObjectPropSet;
 use crate::reader::Reader;
+use crate::shared::guid::Guid;
 
 /// A OneNote data object.
 ///
@@ -130,11 +131,19 @@ impl<'a> Object<'a> {
             .into());
         }
 
-        let mapping_objects = props
-            .object_ids()
-            .iter()
-            .copied()
-            .zip(object_refs.iter().copied());
+        // Nil references usually have no entry in the object reference array
+        let skip_nil = object_refs.len() < props.object_ids().len();
+        let mut object_refs = object_refs.iter().copied();
+
+        let mapping_objects = props.object_ids().iter().map(|cid| {
+            let id = if skip_nil && cid.is_nil() {
+                None
+            } else {
+                object_refs.next()
+            };
+
+            (*cid, id.unwrap_or(ExGuid::from_guid(Guid::nil(), 0)))
+        });
 
         let mapping_contexts = props.context_ids().iter().copied().zip(context_refs);
 
diff --git a/src/onestore/types/compact_id.rs b/src/onestore/types/compact_id.rs
index 12e89c9..922a8b0 100644
--- a/src/onestore/types/compact_id.rs
+++ b/src/onestore/types/compact_id.rs
@@ -21,6 +21,11 @@ impl CompactId {
 
         Ok(CompactId { n, guid_index })
     }
+
+    /// Whether this is the ID of a reference that doesn't refer to anything.
+    pub(crate) fn is_nil(&self) -> bool {
+        self.n == 0 && self.guid_index == 0
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

