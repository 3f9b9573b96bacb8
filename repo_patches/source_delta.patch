From 255b46ee1d627413181fa889e68990d6a7b7edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:09 +0000
Subject: [PATCH 01/58] fix: write MLINE vertices and directions with the codes
 the reader expects

---
 spec/EntitiesSpec.xml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index 9f17b24..a74ec6b 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
-        <WriteSpecificValue Code="10" Value="item.x" />
-        <WriteSpecificValue Code="20" Value="item.y" />
-        <WriteSpecificValue Code="30" Value="item.z" />
-      </Foreach>
-      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
+      <Foreach Field="ent.miter_directions">
+        <WriteSpecificValue Code="13" Value="item.x" />
+        <WriteSpecificValue Code="23" Value="item.y" />
+        <WriteSpecificValue Code="33" Value="item.z" />
+      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
-- 
2.43.0


From 05960ea9e1d857658099b8888bcc9faa5a10d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:17 +0000
Subject: [PATCH 02/58] fix: write the y coordinates of underlay clip points
 with code 21

---
 spec/EntitiesSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a74ec6b..a4ce067 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
-- 
2.43.0


From 11976cc0b47e0c5b755eae465ad76e4c013c00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 03/58] fix: read the y coordinates of WIPEOUT clipping
 vertices from code 24

---
 spec/EntitiesSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a4ce067..f87ecca 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From 087b239498c931beb362a13704e73a4c4520236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:10 +0000
Subject: [PATCH 04/58] fix: don't overwrite the MTEXT column count with the
 count of column heights

---
 src/entity.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..e7a0eef 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1162,6 +1162,7 @@ impl Entity {
     ) -> DxfResult<bool> {
         let mut reading_column_data = false;
         let mut read_column_count = false;
+        let mut read_explicit_column_count = false;
         loop {
             let pair = next_pair!(iter);
             match pair.code {
@@ -1230,7 +1231,10 @@ impl Entity {
                         if read_column_count {
                             mtext.column_heights.push(pair.assert_f64()?);
                         } else {
-                            mtext.column_count = pair.assert_f64()? as i32;
+                            // count of column heights; an explicit column count takes precedence
+                            if !read_explicit_column_count {
+                                mtext.column_count = pair.assert_f64()? as i32;
+                            }
                             read_column_count = true;
                         }
                     } else {
@@ -1273,6 +1277,7 @@ impl Entity {
                 }
                 76 => {
                     mtext.column_count = i32::from(pair.assert_i16()?);
+                    read_explicit_column_count = true;
                 }
                 78 => {
                     mtext.is_column_flow_reversed = as_bool(pair.assert_i16()?);
-- 
2.43.0


From ca25117d48c31faed00e349cde9d1e0326e04553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:18 +0000
Subject: [PATCH 05/58] fix: read the lights of a LIGHTLIST

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..e6f597d 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -650,7 +650,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From 0f454b5439db133e68f35b7d42655b465ce56854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:03 +0000
Subject: [PATCH 06/58] fix: run the post-parse step for objects with a custom
 reader

---
 src/object.rs                | 3 +--
 src/transformation_matrix.rs | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index e6f597d..3515a28 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -121,10 +121,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
diff --git a/src/transformation_matrix.rs b/src/transformation_matrix.rs
index b4a1422..10f5398 100644
--- a/src/transformation_matrix.rs
+++ b/src/transformation_matrix.rs
@@ -36,6 +36,9 @@ impl TransformationMatrix {
 // internal visibility only
 impl TransformationMatrix {
     pub(crate) fn from_vec(values: &[f64]) -> Self {
+        if values.is_empty() {
+            return TransformationMatrix::identity();
+        }
         TransformationMatrix {
             m11: TransformationMatrix::value_or_default(values, 0),
             m12: TransformationMatrix::value_or_default(values, 1),
-- 
2.43.0


From 7b1fa74e228ce7f11c67ef7428d8a0f8c835ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:12 +0000
Subject: [PATCH 07/58] fix: read the MATERIAL specular map file name into its
 own field

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 3515a28..e8bc5ae 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -697,7 +697,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From 2ee9c14ebd16b7b9719ac7e280ed439fe953169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 08/58] fix: write the MATERIAL specular gloss factor

---
 spec/ObjectsSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 218bce2..0869a49 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_color_factor" />
+      <WriteField Field="specular_gloss_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
-- 
2.43.0


From a0826e7838e2195295f639fe4aa18eb8a7a2ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:31 +0000
Subject: [PATCH 09/58] fix: write and read the MATERIAL v tile

---
 spec/ObjectsSpec.xml | 1 +
 src/object.rs        | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 0869a49..1097d15 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -588,6 +588,7 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
+      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
diff --git a/src/object.rs b/src/object.rs
index e8bc5ae..4f75c50 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -676,6 +676,7 @@ impl Object {
         let mut read_luminance_mode = false;
         let mut read_bump_map_tiling_method = false;
         let mut read_normal_map_method = false;
+        let mut read_gen_proc_integer_value = false;
         let mut read_bump_map_auto_transform_method = false;
         let mut read_use_image_file_for_refraction_map = false;
         loop {
@@ -970,8 +971,11 @@ impl Object {
                     } else if !read_normal_map_method {
                         mat.normal_map_method = pair.assert_i16()?;
                         read_normal_map_method = true;
-                    } else {
+                    } else if !read_gen_proc_integer_value {
                         mat.gen_proc_integer_value = pair.assert_i16()?;
+                        read_gen_proc_integer_value = true;
+                    } else {
+                        mat.map_v_tile = pair.assert_i16()?;
                     }
                 }
                 272 => {
-- 
2.43.0


From b0f3081b248558992f2af6f8cd6b52b01b5978aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:01 +0000
Subject: [PATCH 10/58] fix: write the data of a VBA_PROJECT

---
 spec/ObjectsSpec.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 1097d15..487133c 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -1193,8 +1193,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.__hex_data">
-        <WriteSpecificValue Code="310" Value="item.clone()" />
+      <Foreach Field="obj.data.chunks(127).collect::&lt;Vec&lt;_&gt;&gt;()">
+        <WriteSpecificValue Code="310" Value="item.to_vec()" />
       </Foreach>
     </WriteOrder>
   </Object>
-- 
2.43.0


From 9b84938dc9af882d05c7b420d89cc95fb9896453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:09 +0000
Subject: [PATCH 11/58] fix: write the hard owner flag of a DICTIONARY

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 4f75c50..07d393e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1545,7 +1545,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From 9edeb6e9044e6b283027c0025b1ceb2060106acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:42 +0000
Subject: [PATCH 12/58] fix: don't swallow the pair that follows the last cell
 style of a TABLESTYLE

---
 src/table_cell_style.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..c738fe7 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,10 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From 288a38023713edd4955a05d84a05899ac7d1680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:50 +0000
Subject: [PATCH 13/58] fix: read every type settings block of a
 SECTIONSETTINGS, and don't loop forever on an unexpected pair

---
 src/section_type_settings.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..65b3f94 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -30,14 +30,14 @@ impl Default for SectionTypeSettings {
 // internal visibility only
 impl SectionTypeSettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionTypeSettings>> {
-        // check the first pair and only continue if it's not 0
+        // check the first pair; only code 90 can start one of these
         match iter.next() {
-            Some(Ok(pair @ CodePair { code: 0, .. })) => {
+            Some(Ok(pair @ CodePair { code: 90, .. })) => {
                 iter.put_back(Ok(pair));
-                return Ok(None);
             }
             Some(Ok(pair)) => {
                 iter.put_back(Ok(pair));
+                return Ok(None);
             }
             Some(Err(e)) => return Err(e),
             None => return Ok(None),
@@ -65,7 +65,10 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => {
+                    // done reading; value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                    return Ok(Some(ss));
+                }
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From 3873e11f8f7e01827f9e7c03f88e55aec79b819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:57 +0000
Subject: [PATCH 14/58] fix: read the SPATIAL_FILTER matrices in the order they
 are written

---
 src/object.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 07d393e..5669ff2 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1221,21 +1221,21 @@ impl Object {
                         if matrix_list.len() == 12 {
                             let matrix = TransformationMatrix::from_vec(&[
                                 matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
                                 matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
                                 matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
                                 matrix_list[9],
+                                matrix_list[1],
+                                matrix_list[4],
+                                matrix_list[7],
                                 matrix_list[10],
+                                matrix_list[2],
+                                matrix_list[5],
+                                matrix_list[8],
                                 matrix_list[11],
                                 0.0,
+                                0.0,
+                                0.0,
+                                1.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
-- 
2.43.0


From 49fa7f723fd22a887ed35d50a99539989f35b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 15/58] fix: read every cell of a DATATABLE into its own row
 and column

---
 src/object.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 5669ff2..ad3020c 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,7 +62,9 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
-            self.values[row][col] = Some(val);
+            if let Some(slot) = self.values.get_mut(row).and_then(|r| r.get_mut(col)) {
+                *slot = Some(val);
+            }
         }
     }
 }
@@ -320,6 +322,7 @@ impl Object {
         let mut read_column_count = false;
         let mut read_row_count = false;
         let mut _current_column_code = 0;
+        let mut column_headers = 0usize;
         let mut current_column = 0;
         let mut current_row = 0;
         let mut created_table = false;
@@ -336,11 +339,11 @@ impl Object {
                     data.field = pair.assert_i16()?;
                 }
                 90 => {
-                    data.column_count = pair.assert_i32()? as usize;
+                    data.column_count = usize::try_from(pair.assert_i32()?).unwrap_or(0);
                     read_column_count = true;
                 }
                 91 => {
-                    data.row_count = pair.assert_i32()? as usize;
+                    data.row_count = usize::try_from(pair.assert_i32()?).unwrap_or(0);
                     read_row_count = true;
                 }
 
@@ -350,7 +353,8 @@ impl Object {
                 }
                 92 => {
                     _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    current_column = column_headers;
+                    column_headers += 1;
                     current_row = 0;
                 }
 
@@ -361,6 +365,7 @@ impl Object {
                         current_column,
                         DataTableValue::Str(pair.assert_string()?),
                     );
+                    current_row += 1;
                 }
                 40 => {
                     data.set_value(
@@ -368,6 +373,7 @@ impl Object {
                         current_column,
                         DataTableValue::Double(pair.assert_f64()?),
                     );
+                    current_row += 1;
                 }
                 71 => {
                     data.set_value(
@@ -375,6 +381,7 @@ impl Object {
                         current_column,
                         DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
                     );
+                    current_row += 1;
                 }
                 93 => {
                     data.set_value(
@@ -382,6 +389,7 @@ impl Object {
                         current_column,
                         DataTableValue::Integer(pair.assert_i32()?),
                     );
+                    current_row += 1;
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -396,6 +404,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point2D(current_2d_point.clone()),
                     );
+                    current_row += 1;
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -411,6 +420,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point3D(current_3d_point.clone()),
                     );
+                    current_row += 1;
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
@@ -420,6 +430,7 @@ impl Object {
                             current_column,
                             DataTableValue::Handle(pair.as_handle()?),
                         );
+                        current_row += 1;
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
-- 
2.43.0


From f503e1591f22960464eba7fac5967a2f484206c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:57 +0000
Subject: [PATCH 16/58] fix: don't panic when a DATATABLE has fewer values than
 rows and columns

---
 src/object.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index ad3020c..a3d70c5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -60,6 +60,9 @@ impl MLineStyleElement {
 //                                                                     DataTable
 //------------------------------------------------------------------------------
 impl DataTable {
+    pub(crate) fn value(&self, row: usize, col: usize) -> Option<&DataTableValue> {
+        self.values.get(row)?.get(col)?.as_ref()
+    }
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
             if let Some(slot) = self.values.get_mut(row).and_then(|r| r.get_mut(col)) {
@@ -1508,7 +1511,7 @@ impl Object {
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
                 for col in 0..data.column_count {
-                    let column_code = match data.values[0][col] {
+                    let column_code = match data.value(0, col) {
                         Some(DataTableValue::Boolean(_)) => Some(71),
                         Some(DataTableValue::Integer(_)) => Some(93),
                         Some(DataTableValue::Double(_)) => Some(40),
@@ -1520,27 +1523,30 @@ impl Object {
                     };
                     if let Some(column_code) = column_code {
                         pairs.push(CodePair::new_i32(92, column_code));
-                        pairs.push(CodePair::new_string(2, &data.column_names[col]));
+                        pairs.push(CodePair::new_str(
+                            2,
+                            data.column_names.get(col).map_or("", String::as_str),
+                        ));
                         for row in 0..data.row_count {
-                            match data.values[row][col] {
+                            match data.value(row, col) {
                                 Some(DataTableValue::Boolean(val)) => {
-                                    pairs.push(CodePair::new_i16(71, as_i16(val)));
+                                    pairs.push(CodePair::new_i16(71, as_i16(*val)));
                                 }
                                 Some(DataTableValue::Integer(val)) => {
-                                    pairs.push(CodePair::new_i32(93, val));
+                                    pairs.push(CodePair::new_i32(93, *val));
                                 }
                                 Some(DataTableValue::Double(val)) => {
-                                    pairs.push(CodePair::new_f64(40, val));
+                                    pairs.push(CodePair::new_f64(40, *val));
                                 }
-                                Some(DataTableValue::Str(ref val)) => {
+                                Some(DataTableValue::Str(val)) => {
                                     pairs.push(CodePair::new_string(3, val));
                                 }
-                                Some(DataTableValue::Point2D(ref val)) => {
+                                Some(DataTableValue::Point2D(val)) => {
                                     pairs.push(CodePair::new_f64(10, val.x));
                                     pairs.push(CodePair::new_f64(20, val.y));
                                     pairs.push(CodePair::new_f64(30, val.z));
                                 }
-                                Some(DataTableValue::Point3D(ref val)) => {
+                                Some(DataTableValue::Point3D(val)) => {
                                     pairs.push(CodePair::new_f64(11, val.x));
                                     pairs.push(CodePair::new_f64(21, val.y));
                                     pairs.push(CodePair::new_f64(31, val.z));
-- 
2.43.0


From e7a71f1cc679439af9ec0ecce7678501d7c312d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 17/58] fix: don't add a second to dates on every read, and
 don't panic on dates that can't be represented

---
 src/helper_functions.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..6b2d95c 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -1,4 +1,3 @@
-use std::cmp::Ordering;
 use std::io;
 use std::io::Read;
 use std::time::Duration as StdDuration;
@@ -30,13 +29,13 @@ pub(crate) fn as_bool(v: i16) -> bool {
     v == 1
 }
 
-fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
+fn f64_to_adjusted_duration(f: f64) -> Option<ChronoDuration> {
     let days_since_dublin = f - 2_415_020.0; // julian dublin offset, e.g., December 31, 1899 12:00AM
     let secs_per_day = 24i64 * 60 * 60;
-    let seconds = days_since_dublin * secs_per_day as f64;
+    let seconds = (days_since_dublin * secs_per_day as f64).round();
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // so we counter the extra day here
+    ChronoDuration::try_seconds((seconds as i64).saturating_sub(secs_per_day))
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
@@ -56,13 +55,16 @@ where
     let duration = if date == 0.0 {
         ChronoDuration::seconds(0)
     } else {
-        let duration = f64_to_adjusted_duration(date);
-        match ChronoDuration::seconds(0).cmp(&duration) {
-            Ordering::Less => duration,
+        match f64_to_adjusted_duration(date) {
+            Some(duration) if duration > ChronoDuration::seconds(0) => duration,
             _ => ChronoDuration::seconds(0),
         }
     };
-    epoch + duration
+    // dates that can't be represented are treated like any other out of bounds date
+    match epoch.clone().checked_add_signed(duration) {
+        Some(date) => date,
+        None => epoch,
+    }
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
-- 
2.43.0


From e7536c126b261568ef1669bd081e5668cb66a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:59 +0000
Subject: [PATCH 18/58] fix: write the seconds past midnight of SUNSTUDY dates

---
 src/object.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index a3d70c5..badc4a6 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -2,7 +2,6 @@
 
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
-use std::ops::Add;
 
 use chrono::Duration;
 
@@ -1342,9 +1341,9 @@ impl Object {
                         match julian_day {
                             Some(jd) => {
                                 let date = as_datetime_local(f64::from(jd));
-                                let date =
-                                    date.add(Duration::seconds(i64::from(pair.assert_i32()?)));
-                                ss.dates.push(date);
+                                let seconds = Duration::seconds(i64::from(pair.assert_i32()?));
+                                ss.dates
+                                    .push(date.checked_add_signed(seconds).unwrap_or(date));
                                 julian_day = None;
                             }
                             None => {
@@ -1625,7 +1624,10 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
-                    pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    // each date is a julian_day/seconds_past_midnight dual
+                    let date = as_double_local(*item);
+                    pairs.push(CodePair::new_i32(90, date as i32));
+                    pairs.push(CodePair::new_i32(90, (date.fract() * 86_400.0).round() as i32));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
-- 
2.43.0


From 7367c0882d0f82bfb9da46de83676a4b2c1f0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:24 +0000
Subject: [PATCH 19/58] fix: read the duplicate record handling of an XRECORD
 after its subclass marker

---
 src/object.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index badc4a6..920f01e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1454,22 +1454,24 @@ impl Object {
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
         let mut reading_data = false;
+        let mut read_duplicate_record_handling = false;
         loop {
             let pair = next_pair!(iter);
+            if pair.code == 280 && !read_duplicate_record_handling && xr.data_pairs.is_empty() {
+                xr.duplicate_record_handling = enum_from_number!(
+                    DictionaryDuplicateRecordHandling,
+                    NotApplicable,
+                    from_i16,
+                    pair.assert_i16()?
+                );
+                read_duplicate_record_handling = true;
+                reading_data = true;
+                continue;
+            }
+
             if reading_data {
                 xr.data_pairs.push(pair);
             } else {
-                if pair.code == 280 {
-                    xr.duplicate_record_handling = enum_from_number!(
-                        DictionaryDuplicateRecordHandling,
-                        NotApplicable,
-                        from_i16,
-                        pair.assert_i16()?
-                    );
-                    reading_data = true;
-                    continue;
-                }
-
                 if common.apply_individual_pair(&pair, iter)? {
                     continue;
                 }
-- 
2.43.0


From 2e851289238c1eddd5b0f758bb845dcdb51f9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 20/58] fix: read header variables that share a field with
 another variable

---
 build/header_generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/header_generator.rs b/build/header_generator.rs
index ea9477a..4dc6928 100644
--- a/build/header_generator.rs
+++ b/build/header_generator.rs
@@ -181,13 +181,13 @@ fn generate_set_defaults(fun: &mut String, element: &Element) {
 }
 
 fn generate_set_header_value(fun: &mut String, element: &Element) {
-    let mut seen_fields = HashSet::new();
+    let mut seen_names = HashSet::new();
     fun.push_str("    #[allow(clippy::cognitive_complexity)] // generated method\n");
     fun.push_str("    pub(crate) fn set_header_value(&mut self, variable: &str, pair: &CodePair) -> DxfResult<()> {\n");
     fun.push_str("        match variable {\n");
     for v in &element.children {
-        if !seen_fields.contains(&field(v)) {
-            seen_fields.insert(field(v));
+        if !seen_names.contains(&name(v)) {
+            seen_names.insert(name(v));
             fun.push_str(&format!("            \"${name}\" => {{", name = name(v)));
             let variables_with_name: Vec<&Element> = element
                 .children
-- 
2.43.0


From 42ad88abf643eeaa0845b65a66e02cc88710cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 21/58] Revert "fix: write the data of a VBA_PROJECT"

This reverts commit b0f3081b248558992f2af6f8cd6b52b01b5978aa.
---
 spec/ObjectsSpec.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 487133c..1097d15 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -1193,8 +1193,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.data.chunks(127).collect::&lt;Vec&lt;_&gt;&gt;()">
-        <WriteSpecificValue Code="310" Value="item.to_vec()" />
+      <Foreach Field="obj.__hex_data">
+        <WriteSpecificValue Code="310" Value="item.clone()" />
       </Foreach>
     </WriteOrder>
   </Object>
-- 
2.43.0


From d218a4220afc71c49901df22fb3bf4983c4a4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 22/58] Revert "fix: write and read the MATERIAL v tile"

This reverts commit a0826e7838e2195295f639fe4aa18eb8a7a2ebad.
---
 spec/ObjectsSpec.xml | 1 -
 src/object.rs        | 6 +-----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 1097d15..0869a49 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -588,7 +588,6 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
-      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
diff --git a/src/object.rs b/src/object.rs
index 920f01e..18c8e40 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -689,7 +689,6 @@ impl Object {
         let mut read_luminance_mode = false;
         let mut read_bump_map_tiling_method = false;
         let mut read_normal_map_method = false;
-        let mut read_gen_proc_integer_value = false;
         let mut read_bump_map_auto_transform_method = false;
         let mut read_use_image_file_for_refraction_map = false;
         loop {
@@ -984,11 +983,8 @@ impl Object {
                     } else if !read_normal_map_method {
                         mat.normal_map_method = pair.assert_i16()?;
                         read_normal_map_method = true;
-                    } else if !read_gen_proc_integer_value {
-                        mat.gen_proc_integer_value = pair.assert_i16()?;
-                        read_gen_proc_integer_value = true;
                     } else {
-                        mat.map_v_tile = pair.assert_i16()?;
+                        mat.gen_proc_integer_value = pair.assert_i16()?;
                     }
                 }
                 272 => {
-- 
2.43.0


From 15c8a951d9d0d8536be3278ef3bb736cbf51312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 23/58] Revert "fix: write the MATERIAL specular gloss factor"

This reverts commit 2ee9c14ebd16b7b9719ac7e280ed439fe953169b.
---
 spec/ObjectsSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 0869a49..218bce2 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_gloss_factor" />
+      <WriteField Field="specular_color_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
-- 
2.43.0


From 8b6f460833172485429c20971ef3939d8d0b9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 24/58] Revert "fix: read the y coordinates of WIPEOUT clipping
 vertices from code 24"

This reverts commit 11976cc0b47e0c5b755eae465ad76e4c013c00d1.
---
 spec/EntitiesSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index f87ecca..a4ce067 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From 5ba20c26db9a66bf4cac41f5bc02b370060852d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 25/58] Revert "fix: write the y coordinates of underlay clip
 points with code 21"

This reverts commit 05960ea9e1d857658099b8888bcc9faa5a10d5c0.
---
 spec/EntitiesSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a4ce067..a74ec6b 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
-- 
2.43.0


From 81c5f04fc9c790eeafc704c4eaa26dc5c34b0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 26/58] Revert "fix: write MLINE vertices and directions with
 the codes the reader expects"

This reverts commit 255b46ee1d627413181fa889e68990d6a7b7edf0.
---
 spec/EntitiesSpec.xml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a74ec6b..9f17b24 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
+        <WriteSpecificValue Code="10" Value="item.x" />
+        <WriteSpecificValue Code="20" Value="item.y" />
+        <WriteSpecificValue Code="30" Value="item.z" />
+      </Foreach>
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.segment_directions">
+      <Foreach Field="ent.miter_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
-        <WriteSpecificValue Code="13" Value="item.x" />
-        <WriteSpecificValue Code="23" Value="item.y" />
-        <WriteSpecificValue Code="33" Value="item.z" />
-      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
-- 
2.43.0


From 285ecde3d659f018d1d4e0aab7986b66a3778fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:15 +0000
Subject: [PATCH 27/58] fix: keep backslashes that don't start a unicode
 escape, and characters outside of the basic multilingual plane, when reading
 text

---
 src/code_pair_value.rs | 51 ++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..8084152 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -195,37 +195,30 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
 }
 
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
-    let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
+    fn escaped_code_unit(val: &str) -> Option<u16> {
+        match val.strip_prefix("\\U+")?.get(0..4) {
+            Some(digits) if digits.bytes().all(|b| b.is_ascii_hexdigit()) => {
+                u16::from_str_radix(digits, 16).ok()
             }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
-                }
+            _ => None,
+        }
+    }
 
-                seq.clear();
-            }
+    let mut result = String::from("");
+    let mut rest = val;
+    while let Some(c) = rest.chars().next() {
+        // characters outside of the basic multilingual plane are written as two consecutive escape sequences
+        let mut code_units = vec![];
+        while let Some(code_unit) = escaped_code_unit(rest) {
+            code_units.push(code_unit);
+            rest = &rest[7..];
+        }
+        if code_units.is_empty() {
+            // not an escape sequence, keep it as it is
+            result.push(c);
+            rest = &rest[c.len_utf8()..];
+        } else {
+            result.extend(std::char::decode_utf16(code_units).map(|r| r.unwrap_or('?')));
         }
     }
 
-- 
2.43.0


From fe8c576bf1900cbd9765d18aec6516e453c37468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:26 +0000
Subject: [PATCH 28/58] fix: write characters outside of the basic multilingual
 plane as two escape sequences and escape backslashes that read as an escape

---
 src/code_pair_value.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index 8084152..45f2313 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -182,10 +182,13 @@ pub(crate) fn escape_control_characters(val: &str) -> String {
 pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
-    for c in val.chars() {
-        let b = c as u32;
-        if b >= 128 {
-            result.push_str(&format!("\\U+{:04X}", b));
+    for (i, c) in val.char_indices() {
+        // a literal backslash that would read as an escape sequence is escaped itself
+        if !c.is_ascii() || (c == '\\' && val[i..].starts_with("\\U+")) {
+            let mut code_units = [0; 2];
+            for code_unit in c.encode_utf16(&mut code_units) {
+                result.push_str(&format!("\\U+{:04X}", code_unit));
+            }
         } else {
             result.push(c);
         }
-- 
2.43.0


From f85e38aaa3214a2a200d1cd81e870c1b7370272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:39 +0000
Subject: [PATCH 29/58] fix: keep a trailing caret and characters that follow a
 caret but aren't an escape sequence

---
 src/code_pair_value.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index 45f2313..6044163 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -34,7 +34,7 @@ impl CodePairValue {
                         if do_escape {
                             do_escape = false;
                             let c = match c {
-                                '@' => 0x00,
+                                '@' => 0x00u8,
                                 'A' => 0x01,
                                 'B' => 0x02,
                                 'C' => 0x03,
@@ -67,7 +67,11 @@ impl CodePairValue {
                                 '^' => 0x1E,
                                 '_' => 0x1F,
                                 ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                _ => {
+                                    // invalid escape sequence, just keep the character
+                                    result.push(c);
+                                    continue;
+                                }
                             };
 
                             result.push(c as char);
@@ -78,6 +82,11 @@ impl CodePairValue {
                 }
             }
 
+            if do_escape {
+                // nothing was escaped
+                result.push('^');
+            }
+
             result.into()
         } else {
             val.into()
-- 
2.43.0


From 5e522b3927cc941779c339746b44ce1ad6bf108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:50 +0000
Subject: [PATCH 30/58] fix: don't drop or misread values that start with a
 byte order mark

---
 src/helper_functions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 6b2d95c..bb68e95 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -323,9 +323,9 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
+    let mut result = match encoding.decode_without_bom_handling(&bytes) {
+        (result, false) => String::from(&*result),
+        (_, true) => return Err(DxfError::MalformedString),
     };
 
     if result.ends_with('\r') {
-- 
2.43.0


From 3da030c9486cc641eb9e0fbddbfd9e1df5502e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:07 +0000
Subject: [PATCH 31/58] fix: encode and decode strings of binary drawings like
 those of text drawings

---
 src/code_pair_iter.rs   | 55 +++++++++++++++++++++++++++++------------
 src/code_pair_writer.rs | 17 +++++++------
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..4a299d4 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -131,13 +131,7 @@ impl<T: Read> TextCodePairIter<T> {
                 CodePairValue::Double(try_into_option!(parse_f64(value_line, self.offset)))
             }
             ExpectedType::Str => {
-                let value_line = if self.string_encoding == encoding_rs::WINDOWS_1252 {
-                    un_escape_ascii_to_unicode(&value_line)
-                } else {
-                    value_line
-                };
-                let value_line = CodePairValue::un_escape_string(&value_line);
-                CodePairValue::Str(value_line.into_owned())
+                CodePairValue::Str(un_escape_text(&value_line, self.string_encoding))
             }
             ExpectedType::Binary => {
                 let mut data = vec![];
@@ -160,16 +154,35 @@ pub(crate) struct BinaryCodePairIter<T: Read> {
     offset: usize,
 }
 
-impl<T: Read> CodePairIter for BinaryCodePairIter<T> {
+/// Returns code pairs as read from a binary file with the strings decoded.
+pub(crate) struct DecodedBinaryCodePairIter<T: Read> {
+    iter: BinaryCodePairIter<T>,
+    string_encoding: &'static Encoding,
+}
+
+impl<T: Read> CodePairIter for DecodedBinaryCodePairIter<T> {
     fn read_as_utf8(&mut self) {
-        // noop
+        self.string_encoding = encoding_rs::UTF_8;
     }
 }
 
-impl<T: Read> Iterator for BinaryCodePairIter<T> {
+impl<T: Read> Iterator for DecodedBinaryCodePairIter<T> {
     type Item = DxfResult<CodePair>;
     fn next(&mut self) -> Option<DxfResult<CodePair>> {
-        self.read_code_pair()
+        let mut pair = match self.iter.read_code_pair()? {
+            Ok(pair) => pair,
+            Err(e) => return Some(Err(e)),
+        };
+        if let CodePairValue::Str(ref mut s) = pair.value {
+            // every character of the undecoded string is a single byte
+            let bytes = s.chars().map(|c| c as u8).collect::<Vec<_>>();
+            *s = match self.string_encoding.decode_without_bom_handling(&bytes) {
+                (s, false) => un_escape_text(&s, self.string_encoding),
+                (_, true) => return Some(Err(DxfError::MalformedString)),
+            };
+        }
+
+        Some(Ok(pair))
     }
 }
 
@@ -249,10 +262,8 @@ impl<T: Read> BinaryCodePairIter<T> {
                     self.offset += 1; // account for the NULL byte that was interpreted as an empty string
                     value = try_from_dxf_result!(self.read_string_binary()); // now read the actual value
                 }
-                (
-                    CodePairValue::Str(CodePairValue::un_escape_string(&value).into_owned()),
-                    value.len() + 1, // +1 to account for the NULL terminator
-                )
+                let read_bytes = value.chars().count() + 1; // +1 to account for the NULL terminator
+                (CodePairValue::Str(value), read_bytes)
             }
             ExpectedType::Binary => {
                 let length = try_from_dxf_result!(read_u8_strict(&mut self.reader)) as usize;
@@ -286,6 +297,15 @@ impl<T: Read> BinaryCodePairIter<T> {
 
 //---------------------------
 
+fn un_escape_text(val: &str, string_encoding: &'static Encoding) -> String {
+    let val = if string_encoding == encoding_rs::WINDOWS_1252 {
+        un_escape_ascii_to_unicode(val)
+    } else {
+        String::from(val)
+    };
+    CodePairValue::un_escape_string(&val).into_owned()
+}
+
 pub(crate) fn new_code_pair_iter_from_reader<T>(
     mut reader: T,
     string_encoding: &'static Encoding,
@@ -310,7 +330,10 @@ where
                 0x00,
                 19
             );
-            Box::new(BinaryCodePairIter::new(cursor, 20))
+            Box::new(DecodedBinaryCodePairIter {
+                iter: BinaryCodePairIter::new(cursor, 20),
+                string_encoding,
+            })
         }
         _ => Box::new(TextCodePairIter::new(
             cursor,
diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..41f94e6 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -52,18 +52,21 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
             .write_fmt(format_args!("{: >3}\r\n", pair.code))?;
         match pair.value {
             CodePairValue::Str(ref s) => {
-                let s = escape_control_characters(s);
-                let s = if self.text_as_ascii {
-                    escape_unicode_to_ascii(&s)
-                } else {
-                    s
-                };
+                let s = self.escape_string(s);
                 self.writer.write_fmt(format_args!("{}\r\n", s))?;
             }
             _ => self.writer.write_fmt(format_args!("{}\r\n", &pair.value))?,
         };
         Ok(())
     }
+    fn escape_string(&self, val: &str) -> String {
+        let val = escape_control_characters(val);
+        if self.text_as_ascii {
+            escape_unicode_to_ascii(&val)
+        } else {
+            val
+        }
+    }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
         // write code
         if self.version >= AcadVersion::R13 {
@@ -89,7 +92,7 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
             CodePairValue::Short(s) => self.writer.write_i16::<LittleEndian>(s)?,
             CodePairValue::Double(d) => self.writer.write_f64::<LittleEndian>(d)?,
             CodePairValue::Str(ref s) => {
-                for &b in escape_control_characters(s).as_bytes() {
+                for &b in self.escape_string(s).as_bytes() {
                     self.writer.write_u8(b)?;
                 }
 
-- 
2.43.0


From aa84ba6292516e59ae199eb4ac6a937204ce77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:29 +0000
Subject: [PATCH 32/58] fix: report errors in the last entity or object of a
 section instead of dropping it

---
 src/entity_iter.rs | 7 ++++++-
 src/object_iter.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..d9ffbf8 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -15,7 +15,12 @@ impl Iterator for EntityIter<'_> {
     fn next(&mut self) -> Option<Entity> {
         match Entity::read(self.iter) {
             Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                // whoever reads next has to see the error
+                self.iter.put_back(Err(e));
+                None
+            }
         }
     }
 }
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..51740a8 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -11,7 +11,12 @@ impl Iterator for ObjectIter<'_> {
     fn next(&mut self) -> Option<Object> {
         match Object::read(self.iter) {
             Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                // whoever reads next has to see the error
+                self.iter.put_back(Err(e));
+                None
+            }
         }
     }
 }
-- 
2.43.0


From a49731b13a79a27aab1cadb1332783d18532e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:41 +0000
Subject: [PATCH 33/58] fix: keep all attributes of an INSERT that are followed
 by an MTEXT

---
 src/entity_iter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index d9ffbf8..9f08717 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -115,11 +115,15 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
-                            specific: EntityType::Attribute(att),
+                            specific: EntityType::Attribute(mut att),
                             ..
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                        }) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+                            ins.__attributes_and_handles
+                                .push((att, AUTO_REPLACE_HANDLE));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
-- 
2.43.0


From 94b495a1046053e1da0ab98dbb2366b5dcba033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:57 +0000
Subject: [PATCH 34/58] fix: read the handles of vertices, attributes and
 sequence ends

---
 src/drawing.rs     | 48 ++++++++++++++++++++++++++++------------------
 src/entity_iter.rs | 33 ++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..48ae97a 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -409,25 +409,9 @@ impl Drawing {
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
         entity.common.handle = self.next_handle();
-
-        // set child handles
         match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = Handle::empty(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = Handle::empty(),
             _ => (),
         }
 
@@ -671,7 +655,33 @@ impl Drawing {
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
-    fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
+    fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => {
+                if ins.__seqend_handle.is_empty() {
+                    ins.__seqend_handle = self.next_handle();
+                }
+                for a in ins.__attributes_and_handles.iter_mut() {
+                    if a.1 == AUTO_REPLACE_HANDLE {
+                        a.1 = self.next_handle();
+                    }
+                }
+            }
+            EntityType::Polyline(ref mut poly) => {
+                if poly.__seqend_handle.is_empty() {
+                    poly.__seqend_handle = self.next_handle();
+                }
+                for v in poly.__vertices_and_handles.iter_mut() {
+                    if v.1 == AUTO_REPLACE_HANDLE {
+                        v.1 = self.next_handle();
+                    }
+                }
+            }
+            _ => (),
+        }
+    }
+    fn add_entity_no_handle_set(&mut self, mut entity: Entity) -> &Entity {
+        self.ensure_child_handles_are_set(&mut entity);
         self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 9f08717..1b46d06 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,7 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -35,22 +35,29 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    fn child_handle(handle: Handle) -> Handle {
+        if handle.is_empty() {
+            AUTO_REPLACE_HANDLE
+        } else {
+            handle
+        }
+    }
+
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => Ok(common.handle),
             Some(ent) => {
                 iter.put_back(ent);
+                Ok(Handle::empty())
             }
-            None => (),
+            None => Ok(Handle::empty()),
         }
-
-        Ok(())
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -115,14 +122,14 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Attribute(mut att),
-                            ..
                         }) => {
                             if let Some(m_text) = mtext(&mut iter)? {
                                 att.m_text = m_text;
                             }
                             ins.__attributes_and_handles
-                                .push((att, AUTO_REPLACE_HANDLE));
+                                .push((att, child_handle(common.handle)));
                         }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
@@ -133,7 +140,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -149,11 +156,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
                         }) => poly
                             .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                            .push((vertex, child_handle(common.handle))),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -163,7 +170,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
-- 
2.43.0


From 4babbb7c872e0571a790b242c1015be092576dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:05 +0000
Subject: [PATCH 35/58] fix: report a DXB scale factor that cannot be read
 instead of using zero

---
 src/dxb_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..aad363b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
-- 
2.43.0


From 14ae5138dc6e4f96052ceb7334777956792bea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 36/58] fix: DXB block base is written as floats, and only if
 there are no entities to write

---
 src/dxb_writer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..dda7c2d 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,7 +23,12 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
+        // force all numbers to be floats
+        self.write_item_type(DxbItemType::NumberMode)?;
+        self.write_w(1)?;
+
+        // a DXB file holds either entities or the content of a single block
+        let writing_block = !drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
         if writing_block {
             // write block header
             self.write_item_type(DxbItemType::BlockBase)?;
@@ -32,10 +37,6 @@ impl<T: Write> DxbWriter<T> {
             self.write_n(block.base_point.y)?;
         }
 
-        // force all numbers to be floats
-        self.write_item_type(DxbItemType::NumberMode)?;
-        self.write_w(1)?;
-
         // write color
         let mut last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
-- 
2.43.0


From 648d28ade3439b5bebc2ada40af1f976c4329b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:22 +0000
Subject: [PATCH 37/58] fix: entities of a block written to DXB keep their
 layer and color

---
 src/dxb_writer.rs | 51 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index dda7c2d..9fa3a84 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -37,39 +37,40 @@ impl<T: Write> DxbWriter<T> {
             self.write_n(block.base_point.y)?;
         }
 
-        // write color
-        let mut last_color = 0i16;
-        self.write_item_type(DxbItemType::NewColor)?;
-        self.write_w(last_color)?;
-
         if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
+            self.write_entities(drawing.blocks().next().unwrap().entities.iter())?;
         } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
-                    }
-                    self.write_entity(entity)?;
-                }
-            }
+            self.write_entities(drawing.entities())?;
         }
 
         // write null terminator
         self.writer.write_u8(0)?;
         Ok(())
     }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
+    fn write_entities<'a>(
+        &mut self,
+        entities: impl Iterator<Item = &'a Entity>,
+    ) -> DxfResult<()> {
+        // write color
+        let mut last_color = 0i16;
+        self.write_item_type(DxbItemType::NewColor)?;
+        self.write_w(last_color)?;
+
+        let groups = entities.chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
+                    }
+                }
+                self.write_entity(entity)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 193b94f9b140b3074ba9c08dc7b86bbcf1830cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 38/58] fix: write bulge and width of DXB vertices

---
 src/dxb_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index 9fa3a84..adc418f 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -199,6 +199,15 @@ impl<T: Write> DxbWriter<T> {
         self.write_item_type(DxbItemType::Vertex)?;
         self.write_n(vertex.location.x)?;
         self.write_n(vertex.location.y)?;
+        if vertex.bulge != 0.0 {
+            self.write_item_type(DxbItemType::Bulge)?;
+            self.write_n(vertex.bulge)?;
+        }
+        if vertex.starting_width != 0.0 || vertex.ending_width != 0.0 {
+            self.write_item_type(DxbItemType::Width)?;
+            self.write_n(vertex.starting_width)?;
+            self.write_n(vertex.ending_width)?;
+        }
         Ok(())
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
-- 
2.43.0


From b687a7a611ae054e5ff32e225b6cab186a306ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:39 +0000
Subject: [PATCH 39/58] fix: DXB layer names keep characters beyond 8 bits

---
 src/dxb_reader.rs | 3 ++-
 src/dxb_writer.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index aad363b..91c4700 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -2,6 +2,7 @@ use std::io::Read;
 
 use crate::{Block, Color, Drawing, DxfError, DxfResult, Point};
 
+use crate::code_pair_value::un_escape_ascii_to_unicode;
 use crate::dxb_item_type::DxbItemType;
 use crate::entities::*;
 use crate::entity_iter::collect_entities;
@@ -280,7 +281,7 @@ impl<T: Read> DxbReader<T> {
             let b = try_option_io_result_into_err!(read_u8(&mut self.reader));
             self.advance_offset(1);
             if b == 0 {
-                return Ok(value);
+                return Ok(un_escape_ascii_to_unicode(&value));
             } else {
                 value.push(b as char);
             }
diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index adc418f..221ee28 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -4,6 +4,7 @@ use byteorder::{LittleEndian, WriteBytesExt};
 
 use crate::{Drawing, DxfResult};
 
+use crate::code_pair_value::escape_unicode_to_ascii;
 use crate::dxb_item_type::DxbItemType;
 use crate::entities::*;
 
@@ -217,7 +218,7 @@ impl<T: Write> DxbWriter<T> {
         Ok(())
     }
     fn write_null_terminated_string(&mut self, value: &str) -> DxfResult<()> {
-        self.write_string(value)?;
+        self.write_string(&escape_unicode_to_ascii(value))?;
         self.writer.write_u8(0)?;
         Ok(())
     }
-- 
2.43.0


From 89159cd2cd0dbbb1ac36dd7f3dec8564537fc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 40/58] fix: report errors of the last buffered write when
 saving to a file

---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 48ae97a..fb4db41 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -212,7 +212,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?;
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -226,7 +228,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?;
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From 44e893abb9cf250f5ee237da2f5e52088f468c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:57 +0000
Subject: [PATCH 41/58] fix: entities of a loaded block keep their handles

---
 src/drawing.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index fb4db41..c53bbe4 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -396,6 +396,10 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
+        for ent in &mut block.entities {
+            ent.common.handle = Handle::empty();
+        }
+
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -847,7 +851,11 @@ impl Drawing {
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
+            if ent.common.handle.is_empty() {
+                ent.common.handle = self.next_handle();
+            }
+
+            self.ensure_child_handles_are_set(ent);
         }
     }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
-- 
2.43.0


From 3b5e8319bb7107897882da82aa7f684d5f82f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:06 +0000
Subject: [PATCH 42/58] fix: do not add another block record on every load of a
 block

---
 src/drawing.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index c53bbe4..f014941 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -844,10 +844,7 @@ impl Drawing {
         }
     }
     fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
+        self.ensure_block_record_is_present(&block.name);
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-- 
2.43.0


From 5e46215392c635ec702b85b80f417353650540b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:15 +0000
Subject: [PATCH 43/58] fix: styles used by the entities of a block are ensured
 like those of other entities

---
 src/drawing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index f014941..81a14b3 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -658,6 +658,12 @@ impl Drawing {
     pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
+        for ent in &block.entities {
+            self.ensure_mline_style_is_present_for_entity(ent);
+            self.ensure_dimension_style_is_present_for_entity(ent);
+            self.ensure_text_style_is_present_for_entity(ent);
+        }
+
         self.ensure_block_record_is_present_for_block(&mut block);
         self.ensure_block_entity_handles_are_set(&mut block);
         self.__blocks.push(block);
-- 
2.43.0


From 700ff01b4e9645c342b9ce3b1f260bb97ca48747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:24 +0000
Subject: [PATCH 44/58] fix: do not overflow on the smallest layer color value

---
 src/color.rs            | 2 +-
 src/helper_functions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 0fdcfd2..2e43fb2 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -77,7 +77,7 @@ impl Color {
         }
     }
     pub(crate) fn writable_color_value(&self, layer: &Layer) -> i16 {
-        let value = self.raw_value().abs();
+        let value = self.raw_value().saturating_abs();
         if layer.is_layer_on {
             value
         } else {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index bb68e95..be16a86 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -290,7 +290,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
-- 
2.43.0


From a4cebec30561d37f61ed87ace8f16d15325c837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:32 +0000
Subject: [PATCH 45/58] fix: do not overflow after the largest handle

---
 src/handle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index d9bf612..eaab3aa 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -7,7 +7,8 @@ impl Handle {
         Handle(0)
     }
     pub fn next_handle_value(self) -> Self {
-        Handle(self.0 + 1)
+        // the empty handle is never a valid value
+        Handle(self.0.checked_add(1).unwrap_or(1))
     }
     pub fn is_empty(self) -> bool {
         self.0 == 0
-- 
2.43.0


From 116e14a49854298b69bb14a90ad99806ecd92d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:41 +0000
Subject: [PATCH 46/58] fix: report handles that do not fit in 64 bits

---
 src/code_pair.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/code_pair.rs b/src/code_pair.rs
index c8a387c..1aeaf1a 100644
--- a/src/code_pair.rs
+++ b/src/code_pair.rs
@@ -101,7 +101,11 @@ impl CodePair {
         while bytes.len() < 8 {
             bytes.insert(0, 0);
         }
-        Ok(Handle(BigEndian::read_u64(&bytes)))
+        let (leading, bytes) = bytes.split_at(bytes.len() - 8);
+        if leading.iter().any(|b| *b != 0) {
+            return Err(DxfError::ParseError(self.offset));
+        }
+        Ok(Handle(BigEndian::read_u64(bytes)))
     }
 }
 
-- 
2.43.0


From 8dca5c5880725d586fda51e6e7d13e9332826d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 47/58] fix: remove the braces of a UUID without assuming that
 there is text between them

---
 src/helper_functions.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index be16a86..48ea184 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -132,17 +132,11 @@ pub(crate) fn as_duration(d: f64) -> StdDuration {
 }
 
 pub(crate) fn as_uuid(s: String) -> Uuid {
-    let mut reconstructed = String::new();
-    let s = if s.starts_with('{') && s.ends_with('}') {
-        // reconstruct the string without the braces
-        for c in s.chars().skip(1).take(s.len() - 2) {
-            reconstructed.push(c);
-        }
-
-        reconstructed.as_str()
-    } else {
-        s.as_str()
-    };
+    // braces are optional
+    let s = s
+        .strip_prefix('{')
+        .and_then(|s| s.strip_suffix('}'))
+        .unwrap_or(&s);
     match Uuid::parse_str(s) {
         Ok(uuid) => uuid,
         Err(_) => Uuid::nil(),
-- 
2.43.0


From 17d9b2f65038d0b7f8ef70e60e64242cb848552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:03 +0000
Subject: [PATCH 48/58] fix: do not overflow on a negative size of the
 thumbnail header

---
 src/thumbnail.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..f715473 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -75,7 +75,10 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = match usize::try_from(read_i32(data, FILE_HEADER_LENGTH)?) {
+        Ok(size) => size,
+        Err(_) => return Ok(false),
+    };
 
     // calculate the palette size
     let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
-- 
2.43.0


From 0fac3c8d4708e06fe352961376f73b769bb28a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:35 +0000
Subject: [PATCH 49/58] fix: read the XDATA of a block where it is written

---
 src/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..62668f6 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -141,6 +141,11 @@ impl Block {
                                         iter.put_back(Ok(pair));
                                         break;
                                     }
+                                    Some(Ok(pair)) if pair.code == x_data::XDATA_APPLICATIONNAME => {
+                                        // written after the end of the block
+                                        let x = XData::read_item(pair.assert_string()?, iter)?;
+                                        current.x_data.push(x);
+                                    }
                                     Some(Ok(_)) => (), // swallow this
                                     Some(Err(e)) => return Err(e),
                                     None => return Err(DxfError::UnexpectedEndOfInput),
-- 
2.43.0


From 28924639dfeeb234d4858704fea04db107b8e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:50 +0000
Subject: [PATCH 50/58] fix: the two versions of a proxy entity occupy one word
 each

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index e7a0eef..9bd22ce 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -165,15 +165,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From 3f11c13116a69b2c1678e6412e1b605bbe0bf631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:56 +0000
Subject: [PATCH 51/58] fix: write extended data of an entity before its child
 entities

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9bd22ce..f333c8c 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1311,10 +1311,11 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From f144c90bccea2e234d634a123ee70090cad2c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:14 +0000
Subject: [PATCH 52/58] fix: extended data of an XRECORD is not part of its
 data pairs

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 18c8e40..7102a40 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1465,7 +1465,7 @@ impl Object {
                 continue;
             }
 
-            if reading_data {
+            if reading_data && pair.code != crate::x_data::XDATA_APPLICATIONNAME {
                 xr.data_pairs.push(pair);
             } else {
                 if common.apply_individual_pair(&pair, iter)? {
-- 
2.43.0


From 7644c2b4d08806241eaaa2844876644ea71ec566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:50 +0000
Subject: [PATCH 53/58] fix: a block without an end no longer makes loading
 loop forever

---
 src/block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 62668f6..fd3e645 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -159,6 +159,16 @@ impl Block {
                             }
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From 9ad3df857334990d7bd3865f5be48bf13d51958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 54/58] fix: a short that is out of range is an error instead
 of another number

---
 src/helper_functions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 48ea184..a4584de 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -269,7 +269,11 @@ fn parse_i64_test() {
 
 pub(crate) fn parse_i16(s: String, offset: usize) -> DxfResult<i16> {
     match s.trim().parse::<f64>() {
-        Ok(s) => Ok(s as i16),
+        // values outside of the range, and not-a-number, aren't shorts
+        Ok(s) if s.trunc() >= f64::from(i16::MIN) && s.trunc() <= f64::from(i16::MAX) => {
+            Ok(s as i16)
+        }
+        Ok(_) => Err(DxfError::ParseError(offset)),
         Err(e) => Err(DxfError::ParseFloatError(e, offset)),
     }
 }
-- 
2.43.0


From e9b7086db4c73a458cc9332df9dd280639683645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:59 +0000
Subject: [PATCH 55/58] fix: the classes section is not written before R13

---
 src/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 81a14b3..a1cd3fb 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -927,7 +927,7 @@ impl Drawing {
         }
     }
     pub(crate) fn add_classes_pairs(&self, pairs: &mut Vec<CodePair>) {
-        if self.classes.is_empty() {
+        if self.classes.is_empty() || self.header.version < AcadVersion::R13 {
             return;
         }
 
-- 
2.43.0


From 7e25176f533cb8d65ba38698b8399f7a9f844e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:37 +0000
Subject: [PATCH 56/58] fix: entities of a block without a handle keep their
 own handles when loading

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index fd3e645..d45837f 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -153,10 +153,10 @@ impl Block {
                             }
 
                             if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
+                                // the entities keep the handles they came with
+                                current.handle = drawing.next_handle();
                             }
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair {
-- 
2.43.0


From 783fdd2f8378969f53fdaddf2c026b77b86d5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:52 +0000
Subject: [PATCH 57/58] fix: a block added from copied entities gets its own
 sequence end handles

---
 src/drawing.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a1cd3fb..4ade566 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -398,6 +398,7 @@ impl Drawing {
         block.handle = self.next_handle();
         for ent in &mut block.entities {
             ent.common.handle = Handle::empty();
+            Drawing::clear_seqend_handle(ent);
         }
 
         self.add_block_no_handle_set(block)
@@ -417,11 +418,7 @@ impl Drawing {
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
         entity.common.handle = self.next_handle();
-        match entity.specific {
-            EntityType::Insert(ref mut ins) => ins.__seqend_handle = Handle::empty(),
-            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = Handle::empty(),
-            _ => (),
-        }
+        Drawing::clear_seqend_handle(&mut entity);
 
         // ensure invariants
         self.add_entity_no_handle_set(entity)
@@ -669,6 +666,13 @@ impl Drawing {
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
+    fn clear_seqend_handle(entity: &mut Entity) {
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = Handle::empty(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = Handle::empty(),
+            _ => (),
+        }
+    }
     fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
         match entity.specific {
             EntityType::Insert(ref mut ins) => {
-- 
2.43.0


From a01676c8f0a69a5392e47a438531a4cdd917f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:46 +0000
Subject: [PATCH 58/58] fix: an interrupted read does not end the loading of a
 DXB drawing

---
 src/helper_functions.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a4584de..a2a8aca 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -335,13 +335,13 @@ where
 
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
     let mut buf = [0];
-    let size = match reader.read(&mut buf) {
-        Ok(v) => v,
-        Err(e) => return Some(Err(e)),
-    };
-    match size {
-        0 => None,
-        _ => Some(Ok(buf[0])),
+    loop {
+        return match reader.read(&mut buf) {
+            Ok(0) => None,
+            Ok(_) => Some(Ok(buf[0])),
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) => Some(Err(e)),
+        };
     }
 }
 
-- 
2.43.0

