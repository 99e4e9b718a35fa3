From 1d49393cb41bed8ca73804496a3ebdef3f28149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 01/12] fix: read the variation data of a glyph definition from
 its own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From faf285cd001da8dfbcd665f5e24397071483e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 02/12] fix: dispatch ligature carets on their 16-bit format

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From b7d7df3070fa0fb9fa479b5a830cdb7a1d90f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 03/12] fix: do not read an extra word of deltas when they fill
 whole words

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From e597b2c1952ebc5a44625af893722b0de019033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 04/12] fix: do not overflow when measuring the deltas of item
 variation data

---
 src/variations/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..99a5203 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,8 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From 59711d7e0e08b13c248474bef63df412ece18886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 05/12] fix: read the PostScript name of a named instance only
 when it is stored

---
 src/tables/font_variations/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..5ad6ee1 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -84,7 +84,7 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                tape.take_given((header.axis_count, header.instance_size))
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
@@ -96,14 +96,21 @@ impl crate::value::Read for FontVariations {
 }
 
 impl crate::walue::Read<'static> for InstanceRecord {
-    type Parameter = u16;
+    type Parameter = (u16, u16);
 
-    fn read<T: crate::tape::Read>(tape: &mut T, axis_count: Self::Parameter) -> Result<Self> {
+    fn read<T: crate::tape::Read>(
+        tape: &mut T,
+        (axis_count, instance_size): Self::Parameter,
+    ) -> Result<Self> {
         Ok(Self {
             subfamily_name_id: tape.take()?,
             flags: tape.take()?,
             coordinates: tape.take_given(axis_count as usize)?,
-            postscript_name_id: tape.take()?,
+            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
+                tape.take()?
+            } else {
+                NameID::Other(0xFFFF)
+            },
         })
     }
 }
-- 
2.43.0


From 2314fdfcc29515a69d2f53ef23233f08eee9b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 06/12] fix: reject color palettes that reach past the color
 records

---
 src/tables/color_palettes.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..d1cdd70 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,11 +91,28 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (entry_count, color_count, offset, color_indices) = match header {
+            Header::Version0(ref header) => (
+                header.entry_count as usize,
+                header.color_count as usize,
+                header.color_offset,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.entry_count as usize,
+                header.color_count as usize,
+                header.color_offset,
+                &header.color_indices,
+            ),
         };
-        let colors = jump_take_given!(@unwrap tape, position, offset, count);
+        if entry_count > 0
+            && color_indices
+                .iter()
+                .any(|index| *index as usize + entry_count > color_count)
+        {
+            raise!("found a malformed color palette");
+        }
+        let colors = jump_take_given!(@unwrap tape, position, offset, color_count);
         Ok(Self { header, colors })
     }
 }
-- 
2.43.0


From 8cf4dcd64eb2ed0b9bc4e9f646e3114676108af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 07/12] fix: reject tables too long for their checksums to be
 computed

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..e1a93eb 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From c818e1c86c3a9971f4cf69d73973edec0f52df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 08/12] fix: do not confuse the Tulu and Tumbuka languages

---
 src/layout/language.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/language.rs b/src/layout/language.rs
index 6ca167f..f6eea92 100644
--- a/src/layout/language.rs
+++ b/src/layout/language.rs
@@ -625,8 +625,8 @@ implement! {
     b"TRK " => "Turkish" => Turkish => "tur",
     b"TSG " => "Tsonga" => Tsonga => "tso",
     b"TUA " => "Turoyo Aramaic" => TuroyoAramaic => "tru",
-    b"TUM " => "Tulu" => Tulu => "tum",
-    b"TUL " => "Tumbuka" => Tumbuka => "tcy",
+    b"TUM " => "Tumbuka" => Tumbuka => "tum",
+    b"TUL " => "Tulu" => Tulu => "tcy",
     b"TUV " => "Tuvin" => Tuvin => "tyv",
     b"TVL " => "Tuvalu" => Tuvalu => "tvl",
     b"TWI " => "Twi" => Twi => "aka",
-- 
2.43.0


From d5e712a0a6b1fd21f838877ec3b75de1808af31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 09/12] fix: reject reverse chained substitutions of an unknown
 format

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 41cf2c0fa5fb40c652e48061acba266d3a04ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 10/12] fix: reject font variations of an unknown major version

---
 src/tables/font_variations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 5ad6ee1..970d066 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,7 +19,7 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
+        major_version  (u16) = { 1 }, // majorVersion
         minor_version  (u16), // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
-- 
2.43.0


From 5a9dcdc320df03a7846ecbe84e79e62cba8762fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 11/12] fix: reject tables whose length overflows when rounded
 up to whole words

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index e1a93eb..15b0ca8 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From f40d262699faf41e7987051d9c0834c93b15c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 12/12] fix: do not set memory aside for deltas that are not
 there

---
 src/variations/item.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 99a5203..0f7604c 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -31,7 +31,11 @@ table! {
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
             let per_item_count = this.short_delta_count as usize + this.region_count as usize;
-            tape.take_given(this.item_count as usize * per_item_count)
+            let mut deltas = vec![];
+            for _ in 0..this.item_count {
+                deltas.extend(tape.take_given::<Vec<u8>>(per_item_count)?);
+            }
+            Ok(deltas)
         },
     }
 }
-- 
2.43.0

