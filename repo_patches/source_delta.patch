From 3c0cd8d73b21b7251e5b7e3ce67db35c2bb6b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:27 +0000
Subject: [PATCH 01/62] fix: write and read time durations exactly, including
 negative ones

---
 src/io/format.rs | 21 +++++++++++++++------
 src/io/parse.rs  | 36 ++++++++++++++++--------------------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index b3ee44f..38566f9 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -7,14 +7,23 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
 
     impl Display for Tmp {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            let (seconds, nanos) = (self.0.num_seconds(), self.0.subsec_nanos());
+            if seconds < 0 || nanos < 0 {
+                write!(f, "-")?;
+            }
+            let (seconds, nanos) = (seconds.unsigned_abs(), nanos.unsigned_abs());
             write!(
                 f,
-                "PT{}H{}M{}.{}S",
-                self.0.num_hours(),
-                self.0.num_minutes() % 60,
-                self.0.num_seconds() % 60,
-                self.0.num_milliseconds() % 1000
-            )
+                "PT{}H{}M{}",
+                seconds / 3600,
+                seconds / 60 % 60,
+                seconds % 60
+            )?;
+            if nanos % 1_000_000 == 0 {
+                write!(f, ".{:03}S", nanos / 1_000_000)
+            } else {
+                write!(f, ".{:09}S", nanos)
+            }
         }
     }
 
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3446c06..da7e92c 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -342,7 +342,8 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
 
 #[inline(always)]
 fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
-    let (_, (_, day, time)) = all_consuming(tuple((
+    let (_, (minus, _, day, time)) = all_consuming(tuple((
+        opt(byte(b'-')),
         byte(b'P'),
         // these do not occur?
         //opt(terminated(token_datepart, byte(b'Y'))),
@@ -359,37 +360,32 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         ))),
     )))(input)?;
 
-    let mut result = Duration::try_seconds(0).ok_or(nom::Err::Error(KTokenizerError::new(
-        RCode::Duration,
-        input,
-    )))?;
+    let err = || nom::Err::Error(KTokenizerError::new(RCode::Duration, input));
+    let add = |result: Duration, part: Option<Duration>| {
+        part.and_then(|v| result.checked_add(&v)).ok_or_else(err)
+    };
+
+    let mut result = Duration::zero();
     if let Some(day) = day {
-        result += Duration::try_days(day).ok_or(nom::Err::Error(KTokenizerError::new(
-            RCode::Duration,
-            input,
-        )))?;
+        result = add(result, Duration::try_days(day))?;
     }
     if let Some((_, hour, minute, second)) = time {
         if let Some(hour) = hour {
-            result += Duration::try_hours(hour).ok_or(nom::Err::Error(KTokenizerError::new(
-                RCode::Duration,
-                input,
-            )))?;
+            result = add(result, Duration::try_hours(hour))?;
         }
         if let Some(minute) = minute {
-            result += Duration::try_minutes(minute).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            result = add(result, Duration::try_minutes(minute))?;
         }
         if let Some((second, nanos)) = second {
-            result += Duration::try_seconds(second).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            result = add(result, Duration::try_seconds(second))?;
             if let Some(nanos) = nanos {
-                result += Duration::nanoseconds(nanos);
+                result = add(result, Some(Duration::nanoseconds(nanos)))?;
             }
         }
     }
+    if minus.is_some() {
+        result = -result;
+    }
 
     Ok(result)
 }
-- 
2.43.0


From b2cd96bccad6dcc654fe1d074dbba82ac615b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:02 +0000
Subject: [PATCH 02/62] fix: splitting off the last row of a row-header must
 not replace the header of the next row

---
 src/sheet_.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 89eb7d0..0c27dac 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -846,11 +846,11 @@ impl Sheet {
                 }
 
                 // back
-                if *base_row + base_span > row {
+                if *base_row + base_span > row + 1 {
                     let mut clone = row_header.clone();
                     clone.span = *base_row + base_span - (row + 1);
                     cloned.push((row + 1, clone));
-                } else if *base_row + base_span == row {
+                } else if *base_row + base_span == row + 1 {
                     // noop
                 } else {
                     unreachable!();
-- 
2.43.0


From 755307313f609f54214068acbffa382c665bd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:08 +0000
Subject: [PATCH 03/62] fix: setting an attribute of one column must not change
 the following columns

---
 src/sheet_.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 0c27dac..7ff737c 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -686,7 +686,9 @@ impl Sheet {
                         left_hdr = Some((*base_col, tmp));
                     }
 
-                    split_hdr = Some((col, col_header.clone()));
+                    let mut tmp = col_header.clone();
+                    tmp.span = 1;
+                    split_hdr = Some((col, tmp));
 
                     let right_span = (*base_col + col_header.span) - (col + 1);
                     if right_span > 0 {
-- 
2.43.0


From ad49a488d938f6acd0d695e338a8ca57f1f4eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 04/62] fix: don't merge column headers across a gap

---
 src/sheet_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 7ff737c..169cd26 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -1721,7 +1721,7 @@ pub(crate) fn dedup_colheader(sheet: &mut Sheet) -> Result<(), OdsError> {
                 new = Some((col, header));
             }
             Some((new_col, new_header)) => {
-                if limited_eq(new_header, &header) {
+                if *new_col + new_header.span == col && limited_eq(new_header, &header) {
                     new_header.span += header.span;
                 } else {
                     new_col_header
-- 
2.43.0


From df5963f2f4a46ce818888e760275087098722800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:35 +0000
Subject: [PATCH 05/62] fix: keep the column width and row height of every
 header that shares a style

---
 src/io/write.rs         | 91 +++++++++++++++++++++++++++++++----------
 src/macro_attr_style.rs |  6 ++-
 2 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index d1291d4..7faef62 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -12,9 +12,9 @@ use crate::refs::{format_cellranges, CellRange};
 use crate::sheet::Visibility;
 use crate::sheet_::{dedup_colheader, CellDataIter};
 use crate::style::{
-    CellStyle, ColStyle, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage, MasterPageRef,
-    PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RubyStyle, StyleOrigin, StyleUse,
-    TableStyle, TextStyle,
+    CellStyle, ColStyle, ColStyleRef, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage,
+    MasterPageRef, PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RowStyleRef, RubyStyle,
+    StyleOrigin, StyleUse, TableStyle, TextStyle,
 };
 use crate::validation::ValidationDisplay;
 use crate::workbook::{EventListener, Script};
@@ -482,6 +482,10 @@ fn calc_col_headers(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    // A style can be shared, but it can only contain one value for the width.
+    // Headers with another width use a copy.
+    let mut synced = HashMap::<ColStyleRef, Vec<(Length, ColStyleRef)>>::new();
+
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -494,16 +498,35 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
             }
 
             // Write back to the style.
-            if let Some(style_name) = ch.style.as_ref() {
-                if let Some(style) = book.colstyle_mut(style_name) {
-                    if ch.width == Length::Default {
-                        style.set_use_optimal_col_width(true);
-                        style.set_col_width(Length::Default);
-                    } else {
-                        style.set_col_width(ch.width);
-                    }
-                }
+            let Some(style_name) = ch.style.clone() else {
+                continue;
+            };
+            let Some(style) = book.colstyle(&style_name) else {
+                continue;
+            };
+
+            let copies = synced.entry(style_name.clone()).or_default();
+            if let Some((_, style_name)) = copies.iter().find(|v| v.0 == ch.width) {
+                ch.style = Some(style_name.clone());
+                continue;
             }
+
+            let style_name = if copies.is_empty() {
+                style_name
+            } else {
+                let mut style = style.clone();
+                style.set_name("");
+                style.set_origin(StyleOrigin::Content);
+                style.set_styleuse(StyleUse::Automatic);
+                book.add_colstyle(style)
+            };
+            copies.push((ch.width, style_name.clone()));
+
+            if let Some(style) = book.colstyle_mut(&style_name) {
+                style.set_use_optimal_col_width(ch.width == Length::Default);
+                style.set_col_width(ch.width);
+            }
+            ch.style = Some(style_name);
         }
 
         book.attach_sheet(sheet);
@@ -514,25 +537,51 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    // A style can be shared, but it can only contain one value for the height.
+    // Headers with another height use a copy.
+    let mut synced = HashMap::<RowStyleRef, Vec<(Length, RowStyleRef)>>::new();
+
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
+        // Set the row heights.
         for rh in sheet.row_header.values_mut() {
+            // Any non default values?
             if rh.height != Length::Default && rh.style.is_none() {
                 let rowstyle = book.add_rowstyle(RowStyle::new_empty());
                 rh.style = Some(rowstyle);
             }
 
-            if let Some(style_name) = rh.style.as_ref() {
-                if let Some(style) = book.rowstyle_mut(style_name) {
-                    if rh.height == Length::Default {
-                        style.set_use_optimal_row_height(true);
-                        style.set_row_height(Length::Default);
-                    } else {
-                        style.set_row_height(rh.height);
-                    }
-                }
+            // Write back to the style.
+            let Some(style_name) = rh.style.clone() else {
+                continue;
+            };
+            let Some(style) = book.rowstyle(&style_name) else {
+                continue;
+            };
+
+            let copies = synced.entry(style_name.clone()).or_default();
+            if let Some((_, style_name)) = copies.iter().find(|v| v.0 == rh.height) {
+                rh.style = Some(style_name.clone());
+                continue;
+            }
+
+            let style_name = if copies.is_empty() {
+                style_name
+            } else {
+                let mut style = style.clone();
+                style.set_name("");
+                style.set_origin(StyleOrigin::Content);
+                style.set_styleuse(StyleUse::Automatic);
+                book.add_rowstyle(style)
+            };
+            copies.push((rh.height, style_name.clone()));
+
+            if let Some(style) = book.rowstyle_mut(&style_name) {
+                style.set_use_optimal_row_height(rh.height == Length::Default);
+                style.set_row_height(rh.height);
             }
+            rh.style = Some(style_name);
         }
 
         book.attach_sheet(sheet);
diff --git a/src/macro_attr_style.rs b/src/macro_attr_style.rs
index b33937a..5d9444c 100644
--- a/src/macro_attr_style.rs
+++ b/src/macro_attr_style.rs
@@ -1617,7 +1617,11 @@ macro_rules! style_row_height {
     ($acc:ident) => {
         /// The style:row-height attribute specifies a fixed row height
         pub fn set_row_height(&mut self, height: Length) {
-            self.$acc.set_attr("style:row-height", height.to_string());
+            if height == Length::Default {
+                self.$acc.clear_attr("style:row-height");
+            } else {
+                self.$acc.set_attr("style:row-height", height.to_string());
+            }
         }
 
         /// Parses the row height
-- 
2.43.0


From dc33da5fcc067937f67231c5603e7fbe11a64543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 06/62] fix: write row groups, header rows and row attributes
 that cover empty rows

---
 src/io/write.rs | 190 +++++++++++++++++++++++++++++-------------------
 1 file changed, 116 insertions(+), 74 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 7faef62..a9a1f95 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -9,8 +9,8 @@ use crate::io::NamespaceMap;
 use crate::manifest::Manifest;
 use crate::metadata::MetaValue;
 use crate::refs::{format_cellranges, CellRange};
-use crate::sheet::Visibility;
-use crate::sheet_::{dedup_colheader, CellDataIter};
+use crate::sheet::{Grouped, Visibility};
+use crate::sheet_::{dedup_colheader, CellDataIter, RowHeader};
 use crate::style::{
     CellStyle, ColStyle, ColStyleRef, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage,
     MasterPageRef, PageStyle, PageStyleRef, ParagraphStyle, RowStyle, RowStyleRef, RubyStyle,
@@ -22,7 +22,7 @@ use crate::xmltree::{XmlContent, XmlTag};
 use crate::HashMap;
 use crate::{Length, Sheet, Value, ValueType, WorkBook};
 use std::borrow::Cow;
-use std::cmp::max;
+use std::cmp::{max, min, Reverse};
 use std::collections::{BTreeMap, HashSet};
 use std::fs::File;
 use std::io::{BufWriter, Cursor, Seek, Write};
@@ -1668,8 +1668,8 @@ fn write_sheet(
     let mut prev_row: u32 = 0;
     let mut prev_row_repeat: u32 = 1;
     let mut prev_col: u32 = 0;
-    let mut row_group_count = 0;
     let mut row_header = false;
+    let row_groups = sorted_groups(&sheet.group_rows);
 
     let mut it = CellDataIter::new(sheet.data.range(..));
     while let Some(((cur_row, cur_col), cell)) = it.next() {
@@ -1720,9 +1720,9 @@ fn write_sheet(
         if backward_delta_row > 0 && !first_cell {
             write_end_prev_row(
                 sheet,
+                &row_groups,
                 prev_row,
                 prev_row_repeat,
-                &mut row_group_count,
                 &mut row_header,
                 xml_out,
             )?;
@@ -1750,10 +1750,10 @@ fn write_sheet(
             if synth_row_repeat > 0 {
                 write_empty_rows_before(
                     sheet,
+                    &row_groups,
                     synth_row,
                     synth_row_repeat,
                     max_cell,
-                    &mut row_group_count,
                     &mut row_header,
                     xml_out,
                 )?;
@@ -1765,10 +1765,10 @@ fn write_sheet(
         if backward_delta_row > 0 || first_cell {
             write_start_current_row(
                 sheet,
+                &row_groups,
                 cur_row,
                 cur_row_repeat,
                 backward_delta_col,
-                &mut row_group_count,
                 &mut row_header,
                 xml_out,
             )?;
@@ -1837,7 +1837,14 @@ fn write_sheet(
         // The last cell we will write? We can close the last row here,
         // where we have all the data.
         if is_last_cell {
-            write_end_last_row(&mut row_group_count, &mut row_header, xml_out)?;
+            write_end_prev_row(
+                sheet,
+                &row_groups,
+                cur_row,
+                cur_row_repeat,
+                &mut row_header,
+                xml_out,
+            )?;
         }
 
         first_cell = false;
@@ -1846,6 +1853,26 @@ fn write_sheet(
         prev_col = cur_col;
     }
 
+    // Empty rows after the last row with data can still have attributes or
+    // be part of a group.
+    let next_row = if first_cell {
+        0
+    } else {
+        prev_row + prev_row_repeat
+    };
+    let max_row = max_used_row(sheet);
+    if next_row < max_row {
+        write_empty_rows_before(
+            sheet,
+            &row_groups,
+            next_row,
+            max_row - next_row,
+            max_cell,
+            &mut row_header,
+            xml_out,
+        )?;
+    }
+
     xml_out.end_elem("table:table")?;
 
     for tag in &sheet.extra {
@@ -1857,6 +1884,52 @@ fn write_sheet(
     Ok(())
 }
 
+/// Outer groups first.
+fn sorted_groups(groups: &[Grouped]) -> Vec<&Grouped> {
+    let mut groups = groups.iter().collect::<Vec<_>>();
+    groups.sort_by_key(|v| (v.from, Reverse(v.to)));
+    groups
+}
+
+/// Rows used by groups, print-headers and row-headers. Exclusive.
+fn max_used_row(sheet: &Sheet) -> u32 {
+    let mut max_row = 0;
+    for grp in &sheet.group_rows {
+        max_row = max(max_row, grp.to + 1);
+    }
+    if let Some(header_rows) = &sheet.header_rows {
+        max_row = max(max_row, header_rows.to + 1);
+    }
+    if let Some((row, _)) = sheet.row_header.iter().rev().find(|(_, v)| {
+        v.style.is_some() || v.cellstyle.is_some() || v.visible != Visibility::Visible
+    }) {
+        max_row = max(
+            max_row,
+            *row + empty_row_header(sheet, *row, u32::MAX - *row).1,
+        );
+    }
+    max_row
+}
+
+/// Find the row-header for an empty row, and the number of rows where this is valid.
+fn empty_row_header(sheet: &Sheet, row: u32, max_rows: u32) -> (Option<&RowHeader>, u32) {
+    let next_header = sheet
+        .row_header
+        .range(row + 1..)
+        .next()
+        .map(|(next, _)| *next - row)
+        .unwrap_or(max_rows);
+
+    if let Some((base_row, row_header)) = sheet.row_header.range(..=row).last() {
+        let rows = max(row_header.span, row_header.repeat);
+        if row - base_row < rows {
+            let rows = rows - (row - base_row);
+            return (Some(row_header), min(rows, min(next_header, max_rows)));
+        }
+    }
+    (None, min(next_header, max_rows))
+}
+
 fn write_empty_cells(
     hidden: bool,
     repeat: u32,
@@ -1876,26 +1949,18 @@ fn write_empty_cells(
 
 fn write_start_current_row(
     sheet: &Sheet,
+    row_groups: &[&Grouped],
     cur_row: u32,
     cur_row_repeat: u32,
     backward_delta_col: u32,
-    row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     // groups
-    for row_group in &sheet.group_rows {
-        if row_group.from() == cur_row {
-            *row_group_count += 1;
-            xml_out.elem("table:table-row-group")?;
-            if !row_group.display() {
-                xml_out.attr_str("table:display", "false")?;
-            }
-        }
+    for row_group in row_groups {
         // extra: if the group would start within our repeat range, it's started
         //        at the current row instead.
-        if row_group.from() > cur_row && row_group.from() < cur_row + cur_row_repeat {
-            *row_group_count += 1;
+        if row_group.from() >= cur_row && row_group.from() < cur_row + cur_row_repeat {
             xml_out.elem("table:table-row-group")?;
             if !row_group.display() {
                 xml_out.attr_str("table:display", "false")?;
@@ -1943,9 +2008,9 @@ fn write_start_current_row(
 
 fn write_end_prev_row(
     sheet: &Sheet,
+    row_groups: &[&Grouped],
     last_r: u32,
     last_r_repeat: u32,
-    row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
@@ -1963,14 +2028,9 @@ fn write_end_prev_row(
     }
 
     // groups
-    for row_group in &sheet.group_rows {
-        if row_group.to() == last_r {
-            *row_group_count -= 1;
-            xml_out.end_elem("table:table-row-group")?;
-        }
-        // the group end is somewhere inside the repeated range.
-        if row_group.to() > last_r && row_group.to() < last_r + last_r_repeat {
-            *row_group_count -= 1;
+    for row_group in row_groups {
+        // the group end may be somewhere inside the repeated range.
+        if row_group.to() >= last_r && row_group.to() < last_r + last_r_repeat {
             xml_out.end_elem("table:table-row-group")?;
         }
     }
@@ -1978,61 +2038,23 @@ fn write_end_prev_row(
     Ok(())
 }
 
-fn write_end_last_row(
-    row_group_count: &mut u32,
-    row_header: &mut bool,
-    xml_out: &mut OdsXmlWriter<'_>,
-) -> Result<(), OdsError> {
-    // row
-    xml_out.end_elem("table:table-row")?;
-
-    // end of the print-header.
-    // todo: might loose some empty rows?
-    if *row_header {
-        *row_header = false;
-        xml_out.end_elem("table:table-header-rows")?;
-    }
-
-    // close all groups
-    while *row_group_count > 0 {
-        *row_group_count -= 1;
-        xml_out.end_elem("table:table-row-group")?;
-    }
-
-    Ok(())
-}
-
 fn write_empty_rows_before(
     sheet: &Sheet,
+    row_groups: &[&Grouped],
     last_row: u32,
     last_row_repeat: u32,
     max_cell: (u32, u32),
-    row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
+    let end_row = last_row + last_row_repeat;
+
     // Are there any row groups? Then we don't use repeat but write everything out.
-    if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
-        for r in last_row..last_row + last_row_repeat {
-            if *row_header {
-                xml_out.end_elem("table:table-header-rows")?;
-            }
-            // end of the print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.to == r {
-                    *row_header = false;
-                }
-            }
+    if !row_groups.is_empty() || sheet.header_rows.is_some() {
+        for r in last_row..end_row {
             // groups
-            for row_group in &sheet.group_rows {
-                if row_group.to() == r {
-                    *row_group_count -= 1;
-                    xml_out.end_elem("table:table-row-group")?;
-                }
-            }
-            for row_group in &sheet.group_rows {
+            for row_group in row_groups {
                 if row_group.from() == r {
-                    *row_group_count += 1;
                     xml_out.elem("table:table-row-group")?;
                     if !row_group.display() {
                         xml_out.attr_str("table:display", "false")?;
@@ -2050,9 +2072,29 @@ fn write_empty_rows_before(
             }
             // row
             write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+            if *row_header {
+                xml_out.end_elem("table:table-header-rows")?;
+            }
+            // end of the print-header
+            if let Some(header_rows) = &sheet.header_rows {
+                if header_rows.to == r {
+                    *row_header = false;
+                }
+            }
+            // groups
+            for row_group in row_groups {
+                if row_group.to() == r {
+                    xml_out.end_elem("table:table-row-group")?;
+                }
+            }
         }
     } else {
-        write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
+        let mut r = last_row;
+        while r < end_row {
+            let (_, rows) = empty_row_header(sheet, r, end_row - r);
+            write_empty_row(sheet, r, rows, max_cell, xml_out)?;
+            r += rows;
+        }
     }
 
     Ok(())
@@ -2067,7 +2109,7 @@ fn write_empty_row(
 ) -> Result<(), OdsError> {
     xml_out.elem("table:table-row")?;
     xml_out.attr("table:number-rows-repeated", &row_repeat)?;
-    if let Some(row_header) = sheet.valid_row_header(cur_row) {
+    if let (Some(row_header), _) = empty_row_header(sheet, cur_row, row_repeat) {
         if let Some(rowstyle) = row_header.style.as_ref() {
             xml_out.attr_esc("table:style-name", rowstyle.as_str())?;
         }
-- 
2.43.0


From 780d10cfd91a960a3044ebd03615f4273839ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 07/62] fix: write column groups over repeated columns and
 attributes of columns without data

---
 src/io/write.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index a9a1f95..a07aec0 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2143,6 +2143,10 @@ fn write_table_columns(
     if let Some(header_cols) = &sheet.header_cols {
         max_col = max(max_col, header_cols.to + 1);
     }
+    if let Some((col, header)) = sheet.col_header.iter().next_back() {
+        max_col = max(max_col, *col + header.span);
+    }
+    let col_groups = sorted_groups(&sheet.group_cols);
 
     // table:table-column
     let mut c = 0;
@@ -2151,7 +2155,7 @@ fn write_table_columns(
             break;
         }
 
-        for grp in &sheet.group_cols {
+        for grp in &col_groups {
             if c == grp.from() {
                 xml_out.elem("table:table-column-group")?;
                 if !grp.display() {
@@ -2193,8 +2197,9 @@ fn write_table_columns(
             }
         }
 
-        for col_group in &sheet.group_cols {
-            if c == col_group.to() {
+        // col-headers never extend past the end of a group.
+        for col_group in &col_groups {
+            if col_group.to() >= c && col_group.to() < c + span {
                 xml_out.end_elem("table:table-column-group")?;
             }
         }
-- 
2.43.0


From ef67c9bea306742e932f6c8d1a282b8c4b4e57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:45 +0000
Subject: [PATCH 08/62] fix: read nested tags with the same name as their
 parent

---
 src/io/read.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3007f60..3aa9b46 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4727,7 +4727,7 @@ fn read_xml(
                     stack.push(tag);
                 }
                 Event::End(xml_tag) => {
-                    if xml_tag.name() == super_tag.name() {
+                    if stack.len() == 1 && xml_tag.name() == super_tag.name() {
                         break;
                     } else {
                         let tag = stack.pop().expect("valid stack");
@@ -4903,14 +4903,7 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
-                    if !stack.is_empty() {
-                        return Err(OdsError::Ods(format!(
-                            "XML corrupted. Endtag {} occured before all elements are closed: {:?}",
-                            from_utf8(super_tag.name().as_ref())?,
-                            stack
-                        )));
-                    }
+                Event::End(xml_tag) if stack.is_empty() && xml_tag.name() == super_tag.name() => {
                     break;
                 }
                 Event::End(xml_tag) => {
-- 
2.43.0


From e3a1128b07d156e7178426a34f07d470a3fd484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:34 +0000
Subject: [PATCH 09/62] fix: keep empty paragraphs of a cell

---
 src/io/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3aa9b46..3cf1067 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1440,7 +1440,10 @@ fn read_table_cell(
                     tc.content = append_text(TextContent::Text(String::new()), tc.content);
                 }
                 Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = read_text_or_tag(ctx, xml, xml_tag, false)?;
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                        TextContent::Empty => TextContent::Text(String::new()),
+                        new_txt => new_txt,
+                    };
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-- 
2.43.0


From 455bf59eb09d739c616fa2f3bffca015cee4a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:22 +0000
Subject: [PATCH 10/62] fix: unescape the currency of a cell

---
 src/io/parse.rs | 6 ------
 src/io/read.rs  | 6 +++---
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index da7e92c..5d4fb89 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -128,12 +128,6 @@ pub(crate) fn parse_string(input: KSpan<'_>) -> Result<String, OdsError> {
     Ok(String::from_utf8_lossy(input).to_string())
 }
 
-/// Parse a attribute value as a currency.
-#[inline]
-pub(crate) fn parse_currency(input: KSpan<'_>) -> Result<String, OdsError> {
-    Ok(String::from_utf8_lossy(input).to_string())
-}
-
 /// Parse a bool.
 #[inline]
 pub(crate) fn parse_bool(input: KSpan<'_>) -> Result<bool, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index 3cf1067..173696e 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -22,8 +22,8 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_currency, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
-    parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32, parse_i64,
+    parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
 use crate::io::NamespaceMap;
@@ -1411,7 +1411,7 @@ fn read_table_cell(
             }
             attr if attr.key.as_ref() == b"office:currency" => {
                 cell.get_or_insert_with(CellData::default);
-                tc.val_currency = Some(parse_currency(&attr.value)?);
+                tc.val_currency = Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
             attr if attr.key.as_ref() == b"table:formula" => {
                 cell.get_or_insert_with(CellData::default).formula =
-- 
2.43.0


From 4147d0cc861f9b5b9d11a5a6e849078145d29672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:31 +0000
Subject: [PATCH 11/62] fix: read content-validations with their help and error
 messages

---
 src/io/read.rs  | 36 ++++++++----------------------------
 src/io/write.rs |  2 +-
 2 files changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 173696e..37d722e 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2075,7 +2075,7 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             println!(" read_validations {:?}", evt);
         }
         match &evt {
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
                 valid = Validation::new();
@@ -2140,19 +2140,9 @@ fn read_validation_help(
             }
         }
     }
-    let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
-    match txt {
-        TextContent::Empty => {}
-        TextContent::Xml(txt) => {
-            vh.set_text(Some(txt));
-        }
-        _ => {
-            return Err(OdsError::Ods(format!(
-                "table:help-message invalid {:?}",
-                txt
-            )));
-        }
-    }
+    // there is only room for the first paragraph.
+    let txt = read_xml(ctx, xml, super_tag, empty_tag)?.into_vec()?;
+    vh.set_text(txt.into_iter().next());
 
     valid.set_help(Some(vh));
     Ok(())
@@ -2196,19 +2186,9 @@ fn read_validation_error(
             }
         }
     }
-    let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
-    match txt {
-        TextContent::Empty => {}
-        TextContent::Xml(txt) => {
-            ve.set_text(Some(txt));
-        }
-        _ => {
-            return Err(OdsError::Ods(format!(
-                "table:error-message invalid {:?}",
-                txt
-            )));
-        }
-    }
+    // there is only room for the first paragraph.
+    let txt = read_xml(ctx, xml, super_tag, empty_tag)?.into_vec()?;
+    ve.set_text(txt.into_iter().next());
 
     valid.set_err(Some(ve));
 
@@ -2228,7 +2208,7 @@ fn read_validation(
             attr if attr.key.as_ref() == b"table:condition" => {
                 // split off 'of:' prefix
                 let v = attr.decode_and_unescape_value(ctx.decoder)?;
-                valid.set_condition(Condition::new(v.split_at(3).1));
+                valid.set_condition(Condition::new(v.strip_prefix("of:").unwrap_or(&v)));
             }
             attr if attr.key.as_ref() == b"table:allow-empty-cell" => {
                 valid.set_allow_empty(parse_bool(&attr.value)?);
diff --git a/src/io/write.rs b/src/io/write.rs
index a07aec0..d05535e 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1478,7 +1478,7 @@ fn write_content_validations(
             xml_out.attr_str(
                 "table:display-list",
                 match valid.display() {
-                    ValidationDisplay::NoDisplay => "no",
+                    ValidationDisplay::NoDisplay => "none",
                     ValidationDisplay::Unsorted => "unsorted",
                     ValidationDisplay::SortAscending => "sort-ascending",
                 },
-- 
2.43.0


From 613adacfbb31def5227fbd9267d4648c593d05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:34 +0000
Subject: [PATCH 12/62] fix: write scripts and event-listeners as valid xml

---
 src/io/read.rs  |  6 ++++--
 src/io/write.rs | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 37d722e..3e52613 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1831,6 +1831,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!("read_scripts {:?}", evt);
         }
@@ -1842,7 +1843,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"office:script" =>
             {
-                let script = read_script(ctx, xml, xml_tag)?;
+                let script = read_script(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.add_script(script);
             }
 
@@ -1876,8 +1877,9 @@ fn read_script(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Script, OdsError> {
-    let v = read_xml(ctx, xml, super_tag, false)?;
+    let v = read_xml(ctx, xml, super_tag, empty_tag)?;
     let script: Script = Script {
         script_lang: v
             .get_attr("script:language")
diff --git a/src/io/write.rs b/src/io/write.rs
index d05535e..c4aa530 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1453,10 +1453,12 @@ fn write_office_body(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    xml_out.elem_if(!book.scripts.is_empty(), "office:scripts")?;
-    write_scripts(&book.scripts, xml_out)?;
-    write_event_listeners(&book.event_listener, xml_out)?;
-    xml_out.end_elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    if !book.scripts.is_empty() || !book.event_listener.is_empty() {
+        xml_out.elem("office:scripts")?;
+        write_scripts(&book.scripts, xml_out)?;
+        write_event_listeners(&book.event_listener, xml_out)?;
+        xml_out.end_elem("office:scripts")?;
+    }
     Ok(())
 }
 
@@ -2448,7 +2450,7 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
             write_xmlcontent(content, xml_out)?;
         }
 
-        xml_out.end_elem("/office:script")?;
+        xml_out.end_elem("office:script")?;
     }
 
     Ok(())
@@ -2458,6 +2460,10 @@ fn write_event_listeners(
     events: &HashMap<String, EventListener>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
+    if events.is_empty() {
+        return Ok(());
+    }
+    xml_out.elem("office:event-listeners")?;
     for event in events.values() {
         xml_out.empty("script:event-listener")?;
         xml_out.attr_esc("script:event-name", &event.event_name)?;
@@ -2467,6 +2473,7 @@ fn write_event_listeners(
         xml_out.attr_esc("xlink:href", &event.href)?;
         xml_out.attr_esc("xlink:type", &event.link_type)?;
     }
+    xml_out.end_elem("office:event-listeners")?;
 
     Ok(())
 }
-- 
2.43.0


From 1c24da18d763095c91aaf0bbd0ee46275642ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:31 +0000
Subject: [PATCH 13/62] fix: write xlink:actuate the way the standard and the
 reader spell it

---
 src/xlink.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xlink.rs b/src/xlink.rs
index 8bb20fb..ea2fb84 100644
--- a/src/xlink.rs
+++ b/src/xlink.rs
@@ -15,8 +15,8 @@ pub enum XLinkActuate {
 impl Display for XLinkActuate {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            XLinkActuate::OnLoad => write!(f, "OnLoad"),
-            XLinkActuate::OnRequest => write!(f, "OnRequest"),
+            XLinkActuate::OnLoad => write!(f, "onLoad"),
+            XLinkActuate::OnRequest => write!(f, "onRequest"),
         }
     }
 }
-- 
2.43.0


From c9e11a81faf71d0fb119434056d0e4474010b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:51 +0000
Subject: [PATCH 14/62] fix: read back all metadata that is written

---
 src/io/read.rs  | 66 +++++++++++++++++++++----------------------------
 src/io/write.rs |  8 +++---
 2 files changed, 32 insertions(+), 42 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3e52613..18c9dd3 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3788,6 +3788,7 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
 
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!("read_metadata {:?}", evt);
         }
@@ -3914,30 +3915,40 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                     read_metadata_value(ctx, xml, xml_tag, parse_duration, Duration::default)?;
             }
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:template" =>
+            {
                 ctx.book.metadata.template = read_metadata_template(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:auto-reload" =>
+            {
                 ctx.book.metadata.auto_reload = read_metadata_auto_reload(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" =>
+            {
                 ctx.book.metadata.hyperlink_behaviour =
                     read_metadata_hyperlink_behaviour(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:document-statistic" =>
+            {
                 ctx.book.metadata.document_statistics =
                     read_metadata_document_statistics(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:user-defined" => {
-                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag)?;
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:user-defined" =>
+            {
+                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.metadata.user_defined.push(userdefined);
             }
 
@@ -4044,7 +4055,7 @@ fn read_metadata_hyperlink_behaviour(
 
     for attr in tag.attributes().with_checks(false) {
         match attr? {
-            attr if attr.key.as_ref() == b"office:targetframe-name" => {
+            attr if attr.key.as_ref() == b"office:target-frame-name" => {
                 hyperlink_behaviour.target_frame_name =
                     Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
@@ -4107,6 +4118,7 @@ fn read_metadata_user_defined(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<MetaUserDefined, OdsError> {
     let mut user_defined = MetaUserDefined::default();
     let mut value_type = None;
@@ -4132,37 +4144,15 @@ fn read_metadata_user_defined(
         }
     }
 
-    let mut buf = ctx.pop_buf();
-    loop {
-        let evt = xml.read_event_into(&mut buf)?;
-        if cfg!(feature = "dump_xml") {
-            println!("read_meta_user_defined {:?}", evt);
-        }
-
-        match &evt {
-            Event::End(xml_tag) if xml_tag.name() == tag.name() => {
-                break;
-            }
-            Event::Text(xml_text) => {
-                user_defined.value = match value_type {
-                    Some("boolean") => MetaValue::Boolean(parse_bool(xml_text)?),
-                    Some("date") => MetaValue::Datetime(parse_datetime(xml_text)?),
-                    Some("float") => MetaValue::Float(parse_f64(xml_text)?),
-                    Some("time") => MetaValue::TimeDuration(parse_duration(xml_text)?),
-                    _ => MetaValue::String(xml_text.decode()?.to_string()),
-                };
-            }
-            Event::Eof => {
-                break;
-            }
-            _ => {
-                unused_event("read_meta_user_defined", &evt)?;
-            }
-        }
-
-        buf.clear();
-    }
-    ctx.push_buf(buf);
+    let text = read_text(ctx, xml, tag, empty_tag, parse_string)?.unwrap_or_default();
+    user_defined.value = match value_type {
+        _ if text.is_empty() => MetaValue::String(text),
+        Some("boolean") => MetaValue::Boolean(parse_bool(text.as_bytes())?),
+        Some("date") => MetaValue::Datetime(parse_datetime(text.as_bytes())?),
+        Some("float") => MetaValue::Float(parse_f64(text.as_bytes())?),
+        Some("time") => MetaValue::TimeDuration(parse_duration(text.as_bytes())?),
+        _ => MetaValue::String(text),
+    };
 
     Ok(user_defined)
 }
diff --git a/src/io/write.rs b/src/io/write.rs
index c4aa530..788bab9 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -819,7 +819,7 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
 fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:meta")?;
 
-    xml_out.elem_text("meta:generator", &book.metadata.generator)?;
+    xml_out.elem_text_esc("meta:generator", &book.metadata.generator)?;
     if !book.metadata.title.is_empty() {
         xml_out.elem_text_esc("dc:title", &book.metadata.title)?;
     }
@@ -856,7 +856,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if book.metadata.editing_cycles > 0 {
         xml_out.elem_text("meta:editing-cycles", &book.metadata.editing_cycles)?;
     }
-    if book.metadata.editing_duration.num_seconds() > 0 {
+    if !book.metadata.editing_duration.is_zero() {
         xml_out.elem_text(
             "meta:editing-duration",
             &format_duration2(book.metadata.editing_duration),
@@ -883,7 +883,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     }
 
     if !book.metadata.auto_reload.is_empty() {
-        xml_out.empty("meta:auto_reload")?;
+        xml_out.empty("meta:auto-reload")?;
         if let Some(v) = book.metadata.auto_reload.delay {
             xml_out.attr("meta:delay", &format_duration2(v))?;
         }
@@ -931,7 +931,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 
     for userdef in &book.metadata.user_defined {
         xml_out.elem("meta:user-defined")?;
-        xml_out.attr("meta:name", &userdef.name)?;
+        xml_out.attr_esc("meta:name", &userdef.name)?;
         if !matches!(userdef.value, MetaValue::String(_)) {
             xml_out.attr_str(
                 "meta:value-type",
-- 
2.43.0


From ab279e24459058254d21438f1e84931f4b1ba519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 15/62] fix: don't panic on empty groups and don't loop forever
 on a truncated table

---
 src/io/read.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 18c9dd3..786fc0c 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -986,7 +986,8 @@ fn read_table(
                 col_group.push(v);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-column-group" => {
-                if let Some(mut v) = col_group.pop() {
+                // ignore empty groups.
+                if let Some(mut v) = col_group.pop().filter(|v| v.from < col) {
                     v.set_to(col - 1);
                     sheet.group_cols.push(v);
                 }
@@ -996,7 +997,9 @@ fn read_table(
                 col_range_from = col;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-columns" => {
-                if let Some(header_cols) = &mut sheet.header_cols {
+                if col_range_from == col {
+                    // no columns
+                } else if let Some(header_cols) = &mut sheet.header_cols {
                     header_cols.to = col - 1;
                 } else {
                     sheet.header_cols = Some(Header {
@@ -1022,11 +1025,10 @@ fn read_table(
                 row_group.push(v);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-row-group" => {
-                if let Some(mut v) = row_group.pop() {
+                // ignore empty groups. there are no unbalanced tags.
+                if let Some(mut v) = row_group.pop().filter(|v| v.from < row) {
                     v.set_to(row - 1);
                     sheet.group_rows.push(v);
-                } else {
-                    // there are no unbalanced tags.
                 }
             }
 
@@ -1034,7 +1036,9 @@ fn read_table(
                 row_range_from = row;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-rows" => {
-                if let Some(header_rows) = &mut sheet.header_rows {
+                if row_range_from == row {
+                    // no rows
+                } else if let Some(header_rows) = &mut sheet.header_rows {
                     header_rows.to = row - 1;
                 } else {
                     sheet.header_rows = Some(Header {
@@ -1077,6 +1081,9 @@ fn read_table(
                 col_data |= have_data;
             }
 
+            Event::Eof => {
+                break;
+            }
             _ => {
                 unused_event("read_table", &evt)?;
             }
-- 
2.43.0


From 3aaf9284320b39ff31871a50bfa2bf2264e007d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:12 +0000
Subject: [PATCH 16/62] fix: write named-expressions and conditional-formats of
 a sheet inside the sheet

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 788bab9..a0a88a5 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1875,14 +1875,14 @@ fn write_sheet(
         )?;
     }
 
-    xml_out.end_elem("table:table")?;
-
     for tag in &sheet.extra {
         if tag.name() == "table:named-expressions" || tag.name() == "calcext:conditional-formats" {
             write_xmltag(tag, xml_out)?;
         }
     }
 
+    xml_out.end_elem("table:table")?;
+
     Ok(())
 }
 
-- 
2.43.0


From edf9ad70997dacdf25ad7f01c2256801e9d45a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:03 +0000
Subject: [PATCH 17/62] fix: keep the origin of all fonts

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 786fc0c..81b0408 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1957,7 +1957,7 @@ fn read_office_font_face_decls(
                 ctx.book.add_font(font);
 
                 font = FontFaceDecl::new_empty();
-                font.set_origin(StyleOrigin::Content);
+                font.set_origin(origin);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 break;
-- 
2.43.0


From ea3526402ec226d9e91eca57ad2d339b3cb68046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:10 +0000
Subject: [PATCH 18/62] fix: don't panic on repeat-counts that are 0 or too big

---
 src/io/parse.rs |  6 ++++++
 src/io/read.rs  | 20 +++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 5d4fb89..495a375 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -140,6 +140,12 @@ pub(crate) fn parse_u32(input: KSpan<'_>) -> Result<u32, OdsError> {
     Ok(token_u32(input)?)
 }
 
+/// Parse a repeat-count. This is always positive.
+#[inline]
+pub(crate) fn parse_repeat(input: KSpan<'_>) -> Result<u32, OdsError> {
+    Ok(token_u32(input)?.max(1))
+}
+
 /// Parse a i64.
 #[inline]
 pub(crate) fn parse_i64(input: KSpan<'_>) -> Result<i64, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index 81b0408..d1f2fe2 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -23,7 +23,7 @@ use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
     parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32, parse_i64,
-    parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
+    parse_repeat, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
 use crate::io::NamespaceMap;
@@ -1014,7 +1014,7 @@ fn read_table(
 
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
-                col += col_repeat;
+                col = next_pos(col, col_repeat)?;
             }
 
             //
@@ -1063,7 +1063,7 @@ fn read_table(
                     // row-repeat is ignored unless there is any cell-data in that row.
                     sheet.set_row_repeat(row, row_repeat);
                 }
-                row += row_repeat;
+                row = next_pos(row, row_repeat)?;
                 row_repeat = 1;
                 col_data = false;
             }
@@ -1077,7 +1077,7 @@ fn read_table(
             {
                 let (cell_repeat, have_data) =
                     read_table_cell(ctx, xml, &mut sheet, row, col, xml_tag, empty_tag)?;
-                col += cell_repeat;
+                col = next_pos(col, cell_repeat)?;
                 col_data |= have_data;
             }
 
@@ -1100,6 +1100,12 @@ fn read_table(
     Ok(())
 }
 
+// Position after a repeated row/column.
+fn next_pos(pos: u32, repeat: u32) -> Result<u32, OdsError> {
+    pos.checked_add(repeat)
+        .ok_or_else(|| OdsError::Ods(format!("repeat {} is out of range", repeat)))
+}
+
 // Reads the table attributes.
 fn read_table_attr(
     ctx: &mut OdsContext,
@@ -1148,7 +1154,7 @@ fn read_table_row_attr(
         match attr? {
             // table:default-cell-style-name 19.615, table:visibility 19.749 and xml:id 19.914.
             attr if attr.key.as_ref() == b"table:number-rows-repeated" => {
-                row_repeat = parse_u32(&attr.value)?;
+                row_repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1246,7 +1252,7 @@ fn read_table_col_attr(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                col_repeat = parse_u32(&attr.value)?;
+                col_repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1331,7 +1337,7 @@ fn read_table_cell(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                repeat = parse_u32(&attr.value)?;
+                repeat = parse_repeat(&attr.value)?;
             }
             attr if attr.key.as_ref() == b"table:number-rows-spanned" => {
                 let row_span = parse_u32(&attr.value)?;
-- 
2.43.0


From 8bd2e40a64cd42614e688a0a66d28cc0412bfc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:44 +0000
Subject: [PATCH 19/62] fix: cell references with any sheet name or index parse
 back

---
 src/refs.rs        |  4 +++-
 src/refs/parser.rs | 14 +++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/refs.rs b/src/refs.rs
index 63d2e35..42069b5 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -1125,7 +1125,9 @@ mod format_refs {
         abs: bool,
     ) -> fmt::Result {
         fmt_abs(f, abs)?;
-        if table_name.contains(['\'', ' ', '.']) {
+        // Everything that is not a valid unquoted name needs quotes.
+        let plain = |c: char| !c.is_ascii() || c.is_ascii_alphanumeric() || c == '_';
+        if table_name.is_empty() || !table_name.chars().all(plain) {
             write!(f, "'")?;
             write!(f, "{}", &table_name.replace('\'', "''"))?;
             write!(f, "'")?;
diff --git a/src/refs/parser.rs b/src/refs/parser.rs
index 26b8edf..6858ec7 100644
--- a/src/refs/parser.rs
+++ b/src/refs/parser.rs
@@ -289,8 +289,8 @@ mod conv {
     /// Parse a row number to a row index.
     #[allow(clippy::explicit_auto_deref)]
     pub(crate) fn try_u32_from_rowname(i: KSpan<'_>) -> Result<u32, ParseRownameError> {
-        match u32::from_str(i.fragment()) {
-            Ok(v) if v > 0 => Ok(v - 1),
+        match u64::from_str(i.fragment()) {
+            Ok(v) if v > 0 => u32::try_from(v - 1).map_err(|_| ParseRownameError::PosOverflow),
             Ok(_v) => Err(ParseRownameError::Zero),
             Err(e) => Err(match e.kind() {
                 IntErrorKind::Empty => ParseRownameError::Empty,
@@ -331,14 +331,14 @@ mod conv {
 
     /// Parse a col label to a column index.
     pub(crate) fn try_u32_from_colname(i: KSpan<'_>) -> Result<u32, ParseColnameError> {
-        let mut col = 0u32;
+        let mut col = 0u64;
 
         for c in (*i).chars() {
             if !c.is_ascii_uppercase() {
                 return Err(ParseColnameError::InvalidChar);
             }
 
-            let mut v = c as u32 - b'A' as u32;
+            let mut v = c as u64 - b'A' as u64;
             if v == 25 {
                 v = 0;
                 col = (col + 1) * 26;
@@ -347,12 +347,16 @@ mod conv {
                 col *= 26;
             }
             col += v;
+
+            if col > u32::MAX as u64 + 1 {
+                return Err(ParseColnameError::InvalidColname);
+            }
         }
 
         if col == 0 {
             Err(ParseColnameError::InvalidColname)
         } else {
-            Ok(col - 1)
+            Ok((col - 1) as u32)
         }
     }
 }
-- 
2.43.0


From 73326e2f6ee1f6aca30a53adc15b80f056b21ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 20/62] fix: row-wise and column-wise iteration stops at the
 end of the range

---
 src/sheet_.rs | 60 +++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 169cd26..61a21dd 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -314,7 +314,9 @@ impl<'a> Iterator for CellIter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter.size_hint()
+        let loaded = self.k_data.is_some() as usize;
+        let (lower, upper) = self.iter.size_hint();
+        (lower + loaded, upper.map(|v| v + loaded))
     }
 }
 
@@ -342,7 +344,8 @@ impl<'a> IterRows<'a> {
             iter: sheet.data.range(range),
             start,
             end,
-            hint: (end.0 - start.0) as usize * (end.1 * start.1) as usize,
+            hint: (end.0.saturating_sub(start.0) as usize)
+                .saturating_mul(end.1.saturating_sub(start.1) as usize),
         }
     }
 }
@@ -355,7 +358,11 @@ impl<'a> Iterator for IterRows<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some(((r, c), d)) = self.iter.next() {
-                if *r < self.end.0 && *c >= self.start.1 && *c < self.end.1 {
+                if *r >= self.start.0
+                    && *r < self.end.0
+                    && *c >= self.start.1
+                    && *c < self.end.1
+                {
                     return Some(((*r, *c), d.cell_content_ref()));
                 }
             } else {
@@ -401,11 +408,18 @@ impl<'a> IterCols<'a> {
             Bound::Unbounded => sheet.used_grid_size(),
         };
 
+        // nothing to do for an empty range.
+        let cell = if start.0 < end.0 && start.1 < end.1 {
+            start
+        } else {
+            end
+        };
+
         Self {
             sheet,
             start,
             end,
-            cell: start,
+            cell,
         }
     }
 }
@@ -413,43 +427,33 @@ impl<'a> IterCols<'a> {
 impl<'a> Iterator for IterCols<'a> {
     type Item = ((u32, u32), CellContentRef<'a>);
 
-    #[allow(clippy::comparison_chain)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cell.0 == self.end.0 && self.cell.1 == self.end.1 {
-            return None;
-        }
+        while self.cell != self.end {
+            let (r, c) = self.cell;
 
-        loop {
-            let r = self.cell.0;
-            let c = self.cell.1;
-            let d = self.sheet.cell_ref(self.cell.0, self.cell.1);
-
-            if self.cell.0 + 1 < self.end.0 {
-                self.cell.0 += 1;
-            } else if self.cell.0 + 1 == self.end.0 {
-                if self.cell.1 + 1 < self.end.1 {
-                    self.cell.0 = self.start.0;
-                    self.cell.1 += 1;
-                } else if self.cell.1 + 1 == self.end.1 {
-                    self.cell.0 += 1;
-                    self.cell.1 += 1;
-                } else {
-                    assert_eq!(self.cell, self.end);
-                }
+            if r + 1 < self.end.0 {
+                self.cell = (r + 1, c);
+            } else if c + 1 < self.end.1 {
+                self.cell = (self.start.0, c + 1);
             } else {
-                assert_eq!(self.cell, self.end);
+                self.cell = self.end;
             }
 
-            if let Some(d) = d {
+            if let Some(d) = self.sheet.cell_ref(r, c) {
                 return Some(((r, c), d));
             }
         }
+
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         (
             0,
-            Some((self.end.0 - self.start.0) as usize * (self.end.1 - self.start.1) as usize),
+            Some(
+                (self.end.0.saturating_sub(self.start.0) as usize)
+                    .saturating_mul(self.end.1.saturating_sub(self.start.1) as usize),
+            ),
         )
     }
 }
-- 
2.43.0


From a1530f39a6ca9e839311498cd1bd131f4201e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:14 +0000
Subject: [PATCH 21/62] fix: write dates after the year 9999 the way XML Schema
 and the reader expect them

---
 src/io/format.rs | 22 +++++++++++++++++++++-
 src/io/write.rs  | 20 +++++++++-----------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index 38566f9..36a3829 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -1,7 +1,27 @@
 use crate::validation::Validation;
-use chrono::Duration;
+use chrono::{Datelike, Duration, NaiveDateTime};
 use std::fmt::{Display, Formatter};
 
+/// Format as XML Schema datetime.
+///
+/// Chrono prefixes years beyond 9999 with a '+', which is not allowed there.
+pub(crate) fn format_datetime(v: &NaiveDateTime) -> impl Display + '_ {
+    struct Tmp<'f>(&'f NaiveDateTime);
+
+    impl<'f> Display for Tmp<'f> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            if self.0.year() > 9999 {
+                write!(f, "{}", self.0.year())?;
+            } else {
+                write!(f, "{}", self.0.format("%Y"))?;
+            }
+            write!(f, "{}", self.0.format("-%m-%dT%H:%M:%S%.f"))
+        }
+    }
+
+    Tmp(v)
+}
+
 pub(crate) fn format_duration2(v: Duration) -> impl Display {
     struct Tmp(Duration);
 
diff --git a/src/io/write.rs b/src/io/write.rs
index a0a88a5..6781d74 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3,7 +3,7 @@ use crate::config::{ConfigItem, ConfigItemType, ConfigValue};
 use crate::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
 use crate::error::OdsError;
 use crate::format::{FormatPartType, ValueFormatTrait};
-use crate::io::format::{format_duration2, format_validation_condition};
+use crate::io::format::{format_datetime, format_duration2, format_validation_condition};
 use crate::io::xmlwriter::XmlWriter;
 use crate::io::NamespaceMap;
 use crate::manifest::Manifest;
@@ -36,8 +36,6 @@ mod tests;
 
 type OdsXmlWriter<'a> = XmlWriter<&'a mut dyn Write>;
 
-const DATETIME_FORMAT: &str = "%Y-%m-%dT%H:%M:%S%.f";
-
 #[allow(dead_code)]
 trait SeekWrite: Seek + Write {}
 
@@ -842,13 +840,13 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         xml_out.elem_text_esc("meta:printed-by", &book.metadata.printed_by)?;
     }
     if let Some(v) = book.metadata.creation_date {
-        xml_out.elem_text("meta:creation-date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("meta:creation-date", &format_datetime(&v))?;
     }
     if let Some(v) = book.metadata.date {
-        xml_out.elem_text("dc:date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("dc:date", &format_datetime(&v))?;
     }
     if let Some(v) = book.metadata.print_date {
-        xml_out.elem_text("meta:print-date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("meta:print-date", &format_datetime(&v))?;
     }
     if !book.metadata.language.is_empty() {
         xml_out.elem_text_esc("dc:language", &book.metadata.language)?;
@@ -866,7 +864,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if !book.metadata.template.is_empty() {
         xml_out.empty("meta:template")?;
         if let Some(v) = book.metadata.template.date {
-            xml_out.attr("meta:date", &v.format(DATETIME_FORMAT))?;
+            xml_out.attr("meta:date", &format_datetime(&v))?;
         }
         if let Some(v) = book.metadata.template.actuate {
             xml_out.attr("xlink:actuate", &v)?;
@@ -946,7 +944,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         }
         match &userdef.value {
             MetaValue::Boolean(v) => xml_out.text_str(if *v { "true" } else { "false" })?,
-            MetaValue::Datetime(v) => xml_out.text(&v.format(DATETIME_FORMAT))?,
+            MetaValue::Datetime(v) => xml_out.text(&format_datetime(v))?,
             MetaValue::Float(v) => xml_out.text(&v)?,
             MetaValue::TimeDuration(v) => xml_out.text(&format_duration2(*v))?,
             MetaValue::String(v) => xml_out.text_esc(v)?,
@@ -1158,7 +1156,7 @@ fn write_config_item(
         }
         ConfigValue::DateTime(v) => {
             xml_out.attr_str("config:type", "datetime")?;
-            xml_out.text(&v.format(DATETIME_FORMAT))?;
+            xml_out.text(&format_datetime(v))?;
         }
         ConfigValue::Double(v) => {
             xml_out.attr_str("config:type", "double")?;
@@ -2294,7 +2292,7 @@ fn write_cell(
         }
         Value::DateTime(d) => {
             xml_out.attr_str("office:value-type", "date")?;
-            let value = d.format(DATETIME_FORMAT);
+            let value = format_datetime(d);
             xml_out.attr("office:date-value", &value)?;
             xml_out.elem("text:p")?;
             xml_out.text(&value)?;
@@ -2431,7 +2429,7 @@ fn write_annotation(
     }
     if let Some(date) = annotation.date() {
         xml_out.elem("dc:date")?;
-        xml_out.text_esc(&date.format(DATETIME_FORMAT))?;
+        xml_out.text_esc(&format_datetime(date))?;
         xml_out.end_elem("dc:date")?;
     }
     for v in annotation.text() {
-- 
2.43.0


From a3a2e1df12c93c42676daa67b6e791e84a478c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:31 +0000
Subject: [PATCH 22/62] fix: don't add line-breaks to mixed content in fods
 files

---
 src/io/write.rs     | 2 ++
 src/io/xmlwriter.rs | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 6781d74..30186f3 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3239,6 +3239,7 @@ fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsErr
         xml_out.attr_esc(k.as_ref(), v)?;
     }
 
+    let line_break = xml_out.set_line_break(false);
     for c in x.content() {
         match c {
             XmlContent::Text(t) => {
@@ -3251,6 +3252,7 @@ fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsErr
     }
 
     xml_out.end_elem_if(!x.is_empty(), x.name())?;
+    xml_out.set_line_break(line_break);
 
     Ok(())
 }
diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 451e228..72138cf 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -109,6 +109,13 @@ impl<W: Write> XmlWriter<W> {
         self
     }
 
+    /// Switches the line-breaks after each element on or off.
+    /// Within mixed content they would change the text.
+    /// Returns the previous state.
+    pub(crate) fn set_line_break(&mut self, line_break: bool) -> bool {
+        std::mem::replace(&mut self.line_break, line_break)
+    }
+
     /// Write the DTD. You have to take care of the encoding
     /// on the underlying Write yourself.
     pub(crate) fn dtd(&mut self, encoding: &str) -> io::Result<()> {
-- 
2.43.0


From 2b91d2b61bada4643de7afb158a03c458aaa7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 23/62] fix: escape white-space that an XML parser would
 normalize

---
 src/io/xmlwriter.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 72138cf..2dbd150 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -167,7 +167,7 @@ impl<W: Write> XmlWriter<W> {
         self.buf.push_str(name);
         self.buf.push('>');
 
-        self.escape(text)?;
+        self.escape(text, false)?;
 
         self.buf.push('<');
         self.buf.push('/');
@@ -303,14 +303,17 @@ impl<W: Write> XmlWriter<W> {
         self.escape_name(name)?;
         self.buf.push('=');
         self.buf.push('"');
-        self.escape(value)?;
+        self.escape(value, true)?;
         self.buf.push('"');
         Ok(())
     }
 
     /// Escape text
-    fn escape<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
-        fn escape_impl(text: &[u8], tmp2: &mut Vec<u8>) {
+    ///
+    /// An XML parser would normalize a plain carriage-return, and any
+    /// tabs and line-feeds too if they are part of an attribute.
+    fn escape<T: Display + ?Sized>(&mut self, text: &T, is_attr: bool) -> io::Result<()> {
+        fn escape_impl(text: &[u8], is_attr: bool, tmp2: &mut Vec<u8>) {
             tmp2.clear();
             for c in text {
                 match c {
@@ -329,6 +332,15 @@ impl<W: Write> XmlWriter<W> {
                     b'>' => {
                         let _ = write!(tmp2, "&gt;");
                     }
+                    b'\r' => {
+                        let _ = write!(tmp2, "&#13;");
+                    }
+                    b'\n' if is_attr => {
+                        let _ = write!(tmp2, "&#10;");
+                    }
+                    b'\t' if is_attr => {
+                        let _ = write!(tmp2, "&#9;");
+                    }
                     _ => tmp2.push(*c),
                 };
             }
@@ -336,7 +348,7 @@ impl<W: Write> XmlWriter<W> {
 
         self.tmp.clear();
         let _ = write!(self.tmp, "{}", text);
-        escape_impl(&self.tmp, &mut self.tmp2);
+        escape_impl(&self.tmp, is_attr, &mut self.tmp2);
         // Safety: this is always from a string buffer.
         unsafe {
             self.buf.push_str(from_utf8_unchecked(&self.tmp2));
@@ -402,7 +414,7 @@ impl<W: Write> XmlWriter<W> {
     /// Write a text, escapes the text automatically
     pub(crate) fn text_esc<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
         self.close_elem()?;
-        self.escape(text)?;
+        self.escape(text, false)?;
         Ok(())
     }
 
-- 
2.43.0


From 462d5b2c889853f3d75eefd3fcda4e064e43bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 24/62] fix: cell! with a table only makes those parts absolute
 that are marked abs

---
 src/formula.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 91816ca..a4062e9 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -148,13 +148,13 @@ macro_rules! cell {
         spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
     };
     ($table:expr => abs $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, false, $col)
     };
     ($table:expr => $row:expr, abs $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, true, $col)
     };
     ($table:expr => $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, false, $col)
     };
 
     ($table:expr => abs $row:expr, abs $col:expr, abs $row2:expr, abs $col2:expr) => {
-- 
2.43.0


From 8d004ec1661d9f042280d2fe06cd1a4e69217775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:27 +0000
Subject: [PATCH 25/62] fix: write tab-stops of paragraph styles without other
 attributes

---
 src/io/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 30186f3..81e0ef7 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2767,7 +2767,9 @@ fn write_paragraphstyle(
     style: &ParagraphStyle,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    let is_empty = style.paragraphstyle().is_empty() && style.textstyle().is_empty();
+    let is_empty = style.paragraphstyle().is_empty()
+        && style.tabstops().is_none()
+        && style.textstyle().is_empty();
 
     if style.styleuse() == StyleUse::Default {
         xml_out.elem_if(!is_empty, "style:default-style")?;
@@ -2786,7 +2788,7 @@ fn write_paragraphstyle(
         }
     }
 
-    if !style.paragraphstyle().is_empty() {
+    if !style.paragraphstyle().is_empty() || style.tabstops().is_some() {
         if style.tabstops().is_none() {
             xml_out.empty("style:paragraph-properties")?;
             for (a, v) in style.paragraphstyle().iter() {
-- 
2.43.0


From b7533807fe0dfb27d5c7af3b94df55760b5712b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 26/62] fix: keep headings and the attributes of paragraphs in
 headers and footers

---
 src/io/read.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index d1f2fe2..0e86c29 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2366,7 +2366,6 @@ fn read_headerfooter(
     super_tag: &BytesStart<'_>,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
-    let mut content = TextContent::Empty;
 
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
@@ -2407,27 +2406,15 @@ fn read_headerfooter(
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:p" =>
+                if xml_tag.name().as_ref() == b"text:p"
+                    || xml_tag.name().as_ref() == b"text:h" =>
             {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
-            }
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:h" =>
-            {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
+                hf.add_content(read_xml(ctx, xml, xml_tag, empty_tag)?);
             }
             // no other tags supported for now. they have never been seen in the wild.
             Event::Text(_) => (),
             Event::End(xml_tag) => {
                 if xml_tag.name() == super_tag.name() {
-                    hf.set_content(match content {
-                        TextContent::Empty => Vec::new(),
-                        TextContent::Text(v) => vec![TextP::new().text(v).into()],
-                        TextContent::Xml(v) => vec![v],
-                        TextContent::XmlVec(v) => v,
-                    });
                     break;
                 }
             }
-- 
2.43.0


From 6872559089c25f2a0b76ad20b25824f5f4fc068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:51 +0000
Subject: [PATCH 27/62] fix: read page layouts with self-closing header-style,
 footer-style or page-layout

---
 src/io/read.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 0e86c29..6e6a015 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1988,6 +1988,7 @@ fn read_page_style(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut pl = PageStyle::new_empty();
     for attr in super_tag.attributes().with_checks(false) {
@@ -2006,6 +2007,11 @@ fn read_page_style(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_pagestyle(pl);
+        return Ok(());
+    }
+
     let mut headerstyle = false;
     let mut footerstyle = false;
 
@@ -2023,18 +2029,14 @@ fn read_page_style(
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:page-layout-properties" => {}
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:header-style" =>
-            {
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = false;
             }
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:footer-style" =>
-            {
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
                 footerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
@@ -2517,7 +2519,7 @@ fn read_office_automatic_styles(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:page-layout" =>
             {
-                read_page_style(ctx, xml, xml_tag)?;
+                read_page_style(ctx, xml, xml_tag, empty_tag)?;
             }
 
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:automatic-styles" => {
-- 
2.43.0


From 6d0713e629e30438bceb468913a6b39a0619081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:43 +0000
Subject: [PATCH 28/62] fix: read self-closing master-pages and the display
 flag of empty headers and footers

---
 src/io/read.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 6e6a015..53cbe33 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2254,6 +2254,7 @@ fn read_office_master_styles(
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_styles {:?}", evt);
         }
@@ -2261,7 +2262,7 @@ fn read_office_master_styles(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:master-page" =>
             {
-                read_master_page(ctx, xml, origin, xml_tag)?;
+                read_master_page(ctx, xml, origin, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:master-styles" => {
                 break;
@@ -2286,6 +2287,7 @@ fn read_master_page(
     xml: &mut OdsXmlReader<'_>,
     _origin: StyleOrigin,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut masterpage = MasterPage::new_empty();
 
@@ -2312,36 +2314,44 @@ fn read_master_page(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_masterpage(masterpage);
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_page {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {
-                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header" =>
+            {
+                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {
-                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {
-                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {
-                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer" =>
+            {
+                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {
-                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {
-                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:master-page" => {
                 break;
@@ -2366,6 +2376,7 @@ fn read_headerfooter(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
 
@@ -2380,6 +2391,10 @@ fn read_headerfooter(
         }
     }
 
+    if empty_tag {
+        return Ok(hf);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
-- 
2.43.0


From 8224519d57ce3da3e16a37132f1dca583242a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:25 +0000
Subject: [PATCH 29/62] fix: unescape the embedded text of a number format

---
 src/io/read.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 53cbe33..254e53c 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2962,6 +2962,7 @@ fn read_part_number(
     copy_attr2(ctx, part.attrmap_mut(), super_tag)?;
 
     if !empty_tag {
+        let mut embedded_text = false;
         let mut buf = ctx.pop_buf();
         loop {
             let evt = xml.read_event_into(&mut buf)?;
@@ -2972,6 +2973,9 @@ fn read_part_number(
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
                     if xml_tag.name().as_ref() == b"number:embedded-text" =>
                 {
+                    // there is only room for one text.
+                    part.clear_content();
+                    embedded_text = matches!(evt, Event::Start(_));
                     for attr in xml_tag.attributes().with_checks(false) {
                         let attr = attr?;
                         match attr.key.as_ref() {
@@ -2988,10 +2992,16 @@ fn read_part_number(
                         }
                     }
                 }
-                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {}
-                Event::Text(xml_text) => {
-                    part.set_content(parse_string(xml_text.as_ref())?);
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {
+                    embedded_text = false;
+                }
+                Event::GeneralRef(xml_ref) if embedded_text => {
+                    part.append_content(entity(xml_ref)?);
+                }
+                Event::Text(xml_text) if embedded_text => {
+                    part.append_content(xml_text.decode()?);
                 }
+                Event::Text(_) => {}
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
-- 
2.43.0


From 10b0890b3b29ec5a5b11d94dd2559a87acfb0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:40 +0000
Subject: [PATCH 30/62] fix: read self-closing value formats

---
 src/io/read.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 254e53c..7951d10 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2481,7 +2481,7 @@ fn read_office_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:styles" => {
                 break;
@@ -2528,7 +2528,7 @@ fn read_office_automatic_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag, empty_tag)?;
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
@@ -2561,41 +2561,42 @@ fn read_value_format(
     origin: StyleOrigin,
     styleuse: StyleUse,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     match super_tag.name().as_ref() {
         b"number:boolean-style" => {
             let mut valuestyle = ValueFormatBoolean::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_boolean_format(valuestyle);
         }
         b"number:date-style" => {
             let mut valuestyle = ValueFormatDateTime::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_datetime_format(valuestyle);
         }
         b"number:time-style" => {
             let mut valuestyle = ValueFormatTimeDuration::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_timeduration_format(valuestyle);
         }
         b"number:number-style" => {
             let mut valuestyle = ValueFormatNumber::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_number_format(valuestyle);
         }
         b"number:currency-style" => {
             let mut valuestyle = ValueFormatCurrency::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_currency_format(valuestyle);
         }
         b"number:percentage-style" => {
             let mut valuestyle = ValueFormatPercentage::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_percentage_format(valuestyle);
         }
         b"number:text-style" => {
             let mut valuestyle = ValueFormatText::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag, empty_tag)?;
             ctx.book.add_text_format(valuestyle);
         }
         _ => {
@@ -2619,6 +2620,7 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     styleuse: StyleUse,
     valuestyle: &mut T,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     //
     valuestyle.set_origin(origin);
@@ -2626,6 +2628,10 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     let name = copy_style_attr(ctx, valuestyle.attrmap_mut(), super_tag)?;
     valuestyle.set_name(name.as_str());
 
+    if empty_tag {
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
-- 
2.43.0


From 51cfabcbce4e1de054dad5ca3cac21a563b86764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:49 +0000
Subject: [PATCH 31/62] fix: write all styles and fonts of a workbook
 regardless of its former file format

---
 src/io/write.rs | 121 ++++++++++++++----------------------------------
 1 file changed, 35 insertions(+), 86 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 81e0ef7..4c6a390 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -153,65 +153,12 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
     sanity_checks(book)?;
     calculations(book)?;
 
-    convert(book)?;
-
     let mut xml_out = XmlWriter::new(writer).line_break(true);
     write_fods_content(book, &mut xml_out)?;
 
     Ok(())
 }
 
-fn convert(book: &mut WorkBook) -> Result<(), OdsError> {
-    for v in book.tablestyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.rowstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.colstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.cellstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.paragraphstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.textstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.rubystyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.graphicstyles.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-
-    for v in book.formats_boolean.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_number.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_percentage.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_currency.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_text.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_datetime.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-    for v in book.formats_timeduration.values_mut() {
-        v.set_origin(StyleOrigin::Content);
-    }
-
-    Ok(())
-}
-
 fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     let xmlns = book
         .xmlns
@@ -325,9 +272,9 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     write_office_meta(book, xml_out)?;
     write_office_settings(book, xml_out)?;
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_styles(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, None, xml_out)?;
+    write_office_styles(book, xml_out)?;
+    write_office_automatic_styles(book, None, xml_out)?;
     write_office_master_styles(book, xml_out)?;
     write_office_body(book, xml_out)?;
 
@@ -1280,9 +1227,9 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     write_xmlns(xmlns, xml_out)?;
     xml_out.attr_esc("office:version", book.version())?;
 
-    write_office_font_face_decls(book, StyleOrigin::Styles, xml_out)?;
-    write_office_styles(book, StyleOrigin::Styles, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_office_font_face_decls(book, Some(StyleOrigin::Styles), xml_out)?;
+    write_office_styles(book, xml_out)?;
+    write_office_automatic_styles(book, Some(StyleOrigin::Styles), xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
     xml_out.end_elem("office:document-styles")?;
@@ -1395,8 +1342,8 @@ fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Res
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, Some(StyleOrigin::Content), xml_out)?;
+    write_office_automatic_styles(book, Some(StyleOrigin::Content), xml_out)?;
 
     write_office_body(book, xml_out)?;
 
@@ -2476,9 +2423,14 @@ fn write_event_listeners(
     Ok(())
 }
 
+// Matches the origin. None is any origin.
+fn is_origin(origin: StyleOrigin, test: Option<StyleOrigin>) -> bool {
+    test.map_or(true, |v| v == origin)
+}
+
 fn write_office_font_face_decls(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem_if(!book.fonts.is_empty(), "office:font-face-decls")?;
@@ -2489,10 +2441,10 @@ fn write_office_font_face_decls(
 
 fn write_style_font_face(
     fonts: &HashMap<String, FontFaceDecl>,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    for font in fonts.values().filter(|s| s.origin() == origin) {
+    for font in fonts.values().filter(|s| is_origin(s.origin(), origin)) {
         xml_out.empty("style:font-face")?;
         xml_out.attr_esc("style:name", font.name())?;
         for (a, v) in font.attrmap().iter() {
@@ -2502,23 +2454,20 @@ fn write_style_font_face(
     Ok(())
 }
 
-fn write_office_styles(
-    book: &WorkBook,
-    origin: StyleOrigin,
-    xml_out: &mut OdsXmlWriter<'_>,
-) -> Result<(), OdsError> {
+// Named styles and default-styles exist only once per document.
+fn write_office_styles(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:styles")?;
-    write_styles(book, origin, StyleUse::Default, xml_out)?;
-    write_styles(book, origin, StyleUse::Named, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Named, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Default, xml_out)?;
+    write_styles(book, None, StyleUse::Default, xml_out)?;
+    write_styles(book, None, StyleUse::Named, xml_out)?;
+    write_valuestyles(book, None, StyleUse::Named, xml_out)?;
+    write_valuestyles(book, None, StyleUse::Default, xml_out)?;
     xml_out.end_elem("office:styles")?;
     Ok(())
 }
 
 fn write_office_automatic_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:automatic-styles")?;
@@ -2541,47 +2490,47 @@ fn write_office_master_styles(
 
 fn write_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for style in book.colstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_colstyle(style, xml_out)?;
         }
     }
     for style in book.rowstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_rowstyle(style, xml_out)?;
         }
     }
     for style in book.tablestyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_tablestyle(style, xml_out)?;
         }
     }
     for style in book.cellstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_cellstyle(style, xml_out)?;
         }
     }
     for style in book.paragraphstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_paragraphstyle(style, xml_out)?;
         }
     }
     for style in book.textstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_textstyle(style, xml_out)?;
         }
     }
     for style in book.rubystyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_rubystyle(style, xml_out)?;
         }
     }
     for style in book.graphicstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if is_origin(style.origin(), origin) && style.styleuse() == styleuse {
             write_graphicstyle(style, xml_out)?;
         }
     }
@@ -2952,7 +2901,7 @@ fn write_graphicstyle(
 
 fn write_valuestyles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     style_use: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
@@ -2968,13 +2917,13 @@ fn write_valuestyles(
 
 fn write_valuestyle<T: ValueFormatTrait>(
     value_formats: &HashMap<String, T>,
-    origin: StyleOrigin,
+    origin: Option<StyleOrigin>,
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for value_format in value_formats
         .values()
-        .filter(|s| s.origin() == origin && s.styleuse() == styleuse)
+        .filter(|s| is_origin(s.origin(), origin) && s.styleuse() == styleuse)
     {
         let tag = match value_format.value_type() {
             ValueType::Empty => unreachable!(),
-- 
2.43.0


From 4622a0823998f23c1b5311b8ad6c55438b5e8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:14 +0000
Subject: [PATCH 32/62] fix: min_integer_digits of a fraction sets
 number:min-integer-digits

---
 src/format/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/builder.rs b/src/format/builder.rs
index 9be740c..8f3e8e0 100644
--- a/src/format/builder.rs
+++ b/src/format/builder.rs
@@ -432,7 +432,7 @@ impl<'vf, T: ValueFormatTrait> PartFractionBuilder<'vf, T> {
     #[must_use]
     pub fn min_integer_digits(mut self, v: u8) -> Self {
         self.part
-            .set_attr("number:min-numerator-digits", v.to_string());
+            .set_attr("number:min-integer-digits", v.to_string());
         self
     }
 
-- 
2.43.0


From 797ab14343189532753b667ee0a155a90137bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:22 +0000
Subject: [PATCH 33/62] fix: create_loc_currency_prefix shows the number only
 once

---
 src/format/create.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/format/create.rs b/src/format/create.rs
index 8322991..78380cb 100644
--- a/src/format/create.rs
+++ b/src/format/create.rs
@@ -73,11 +73,6 @@ where
         .symbol(symbol)
         .build();
     v.part_text(" ").build();
-    v.part_number()
-        .decimal_places(2)
-        .min_decimal_places(2)
-        .grouping()
-        .build();
     v.part_number()
         .decimal_places(2)
         .min_decimal_places(2)
-- 
2.43.0


From 678b3bfdc89fa9a38887b8bf83d2a8201852b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:14 +0000
Subject: [PATCH 34/62] fix: read the page-view zoom of a sheet

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 7951d10..09becd5 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -721,6 +721,9 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
             if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["ZoomValue"]) {
                 sheet.config_mut().zoom_value = *n;
             }
+            if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["PageViewZoomValue"]) {
+                sheet.config_mut().page_view_zoom_value = *n;
+            }
             if let Some(ConfigValue::Boolean(n)) = cc.get_value_rec(&["ShowGrid"]) {
                 sheet.config_mut().show_grid = *n;
             }
-- 
2.43.0


From e86ddc1e403632b9a2fb8dda0a89f4388b8cd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:11 +0000
Subject: [PATCH 35/62] fix: a validation without an error-message reads back
 without one

---
 src/io/read.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 09becd5..e8ce3c0 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2085,7 +2085,13 @@ fn read_page_style(
 }
 
 fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
-    let mut valid = Validation::new();
+    // without an error-message there is none.
+    let new_validation = || {
+        let mut valid = Validation::new();
+        valid.set_err(None);
+        valid
+    };
+    let mut valid = new_validation();
 
     let mut buf = ctx.pop_buf();
     loop {
@@ -2098,14 +2104,14 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
-                valid = Validation::new();
+                valid = new_validation();
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 ctx.book.add_validation(valid);
-                valid = Validation::new();
+                valid = new_validation();
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
-- 
2.43.0


From 4feb318e9aa8db67cce0cbd4e3c023978e4bf685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:11 +0000
Subject: [PATCH 36/62] fix: keep empty settings when reading

---
 src/io/read.rs  | 34 ++++++++++++++++++++--------------
 src/io/write.rs |  2 +-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index e8ce3c0..2421dbb 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4284,6 +4284,9 @@ fn read_ods_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
 fn read_office_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(), OdsError> {
     let mut config = Config::new();
 
+    // Empty items are items too.
+    xml.config_mut().expand_empty_elements = true;
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -4309,6 +4312,8 @@ fn read_office_settings(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Res
     }
     ctx.push_buf(buf);
 
+    xml.config_mut().expand_empty_elements = false;
+
     ctx.book.config = Detach::new(config);
 
     Ok(())
@@ -4347,10 +4352,10 @@ fn read_config_item_set(
             println!(" read_office_item_set {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, val);
+                if let (name, Some(val)) = read_config_item(ctx, xml, xml_tag)? {
+                    config_set.insert(name, val);
+                }
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
                 let (name, val) = read_config_item_set(ctx, xml, xml_tag)?;
@@ -4543,10 +4548,10 @@ fn read_config_item_map_entry(
             println!(" read_config_item_map_entry {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, ConfigItem::from(val));
+                if let (name, Some(val)) = read_config_item(ctx, xml, xml_tag)? {
+                    config_set.insert(name, ConfigItem::from(val));
+                }
             }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
@@ -4582,12 +4587,12 @@ fn read_config_item_map_entry(
     Ok((name, config_set))
 }
 
-// read the automatic-styles tag
+// Reads one config-item. There is no value, if it's empty and not some text.
 fn read_config_item(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
-) -> Result<(String, ConfigValue), OdsError> {
+) -> Result<(String, Option<ConfigValue>), OdsError> {
     #[derive(PartialEq)]
     enum ConfigValueType {
         None,
@@ -4663,6 +4668,13 @@ fn read_config_item(
                 let value = <Cow<'_, [u8]> as From<&Vec<u8>>>::from(value.as_ref());
                 match val_type {
                     ConfigValueType::None => {}
+                    ConfigValueType::Boolean
+                    | ConfigValueType::DateTime
+                    | ConfigValueType::Double
+                    | ConfigValueType::Int
+                    | ConfigValueType::Long
+                    | ConfigValueType::Short
+                        if value.is_empty() => {}
                     ConfigValueType::Base64Binary => {
                         config_val =
                             Some(ConfigValue::Base64Binary(from_utf8(&value)?.to_string()));
@@ -4708,12 +4720,6 @@ fn read_config_item(
     ctx.push_buf(buf);
     ctx.push_buf(value);
 
-    let config_val = if let Some(config_val) = config_val {
-        config_val
-    } else {
-        return Err(OdsError::Ods("config-item without value???".to_string()));
-    };
-
     Ok((name, config_val))
 }
 
diff --git a/src/io/write.rs b/src/io/write.rs
index 4c6a390..21b6258 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1095,7 +1095,7 @@ fn write_config_item(
     match value {
         ConfigValue::Base64Binary(v) => {
             xml_out.attr_str("config:type", "base64Binary")?;
-            xml_out.text(v)?;
+            xml_out.text_esc(v)?;
         }
         ConfigValue::Boolean(v) => {
             xml_out.attr_str("config:type", "boolean")?;
-- 
2.43.0


From bd68f7d73e23e83a98875762f7b64276483a25f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:15 +0000
Subject: [PATCH 37/62] fix: declare the dc and xlink namespaces in meta.xml

---
 src/io/write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 21b6258..4994975 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -745,6 +745,8 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
         "xmlns:office",
         "urn:oasis:names:tc:opendocument:xmlns:office:1.0",
     );
+    xmlns.insert_str("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+    xmlns.insert_str("xmlns:xlink", "http://www.w3.org/1999/xlink");
 
     xml_out.dtd("UTF-8")?;
 
-- 
2.43.0


From 54779db50152aa235266905da933395fcfe781c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:10 +0000
Subject: [PATCH 38/62] fix: keep foreign namespace declarations when writing
 fods and when converting

---
 src/io/mod.rs   |  8 ++++++++
 src/io/write.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index c29bced..5b93d4a 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -31,6 +31,14 @@ impl NamespaceMap {
         self.map.insert(Cow::Borrowed(k), Cow::Borrowed(v));
     }
 
+    pub(crate) fn insert_missing(&mut self, other: &NamespaceMap) {
+        for (k, v) in &other.map {
+            if !self.map.contains_key(k) {
+                self.map.insert(k.clone(), v.clone());
+            }
+        }
+    }
+
     pub(crate) fn entries(&self) -> impl Iterator<Item = (&Cow<'static, str>, &Cow<'static, str>)> {
         self.map.iter()
     }
diff --git a/src/io/write.rs b/src/io/write.rs
index 4994975..7020599 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -147,12 +147,30 @@ pub fn write_fods<P: AsRef<Path>>(book: &mut WorkBook, fods_path: P) -> Result<(
     Ok(())
 }
 
+/// Parts of the ods that declare namespaces.
+const ODS_PARTS: [&str; 4] = ["content.xml", "styles.xml", "meta.xml", "settings.xml"];
+
+/// Copy the namespaces that are not yet declared.
+fn copy_xmlns(book: &mut WorkBook, from: &str, to: &str) {
+    if let Some(from) = book.xmlns.get(from).cloned() {
+        book.xmlns
+            .entry(to.into())
+            .or_insert_with(NamespaceMap::new)
+            .insert_missing(&from);
+    }
+}
+
 /// Writes the ODS file.
 ///
 fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), OdsError> {
     sanity_checks(book)?;
     calculations(book)?;
 
+    // keep the namespaces if this was read from an .ods
+    for part in ODS_PARTS {
+        copy_xmlns(book, part, "fods.xml");
+    }
+
     let mut xml_out = XmlWriter::new(writer).line_break(true);
     write_fods_content(book, &mut xml_out)?;
 
@@ -162,7 +180,7 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
 fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     let xmlns = book
         .xmlns
-        .entry("meta.xml".into())
+        .entry("fods.xml".into())
         .or_insert_with(NamespaceMap::new);
 
     xmlns.insert_str(
@@ -295,6 +313,11 @@ fn write_ods_impl<W: Write + Seek>(
     sanity_checks(book)?;
     calculations(book)?;
 
+    // keep the namespaces if this was read from a .fods
+    for part in ODS_PARTS {
+        copy_xmlns(book, "fods.xml", part);
+    }
+
     create_manifest(book)?;
 
     zip_writer.start_file(
-- 
2.43.0


From 741ac3184a86be07f09a8b16a6685aefc022d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:00 +0000
Subject: [PATCH 39/62] fix: keep styled empty cells that repeat over columns
 with different defaults

---
 src/io/read.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 2421dbb..8f91929 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1319,13 +1319,6 @@ fn read_table_cell(
     let mut cell = None;
     let mut repeat = 1;
 
-    // find default-cell-style for this column.
-    let default_cellstyle = if let Some(ch) = sheet.valid_col_header(col) {
-        ch.cellstyle.as_ref()
-    } else {
-        None
-    };
-
     let mut tc = ReadTableCell {
         val_type: ValueType::Empty,
         val_datetime: None,
@@ -1498,6 +1491,7 @@ fn read_table_cell(
         set_value(tc, &mut cell)?;
 
         // store cell-data
+        let default_cellstyle = default_cellstyle(sheet, row, col, repeat);
         if ignore_cell(ctx, default_cellstyle, &cell) {
             false
         } else {
@@ -1512,6 +1506,35 @@ fn read_table_cell(
     Ok((repeat, have_data))
 }
 
+// Find the default-cell-style for a cell. There is none if the columns of a
+// repeated cell differ, or if the row has a default of its own.
+fn default_cellstyle(sheet: &Sheet, row: u32, col: u32, repeat: u32) -> Option<&CellStyleRef> {
+    if sheet.row_cellstyle(row).is_some() {
+        return None;
+    }
+
+    let (base_col, first) = sheet.col_header.range(..=col).next_back()?;
+    let style = first.cellstyle.as_ref()?;
+
+    let end = col.checked_add(repeat)?;
+    let mut next = base_col.checked_add(first.span)?;
+    if next <= col {
+        return None;
+    }
+    for (c, ch) in sheet.col_header.range(col + 1..end) {
+        if *c != next || ch.cellstyle.as_ref() != Some(style) {
+            return None;
+        }
+        next = c.checked_add(ch.span)?;
+    }
+
+    if next >= end {
+        Some(style)
+    } else {
+        None
+    }
+}
+
 #[allow(clippy::if_same_then_else)]
 #[inline]
 fn ignore_cell(
-- 
2.43.0


From 1026b6dee51078321f5f9271bd295af1673a1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 40/62] fix: accept both spellings of empty elements for
 tables, rows, columns, annotations, frames and manifest entries

---
 src/io/read.rs | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 8f91929..834af61 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -458,7 +458,9 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"manifest:file-entry" => {
+            Event::Empty(xml_tag) | Event::Start(xml_tag)
+                if xml_tag.name().as_ref() == b"manifest:file-entry" =>
+            {
                 let mut manifest = Manifest::default();
 
                 for attr in xml_tag.attributes().with_checks(false) {
@@ -811,8 +813,10 @@ fn read_office_body(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validations" => {
                 read_validations(ctx, xml)?
             }
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table" => {
-                read_table(ctx, xml, xml_tag)?
+            Event::Empty(xml_tag) | Event::Start(xml_tag)
+                if xml_tag.name().as_ref() == b"table:table" =>
+            {
+                read_table(ctx, xml, xml_tag, empty_tag)?
             }
 
             // from the prelude
@@ -918,11 +922,17 @@ fn read_table(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut sheet = Sheet::new("");
 
     read_table_attr(ctx, &mut sheet, super_tag)?;
 
+    if empty_tag {
+        ctx.book.push_sheet(sheet);
+        return Ok(());
+    }
+
     // Cell
     let mut row: u32 = 0;
     let mut col: u32 = 0;
@@ -1015,7 +1025,9 @@ fn read_table(
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {
+            Event::Empty(xml_tag) | Event::Start(xml_tag)
+                if xml_tag.name().as_ref() == b"table:table-column" =>
+            {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
                 col = next_pos(col, col_repeat)?;
             }
@@ -1057,6 +1069,11 @@ fn read_table(
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-rows" => {
                 // noop
             }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
+                row_repeat = read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
+                row = next_pos(row, row_repeat)?;
+                row_repeat = 1;
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
                 col = 0;
                 row_repeat = read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
@@ -1441,6 +1458,7 @@ fn read_table_cell(
         let mut buf = ctx.pop_buf();
         loop {
             let evt = xml.read_event_into(&mut buf)?;
+            let empty_tag = matches!(evt, Event::Empty(_));
             if cfg!(feature = "dump_xml") {
                 println!(" read_table_cell {:?}", evt);
             }
@@ -1456,14 +1474,18 @@ fn read_table_cell(
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"office:annotation" => {
-                    let annotation = read_annotation(ctx, xml, xml_tag)?;
+                Event::Empty(xml_tag) | Event::Start(xml_tag)
+                    if xml_tag.name().as_ref() == b"office:annotation" =>
+                {
+                    let annotation = read_annotation(ctx, xml, xml_tag, empty_tag)?;
                     cell.get_or_insert_with(CellData::default)
                         .extra_mut()
                         .annotation = Some(annotation);
                 }
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"draw:frame" => {
-                    let draw_frame = read_draw_frame(ctx, xml, xml_tag)?;
+                Event::Empty(xml_tag) | Event::Start(xml_tag)
+                    if xml_tag.name().as_ref() == b"draw:frame" =>
+                {
+                    let draw_frame = read_draw_frame(ctx, xml, xml_tag, empty_tag)?;
                     cell.get_or_insert_with(CellData::default)
                         .extra_mut()
                         .draw_frames
@@ -1698,6 +1720,7 @@ fn read_annotation(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Box<Annotation>, OdsError> {
     let mut annotation = Box::new(Annotation::new_empty());
 
@@ -1717,6 +1740,10 @@ fn read_annotation(
         }
     }
 
+    if empty_tag {
+        return Ok(annotation);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -1765,11 +1792,16 @@ fn read_draw_frame(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<DrawFrame, OdsError> {
     let mut draw_frame = DrawFrame::new();
 
     copy_attr2(ctx, draw_frame.attrmap_mut(), super_tag)?;
 
+    if empty_tag {
+        return Ok(draw_frame);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
-- 
2.43.0


From 7cf4b37ca05b0e987cdbbb972fba3b0480e32ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:28 +0000
Subject: [PATCH 41/62] fix: read CDATA sections as text

---
 src/io/read.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 834af61..d5c52ba 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -9,7 +9,7 @@ use std::str::from_utf8;
 
 use chrono::{Duration, NaiveDateTime};
 use quick_xml::events::attributes::Attribute;
-use quick_xml::events::{BytesRef, BytesStart, Event};
+use quick_xml::events::{BytesRef, BytesStart, BytesText, Event};
 use quick_xml::{Decoder, Reader};
 use zip::ZipArchive;
 
@@ -2993,7 +2993,7 @@ fn read_part_text(
     if !empty_tag {
         let mut buf = ctx.pop_buf();
         loop {
-            let evt = xml.read_event_into(&mut buf)?;
+            let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
             if cfg!(feature = "dump_xml") {
                 println!(" read_part_text {:?}", evt);
             }
@@ -3035,7 +3035,7 @@ fn read_part_number(
         let mut embedded_text = false;
         let mut buf = ctx.pop_buf();
         loop {
-            let evt = xml.read_event_into(&mut buf)?;
+            let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
             if cfg!(feature = "dump_xml") {
                 println!(" read_part_embedded_text {:?}", evt);
             }
@@ -4265,7 +4265,7 @@ fn read_metadata_value<T>(
     let mut buf = ctx.pop_buf();
     let mut text = String::new();
     loop {
-        let evt = xml.read_event_into(&mut buf)?;
+        let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
         if cfg!(feature = "dump_xml") {
             println!("read_metadata_value {:?}", evt);
         }
@@ -4711,7 +4711,7 @@ fn read_config_item(
     let mut value = ctx.pop_buf();
     let mut buf = ctx.pop_buf();
     loop {
-        let evt = xml.read_event_into(&mut buf)?;
+        let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
         match &evt {
             Event::GeneralRef(xml_ref) => {
                 value.write_all(entity(xml_ref)?.as_bytes())?;
@@ -4794,7 +4794,7 @@ fn read_xml(
     if !empty_tag {
         let mut buf = ctx.pop_buf();
         loop {
-            let evt = xml.read_event_into(&mut buf)?;
+            let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
             if cfg!(feature = "dump_xml") {
                 println!(" read_xml {:?}", evt);
             }
@@ -4883,7 +4883,7 @@ fn read_text_or_tag(
     if !empty_tag {
         let mut buf = ctx.pop_buf();
         loop {
-            let evt = xml.read_event_into(&mut buf)?;
+            let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
             if cfg!(feature = "dump_xml") {
                 println!(" read_xml {:?}", evt);
             }
@@ -5044,7 +5044,7 @@ where
         let mut result_buf = ctx.pop_buf();
         let mut buf = ctx.pop_buf();
         loop {
-            let evt = xml.read_event_into(&mut buf)?;
+            let evt = cdata_as_text(xml.read_event_into(&mut buf)?)?;
             if cfg!(feature = "dump_xml") {
                 println!(" read_text {:?}", evt);
             }
@@ -5081,6 +5081,16 @@ where
     }
 }
 
+/// A CDATA section is just another spelling for text.
+fn cdata_as_text(evt: Event<'_>) -> Result<Event<'_>, OdsError> {
+    match evt {
+        Event::CData(v) => Ok(Event::Text(BytesText::from_escaped(
+            v.decode()?.into_owned(),
+        ))),
+        evt => Ok(evt),
+    }
+}
+
 fn entity(xml_ref: &BytesRef) -> Result<Cow<'static, str>, quick_xml::Error> {
     if let Some(cc) = xml_ref.resolve_char_ref()? {
         Ok(Cow::Owned(format!("{}", cc)))
-- 
2.43.0


From 1f33235eb54c9a005b424bece458535663efc7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:59 +0000
Subject: [PATCH 42/62] fix: the text of shapes and unknown elements is not the
 text of the cell

---
 src/io/read.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index d5c52ba..ad971a7 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1498,8 +1498,16 @@ fn read_table_cell(
                 Event::Eof => {
                     break;
                 }
+                // lists and the like can have further paragraphs, and
+                // links and groups can have frames.
+                Event::Start(xml_tag)
+                    if xml_tag.name().as_ref().starts_with(b"text:")
+                        || xml_tag.name().as_ref() == b"draw:a"
+                        || xml_tag.name().as_ref() == b"draw:g" => {}
+                // but the text of a shape is not the text of the cell.
                 _ => {
                     unused_event("read_table_cell", &evt)?;
+                    skip_content(xml, &evt)?;
                 }
             }
 
@@ -1778,6 +1786,7 @@ fn read_annotation(
             }
             _ => {
                 unused_event("read_annotation", &evt)?;
+                skip_content(xml, &evt)?;
             }
         }
 
@@ -1837,6 +1846,7 @@ fn read_draw_frame(
             }
             _ => {
                 unused_event("read_draw_frame", &evt)?;
+                skip_content(xml, &evt)?;
             }
         }
 
@@ -1887,6 +1897,7 @@ fn read_image(
                 }
                 _ => {
                     unused_event("read_image", &evt)?;
+                    skip_content(xml, &evt)?;
                 }
             }
 
@@ -5081,6 +5092,14 @@ where
     }
 }
 
+/// Skips everything inside of an element that is not used.
+fn skip_content(xml: &mut OdsXmlReader<'_>, evt: &Event<'_>) -> Result<(), OdsError> {
+    if let Event::Start(xml_tag) = evt {
+        xml.read_to_end_into(xml_tag.name(), &mut Vec::new())?;
+    }
+    Ok(())
+}
+
 /// A CDATA section is just another spelling for text.
 fn cdata_as_text(evt: Event<'_>) -> Result<Event<'_>, OdsError> {
     match evt {
-- 
2.43.0


From 0432f38875c77be923127e31deb0a6f8ff8ab10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:14 +0000
Subject: [PATCH 43/62] fix: image data is padded base64 that can be split into
 lines

---
 src/draw.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/draw.rs b/src/draw.rs
index 847d872..47c04e6 100644
--- a/src/draw.rs
+++ b/src/draw.rs
@@ -8,6 +8,8 @@ use crate::style::{GraphicStyleRef, ParagraphStyleRef};
 use crate::text::{TextP, TextTag};
 use crate::xlink::{XLinkActuate, XLinkShow, XLinkType};
 use crate::{CellRef, Length, OdsError};
+use base64::engine::general_purpose::PAD;
+use base64::engine::{DecodePaddingMode, GeneralPurpose};
 use base64::Engine;
 use chrono::NaiveDateTime;
 use get_size2::GetSize;
@@ -382,12 +384,17 @@ impl DrawImage {
 
     /// Image binary data.
     pub fn get_binary(&self) -> Result<Vec<u8>, OdsError> {
-        let ng = base64::engine::GeneralPurpose::new(
+        // accept padded and unpadded data, that might be split into lines.
+        let ng = GeneralPurpose::new(
             &base64::alphabet::STANDARD,
-            base64::engine::general_purpose::NO_PAD,
+            PAD.with_decode_padding_mode(DecodePaddingMode::Indifferent),
         );
 
         if let Some(binary_data) = &self.binary_data {
+            let binary_data = binary_data
+                .bytes()
+                .filter(|v| !v.is_ascii_whitespace())
+                .collect::<Vec<_>>();
             Ok(ng.decode(binary_data)?)
         } else {
             Ok(Default::default())
@@ -398,10 +405,7 @@ impl DrawImage {
     /// Note: While the image data may have an arbitrary format, vector graphics should
     /// be stored in the SVG format and bitmap graphics in the PNG format.
     pub fn set_binary(&mut self, binary: &[u8]) {
-        let ng = base64::engine::GeneralPurpose::new(
-            &base64::alphabet::STANDARD,
-            base64::engine::general_purpose::NO_PAD,
-        );
+        let ng = GeneralPurpose::new(&base64::alphabet::STANDARD, PAD);
 
         self.binary_data = Some(ng.encode(binary));
     }
-- 
2.43.0


From 1b13ebb2f017b7a2c1f22395c57e6ad609395206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:13 +0000
Subject: [PATCH 44/62] fix: escape image data

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 7020599..2209242 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2370,7 +2370,7 @@ fn write_draw_image(
 
     if let Some(bin) = draw_image.get_binary_base64() {
         xml_out.elem("office:binary-data")?;
-        xml_out.text(bin)?;
+        xml_out.text_esc(bin)?;
         xml_out.end_elem("office:binary-data")?;
     }
 
-- 
2.43.0


From a79be523a1aee2992bdffc2edb834ec93ec74685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:11 +0000
Subject: [PATCH 45/62] fix: read and write infinite numbers

---
 src/io/format.rs | 17 +++++++++++++++++
 src/io/parse.rs  |  3 +++
 src/io/write.rs  | 12 ++++++------
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index 36a3829..c65467f 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -22,6 +22,23 @@ pub(crate) fn format_datetime(v: &NaiveDateTime) -> impl Display + '_ {
     Tmp(v)
 }
 
+/// Format as XML Schema double.
+pub(crate) fn format_f64(v: &f64) -> impl Display {
+    struct Tmp(f64);
+
+    impl Display for Tmp {
+        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            if self.0.is_infinite() {
+                f.write_str(if self.0 > 0.0 { "INF" } else { "-INF" })
+            } else {
+                Display::fmt(&self.0, f)
+            }
+        }
+    }
+
+    Tmp(*v)
+}
+
 pub(crate) fn format_duration2(v: Duration) -> impl Display {
     struct Tmp(Duration);
 
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 495a375..19f3303 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -249,6 +249,9 @@ fn token_i64(input: KSpan<'_>) -> KTokenResult<'_, i64> {
 
 #[inline(always)]
 fn token_float(input: KSpan<'_>) -> KTokenResult<'_, f64> {
+    if input.eq_ignore_ascii_case(b"-INF") {
+        return Ok(f64::NEG_INFINITY);
+    }
     let (_, result) = all_consuming(double)(input)?;
     Ok(result)
 }
diff --git a/src/io/write.rs b/src/io/write.rs
index 2209242..a66cdbd 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3,7 +3,7 @@ use crate::config::{ConfigItem, ConfigItemType, ConfigValue};
 use crate::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
 use crate::error::OdsError;
 use crate::format::{FormatPartType, ValueFormatTrait};
-use crate::io::format::{format_datetime, format_duration2, format_validation_condition};
+use crate::io::format::{format_datetime, format_duration2, format_f64, format_validation_condition};
 use crate::io::xmlwriter::XmlWriter;
 use crate::io::NamespaceMap;
 use crate::manifest::Manifest;
@@ -917,7 +917,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         match &userdef.value {
             MetaValue::Boolean(v) => xml_out.text_str(if *v { "true" } else { "false" })?,
             MetaValue::Datetime(v) => xml_out.text(&format_datetime(v))?,
-            MetaValue::Float(v) => xml_out.text(&v)?,
+            MetaValue::Float(v) => xml_out.text(&format_f64(v))?,
             MetaValue::TimeDuration(v) => xml_out.text(&format_duration2(*v))?,
             MetaValue::String(v) => xml_out.text_esc(v)?,
         }
@@ -1132,7 +1132,7 @@ fn write_config_item(
         }
         ConfigValue::Double(v) => {
             xml_out.attr_str("config:type", "double")?;
-            xml_out.text(&v)?;
+            xml_out.text(&format_f64(v))?;
         }
         ConfigValue::Int(v) => {
             xml_out.attr_str("config:type", "int")?;
@@ -2288,7 +2288,7 @@ fn write_cell(
         Value::Currency(v, c) => {
             xml_out.attr_str("office:value-type", "currency")?;
             xml_out.attr_esc("office:currency", c)?;
-            xml_out.attr("office:value", v)?;
+            xml_out.attr("office:value", &format_f64(v))?;
             xml_out.elem("text:p")?;
             xml_out.text_esc(c)?;
             xml_out.text_str(" ")?;
@@ -2297,14 +2297,14 @@ fn write_cell(
         }
         Value::Number(v) => {
             xml_out.attr_str("office:value-type", "float")?;
-            xml_out.attr("office:value", v)?;
+            xml_out.attr("office:value", &format_f64(v))?;
             xml_out.elem("text:p")?;
             xml_out.text(v)?;
             xml_out.end_elem("text:p")?;
         }
         Value::Percentage(v) => {
             xml_out.attr_str("office:value-type", "percentage")?;
-            xml_out.attr("office:value", v)?;
+            xml_out.attr("office:value", &format_f64(v))?;
             xml_out.elem("text:p")?;
             xml_out.text(v)?;
             xml_out.end_elem("text:p")?;
-- 
2.43.0


From a83dc3e36a326a519264e83a3e8d159913ade968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:46 +0000
Subject: [PATCH 46/62] fix: no panic on writing if a setting has an unexpected
 type

---
 src/config.rs   | 28 ++++++++++++++++++++++++++++
 src/io/write.rs |  6 +++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8f543f2..9eaabca 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -388,6 +388,26 @@ impl ConfigItem {
         }
     }
 
+    /// Works like create_path(), but replaces existing items along the path
+    /// if they don't match the given map-types.
+    pub(crate) fn replace_path<S>(&mut self, names: &[(S, ConfigItemType)]) -> &mut ConfigItem
+    where
+        S: AsRef<str>,
+    {
+        let mut item = &mut *self;
+        for (name, itype) in names {
+            let Some(map) = item.as_map_mut() else {
+                break;
+            };
+            item = map.get_or_create(name, || ConfigItem::new(*itype));
+            if item != itype {
+                *item = ConfigItem::new(*itype);
+            }
+        }
+
+        self.create_path(names)
+    }
+
     /// Recursively creates all maps along the given path and
     /// returns the last map-like ConfigItem.
     ///
@@ -529,6 +549,14 @@ impl Config {
         self.config.get_value_rec(names)
     }
 
+    /// Recursive create. Replaces existing items of a different type.
+    pub(crate) fn replace_path<S>(&mut self, names: &[(S, ConfigItemType)]) -> &mut ConfigItem
+    where
+        S: AsRef<str>,
+    {
+        self.config.replace_path(names)
+    }
+
     pub(crate) fn create_path<S>(&mut self, names: &[(S, ConfigItemType)]) -> &mut ConfigItem
     where
         S: AsRef<str>,
diff --git a/src/io/write.rs b/src/io/write.rs
index a66cdbd..7e7b758 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -580,7 +580,7 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
     // Config
     let mut config = book.config.detach(0);
 
-    let bc = config.create_path(&[
+    let bc = config.replace_path(&[
         ("ooo:view-settings", ConfigItemType::Set),
         ("Views", ConfigItemType::Vec),
         ("0", ConfigItemType::Entry),
@@ -596,7 +596,7 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
     for i in 0..book.num_sheets() {
         let sheet = book.detach_sheet(i);
 
-        let bc = config.create_path(&[
+        let bc = config.replace_path(&[
             ("ooo:view-settings", ConfigItemType::Set),
             ("Views", ConfigItemType::Vec),
             ("0", ConfigItemType::Entry),
@@ -620,7 +620,7 @@ fn calc_config(book: &mut WorkBook) -> Result<(), OdsError> {
         bc.insert("PageViewZoomValue", sheet.config().page_view_zoom_value);
         bc.insert("ShowGrid", sheet.config().show_grid);
 
-        let bc = config.create_path(&[
+        let bc = config.replace_path(&[
             ("ooo:configuration-settings", ConfigItemType::Set),
             ("ScriptConfiguration", ConfigItemType::Map),
             (sheet.name().as_str(), ConfigItemType::Entry),
-- 
2.43.0


From 6ba7380b60ed6d4e0074378450e6768eb90823e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:15 +0000
Subject: [PATCH 47/62] fix: a new CellContent has a repeat count of 1

---
 src/cell_.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cell_.rs b/src/cell_.rs
index d2c9d70..fa324a8 100644
--- a/src/cell_.rs
+++ b/src/cell_.rs
@@ -395,7 +395,7 @@ impl<'a> CellContentRef<'a> {
 }
 
 /// A copy of the relevant data for a spreadsheet cell.
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct CellContent {
     /// Cell value.
     pub value: Value,
@@ -417,6 +417,22 @@ pub struct CellContent {
     pub draw_frames: Vec<DrawFrame>,
 }
 
+impl Default for CellContent {
+    fn default() -> Self {
+        Self {
+            value: Default::default(),
+            style: None,
+            formula: None,
+            repeat: 1,
+            validation_name: None,
+            span: Default::default(),
+            matrix_span: Default::default(),
+            annotation: None,
+            draw_frames: Default::default(),
+        }
+    }
+}
+
 impl CellContent {
     /// Empty.
     #[inline]
-- 
2.43.0


From dcb98c7cbfacdc41db64ed49146e20746bec3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:09 +0000
Subject: [PATCH 48/62] fix: CellIter::peek_cell() returns the first cell too

---
 src/sheet_.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 61a21dd..1de0b56 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -276,6 +276,9 @@ pub struct CellIter<'a> {
 impl CellIter<'_> {
     /// Returns the (row,col) of the next cell.
     pub fn peek_cell(&mut self) -> Option<(u32, u32)> {
+        if self.k_data.is_none() {
+            self.load_next_data();
+        }
         self.k_data.copied()
     }
 
-- 
2.43.0


From 70c95fd2407c8f57ebf4eafbe2829846dcf4357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:14 +0000
Subject: [PATCH 49/62] fix: default formats for time of day and time interval
 have their own names

---
 src/locale/cs_cz.rs   | 5 +++--
 src/locale/de_at.rs   | 5 +++--
 src/locale/default.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/locale/cs_cz.rs b/src/locale/cs_cz.rs
index 2d8b547..162328a 100644
--- a/src/locale/cs_cz.rs
+++ b/src/locale/cs_cz.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/de_at.rs b/src/locale/de_at.rs
index bb136b7..eef43ef 100644
--- a/src/locale/de_at.rs
+++ b/src/locale/de_at.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/default.rs b/src/locale/default.rs
index 39012d3..882ca7d 100644
--- a/src/locale/default.rs
+++ b/src/locale/default.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
-- 
2.43.0


From a0ac054044ab11bff5590145b52405d22772e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:08 +0000
Subject: [PATCH 50/62] fix: attribute names for conditional style and outline
 level

---
 src/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 7977c78..be68b02 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -62,7 +62,7 @@ impl TextH {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
@@ -80,7 +80,7 @@ impl TextH {
 
     /// Level of the heading.
     pub fn outline_level(mut self, l: u8) -> Self {
-        self.xml.set_attr("text:outlinelevel", l.to_string());
+        self.xml.set_attr("text:outline-level", l.to_string());
         self
     }
 
@@ -136,7 +136,7 @@ impl TextP {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
-- 
2.43.0


From c3a86d6df35504da98edb7442c462b4d65137f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 51/62] fix: attribute name of xml:id

---
 src/macro_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_style.rs b/src/macro_style.rs
index 3b1bb9d..9bca478 100644
--- a/src/macro_style.rs
+++ b/src/macro_style.rs
@@ -122,7 +122,7 @@ macro_rules! xml_id {
         /// The table:end-y attribute specifies the y-coordinate of the end position of a shape relative to
         /// the top-left edge of a cell. The size attributes of the shape are ignored.
         pub fn set_xml_id<S: Into<String>>(&mut self, id: S) {
-            self.$acc.set_attr("xml_id", id.into());
+            self.$acc.set_attr("xml:id", id.into());
         }
     };
 }
-- 
2.43.0


From c2c9d773b4d5731cd53b6511c486588c22da0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:06 +0000
Subject: [PATCH 52/62] fix: fo:hyphenation-ladder-count has no-limit

---
 src/style/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style/units.rs b/src/style/units.rs
index c9c26b0..fba712b 100644
--- a/src/style/units.rs
+++ b/src/style/units.rs
@@ -675,7 +675,7 @@ pub enum HyphenationLadderCount {
 impl Display for HyphenationLadderCount {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            HyphenationLadderCount::NoLimit => write!(f, "no_limit"),
+            HyphenationLadderCount::NoLimit => write!(f, "no-limit"),
             HyphenationLadderCount::Count(c) => c.fmt(f),
         }
     }
-- 
2.43.0


From 6ef751312726fb653814afc9f0bab514c525134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:03 +0000
Subject: [PATCH 53/62] fix: the relative font size is style:font-size-rel

---
 src/macro_attr_fo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_attr_fo.rs b/src/macro_attr_fo.rs
index e5df78c..2ff1a7a 100644
--- a/src/macro_attr_fo.rs
+++ b/src/macro_attr_fo.rs
@@ -582,7 +582,7 @@ macro_rules! fo_font_size_rel {
         /// This attribute specifies a relative font size change as a length. It cannot be used within automatic
         /// styles. This attribute changes the font size based on the font size of the parent style.
         pub fn set_font_size_rel(&mut self, size: FontSize) {
-            self.$acc.set_attr("fo:font-size-rel", size.to_string());
+            self.$acc.set_attr("style:font-size-rel", size.to_string());
         }
     };
 }
-- 
2.43.0


From fc3e713c77d8bd80e757a4b7657bac9da68fb04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:56 +0000
Subject: [PATCH 54/62] fix: pc! and em! compile

---
 src/macro_units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_units.rs b/src/macro_units.rs
index efcfe75..12e99cc 100644
--- a/src/macro_units.rs
+++ b/src/macro_units.rs
@@ -58,7 +58,7 @@ macro_rules! pt {
 #[macro_export]
 macro_rules! pc {
     ($l:expr) => {
-        $crate::Length::Pc($l into()).into()
+        $crate::Length::Pc($l.into()).into()
     };
 }
 
@@ -66,6 +66,6 @@ macro_rules! pc {
 #[macro_export]
 macro_rules! em {
     ($l:expr) => {
-        $crate::Length::Em($l into()).into()
+        $crate::Length::Em($l.into()).into()
     };
 }
-- 
2.43.0


From 6b6f6ba3c7f57c10e88abdeb22b6ea48a6441767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:53 +0000
Subject: [PATCH 55/62] fix: the rotation of text is style:text-rotation-angle

---
 src/macro_attr_style.rs | 11 +++++++++++
 src/style/textstyle.rs  |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/macro_attr_style.rs b/src/macro_attr_style.rs
index 5d9444c..667f605 100644
--- a/src/macro_attr_style.rs
+++ b/src/macro_attr_style.rs
@@ -234,6 +234,17 @@ macro_rules! style_rotation_angle {
     };
 }
 
+macro_rules! style_text_rotation_angle {
+    ($acc:ident) => {
+        // style:text-rotation-angle 20.385,
+        /// The style:text-rotation-angle attribute specifies an angle to which text is rotated.
+        pub fn set_rotation_angle(&mut self, angle: Angle) {
+            self.$acc
+                .set_attr("style:text-rotation-angle", angle.to_string());
+        }
+    };
+}
+
 macro_rules! style_shadow {
     ($acc:ident) => {
         /// The style:shadow attribute specifies a shadow effect.
diff --git a/src/style/textstyle.rs b/src/style/textstyle.rs
index 3019399..356a988 100644
--- a/src/style/textstyle.rs
+++ b/src/style/textstyle.rs
@@ -107,7 +107,7 @@ impl TextStyle {
     fo_text_transform!(textstyle);
     style_font_relief!(textstyle);
     style_text_position!(textstyle);
-    style_rotation_angle!(textstyle);
+    style_text_rotation_angle!(textstyle);
     style_rotation_scale!(textstyle);
     style_letter_kerning!(textstyle);
     style_text_combine!(textstyle);
-- 
2.43.0


From 49348d56cc41f77adc72967398f632b2d9346db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:30 +0000
Subject: [PATCH 56/62] fix: headers and footers of a new master page are
 displayed

---
 src/style/masterpage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/style/masterpage.rs b/src/style/masterpage.rs
index 41558da..e593ba6 100644
--- a/src/style/masterpage.rs
+++ b/src/style/masterpage.rs
@@ -230,7 +230,7 @@ impl MasterPage {
 /// Can be seen as three regions left/center/right or as one region.
 /// In the first case region* contains the data, in the second it's content.
 /// Each is a TextTag of parsed XML-tags.
-#[derive(Clone, Debug, Default, GetSize)]
+#[derive(Clone, Debug, GetSize)]
 pub struct HeaderFooter {
     display: bool,
 
@@ -241,6 +241,12 @@ pub struct HeaderFooter {
     content: Vec<TextTag>,
 }
 
+impl Default for HeaderFooter {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl HeaderFooter {
     /// Create
     pub fn new() -> Self {
-- 
2.43.0


From f29ad73803da87e36805259e527d64e6ba9a0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:48 +0000
Subject: [PATCH 57/62] fix: errors of buffered targets are reported when
 writing

---
 src/io/write.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 7e7b758..a92d02f 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -71,6 +71,9 @@ impl OdsWriteOptions {
 
         write_ods_impl(self, w, book)?;
 
+        // The target may be buffered. Dropping it would hide any errors.
+        write.flush()?;
+
         Ok(())
     }
 }
@@ -130,9 +133,10 @@ pub fn write_fods_buf(book: &mut WorkBook, mut buf: Vec<u8>) -> Result<Vec<u8>,
 
 /// Writes the FODS file to the given Write.
 pub fn write_fods_to<T: Write + Seek>(book: &mut WorkBook, mut write: T) -> Result<(), OdsError> {
-    let write: &mut dyn Write = &mut write;
+    write_fods_impl(&mut write, book)?;
 
-    write_fods_impl(write, book)?;
+    // The target may be buffered. Dropping it would hide any errors.
+    write.flush()?;
 
     Ok(())
 }
@@ -140,9 +144,10 @@ pub fn write_fods_to<T: Write + Seek>(book: &mut WorkBook, mut write: T) -> Resu
 /// Writes the FODS file.
 pub fn write_fods<P: AsRef<Path>>(book: &mut WorkBook, fods_path: P) -> Result<(), OdsError> {
     let mut write = BufWriter::new(File::create(fods_path)?);
-    let write: &mut dyn Write = &mut write;
 
-    write_fods_impl(write, book)?;
+    write_fods_impl(&mut write, book)?;
+
+    write.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 12673b098b07480f5fc433da99b792e9db8c721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:38 +0000
Subject: [PATCH 58/62] fix: errors reading the optional parts of a package are
 reported

---
 src/io/read.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index ad971a7..e21d33e 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -11,6 +11,8 @@ use chrono::{Duration, NaiveDateTime};
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{BytesRef, BytesStart, BytesText, Event};
 use quick_xml::{Decoder, Reader};
+use zip::read::ZipFile;
+use zip::result::ZipError;
 use zip::ZipArchive;
 
 use crate::attrmap2::AttrMap2;
@@ -355,6 +357,18 @@ fn read_fods_impl_content_only(
     Ok(ctx.book)
 }
 
+// Parts of the archive that can be missing. All other errors are errors.
+fn optional_part<'a, R: Read + Seek>(
+    zip: &'a mut ZipArchive<R>,
+    name: &str,
+) -> Result<Option<ZipFile<'a, R>>, OdsError> {
+    match zip.by_name(name) {
+        Ok(z) => Ok(Some(z)),
+        Err(ZipError::FileNotFound) => Ok(None),
+        Err(e) => Err(e.into()),
+    }
+}
+
 /// Reads an ODS-file.
 fn read_ods_impl<R: Read + Seek>(
     mut zip: ZipArchive<R>,
@@ -362,7 +376,7 @@ fn read_ods_impl<R: Read + Seek>(
 ) -> Result<WorkBook, OdsError> {
     let mut ctx = OdsContext::new(options);
 
-    if let Ok(z) = zip.by_name("META-INF/manifest.xml") {
+    if let Some(z) = optional_part(&mut zip, "META-INF/manifest.xml")? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -372,7 +386,7 @@ fn read_ods_impl<R: Read + Seek>(
 
     read_ods_extras(&mut ctx, &mut zip)?;
 
-    if let Ok(z) = zip.by_name("meta.xml") {
+    if let Some(z) = optional_part(&mut zip, "meta.xml")? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -380,14 +394,14 @@ fn read_ods_impl<R: Read + Seek>(
         read_ods_metadata(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("settings.xml") {
+    if let Some(z) = optional_part(&mut zip, "settings.xml")? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
         read_ods_settings(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("styles.xml") {
+    if let Some(z) = optional_part(&mut zip, "styles.xml")? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
-- 
2.43.0


From 9e3b509c0cad8b817725e73d43ab48018c74a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:15 +0000
Subject: [PATCH 59/62] fix: transliteration_locale() reads the attributes
 set_transliteration_locale() sets

---
 src/macro_attr_number.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macro_attr_number.rs b/src/macro_attr_number.rs
index dd23ff6..42d730d 100644
--- a/src/macro_attr_number.rs
+++ b/src/macro_attr_number.rs
@@ -110,9 +110,11 @@ macro_rules! number_transliteration_locale {
 
         /// Returns number:transliteration_language and number:transliteration_country as a locale.
         pub fn transliteration_locale(&self) -> Option<Locale> {
-            if let Some(language) = self.attr.attr("number:language") {
+            if let Some(language) = self.attr.attr("number:transliteration-language") {
                 if let Ok(language) = Language::try_from_utf8(language.as_bytes()) {
-                    let region = if let Some(region) = self.attr.attr("number:country") {
+                    let region = if let Some(region) =
+                        self.attr.attr("number:transliteration-country")
+                    {
                         Region::try_from_utf8(region.as_bytes()).ok()
                     } else {
                         None
-- 
2.43.0


From 567bbb3b07f17af952dca8564ae016978f0ac8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:36 +0000
Subject: [PATCH 60/62] fix: set_rotation_angle() of value formats sets the
 attribute for text

---
 src/macro_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_format.rs b/src/macro_format.rs
index 30e15f9..b676e2d 100644
--- a/src/macro_format.rs
+++ b/src/macro_format.rs
@@ -108,7 +108,7 @@ macro_rules! valueformat {
             fo_text_transform!(textstyle);
             style_font_relief!(textstyle);
             style_text_position!(textstyle);
-            style_rotation_angle!(textstyle);
+            style_text_rotation_angle!(textstyle);
             style_rotation_scale!(textstyle);
             style_letter_kerning!(textstyle);
             style_text_combine!(textstyle);
-- 
2.43.0


From 4ed297332b284e16d0df4f3251277f910a01f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:39 +0000
Subject: [PATCH 61/62] fix: adding several attributes at once replaces
 existing ones

---
 src/attrmap2.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/attrmap2.rs b/src/attrmap2.rs
index ae7804e..94cf91f 100644
--- a/src/attrmap2.rs
+++ b/src/attrmap2.rs
@@ -49,8 +49,7 @@ impl AttrMap2 {
     #[inline]
     pub fn add_all<'a, V: Into<String>, I: IntoIterator<Item = (&'a str, V)>>(&mut self, data: I) {
         for (k, v) in data {
-            self.keys.push(DefaultAtom::from(k));
-            self.values.push(v.into().into_boxed_str());
+            self.set_attr(k, v);
         }
     }
 
-- 
2.43.0


From 0d0e56b096ff698dcae70229926f02531bb4a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 62/62] fix: attributes of a paragraph without markup are kept

---
 src/io/read.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index e21d33e..a7743c8 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1477,11 +1477,10 @@ fn read_table_cell(
                 println!(" read_table_cell {:?}", evt);
             }
             match &evt {
-                Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    tc.content = append_text(TextContent::Text(String::new()), tc.content);
-                }
-                Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                Event::Empty(xml_tag) | Event::Start(xml_tag)
+                    if xml_tag.name().as_ref() == b"text:p" =>
+                {
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, empty_tag)? {
                         TextContent::Empty => TextContent::Text(String::new()),
                         new_txt => new_txt,
                     };
@@ -5048,6 +5047,19 @@ fn read_text_or_tag(
 
     ctx.push_xml_buf(stack);
 
+    // The attributes would be lost without the toplevel element.
+    let mut has_attr = false;
+    for attr in super_tag.attributes().with_checks(false) {
+        has_attr |= !attr?.key.as_ref().starts_with(b"xmlns:");
+    }
+    if has_attr {
+        cellcontent = match cellcontent {
+            TextContent::Empty => TextContent::Xml(create_toplevel(ctx, None)?),
+            TextContent::Text(txt) => TextContent::Xml(create_toplevel(ctx, Some(txt))?),
+            content => content,
+        };
+    }
+
     Ok(cellcontent)
 }
 
-- 
2.43.0

