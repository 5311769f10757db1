From f3fad3574920a84f653d51244aa12fe90a18a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 01/46] fix: reject strings whose UTF-16 form does not fit the
 DeviceSQL length field

DeviceSQLString::new only looked at the UTF-8 length, so a mostly-ASCII
string with one wide character could be created but panicked on write.
---
 src/pdb/string.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..acc0a79 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -70,17 +70,19 @@ impl DeviceSQLString {
                 content: string.as_bytes().to_owned(),
             }))
         } else if len <= (i16::MAX as usize) {
-            if only_ascii {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    content: LongBody::Ascii(string.as_bytes().to_owned()),
-                }))
+            let content = if only_ascii {
+                LongBody::Ascii(string.as_bytes().to_owned())
             } else {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    // note: The DeviceSQL database may only support UCS-2 so
-                    // we might need to do some additional filtering here
-                    content: LongBody::Ucs2le(string.encode_utf16().collect()),
-                }))
-            }
+                // note: The DeviceSQL database may only support UCS-2 so
+                // we might need to do some additional filtering here
+                LongBody::Ucs2le(string.encode_utf16().collect())
+            };
+            // The serialized length is stored as an `u16` and includes the header.
+            content
+                .byte_count()?
+                .checked_add(4)
+                .ok_or(StringError::TooLong)?;
+            Ok(Self(DeviceSQLStringImpl::Long { content }))
         } else {
             Err(StringError::TooLong)
         }
-- 
2.43.0


From 9e08daced17e96e0e02dc045b7621101b9c98cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 02/46] fix: reject ISRC strings containing null bytes

The ISRC encoding is null-terminated, so such a string was truncated when
it was read back.
---
 src/pdb/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index acc0a79..be440cd 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -100,7 +100,8 @@ impl DeviceSQLString {
         }
         // basic validation taken from
         // https://isrc.ifpi.org/downloads/ISRC_Bulletin-2015-01.pdf
-        if string.len() != 12 || !string.is_ascii() {
+        // (the serialized form is null-terminated, so it cannot hold null bytes)
+        if string.len() != 12 || !string.is_ascii() || string.contains('\0') {
             return Err(StringError::InvalidISRC);
         }
         Ok(Self(DeviceSQLStringImpl::Long {
-- 
2.43.0


From 7961ad7c696b308f10648cf5cce1260572859ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 03/46] fix: report DeviceSQL strings with too small a length
 instead of underflowing

---
 src/pdb/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index be440cd..1b41533 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -224,7 +224,7 @@ enum DeviceSQLStringImpl {
         // first byte (`header` here, `flags` in Long). If its set, the
         // string being parsed is a of the ShortASCII kind, if its not, its
         // the Long form.
-        #[br(temp, assert(header & 0b1 == 1))]
+        #[br(temp, assert(header & 0b1 == 1 && header > 1))]
         #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
         header: u8,
 
@@ -238,7 +238,7 @@ enum DeviceSQLStringImpl {
         #[bw(calc = content.flags())]
         flags: u8,
 
-        #[br(temp)]
+        #[br(temp, assert(length >= 4))]
         #[bw(calc = content.byte_count().unwrap() + 4)]
         length: u16,
 
-- 
2.43.0


From 59850d63a7b61c4d437e172bafc009c97e648739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 04/46] fix: do not panic when displaying a DeviceSQL string
 with non-ASCII bytes

The bytes come unchecked from the file, so displaying them must be lossy
like it already is for UTF-16 content.
---
 src/pdb/string.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 1b41533..83b0849 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -153,11 +153,7 @@ impl fmt::Display for DeviceSQLString {
             | DeviceSQLStringImpl::Long {
                 content: LongBody::Ascii(content),
                 ..
-            } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
-            }
+            } => f.write_str(&String::from_utf8_lossy(content)),
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
             } => {
-- 
2.43.0


From 2e66a8ce6186bf92c55c6b835749b1e3cb513b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 05/46] fix: do not mistake UCS2LE strings for ISRC strings

Any UCS2LE string whose first byte is 0x03 was tried as a null-terminated
ISRC string first, without regard to the length field, so texts such as
"\u{103}\u{e9}" decoded to something else depending on what followed them.
---
 src/pdb/string.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 83b0849..db1014f 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -254,7 +254,16 @@ enum LongBody {
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
     // a semi-dirty workaround
     #[br(pre_assert(flags == 0x90))]
-    Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
+    Isrc(
+        // An UCS2LE string may start with the same byte, so the null terminator
+        // has to be the last byte of the string. Odd lengths are never UCS2LE.
+        #[brw(magic = 0x3u8)]
+        #[br(assert(
+            self_0.len() + 2 == usize::from(len)
+                && (len % 2 != 0 || self_0.is_empty() || (self_0.len() == 12 && self_0.is_ascii()))
+        ))]
+        binrw::NullString,
+    ),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
     #[br(pre_assert(flags == 0x90))]
-- 
2.43.0


From 14e6de23bb870d0ee25d138b7fe3346e055511f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 06/46] fix: refuse row allocations close to 64 KiB instead of
 overflowing

---
 src/pdb/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..c54bb9e 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -575,10 +575,11 @@ impl Page {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
                 if self.header.free_size < required_bytes {
                     return None;
                 }
-- 
2.43.0


From 38f0e377d16ce9d02b805c228c23a0ecc343bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 07/46] fix: give empty row allocations their own offset

Allocating zero bytes twice returned the same offset, so inserting the
second row panicked.
---
 src/pdb/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index c54bb9e..ce75c66 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -574,8 +574,8 @@ impl Page {
         match self.content {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
-                // Always align rows to 4 bytes.
-                let bytes = bytes.checked_next_multiple_of(4)?;
+                // Always align rows to 4 bytes. Even an empty row needs an offset of its own.
+                let bytes = bytes.max(1).checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
                 let required_bytes =
-- 
2.43.0


From 3cbe874005f0e5cd1191d7120dc2239cb88ff265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 08/46] fix: refuse row allocations that exceed the packed row
 counters

Pages larger than about 16 KiB can hold more rows than the 13-bit and
11-bit counters in the page header can represent; allocating row 2048
panicked.
---
 src/pdb/bitfields.rs | 7 +++++++
 src/pdb/mod.rs       | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..73b0621 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -59,6 +59,13 @@ impl PackedRowCounts {
         Some((rgi, rsi))
     }
 
+    /// Check whether another row would exceed the range of either counter.
+    pub(crate) fn is_full(&self) -> bool {
+        const MAX_NUM_ROWS: u16 = (1 << 13) - 1;
+        const MAX_NUM_ROWS_VALID: u16 = (1 << 11) - 1;
+        self.num_rows() == MAX_NUM_ROWS || self.num_rows_valid() == MAX_NUM_ROWS_VALID
+    }
+
     /// Increment the number of rows e.g. when we allocate a row in the page.
     pub(crate) fn increment_num_rows(&mut self) {
         self.set_num_rows(self.num_rows() + 1);
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index ce75c66..556efb4 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -584,10 +584,14 @@ impl Page {
                     return None;
                 }
 
+                let row_counts = &mut self.header.packed_row_counts;
+                if row_counts.is_full() {
+                    return None;
+                }
+
                 let offset = self.header.used_size;
                 self.header.used_size += bytes;
                 self.header.free_size -= bytes;
-                let row_counts = &mut self.header.packed_row_counts;
                 row_counts.increment_num_rows();
                 let (row_group_index, row_subindex) = row_counts.last_row_index().unwrap();
 
-- 
2.43.0


From 4bddb26c93b45945890d09a08f477ccbed3eece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 09/46] fix: report loading page 0 as an error instead of
 underflowing

---
 src/pdb/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..c602c20 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -102,10 +102,10 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
-        let page_entry = self
-            .content
-            .pages
-            .get_mut(index.0 as usize - 1)
+        // Page indices are 1-based (the header is located at index 0).
+        let page_entry = (index.0 as usize)
+            .checked_sub(1)
+            .and_then(|i| self.content.pages.get_mut(i))
             .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
-- 
2.43.0


From aa815086d6255739d4c4332506d389e96c54daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 10/46] fix: report rows of a foreign page in a table instead
 of panicking

---
 src/pdb/io.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index c602c20..150818c 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -179,9 +179,12 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined from the page type, so we find an unexpected
+            // variant if the table links to a page that belongs to another table.
+            .map(|row| {
+                row.as_variant_mut()
+                    .ok_or(RekordcrateError::IntegrityError("unexpected row type"))
+            }))
     }
 
     /// Returns a reference to the PDB header.
-- 
2.43.0


From 954298cf9a7488c0c3d4287df20f793d7f5a54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 11/46] fix: preserve index entries stored behind the first
 num_entries slots

---
 src/pdb/mod.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 556efb4..a80d4b6 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -354,21 +354,23 @@ impl IndexPageHeader {
 /// The content of an index page.
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone)]
-#[br(little)]
-#[bw(little, import { page_size: u32 })]
+#[brw(little, import { page_size: u32 })]
 pub struct IndexPageContent {
     /// The header of the index page.
     pub header: IndexPageHeader,
 
     /// The index entries.
-    #[br(count = header.num_entries)]
+    ///
+    /// Usually there are `num_entries` of them, but there may be more if the page contains
+    /// non-empty entries behind the first empty slot.
+    #[br(parse_with = Self::parse_entries, args(page_size, header.num_entries))]
     pub entries: Vec<IndexEntry>,
 
     // Write empty entries to pad out the rest of the page, except the last
     // 20 bytes which are zeros instead.
     #[br(temp)]
     #[bw(calc = EmptyIndexEntries(
-        Self::total_entries(page_size) - usize::from(header.num_entries)
+        Self::total_entries(page_size) - entries.len()
     ))]
     #[bw(pad_after = 20)]
     _empty_entries: EmptyIndexEntries,
@@ -382,6 +384,19 @@ impl IndexPageContent {
             .try_into()
             .unwrap()
     }
+
+    /// Parses all slots of the page, up to the last one that is in use.
+    #[binrw::parser(reader, endian)]
+    fn parse_entries(page_size: u32, num_entries: u16) -> BinResult<Vec<IndexEntry>> {
+        let num_entries = usize::from(num_entries);
+        let mut entries = Vec::new();
+        for _ in 0..Self::total_entries(page_size).max(num_entries) {
+            entries.push(IndexEntry::read_options(reader, endian, ())?);
+        }
+        let used = entries.iter().rposition(|entry| !entry.is_empty());
+        entries.truncate(used.map_or(0, |last| last + 1).max(num_entries));
+        Ok(entries)
+    }
 }
 
 /// Helper struct to write empty index entries while reading nothing.
@@ -435,7 +450,7 @@ pub enum PageContent {
     ),
     /// The page is an index page.
     #[br(pre_assert(header.page_flags.is_index_page()))]
-    Index(#[bw(args { page_size })] IndexPageContent),
+    Index(#[brw(args { page_size })] IndexPageContent),
 }
 
 impl PageContent {
-- 
2.43.0


From 605fa0452db7d248aac64cce1adef8fe823e2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 12/46] fix: refuse index entries for page indices that are out
 of range

---
 src/pdb/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index a80d4b6..6631ee7 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -263,6 +263,8 @@ impl TryFrom<(PageIndex, u8)> for IndexEntry {
 
     fn try_from(value: (PageIndex, u8)) -> Result<Self, Self::Error> {
         let (page_index, index_flags) = value;
+        // Indices read from a file may be out of range.
+        let page_index = PageIndex::try_from(page_index.0)?;
         if index_flags & 0b111 != index_flags {
             return Err(PdbError::InvalidIndexFlags(index_flags));
         }
-- 
2.43.0


From c5a842a6befc4159c0337753a68612d6528917d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 13/46] fix: do not panic when printing an index entry with an
 invalid page index

---
 src/pdb/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 6631ee7..1922780 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -306,9 +306,10 @@ impl fmt::Debug for IndexEntry {
                 .field("is_empty", &self.is_empty())
                 .finish()
         } else {
+            // Do not validate the page index here, it may be out of range in a corrupt file.
             f.debug_struct("IndexEntry")
                 .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
+                .field("page_index", &PageIndex(self.0 >> 3))
                 .field("index_flags", &self.index_flags())
                 .finish()
         }
-- 
2.43.0


From a2d76cd36d8885c875ed3a9b779d18dc01f80498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 14/46] fix: do not truncate large row counts in
 PackedRowCounts::from_all_valid

---
 src/pdb/bitfields.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 73b0621..54acf59 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -37,10 +37,15 @@ impl Default for PackedRowCounts {
 impl PackedRowCounts {
     /// Create a `PackedRowCounts` assuming all rows in the page are valid,
     /// e.g. when we are serializing a page without any deleted rows.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `num_rows` is out of range.
     pub fn from_all_valid(num_rows: usize) -> Self {
+        let num_rows = u16::try_from(num_rows).expect("number of rows out of range");
         Self::new()
-            .with_num_rows(num_rows as u16)
-            .with_num_rows_valid(num_rows as u16)
+            .with_num_rows(num_rows)
+            .with_num_rows_valid(num_rows)
     }
 
     /// Get the number of row groups in the page.
-- 
2.43.0


From 964c678bd759a9aa687166b1b14b6709b8d1b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:54 +0000
Subject: [PATCH 15/46] fix: leave the bytes between header and first page
 alone when flushing

Flushing zeroed the unused rest of the header page, although nothing there
was modified (and misplaced all pages if the header did not fit on it).
---
 src/pdb/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 150818c..d7dadaa 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -32,10 +32,11 @@ use std::io::{Read, Seek, Write};
 struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
-    #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
     #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    // The bytes between the header and the first page are left as they are.
+    #[bw(seek_before = SeekFrom::Start(u64::from(header.page_size)))]
     #[bw(args(header.page_size))]
     pages: Vec<LazyPage>,
 }
-- 
2.43.0


From f51b93a831e21cab03fbb1f6ab8c1a6fd267d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 16/46] fix: show Simplified Chinese by its label

The display attribute was placed behind the variant and thus applied to
the next one.
---
 src/setting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 335f274..49d78ab 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -854,8 +854,8 @@ pub enum Language {
     #[display("한국어")]
     Korean,
     /// Named "简体中文" in the Rekordbox preferences.
-    ChineseSimplified,
     #[display("简体中文")]
+    ChineseSimplified,
     /// Named "繁體中文" in the Rekordbox preferences.
     #[display("繁體中文")]
     ChineseTraditional,
-- 
2.43.0


From 4cdfa39c3e85e81a2524b2741c6ffdecabfe4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 17/46] fix: refuse cyclic and excessively nested playlist
 folders

Rows that form a cycle (or thousands of nested folders) made
get_playlists() recurse until the stack overflowed, duplicate rows could
multiply the tree without limit.
---
 src/device.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..ac21fa2 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -13,10 +13,11 @@ use crate::{
     pdb::{DatabaseType, PlaylistTreeNode, PlaylistTreeNodeId},
     setting,
     setting::{Setting, SettingType},
+    util::RekordcrateError,
 };
 use binrw::BinRead;
 use fallible_iterator::FallibleIterator;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::io::{Read, Seek};
 use std::path::{Path, PathBuf};
@@ -533,10 +534,26 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
         Ok(())
     })?;
 
+    /// Folders nested deeper than this are refused instead of exhausting the stack.
+    const MAX_DEPTH: usize = 256;
+
     fn get_child_nodes(
         playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+        visited: &mut HashSet<PlaylistTreeNodeId>,
+        depth: usize,
+    ) -> crate::Result<Vec<PlaylistNode>> {
+        // Without this check, rows that form a cycle would be followed forever.
+        if !visited.insert(id) {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist folder is contained in the tree more than once",
+            ));
+        }
+        if depth > MAX_DEPTH {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist folders are nested too deeply",
+            ));
+        }
         playlists
             .get(&id)
             .into_iter()
@@ -546,8 +563,7 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
                     let folder = PlaylistFolder {
                         id: node.id,
                         name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
-                            .collect::<crate::Result<Vec<PlaylistNode>>>()?,
+                        children: get_child_nodes(playlists, node.id, visited, depth + 1)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
@@ -559,7 +575,8 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
                 };
                 Ok(child_node)
             })
+            .collect()
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&playlists, PlaylistTreeNodeId(0), &mut HashSet::new(), 0)
 }
-- 
2.43.0


From 1088c163c14827fe635b4bb239e68ee419ee0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 18/46] fix: read XML collections, folders and playlists
 without children

---
 src/xml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..53366a3 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -365,6 +366,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
                                         #[serde(rename = "NODE")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -384,6 +386,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
                                         #[serde(rename = "TRACK")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -441,6 +444,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From 609a0432ac13ba70c400adda0e977ea3ac853a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 19/46] fix: leave out absent track attributes when writing XML

---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 53366a3..a1044fc 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -83,57 +83,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -151,19 +164,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -175,6 +192,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -184,18 +202,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
-- 
2.43.0


From feb1ab3c9b03c56ad5c73cac198bbc4035d766ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 20/46] fix: refuse excessively nested XML playlist nodes
 instead of overflowing the stack

---
 src/xml.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index a1044fc..cb6a971 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -18,6 +18,7 @@
 type NaiveDate = String; //Replace with "use chrono::naive::NaiveDate;"
 use serde::{de::Error, ser::Serializer, Deserialize, Serialize};
 use std::borrow::Cow;
+use std::cell::Cell;
 
 /// The XML root element of a rekordbox XML file.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
@@ -341,11 +342,45 @@ pub enum PlaylistGenericNode {
     Playlist(PlaylistPlaylistNode),
 }
 
+/// Playlist folders may not be nested more deeply than this in an XML file.
+///
+/// Nodes are read recursively, so that an unlimited nesting depth would overflow the stack.
+const MAX_NODE_DEPTH: usize = 128;
+
+thread_local! {
+    /// Nesting depth of the node that is currently being read.
+    static NODE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Counts a nested node while it is being read.
+struct NodeDepthGuard;
+
+impl NodeDepthGuard {
+    fn enter<E: Error>() -> Result<Self, E> {
+        let depth = NODE_DEPTH.get();
+        if depth >= MAX_NODE_DEPTH {
+            return Err(E::custom(format_args!(
+                "playlist nodes are nested more than {MAX_NODE_DEPTH} levels deep"
+            )));
+        }
+        NODE_DEPTH.set(depth + 1);
+        Ok(Self)
+    }
+}
+
+impl Drop for NodeDepthGuard {
+    fn drop(&mut self) {
+        NODE_DEPTH.set(NODE_DEPTH.get() - 1);
+    }
+}
+
 impl<'de> Deserialize<'de> for PlaylistGenericNode {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
         D: serde::Deserializer<'de>,
     {
+        let _depth = NodeDepthGuard::enter::<D::Error>()?;
+
         struct PlaylistGenericNodeVisitor;
 
         impl<'de> serde::de::Visitor<'de> for PlaylistGenericNodeVisitor {
-- 
2.43.0


From e6d6d720f836066a62f980d8e6b78f3bd371ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 21/46] fix: read the PWV2 column height from the low nibble

---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..18a8727 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -506,10 +506,10 @@ impl Default for TinyWaveformPreviewColumn {
 #[br(big, map = Self::from_bytes)]
 #[bw(big, map = |x: &TinyWaveformPreviewColumn| x.into_bytes())]
 pub struct TinyWaveformPreviewColumn {
-    #[allow(dead_code)]
-    unused: B4,
     /// Height of the Column in pixels.
     pub height: B4,
+    #[allow(dead_code)]
+    unused: B4,
 }
 
 /// Single Column value in a Waveform Color Preview.
-- 
2.43.0


From cd8bb2d2820b3a2ffa461652df31b4ca58aad37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 22/46] fix: read PWV5 columns as big-endian bit fields

---
 src/anlz.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 18a8727..a80827d 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -546,20 +546,20 @@ impl Default for WaveformColorDetailColumn {
 /// <https://djl-analysis.deepsymmetry.org/rekordbox-export-analysis/anlz.html#color-detail>
 #[bitfield]
 #[derive(BinRead, BinWrite, Debug, PartialEq, Eq, Clone, Copy)]
-#[br(map = Self::from_bytes)]
-#[bw(big, map = |x: &WaveformColorDetailColumn| x.into_bytes())]
+#[br(big, map = |x: u16| Self::from_bytes(x.to_le_bytes()))]
+#[bw(big, map = |x: &WaveformColorDetailColumn| u16::from_le_bytes(x.into_bytes()))]
 pub struct WaveformColorDetailColumn {
-    /// Red color component.
-    pub red: B3,
-    /// Green color component.
-    pub green: B3,
-    /// Blue color component.
-    pub blue: B3,
-    /// Height of the column.
-    pub height: B5,
     /// Unknown field
     #[allow(dead_code)]
     unknown: B2,
+    /// Height of the column.
+    pub height: B5,
+    /// Blue color component.
+    pub blue: B3,
+    /// Green color component.
+    pub green: B3,
+    /// Red color component.
+    pub red: B3,
 }
 
 /// Single Column value in a Waveform 3-Band Preview.
-- 
2.43.0


From bb4448d4c1ed57c2589d49169564e452f1c1bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 23/46] fix: reject ANLZ headers whose sizes contradict each
 other

---
 src/anlz.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index a80827d..a896b2a 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -118,8 +118,10 @@ pub struct Header {
     /// Kind of content in this item.
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= 12))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size))]
     pub total_size: u32,
 }
 
-- 
2.43.0


From d8a3047ae19268a43ddd5f227db32a365d03d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 24/46] fix: do not overflow when checking ANLZ entry counts

---
 src/anlz.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index a896b2a..5e4fa31 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -900,7 +900,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -928,7 +928,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -952,7 +952,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -979,7 +979,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -1001,7 +1001,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
-- 
2.43.0


From 33475421503281591132b5f5116fc09b98f56e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 25/46] fix: report ANLZ sections that do not end where their
 header says

---
 src/anlz.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index 5e4fa31..0adb0d6 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1185,7 +1185,19 @@ impl ANLZ {
 
         let mut sections: Vec<Section> = vec![];
         while reader.stream_position()? < final_position {
+            let start = reader.stream_position()?;
             let section = Section::read_options(reader, endian, ())?;
+            let end = reader.stream_position()?;
+            let declared_end = start + u64::from(section.header.total_size);
+            if end != declared_end || end > final_position {
+                return Err(binrw::Error::AssertFail {
+                    pos: start,
+                    message: format!(
+                        "section {:?} ends at {end} instead of {declared_end} (limit {final_position})",
+                        section.header.kind
+                    ),
+                });
+            }
             sections.push(section);
         }
 
-- 
2.43.0


From f09fdda15ef0d0a9682d7ad42e200673f584df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 26/46] fix: do not overflow when deriving the song structure
 key

---
 src/anlz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 0adb0d6..4d83cfa 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1079,7 +1079,7 @@ impl SongStructureData {
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
         Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
+            let value = u16::from(x).wrapping_add(len_entries);
             (value % 256) as u8
         })
     }
-- 
2.43.0


From 979f9f54a8cdbdc52adc6955ebe32936e5f20796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 27/46] fix: read ANLZ comments without losing their terminator
 or huge allocations

---
 src/anlz.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 4d83cfa..80b030b 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -294,22 +294,33 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
+        let pos = reader.stream_position()?;
+        let mut bytes = Vec::new();
+        reader.take(u64::from(len)).read_to_end(&mut bytes)?;
+        if bytes.len() as u64 != u64::from(len) {
+            return Err(binrw::Error::Io(binrw::io::ErrorKind::UnexpectedEof.into()));
+        }
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
             .collect();
-        let s = String::from_utf16(&code_units)
-            .map(|s| s.trim_end_matches('\0').to_string())
-            .map_err(|e| binrw::Error::Custom {
-                pos: reader.stream_position().unwrap_or(0),
-                err: Box::new(e),
-            })?;
+        // Only the terminator itself is stripped, so that writing restores the original bytes.
+        let text = match code_units.split_last() {
+            Some((0, text)) if len % 2 == 0 => text,
+            _ => {
+                return Err(binrw::Error::AssertFail {
+                    pos,
+                    message: "string is not NUL-terminated UTF-16".to_string(),
+                })
+            }
+        };
+        let s = String::from_utf16(text).map_err(|e| binrw::Error::Custom {
+            pos,
+            err: Box::new(e),
+        })?;
         Ok(Self(s))
     }
 }
-- 
2.43.0


From 6a966ca6f53ce4a9106908d79a1c77d82b87c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 28/46] fix: measure the trailing bytes of extended cues by the
 stored comment length

---
 src/anlz.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 80b030b..ecbd6fc 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -388,6 +388,10 @@ pub struct ExtendedCue {
     pub loop_numerator: u16,
     /// Represents the loop size denominator (if this is a quantized loop).
     pub loop_denominator: u16,
+    /// Length of the comment as stored, which may be just the terminator.
+    #[br(temp, restore_position)]
+    #[bw(ignore)]
+    len_comment: u32,
     /// An UTF-16BE encoded string with a leading `u32` length prefix and a
     /// trailing NUL (`0x0000`).
     pub comment: LenPrefixedWideString,
@@ -479,7 +483,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    #[br(count = header.total_size.saturating_sub(len_comment.saturating_add(68)) as usize)]
     pub trailing: Vec<u8>,
 }
 
-- 
2.43.0


From 5df98bd019097c72f57c7267d6b5bc7fadc35eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 29/46] fix: advance the XOR key only by the bytes actually
 transferred

---
 src/xor.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..553c38a 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,7 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        for byte in &mut buf[..bytes_read] {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -50,15 +50,18 @@ impl<R: Read> Read for XorStream<R> {
 
 impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        // The underlying stream may accept only a part of the buffer, the rest is passed again.
         let encrypted_buffer: Vec<u8> = buf
             .iter()
-            .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
-                x ^ key_byte
-            })
+            .zip(self.key.clone())
+            .map(|(x, key_byte)| x ^ key_byte)
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 73ef46afbc0c27e4917ef6eeef43a3c0b499d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 30/46] fix: do not reserve memory for ANLZ data that the file
 does not contain

---
 src/anlz.rs | 21 ++++++++++-----------
 src/util.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index ecbd6fc..7611c2b 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -26,7 +26,10 @@
 
 #![allow(clippy::must_use_candidate)]
 
-use crate::{util::ColorIndex, xor::XorStream};
+use crate::{
+    util::{read_bytes, ColorIndex},
+    xor::XorStream,
+};
 use binrw::{
     binrw,
     io::{Read, Seek, Write},
@@ -298,11 +301,7 @@ impl BinRead for LenPrefixedWideString {
             return Ok(Self(String::new()));
         }
         let pos = reader.stream_position()?;
-        let mut bytes = Vec::new();
-        reader.take(u64::from(len)).read_to_end(&mut bytes)?;
-        if bytes.len() as u64 != u64::from(len) {
-            return Err(binrw::Error::Io(binrw::io::ErrorKind::UnexpectedEof.into()));
-        }
+        let bytes = read_bytes(reader, endian, (len,))?;
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
@@ -483,7 +482,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(len_comment.saturating_add(68)) as usize)]
+    #[br(parse_with = read_bytes, args(header.total_size.saturating_sub(len_comment.saturating_add(68))))]
     pub trailing: Vec<u8>,
 }
 
@@ -862,7 +861,7 @@ pub struct VBR {
     /// Unknown field.
     unknown1: u32,
     /// Unknown data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     unknown2: Vec<u8>,
 }
 
@@ -1152,10 +1151,10 @@ impl SongStructureData {
 #[br(import(header: Header))]
 pub struct Unknown {
     /// Unknown header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     header_data: Vec<u8>,
     /// Unknown content data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     content_data: Vec<u8>,
 }
 
@@ -1182,7 +1181,7 @@ pub struct ANLZ {
     #[br(assert(header.kind == ContentKind::File))]
     pub header: Header,
     /// The header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     pub header_data: Vec<u8>,
     /// The content sections.
     #[br(parse_with = Self::parse_sections, args(header.content_size()))]
diff --git a/src/util.rs b/src/util.rs
index 2cf4f5c..5986285 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -192,6 +192,21 @@ where
     })
 }
 
+/// Reads exactly `count` bytes without reserving memory for more than the reader provides.
+pub(crate) fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _endian: Endian,
+    (count,): (u32,),
+) -> BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(u64::from(count)).read_to_end(&mut bytes)?;
+    if bytes.len() as u64 == u64::from(count) {
+        Ok(bytes)
+    } else {
+        Err(binrw::Error::Io(std::io::ErrorKind::UnexpectedEof.into()))
+    }
+}
+
 /// align given value to the alignment requirements by the given type.
 #[must_use]
 pub const fn align_by(alignment: u64, mut offset: u64) -> u64 {
-- 
2.43.0


From 6004877daa9d9111c441dd6cfd2b98236cb3e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 31/46] fix: flush the underlying device when flushing the
 database

---
 src/pdb/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d7dadaa..15bb9e8 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -218,6 +218,7 @@ impl<RW: Read + Write + Seek> Database<RW> {
         let endian = Endian::Little;
         self.io.seek(SeekFrom::Start(0))?;
         self.content.write_options(&mut self.io, endian, ())?;
+        self.io.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 6950ce3db5d58e8fe4f13ea867a0eca72654cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 32/46] fix: do not take a failed read for an absent parent ID

---
 src/pdb/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdb/ext.rs b/src/pdb/ext.rs
index 14490ff..6c9ea71 100644
--- a/src/pdb/ext.rs
+++ b/src/pdb/ext.rs
@@ -44,7 +44,7 @@ impl PageHeapObject for TagId {
 #[brw(little)]
 /// A possibly absent parent ID. If the ID is zero (None), then there is no parent.
 pub struct ParentId(
-    #[br(try)] // failing to parse is fine, since then its just non-zero
+    #[br(map = NonZero::<u32>::new)]
     #[bw(map = |&x| x.map_or(0, |v| v.get()))]
     pub Option<NonZero<u32>>,
 );
-- 
2.43.0


From 28b1cafe5f673ed73a1169b161e97d4dcddd5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 33/46] fix: do not take a failed read for an unknown enum
 value

---
 src/anlz.rs    |  3 ++-
 src/pdb/mod.rs | 10 +++++++---
 src/util.rs    | 44 +++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 7611c2b..2fb262c 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -27,7 +27,7 @@
 #![allow(clippy::must_use_candidate)]
 
 use crate::{
-    util::{read_bytes, ColorIndex},
+    util::{read_bytes, ColorIndex, StickyErrorStream},
     xor::XorStream,
 };
 use binrw::{
@@ -119,6 +119,7 @@ pub enum ContentKind {
 #[brw(big)]
 pub struct Header {
     /// Kind of content in this item.
+    #[br(map_stream = StickyErrorStream::new)]
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
     #[br(assert(size >= 12))]
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 1922780..f13647f 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -39,7 +39,9 @@ use std::fmt;
 use crate::pdb::ext::{ExtPageType, ExtRow};
 use crate::pdb::offset_array::OffsetSize;
 use crate::pdb::string::DeviceSQLString;
-use crate::util::{parse_at_offsets, write_at_offsets, ColorIndex, FileType, TableIndex};
+use crate::util::{
+    parse_at_offsets, write_at_offsets, ColorIndex, FileType, StickyErrorStream, TableIndex,
+};
 use binrw::{binrw, BinRead, BinResult, BinWrite, Endian};
 use std::io::{Read, Seek, SeekFrom, Write};
 use thiserror::Error;
@@ -182,7 +184,7 @@ impl PageIndex {
 #[brw(import(db_type: DatabaseType))]
 pub struct Table {
     /// Identifies the type of rows that this table contains.
-    #[br(args(db_type))]
+    #[br(args(db_type), map_stream = StickyErrorStream::new)]
     pub page_type: PageType,
     /// Unknown field, maybe links to a chain of empty pages if the database is ever garbage
     /// collected (?).
@@ -527,7 +529,7 @@ pub struct PageHeader {
     /// Type of information that the rows of this page contain.
     ///
     /// Should match the page type of the table that this page belongs to.
-    #[br(args(db_type))]
+    #[br(args(db_type), map_stream = StickyErrorStream::new)]
     pub page_type: PageType,
     /// Index of the next page with the same page type.
     ///
@@ -1820,6 +1822,7 @@ pub struct Track {
     /// User rating of this track (0 to 5 starts).
     pub rating: u8,
     /// Format of the file.
+    #[br(map_stream = StickyErrorStream::new)]
     file_type: FileType,
     /// offsets (strings) at row end
     #[brw(args(0x5C, subtype.get_offset_size(), ()))]
@@ -1933,6 +1936,7 @@ pub struct Menu {
     /// Experiments confirmed that changing this from `Hidden` to `Visible` makes hidden menus
     /// (like Genre) appear, although some menus do not show in the CDJ-350 even when made
     /// visible here.
+    #[br(map_stream = StickyErrorStream::new)]
     pub visibility: MenuVisibility,
 
     /// Visual position in the menu list.
diff --git a/src/util.rs b/src/util.rs
index 5986285..bd99885 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -8,7 +8,7 @@
 
 //! Common types used in multiple modules.
 
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
 
 use crate::pdb::string::StringError;
 use crate::pdb::{PageIndex, PageType};
@@ -192,6 +192,48 @@ where
     })
 }
 
+/// Stream that keeps failing once reading from it has failed.
+///
+/// If reading a variant of an enum fails for any reason, the next variant is tried. Fields that
+/// hold an enum with a catch-all variant are read from this stream, so that the catch-all variant
+/// is not used merely because of an I/O error that occurred while reading the other ones.
+pub(crate) struct StickyErrorStream<'a, R> {
+    inner: &'a mut R,
+    error: Option<ErrorKind>,
+}
+
+impl<'a, R> StickyErrorStream<'a, R> {
+    pub(crate) fn new(inner: &'a mut R) -> Self {
+        Self { inner, error: None }
+    }
+
+    fn keep_error<T>(&mut self, result: std::io::Result<T>) -> std::io::Result<T> {
+        if let Err(err) = &result {
+            if err.kind() != ErrorKind::Interrupted {
+                self.error = Some(err.kind());
+            }
+        }
+        result
+    }
+}
+
+impl<R: Read> Read for StickyErrorStream<'_, R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if let Some(kind) = self.error {
+            return Err(kind.into());
+        }
+        let result = self.inner.read(buf);
+        self.keep_error(result)
+    }
+}
+
+impl<R: Seek> Seek for StickyErrorStream<'_, R> {
+    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        let result = self.inner.seek(pos);
+        self.keep_error(result)
+    }
+}
+
 /// Reads exactly `count` bytes without reserving memory for more than the reader provides.
 pub(crate) fn read_bytes<R: Read + Seek>(
     reader: &mut R,
-- 
2.43.0


From a93791c5ea75fb58379a70ea6ff5d4ed8895a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 34/46] fix: do not take a failed read of an ISRC for a wide
 string

---
 src/pdb/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index db1014f..c560ead 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -13,6 +13,7 @@
 
 use super::PageHeapObject;
 use crate::pdb::offset_array::OffsetArrayItemAlignment;
+use crate::util::StickyErrorStream;
 use binrw::binrw;
 use std::{convert::TryInto, fmt, str::FromStr};
 use thiserror::Error;
@@ -239,7 +240,7 @@ enum DeviceSQLStringImpl {
         length: u16,
 
         #[brw(magic(0u8))] // padding
-        #[br(args(flags, length - 4))]
+        #[br(args(flags, length - 4), map_stream = StickyErrorStream::new)]
         content: LongBody,
     },
 }
-- 
2.43.0


From d3053fd2ebfab2f8eff45bd435c801e83f48da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 35/46] fix: stop reading or writing strings of a row after the
 first error

---
 src/util.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bd99885..da922ef 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -273,15 +273,19 @@ pub(crate) trait ArrayPolyfills<T, const N: usize> {
 }
 
 impl<T, const N: usize> ArrayPolyfills<T, N> for [T; N] {
-    fn try_map_polyfill<U, E>(self, f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
-        let results = self.map(f);
-        let has_error = results.iter().any(|r| r.is_err());
-        if has_error {
-            return Err(results.into_iter().find_map(|r| r.err()).unwrap());
+    fn try_map_polyfill<U, E>(self, mut f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
+        let mut error = None;
+        // The remaining items must not be processed after an error.
+        let results = self.map(|v| match error {
+            Some(_) => None,
+            None => f(v).map_err(|err| error = Some(err)).ok(),
+        });
+        if let Some(err) = error {
+            return Err(err);
         }
         Ok(results.map(|r| match r {
-            Ok(v) => v,
-            Err(_) => unreachable!(),
+            Some(v) => v,
+            None => unreachable!(),
         }))
     }
 
-- 
2.43.0


From 019785e9e7d6b676b8f2a57c44d9b36e9bf23f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 36/46] Add a guarded accessor for the heap size of rows (cfg
 rekordcrate_verif)

---
 src/lib.rs     |  2 ++
 src/pdb/mod.rs | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d050d34..edee6c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,8 @@
 
 #![warn(unsafe_code)]
 #![warn(missing_docs)]
+// `rekordcrate_verif` exposes internals to the verification harness.
+#![allow(unexpected_cfgs)]
 #![cfg_attr(not(debug_assertions), deny(warnings))]
 #![deny(rust_2018_idioms)]
 #![deny(rust_2021_compatibility)]
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f13647f..62c8f16 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -2127,3 +2127,13 @@ impl PageHeapObject for Row {
         }
     }
 }
+
+/// Accessor for the verification harness.
+#[cfg(rekordcrate_verif)]
+impl Row {
+    /// Required page heap space in bytes to store this row.
+    #[must_use]
+    pub fn verif_heap_bytes_required(&self) -> u16 {
+        self.heap_bytes_required(())
+    }
+}
-- 
2.43.0


From a5d72f9a233ea61121dbafddd5bbccd65dc7e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 37/46] fix: do not underflow when the page size is smaller
 than the page headers

---
 src/pdb/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 62c8f16..d52e52d 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -210,6 +210,7 @@ pub struct Header {
     /// Size of a single page in bytes.
     ///
     /// The byte offset of a page can be calculated by multiplying a page index with this value.
+    #[br(assert(page_size >= Page::MIN_SIZE, "page size {page_size} is too small"))]
     pub page_size: u32,
     /// Number of tables.
     pub num_tables: u32,
@@ -384,7 +385,7 @@ pub struct IndexPageContent {
 impl IndexPageContent {
     fn total_entries(page_size: u32) -> usize {
         // The last 20 bytes in an index page are zeros.
-        let entries_space = page_size - PageHeader::BINARY_SIZE - IndexPageHeader::BINARY_SIZE - 20;
+        let entries_space = page_size.saturating_sub(Page::MIN_SIZE);
         (entries_space / IndexEntry::BINARY_SIZE)
             .try_into()
             .unwrap()
@@ -584,6 +585,9 @@ pub struct Page {
 }
 
 impl Page {
+    /// Size of an index page without entries, including the 20 zero bytes at its end.
+    const MIN_SIZE: u32 = PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20;
+
     /// Allocate space for a new row in the page heap and return a function to
     /// insert the row at the allocated offset. Returns `None` if there is
     /// insufficient free space in the page.
@@ -709,7 +713,7 @@ pub struct DataPageContent {
 
 impl DataPageContent {
     fn page_heap_size(page_size: u32) -> u32 {
-        page_size - PageHeader::BINARY_SIZE - DataPageHeader::BINARY_SIZE
+        page_size.saturating_sub(PageHeader::BINARY_SIZE + DataPageHeader::BINARY_SIZE)
     }
 }
 
-- 
2.43.0


From bece1c580adae406e884a7d29eb2195700b09c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 38/46] fix: do not add rows to pages whose row offsets
 contradict the used size

---
 src/pdb/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index d52e52d..275f63c 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -614,7 +614,13 @@ impl Page {
                 }
 
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
+                let used_size = offset.checked_add(bytes)?;
+                // In a corrupt page, there may be rows behind the allegedly used space.
+                if dpc.rows.range(offset..).next().is_some() {
+                    return None;
+                }
+
+                self.header.used_size = used_size;
                 self.header.free_size -= bytes;
                 row_counts.increment_num_rows();
                 let (row_group_index, row_subindex) = row_counts.last_row_index().unwrap();
-- 
2.43.0


From 12fc802906a6205e1876b9ed53c41cef2eae2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 39/46] fix: reject index pages with more entries than fit in
 the page

---
 src/pdb/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 275f63c..d1921ae 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -395,8 +395,15 @@ impl IndexPageContent {
     #[binrw::parser(reader, endian)]
     fn parse_entries(page_size: u32, num_entries: u16) -> BinResult<Vec<IndexEntry>> {
         let num_entries = usize::from(num_entries);
+        let total_entries = Self::total_entries(page_size);
+        if num_entries > total_entries {
+            return Err(binrw::Error::AssertFail {
+                pos: reader.stream_position()?,
+                message: format!("{num_entries} index entries exceed the limit {total_entries}"),
+            });
+        }
         let mut entries = Vec::new();
-        for _ in 0..Self::total_entries(page_size).max(num_entries) {
+        for _ in 0..total_entries {
             entries.push(IndexEntry::read_options(reader, endian, ())?);
         }
         let used = entries.iter().rposition(|entry| !entry.is_empty());
-- 
2.43.0


From f2533c5558479183fd2009c2b56ce9ec544e8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 40/46] fix: do not allocate space for pages behind the end of
 the file

---
 src/pdb/io.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 15bb9e8..787c76c 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -34,13 +34,26 @@ struct LazyDatabase {
     #[br(args(db_type))]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(parse_with = Self::parse_pages, args(&header))]
     // The bytes between the header and the first page are left as they are.
     #[bw(seek_before = SeekFrom::Start(u64::from(header.page_size)))]
     #[bw(args(header.page_size))]
     pages: Vec<LazyPage>,
 }
 
+impl LazyDatabase {
+    /// Provides for all pages that are in use and at least partially present in the file.
+    #[binrw::parser(reader)]
+    fn parse_pages(header: &Header) -> BinResult<Vec<LazyPage>> {
+        let position = reader.stream_position()?;
+        let file_size = reader.seek(SeekFrom::End(0))?;
+        reader.seek(SeekFrom::Start(position))?;
+        let present = file_size.div_ceil(u64::from(header.page_size));
+        let pages = present.min(header.next_unused_page.0.into());
+        Ok(vec![LazyPage::NotLoaded; pages.saturating_sub(1) as usize])
+    }
+}
+
 #[derive(Debug, PartialEq, Clone)]
 enum LazyPage {
     NotLoaded,
-- 
2.43.0


From 79863082d67730591c8c74ffb6819241dafedc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 41/46] fix: do not crash when listing cyclic or very deep
 playlist trees

---
 src/main.rs | 69 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 818a014..017e965 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,7 +87,11 @@ enum Commands {
 
 fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::pdb::{PlaylistTreeNode, PlaylistTreeNodeId};
-    use std::collections::{BTreeMap, HashMap};
+    use rekordcrate::util::RekordcrateError;
+    use std::collections::{BTreeMap, HashMap, HashSet};
+
+    /// Folders nested deeper than this are refused instead of exhausting the stack.
+    const MAX_DEPTH: usize = 256;
 
     let reader = File::open(path)?;
     let mut db = Database::open_non_persistent(reader, DatabaseType::Plain)?;
@@ -153,27 +157,47 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
+        visited: &mut HashSet<PlaylistTreeNodeId>,
         level: usize,
-    ) {
-        tree.get(&id)
-            .iter()
-            .flat_map(|nodes| nodes.iter())
-            .for_each(|node| {
-                let indentation = "    ".repeat(level);
-                println!(
-                    "{}{} {}",
-                    indentation,
-                    if node.is_folder() { "🗀" } else { "🗎" },
-                    node.name,
-                );
-                if let Some(playlist_tracks) = tree_entries.get(&node.id) {
-                    for (index, track_id) in playlist_tracks.iter() {
-                        print!("{}  ♫ {}: ", indentation, index);
-                        print_track(track_id, artists, tracks);
-                    }
+    ) -> rekordcrate::Result<()> {
+        let Some(nodes) = tree.get(&id) else {
+            return Ok(());
+        };
+        // Without this check, rows that form a cycle would be followed forever.
+        if !visited.insert(id) {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist folder is contained in the tree more than once",
+            ));
+        }
+        if level > MAX_DEPTH {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist folders are nested too deeply",
+            ));
+        }
+        nodes.iter().try_for_each(|node| {
+            let indentation = "    ".repeat(level);
+            println!(
+                "{}{} {}",
+                indentation,
+                if node.is_folder() { "🗀" } else { "🗎" },
+                node.name,
+            );
+            if let Some(playlist_tracks) = tree_entries.get(&node.id) {
+                for (index, track_id) in playlist_tracks.iter() {
+                    print!("{}  ♫ {}: ", indentation, index);
+                    print_track(track_id, artists, tracks);
                 }
-                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1);
-            });
+            }
+            print_children_of(
+                tree,
+                tree_entries,
+                artists,
+                tracks,
+                node.id,
+                visited,
+                level + 1,
+            )
+        })
     }
 
     print_children_of(
@@ -182,10 +206,9 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         &artists,
         &tracks,
         PlaylistTreeNodeId(0),
+        &mut HashSet::new(),
         0,
-    );
-
-    Ok(())
+    )
 }
 
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
-- 
2.43.0


From 3bf9a3cbc080b9e06a8b7ffbb4ed5ded24624828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 42/46] fix: report malformed XML as error instead of panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 017e965..1a2208b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -355,7 +355,7 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader).map_err(std::io::Error::other)?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From 975f7f0c43963f84183250e0e6156ee1d888f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 43/46] fix: exit with a failure status if the type of a file
 is not known

---
 src/main.rs | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1a2208b..d87df24 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -361,17 +361,18 @@ fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     Ok(())
 }
 
-fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
+fn invalid_input(message: String) -> rekordcrate::util::RekordcrateError {
+    std::io::Error::new(std::io::ErrorKind::InvalidInput, message).into()
+}
+
+fn guess_db_type(path: &Path, db_type: Option<&str>) -> rekordcrate::Result<DatabaseType> {
     let db_type_cli = db_type.map(|str| match str {
         "plain" => DatabaseType::Plain,
         "ext" => DatabaseType::Ext,
         invalid => unreachable!("invalid flag {invalid}, should have already been checked by clap"),
     });
     let file_name = match path.file_name() {
-        None => {
-            eprintln!("{} not a file!", path.display());
-            return None; // TODO(Swiftb0y): turn this into a proper error
-        }
+        None => return Err(invalid_input(format!("{} not a file!", path.display()))),
         Some(file_name) => file_name,
     };
     let db_type_file = if file_name == "export.pdb" {
@@ -383,8 +384,9 @@ fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
     };
     let db_type = match (db_type_cli, db_type_file) {
         (None, None) => {
-            eprintln!("no DB_TYPE supplied nor could it be guessed!");
-            return None; // TODO(Swiftb0y): turn this into a proper error
+            return Err(invalid_input(
+                "no DB_TYPE supplied nor could it be guessed!".to_string(),
+            ));
         }
         (None, Some(guess)) | (Some(guess), None) => guess,
         (Some(db_type_cli), Some(db_type_file)) if db_type_cli == db_type_file => db_type_cli,
@@ -393,10 +395,10 @@ fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
             db_type_cli
         }
     };
-    Some(db_type)
+    Ok(db_type)
 }
 
-fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> Option<SettingType> {
+fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> rekordcrate::Result<SettingType> {
     let setting_type_cli = setting_type.map(|str| match str {
         "devsetting" => SettingType::DevSetting,
         "djmmysetting" => SettingType::DJMMySetting,
@@ -407,17 +409,15 @@ fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> Option<Setting
         }
     });
     let file_name = match path.file_name() {
-        None => {
-            eprintln!("{} not a file!", path.display());
-            return None; // TODO: turn into proper error
-        }
+        None => return Err(invalid_input(format!("{} not a file!", path.display()))),
         Some(file_name) => file_name,
     };
     let setting_type_file = SettingType::from_filename(file_name);
     let setting_type = match (setting_type_cli, setting_type_file) {
         (None, None) => {
-            eprintln!("no SETTING_TYPE supplied nor could it be guessed!");
-            return None; // TODO: turn into proper error
+            return Err(invalid_input(
+                "no SETTING_TYPE supplied nor could it be guessed!".to_string(),
+            ));
         }
         (None, Some(guess)) | (Some(guess), None) => guess,
         (Some(setting_type_cli), Some(setting_type_file))
@@ -430,7 +430,7 @@ fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> Option<Setting
             setting_type_cli
         }
     };
-    Some(setting_type)
+    Ok(setting_type)
 }
 
 fn main() -> rekordcrate::Result<()> {
@@ -445,18 +445,12 @@ fn main() -> rekordcrate::Result<()> {
             db_type,
             parse_unknown_tables,
         } => {
-            let db_type = match guess_db_type(path, db_type.as_deref()) {
-                Some(db_type) => db_type,
-                None => return Ok(()), // TODO(Swiftb0y): turn into proper error;
-            };
+            let db_type = guess_db_type(path, db_type.as_deref())?;
             dump_pdb(path, db_type, *parse_unknown_tables)
         }
         Commands::DumpANLZ { path } => dump_anlz(path),
         Commands::DumpSetting { path, setting_type } => {
-            let setting_type = match guess_setting_type(path, setting_type.as_deref()) {
-                Some(setting_type) => setting_type,
-                None => return Ok(()), // TODO: turn into proper error
-            };
+            let setting_type = guess_setting_type(path, setting_type.as_deref())?;
             dump_setting(path, setting_type)
         }
         Commands::DumpXML { path } => dump_xml(path),
-- 
2.43.0


From 267b9e4a236ffd0ed6e2d58b7810a483ba5ceec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 44/46] fix: keep exported playlists inside of the output
 directory

---
 src/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d87df24..84d7e7c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -239,16 +239,24 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    /// Turns the name of a playlist or folder into a single component of a path.
+    fn path_component(name: &str) -> String {
+        match name {
+            "" => "_".to_string(),
+            "." | ".." => name.replace('.', "_"),
+            name => name.replace(|c| c == '\0' || std::path::is_separator(c), "_"),
+        }
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
         visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
-            PlaylistNode::Folder(folder) => folder
-                .children
-                .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
+            PlaylistNode::Folder(folder) => folder.children.into_iter().try_for_each(|child| {
+                walk_tree(child, &path.join(path_component(&folder.name)), visit)
+            }),
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
@@ -256,7 +264,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
+            let playlist_path = path.join(format!("{}.m3u", path_component(&playlist.name)));
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From 09181cb831215847d72b479b8ee406f127bc0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 45/46] fix: do not overwrite exported playlists with others of
 the same name

---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 84d7e7c..d0c1b43 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -214,7 +214,8 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::device::{Playlist, PlaylistNode};
     use rekordcrate::DeviceExportLoader;
-    use std::collections::HashMap;
+    use std::cell::RefCell;
+    use std::collections::{HashMap, HashSet};
     use std::io::Write;
 
     let loader = DeviceExportLoader::new(path.into());
@@ -261,10 +262,17 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         }
     }
 
+    let written_paths = RefCell::new(HashSet::<PathBuf>::new());
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", path_component(&playlist.name)));
+            let name = path_component(&playlist.name);
+            let mut playlist_path = path.join(format!("{name}.m3u"));
+            let mut number = 2;
+            while !written_paths.borrow_mut().insert(playlist_path.clone()) {
+                playlist_path = path.join(format!("{name} ({number}).m3u"));
+                number += 1;
+            }
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From ccdbb0afafb98280e8babbd23543a96b25b99d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 46/46] fix: list exported tracks below the export path if
 their path starts with slashes

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d0c1b43..cde308f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -283,7 +283,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
                         "{}",
                         export_path
                             .canonicalize()?
-                            .join(track.strip_prefix('/').unwrap_or(track))
+                            .join(track.trim_start_matches('/'))
                             .display(),
                     )?;
                 }
-- 
2.43.0

