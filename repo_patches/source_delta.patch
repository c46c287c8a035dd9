From b2dbf9a293f3255895c152e9f254314199375be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 01/21] fix: StringRef::to_string compares relative terminator
 position

terminator_pos is relative to the start of the string, so the check for a
string consisting of a single reference must not add the string's address.
A string at address p that starts with a reference and has its first 0xFF
byte at relative offset p + 9 lost everything after the reference.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From 7ef37626c3723b960f47b29b2bce5a4cc2a31ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 02/21] fix: reject damaged pages and partial records with an
 error instead of a panic

---
 decodeme/src/lib.rs            |  8 +++++++-
 decodeme/src/stringtable.rs    |  7 +++----
 measureme/src/lib.rs           |  2 +-
 measureme/src/serialization.rs | 32 +++++++++++++++++++++++---------
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/decodeme/src/lib.rs b/decodeme/src/lib.rs
index 908b840..090fb13 100644
--- a/decodeme/src/lib.rs
+++ b/decodeme/src/lib.rs
@@ -111,7 +111,7 @@ impl EventDecoder {
             "top-level",
         )?;
 
-        let mut split_data = measureme::split_streams(&entire_file_data[FILE_HEADER_SIZE..]);
+        let mut split_data = measureme::try_split_streams(&entire_file_data[FILE_HEADER_SIZE..])?;
 
         let string_data = split_data
             .remove(&PageTag::StringData)
@@ -139,6 +139,12 @@ impl EventDecoder {
             "event",
         )?;
 
+        if (event_data.len() - FILE_HEADER_SIZE) % RAW_EVENT_SIZE != 0 {
+            return Err(From::from(
+                "Invalid file: Event data ends in a partial event",
+            ));
+        }
+
         let stringtable = StringTable::new(string_data, index_data, diagnostic_file_path)?;
 
         let metadata = stringtable.get_metadata().to_string();
diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index 9476994..9e63eb4 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -188,10 +188,9 @@ impl StringTable {
         )?;
 
         // The non-header data should be divisible into index entries.
-        assert!(
-            (index_data.len() - measureme::file_header::FILE_HEADER_SIZE) % INDEX_ENTRY_SIZE == 0,
-            "StringTable index size appears malformed",
-        );
+        if strip_file_header(&index_data).len() % INDEX_ENTRY_SIZE != 0 {
+            return Err(From::from("StringTable index size appears malformed"));
+        }
         assert_eq!(INDEX_ENTRY_SIZE, 16);
 
         let index: FxHashMap<_, _> = strip_file_header(&index_data)
diff --git a/measureme/src/lib.rs b/measureme/src/lib.rs
index f0566c4..6136990 100644
--- a/measureme/src/lib.rs
+++ b/measureme/src/lib.rs
@@ -50,6 +50,6 @@ pub use crate::event_id::{EventId, EventIdBuilder};
 pub use crate::profiler::{DetachedTiming, Profiler, TimingGuard};
 pub use crate::raw_event::{RawEvent, MAX_INTERVAL_VALUE, MAX_SINGLE_VALUE};
 pub use crate::serialization::{
-    split_streams, Addr, PageTag, SerializationSink, SerializationSinkBuilder,
+    split_streams, try_split_streams, Addr, PageTag, SerializationSink, SerializationSinkBuilder,
 };
 pub use crate::stringtable::{SerializableString, StringComponent, StringId, StringTableBuilder};
diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 487504e..ddad629 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -213,25 +213,39 @@ impl SharedState {
 /// }
 /// ```
 pub fn split_streams(paged_data: &[u8]) -> FxHashMap<PageTag, Vec<u8>> {
+    try_split_streams(paged_data).unwrap()
+}
+
+/// Does the same as [split_streams] but returns an error instead of panicking
+/// if `paged_data` is not a well-formed sequence of pages.
+pub fn try_split_streams(
+    paged_data: &[u8],
+) -> Result<FxHashMap<PageTag, Vec<u8>>, Box<dyn Error + Send + Sync>> {
     let mut result: FxHashMap<PageTag, Vec<u8>> = FxHashMap::default();
 
     let mut pos = 0;
     while pos < paged_data.len() {
-        let tag = TryInto::try_into(paged_data[pos]).unwrap();
-        let page_size =
-            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;
+        let tag: PageTag = TryInto::try_into(paged_data[pos])?;
+
+        let page_size = paged_data
+            .get(pos + 1..pos + 5)
+            .ok_or_else(|| format!("Invalid page header at byte {}.", pos))?;
+        let page_size = u32::from_le_bytes(page_size.try_into().unwrap()) as usize;
+
+        if page_size == 0 {
+            return Err(From::from(format!("Empty page at byte {}.", pos)));
+        }
 
-        assert!(page_size > 0);
+        let page = paged_data
+            .get(pos + 5..pos + 5 + page_size)
+            .ok_or_else(|| format!("Page at byte {} exceeds the available data.", pos))?;
 
-        result
-            .entry(tag)
-            .or_default()
-            .extend_from_slice(&paged_data[pos + 5..pos + 5 + page_size]);
+        result.entry(tag).or_default().extend_from_slice(page);
 
         pos += page_size + 5;
     }
 
-    result
+    Ok(result)
 }
 
 impl SerializationSink {
-- 
2.43.0


From 74e4a76333cce88525360c69b6e7c4f2849d473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 03/21] fix: expand incomplete string data to a placeholder
 instead of panicking

---
 decodeme/src/stringtable.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index 9e63eb4..55f2a56 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -56,12 +56,21 @@ impl<'st> StringRef<'st> {
         //  - a string with a single reference component (`[string_id, 0xFF]`)
 
         let pos = addr.as_usize();
-        let slice_to_search = &self.table.string_data[pos..];
+        let slice_to_search = self.table.string_data.get(pos..).unwrap_or(&[]);
 
         // Find the first 0xFF byte which which is either the sequence
         // terminator or a byte in the middle of string id. Use `memchr` which
         // is super fast.
-        let terminator_pos = memchr(TERMINATOR, slice_to_search).unwrap();
+        let terminator_pos = match memchr(TERMINATOR, slice_to_search) {
+            Some(terminator_pos) => terminator_pos,
+            None => {
+                // The string data is incomplete, e.g. because the recording
+                // program crashed. Expand what there is.
+                let mut output = String::new();
+                self.write_to_string(&mut output);
+                return Cow::from(output);
+            }
+        };
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
@@ -102,13 +111,24 @@ impl<'st> StringRef<'st> {
         let mut pos = addr.as_usize();
 
         loop {
-            let byte = self.table.string_data[pos];
+            let remaining_data = self.table.string_data.get(pos..).unwrap_or(&[]);
+
+            // The string data can end early if the recording program crashed.
+            let Some(&byte) = remaining_data.first() else {
+                output.push_str(INVALID_STRING);
+                return;
+            };
 
             if byte == TERMINATOR {
                 return;
             } else if byte == STRING_REF_TAG {
+                if remaining_data.len() < STRING_REF_ENCODED_SIZE {
+                    output.push_str(INVALID_STRING);
+                    return;
+                }
+
                 let string_ref = StringRef {
-                    id: decode_string_ref_from_data(&self.table.string_data[pos..]),
+                    id: decode_string_ref_from_data(remaining_data),
                     table: self.table,
                 };
 
@@ -118,7 +138,6 @@ impl<'st> StringRef<'st> {
             } else {
                 // This is a literal UTF-8 string value. Find its end by looking
                 // for either of the two possible terminator bytes.
-                let remaining_data = &self.table.string_data[pos..];
                 if let Some(len) = memchr2(0xFF, 0xFE, remaining_data) {
                     let value = String::from_utf8_lossy(&remaining_data[..len]);
                     output.push_str(&value);
-- 
2.43.0


From 9aa483cae298d2d6a8c951c178a1402b39c626d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 04/21] fix: reject damaged version 8 files with an error
 instead of a panic

---
 analyzeme/src/file_formats/v8.rs | 55 ++++++++++++++++++++++++++++++++
 analyzeme/src/profiling_data.rs  |  2 +-
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/analyzeme/src/file_formats/v8.rs b/analyzeme/src/file_formats/v8.rs
index 0955e4d..d3bb994 100644
--- a/analyzeme/src/file_formats/v8.rs
+++ b/analyzeme/src/file_formats/v8.rs
@@ -16,9 +16,64 @@ use decodeme_10::event_payload::Timestamp as OldTimestamp;
 use decodeme_10::lightweight_event::LightweightEvent as OldLightweightEvent;
 pub use decodeme_10::EventDecoder;
 use decodeme_10::Metadata as OldMetadata;
+use measureme::{try_split_streams, PageTag};
+use measureme_10::file_header::FILE_HEADER_SIZE;
+use measureme_10::stringtable::{METADATA_STRING_ID, TERMINATOR};
+use measureme_10::RawEvent;
+use memchr::memchr;
+use std::convert::TryInto;
+use std::error::Error;
+use std::path::Path;
 
 pub const FILE_FORMAT: u32 = measureme_10::file_header::CURRENT_FILE_FORMAT_VERSION;
 
+/// Constructs an [EventDecoder] for the given file contents. The old version of
+/// `decodeme` panics for damaged files, so we have to look for damages before
+/// handing the data over.
+pub fn new_event_decoder(
+    entire_file_data: Vec<u8>,
+    diagnostic_file_path: Option<&Path>,
+) -> Result<EventDecoder, Box<dyn Error + Send + Sync>> {
+    let mut split_data =
+        try_split_streams(entire_file_data.get(FILE_HEADER_SIZE..).unwrap_or(&[]))?;
+
+    let string_data = split_data
+        .remove(&PageTag::StringData)
+        .ok_or("Invalid file: No string data found")?;
+    let index_data = split_data
+        .remove(&PageTag::StringIndex)
+        .ok_or("Invalid file: No string index data found")?;
+    let event_data = split_data
+        .remove(&PageTag::Events)
+        .ok_or("Invalid file: No event data found")?;
+
+    let event_data_without_header = event_data.get(FILE_HEADER_SIZE..).unwrap_or(&[]);
+    if event_data_without_header.len() % std::mem::size_of::<RawEvent>() != 0 {
+        return Err(From::from(
+            "Invalid file: Event data ends in a partial event",
+        ));
+    }
+
+    // An index entry consists of a 4 byte string ID and a 4 byte address.
+    let index_entries = index_data.get(FILE_HEADER_SIZE..).unwrap_or(&[]);
+    if index_entries.len() % 8 != 0 {
+        return Err(From::from("StringTable index size appears malformed"));
+    }
+
+    let metadata_addr = index_entries
+        .chunks(8)
+        .rev()
+        .find(|entry| entry[..4] == METADATA_STRING_ID.to_le_bytes())
+        .map(|entry| u32::from_le_bytes(entry[4..].try_into().unwrap()) as usize)
+        .ok_or("Invalid file: No metadata found")?;
+    let metadata = string_data.get(metadata_addr..).unwrap_or(&[]);
+    if memchr(TERMINATOR, metadata).is_none() {
+        return Err(From::from("Invalid file: Incomplete metadata"));
+    }
+
+    EventDecoder::from_separate_buffers(string_data, index_data, event_data, diagnostic_file_path)
+}
+
 // NOTE: These are functionally a hand-rolled "impl From<Old> -> New", but
 // given orphan rules, it seems undesirable to spread version-specific
 // converters around the codebase.
diff --git a/analyzeme/src/profiling_data.rs b/analyzeme/src/profiling_data.rs
index 08d1a89..5161c96 100644
--- a/analyzeme/src/profiling_data.rs
+++ b/analyzeme/src/profiling_data.rs
@@ -60,7 +60,7 @@ impl ProfilingData {
         )?;
 
         let event_decoder: Box<dyn file_formats::EventDecoder> = match file_format_version {
-            file_formats::v8::FILE_FORMAT => Box::new(file_formats::v8::EventDecoder::new(
+            file_formats::v8::FILE_FORMAT => Box::new(file_formats::v8::new_event_decoder(
                 data,
                 diagnostic_file_path,
             )?),
-- 
2.43.0


From 86aeda90ce08057af983693f1be192a9b4f62c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 05/21] fix: report unsupported old file versions as too old

---
 analyzeme/src/profiling_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzeme/src/profiling_data.rs b/analyzeme/src/profiling_data.rs
index 5161c96..2c1b53d 100644
--- a/analyzeme/src/profiling_data.rs
+++ b/analyzeme/src/profiling_data.rs
@@ -76,7 +76,7 @@ impl ProfilingData {
                     )
                 } else {
                     format!(
-                        "File version {} is too new for this version of the measureme tool suite. Try upgrading the tool suite to the latest version.",
+                        "File version {} is too old for this version of the measureme tool suite. Try an older version of the tool suite.",
                         unsupported_version
                     )
                 };
-- 
2.43.0


From b57d107920b51ef77234f3e38fc55a68dc65694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 06/21] fix: summarize shows the result hashing column whenever
 there is such data

---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..e97273d 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From 8e1d159b4b242620e2d6371937e34af3e87ab75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 07/21] fix: summarize diff recognizes JSON summaries by their
 extension

---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index e97273d..09a5955 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |e| e == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From e533bb19b87bf9716092f123b12cca23707a9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 08/21] fix: mmview prints profiles that contain only integer
 events

---
 mmview/src/main.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..5972ada 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,17 +18,26 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
-        for event in data.iter() {
-            if let Some(thread_id) = opt.thread_id {
-                if event.thread_id != thread_id {
-                    continue;
-                }
+    if data.num_events() == 0 {
+        eprintln!("No events.");
+        return Ok(());
+    }
+
+    // A profile that contains only integer events has no start time. It is not
+    // needed for printing those.
+    let global_start_time = data
+        .iter()
+        .filter_map(|e| e.start())
+        .min()
+        .unwrap_or(SystemTime::UNIX_EPOCH);
+
+    for event in data.iter() {
+        if let Some(thread_id) = opt.thread_id {
+            if event.thread_id != thread_id {
+                continue;
             }
-            print_event(&data.to_full_event(&event), global_start_time);
         }
-    } else {
-        eprintln!("No events.");
+        print_event(&data.to_full_event(&event), global_start_time);
     }
 
     Ok(())
-- 
2.43.0


From 38072b37732976d4aa59452f0a329eb621fa6a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 09/21] fix: mmedit supports profiles of the current format
 version

---
 mmedit/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index 5cdb784..e33b61b 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -1,6 +1,8 @@
 use std::{convert::TryInto, error::Error, path::PathBuf};
 
-use decodeme::{read_file_header, PageTag, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL};
+use decodeme::{
+    read_file_header, PageTag, CURRENT_FILE_FORMAT_VERSION, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL,
+};
 
 use clap::Parser;
 
@@ -19,7 +21,7 @@ enum Opt {
 fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync>> {
     let file_version = read_file_header(&file_contents, FILE_MAGIC_TOP_LEVEL, None, "top-level")?;
 
-    if file_version < 7 || file_version > 8 {
+    if file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION {
         return Err(format!("File version {} is not support", file_version).into());
     }
 
-- 
2.43.0


From dbeb9c54059ca3e6d576138c10f38c8ca51cb406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 10/21] fix: flamegraph draws each call path as one frame

---
 flamegraph/src/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flamegraph/src/main.rs b/flamegraph/src/main.rs
index 7e9a236..1f41cdf 100644
--- a/flamegraph/src/main.rs
+++ b/flamegraph/src/main.rs
@@ -17,13 +17,24 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let profiling_data = ProfilingData::new(&opt.file_prefix)?;
 
-    let recorded_stacks = collapse_stacks(&profiling_data)
+    let mut recorded_stacks = collapse_stacks(&profiling_data)
+        .into_iter()
+        .collect::<Vec<_>>();
+
+    // Stacks must be ordered frame by frame. If they were ordered as plain text,
+    // as inferno does it by default, then the stacks `a;b` and `a` could be
+    // separated by `a2` and frame `a` would be drawn twice.
+    recorded_stacks.sort_by(|(l, _), (r, _)| r.split(';').cmp(l.split(';')));
+
+    let recorded_stacks = recorded_stacks
         .iter()
         .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
         .collect::<Vec<_>>();
 
     let file = BufWriter::new(File::create("rustc.svg")?);
     let mut flamegraph_options = FlamegraphOptions::default();
+    // Draw the stacks in the given order, which is reversed in this mode.
+    flamegraph_options.flame_chart = true;
 
     from_lines(
         &mut flamegraph_options,
-- 
2.43.0


From dc9185382c9df4b7daea680d50cbd8baf31ecf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 11/21] fix: tools report errors of writing the end of their
 output

---
 crox/src/main.rs           | 5 ++++-
 stack_collapse/src/main.rs | 3 +++
 summarize/src/main.rs      | 8 +++++---
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crox/src/main.rs b/crox/src/main.rs
index f4063a1..6b9b179 100644
--- a/crox/src/main.rs
+++ b/crox/src/main.rs
@@ -1,6 +1,6 @@
 use rustc_hash::FxHashMap;
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -213,6 +213,9 @@ fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
 
     seq.end()?;
 
+    // Dropping the writer would ignore errors.
+    serializer.into_inner().flush()?;
+
     Ok(())
 }
 
diff --git a/stack_collapse/src/main.rs b/stack_collapse/src/main.rs
index e243c92..145340a 100644
--- a/stack_collapse/src/main.rs
+++ b/stack_collapse/src/main.rs
@@ -25,5 +25,8 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         writeln!(file, "{} {}", unique_stack, count)?;
     }
 
+    // Dropping the writer would ignore errors.
+    file.flush()?;
+
     Ok(())
 }
diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 09a5955..b124adf 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -5,7 +5,7 @@ use analyzeme::AnalysisResults;
 use analyzeme::ProfilingData;
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::{path::PathBuf, time::Duration};
 
 use clap::Parser;
@@ -76,8 +76,10 @@ fn write_results_json(
     file: &PathBuf,
     results: impl Serialize,
 ) -> Result<(), Box<dyn Error + Send + Sync>> {
-    let file = BufWriter::new(File::create(file.with_extension("json"))?);
-    serde_json::to_writer(file, &results)?;
+    let mut file = BufWriter::new(File::create(file.with_extension("json"))?);
+    serde_json::to_writer(&mut file, &results)?;
+    // Dropping the writer would ignore errors.
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 7f9c5f61cf127ca7414e6e675e47b2a11fe4cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 12/21] fix: summarize fails if its tables cannot be printed

---
 summarize/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index b124adf..11b6b43 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -142,7 +142,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -162,7 +162,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
@@ -290,7 +290,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ])));
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -312,7 +312,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
-- 
2.43.0


From 2c26108cd5a2d44514d978a8f7e596c362ff56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 13/21] fix: escape the command line in the metadata as JSON

---
 measureme/src/profiler.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..c111f85 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -9,6 +9,21 @@ use std::fs;
 use std::path::Path;
 use std::sync::Arc;
 
+/// Appends `text` to `json`, escaped as the contents of a JSON string.
+fn push_json_escaped(json: &mut String, text: &str) {
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                json.push('\\');
+                json.push(c);
+            }
+            // JSON does not allow unescaped control characters.
+            '\0'..='\u{1f}' => json.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => json.push(c),
+        }
+    }
+}
+
 pub struct Profiler {
     event_sink: Arc<SerializationSink>,
     string_table: StringTableBuilder,
@@ -54,7 +69,7 @@ impl Profiler {
 
         let mut args = String::new();
         for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+            push_json_escaped(&mut args, &arg);
             args.push(' ');
         }
 
-- 
2.43.0


From a00a26fd20347e4dec5be320e0e8201e8affb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 14/21] fix: profiles can be created with non-Unicode arguments

---
 measureme/src/profiler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index c111f85..799b0fa 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -68,8 +68,8 @@ impl Profiler {
         };
 
         let mut args = String::new();
-        for arg in std::env::args() {
-            push_json_escaped(&mut args, &arg);
+        for arg in std::env::args_os() {
+            push_json_escaped(&mut args, &arg.to_string_lossy());
             args.push(' ');
         }
 
-- 
2.43.0


From 4876f2b9c3757034458905e0cd441cc7a370303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 15/21] fix: a panicking write does not shift later addresses

---
 measureme/src/serialization.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index ddad629..b7dfeba 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -338,9 +338,10 @@ impl SerializationSink {
         let buf_start = buffer.len();
         let buf_end = buf_start + num_bytes;
         buffer.resize(buf_end, 0u8);
-        write(&mut buffer[buf_start..buf_end]);
-
+        // Update the address before calling `write`: if `write` panics, the
+        // space in the buffer stays allocated.
         *addr += num_bytes as u64;
+        write(&mut buffer[buf_start..buf_end]);
 
         Addr(curr_addr)
     }
-- 
2.43.0


From 1ff09347833a68d6c893b8bcf7cfa6f6b74abde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 16/21] fix: report the actual reason why perf_event_open
 failed

---
 measureme/src/counters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 18d5e63..2470a2c 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -373,7 +373,7 @@ mod hw {
                 let fd =
                     perf_event_open(&mut attrs, pid, cpu, group_fd, PERF_FLAG_FD_CLOEXEC.into());
                 if fd < 0 {
-                    Err(std::io::Error::from_raw_os_error(-fd))
+                    Err(std::io::Error::last_os_error())
                 } else {
                     Ok(fs::File::from_raw_fd(fd))
                 }
-- 
2.43.0


From 07ae14675bdb89ae598a6461a4a254944897abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 17/21] fix: read the perf mmap page with volatile reads

---
 measureme/src/counters.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 2470a2c..62b966f 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -313,6 +313,7 @@ mod hw {
     use std::fs;
     use std::mem;
     use std::os::unix::io::FromRawFd;
+    use std::ptr;
 
     pub(super) struct Counter {
         mmap: Mmap,
@@ -390,13 +391,13 @@ mod hw {
             let mut counter = Counter { mmap, reg_idx: 0 };
 
             let (version, compat_version, caps, index, pmc_width) = counter
-                .access_mmap_page_with_seqlock(|mp| {
+                .access_mmap_page_with_seqlock(|mp| unsafe {
                     (
-                        mp.version,
-                        mp.compat_version,
-                        unsafe { mp.__bindgen_anon_1.__bindgen_anon_1 },
-                        mp.index,
-                        mp.pmc_width,
+                        ptr::read_volatile(&mp.version),
+                        ptr::read_volatile(&mp.compat_version),
+                        ptr::read_volatile(&mp.__bindgen_anon_1.__bindgen_anon_1),
+                        ptr::read_volatile(&mp.index),
+                        ptr::read_volatile(&mp.pmc_width),
                     )
                 });
 
@@ -439,6 +440,9 @@ mod hw {
         /// Try to access the mmap page, retrying the `attempt` closure as long
         /// as the "seqlock" sequence number changes (which indicates the kernel
         /// has updated one or more fields within the mmap page).
+        ///
+        /// `attempt` must use volatile reads, or the compiler may move them past
+        /// the check of the sequence number.
         #[inline]
         fn access_mmap_page_with_seqlock<T>(
             &self,
@@ -454,14 +458,14 @@ mod hw {
             loop {
                 // Grab the "seqlock" - the kernel will update this value when it
                 // updates any of the other fields that may be read in `attempt`.
-                let seq_lock = mmap_page.lock;
+                let seq_lock = unsafe { ptr::read_volatile(&mmap_page.lock) };
                 barrier();
 
                 let result = attempt(mmap_page);
 
                 // If nothing has changed, we're done. Otherwise, keep retrying.
                 barrier();
-                if mmap_page.lock == seq_lock {
+                if unsafe { ptr::read_volatile(&mmap_page.lock) } == seq_lock {
                     return result;
                 }
             }
@@ -477,14 +481,17 @@ mod hw {
             // to minimize overhead without losing the more complex implementation.
             let (counter, offset, pmc_width) = if cfg!(accurate_seqlock_rdpmc) && false {
                 self.access_mmap_page_with_seqlock(|mp| {
-                    let caps = unsafe { mp.__bindgen_anon_1.__bindgen_anon_1 };
+                    let (caps, index, offset, pmc_width) = unsafe {
+                        (
+                            ptr::read_volatile(&mp.__bindgen_anon_1.__bindgen_anon_1),
+                            ptr::read_volatile(&mp.index),
+                            ptr::read_volatile(&mp.offset),
+                            ptr::read_volatile(&mp.pmc_width),
+                        )
+                    };
                     assert_ne!(caps.cap_user_rdpmc(), 0);
 
-                    (
-                        rdpmc(mp.index.checked_sub(1).unwrap()),
-                        mp.offset,
-                        mp.pmc_width,
-                    )
+                    (rdpmc(index.checked_sub(1).unwrap()), offset, pmc_width)
                 })
             } else {
                 (rdpmc(self.reg_idx), 0, 48)
-- 
2.43.0


From 3358bda7b9627df6a230d9fdbf085a3885434f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 18/21] fix: creating a profiler for an empty path is an error

---
 measureme/src/profiler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 799b0fa..5d5717d 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -44,7 +44,9 @@ impl Profiler {
     ) -> Result<Profiler, Box<dyn Error + Send + Sync>> {
         let path = path_stem.as_ref().with_extension(FILE_EXTENSION);
 
-        fs::create_dir_all(path.parent().unwrap())?;
+        if let Some(parent) = path.parent() {
+            fs::create_dir_all(parent)?;
+        }
         let mut file = fs::File::create(path)?;
 
         // The first thing in the file must be the top-level file header.
-- 
2.43.0


From 56faf85a441237671f67dbd60a4e6500cdc72851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 19/21] fix: mmedit reports damaged pages as errors instead of
 panicking

---
 mmedit/src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index e33b61b..e6058ed 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -33,14 +33,20 @@ fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync
     while pos < paged_data.len() {
         let page_start = pos;
 
-        let tag = TryInto::try_into(paged_data[pos]).unwrap();
-        let page_size =
-            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;
-
-        assert!(page_size > 0);
+        let tag = TryInto::try_into(paged_data[pos])?;
+        let page_size = paged_data
+            .get(pos + 1..pos + 5)
+            .ok_or_else(|| format!("Invalid page header at byte {}.", pos))?;
+        let page_size = u32::from_le_bytes(page_size.try_into().unwrap()) as usize;
+
+        if page_size == 0 {
+            return Err(format!("Empty page at byte {}.", pos).into());
+        }
 
         let page_end = page_start + 5 + page_size;
-        let page_bytes = &paged_data[page_start..page_end];
+        let page_bytes = paged_data
+            .get(page_start..page_end)
+            .ok_or_else(|| format!("Page at byte {} exceeds the available data.", pos))?;
 
         match tag {
             PageTag::Events => {
-- 
2.43.0


From 3139b0c07e288c5f614e1ceed5be1c3ec2b67367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 20/21] fix: do not overflow the stack on deeply nested strings

---
 decodeme/src/stringtable.rs | 125 ++++++++++++++++++++++++------------
 1 file changed, 84 insertions(+), 41 deletions(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index 55f2a56..c6db93b 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -45,7 +45,7 @@ impl<'st> StringRef<'st> {
     /// avoid allocating a `String` if it can instead return a `&str` pointing
     /// into the raw string table data.
     pub fn to_string(&self) -> Cow<'st, str> {
-        let addr = match self.get_addr() {
+        let addr = match self.follow_single_refs().get_addr() {
             Ok(addr) => addr,
             Err(_) => return Cow::from(UNKNOWN_STRING),
         };
@@ -72,17 +72,6 @@ impl<'st> StringRef<'st> {
             }
         };
 
-        // Check if this is a string containing a single StringId component
-        let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
-            let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
-            return StringRef {
-                id,
-                table: self.table,
-            }
-            .to_string();
-        }
-
         // Decode the bytes until the terminator. If there is a string id in
         // between somewhere this will fail, and we fall back to the allocating
         // path.
@@ -110,46 +99,93 @@ impl<'st> StringRef<'st> {
 
         let mut pos = addr.as_usize();
 
+        // Where to continue in the strings around the current one. This is not
+        // left to the call stack because strings can be nested deeply.
+        let mut enclosing = Vec::new();
+
         loop {
             let remaining_data = self.table.string_data.get(pos..).unwrap_or(&[]);
 
-            // The string data can end early if the recording program crashed.
-            let Some(&byte) = remaining_data.first() else {
-                output.push_str(INVALID_STRING);
-                return;
-            };
-
-            if byte == TERMINATOR {
-                return;
-            } else if byte == STRING_REF_TAG {
-                if remaining_data.len() < STRING_REF_ENCODED_SIZE {
+            let component_len = match remaining_data.first() {
+                Some(&TERMINATOR) => None,
+                Some(&STRING_REF_TAG) if remaining_data.len() >= STRING_REF_ENCODED_SIZE => {
+                    let string_ref = StringRef {
+                        id: decode_string_ref_from_data(remaining_data),
+                        table: self.table,
+                    };
+
+                    match string_ref.get_addr() {
+                        Ok(_) if enclosing.len() == self.table.max_nesting_depth() => {
+                            // This string contains itself.
+                            output.push_str(INVALID_STRING);
+                            return;
+                        }
+                        Ok(addr) => {
+                            enclosing.push(pos + STRING_REF_ENCODED_SIZE);
+                            pos = addr.as_usize();
+                            continue;
+                        }
+                        Err(_) => {
+                            output.push_str(UNKNOWN_STRING);
+                            Some(STRING_REF_ENCODED_SIZE)
+                        }
+                    }
+                }
+                // This is a literal UTF-8 string value. Find its end by looking
+                // for either of the two possible terminator bytes.
+                Some(&byte) if byte != STRING_REF_TAG => {
+                    let len = memchr2(0xFF, 0xFE, remaining_data);
+                    match len {
+                        Some(len) => {
+                            let value = String::from_utf8_lossy(&remaining_data[..len]);
+                            output.push_str(&value);
+                        }
+                        // The grammar does not allow unterminated raw strings.
+                        // We have to stop decoding.
+                        None => output.push_str(INVALID_STRING),
+                    }
+                    len
+                }
+                // The string data can end early if the recording program crashed.
+                _ => {
                     output.push_str(INVALID_STRING);
-                    return;
+                    None
                 }
+            };
 
-                let string_ref = StringRef {
-                    id: decode_string_ref_from_data(remaining_data),
-                    table: self.table,
-                };
+            match component_len {
+                Some(len) => pos += len,
+                None => match enclosing.pop() {
+                    Some(enclosing_pos) => pos = enclosing_pos,
+                    None => return,
+                },
+            }
+        }
+    }
 
-                string_ref.write_to_string(output);
+    /// Strings that consist of nothing but a reference to another string are
+    /// the same as that other string.
+    fn follow_single_refs(&self) -> Self {
+        let mut string_ref = *self;
 
-                pos += STRING_REF_ENCODED_SIZE;
-            } else {
-                // This is a literal UTF-8 string value. Find its end by looking
-                // for either of the two possible terminator bytes.
-                if let Some(len) = memchr2(0xFF, 0xFE, remaining_data) {
-                    let value = String::from_utf8_lossy(&remaining_data[..len]);
-                    output.push_str(&value);
-                    pos += len;
-                } else {
-                    // The grammar does not allow unterminated raw strings. We
-                    // have to stop decoding.
-                    output.push_str(INVALID_STRING);
-                    return;
+        for _ in 0..self.table.max_nesting_depth() {
+            let data = match string_ref.get_addr() {
+                Ok(addr) => self.table.string_data.get(addr.as_usize()..),
+                Err(_) => None,
+            };
+
+            match data.and_then(|data| data.get(..=STRING_REF_ENCODED_SIZE)) {
+                Some(data)
+                    if data[0] == STRING_REF_TAG
+                        && memchr(TERMINATOR, data) == Some(STRING_REF_ENCODED_SIZE) =>
+                {
+                    string_ref.id = decode_string_ref_from_data(data);
                 }
+                _ => break,
             }
         }
+
+        string_ref
     }
 
     fn get_addr(&self) -> Result<Addr, ()> {
@@ -220,6 +256,13 @@ impl StringTable {
         Ok(StringTable { string_data, index })
     }
 
+    /// The number of references that can be followed before coming to a string
+    /// for the second time. A string with a reference takes up at least the
+    /// bytes for the reference and its terminator.
+    fn max_nesting_depth(&self) -> usize {
+        self.string_data.len() / (STRING_REF_ENCODED_SIZE + 1)
+    }
+
     #[inline]
     pub fn get<'a>(&'a self, id: StringId) -> StringRef<'a> {
         StringRef { id, table: self }
-- 
2.43.0


From aedbe7591afd55ab7b4daae44068734364f2e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:27 +0000
Subject: [PATCH 21/21] fix: reject version 8 files with broken references in
 their metadata

---
 analyzeme/src/file_formats/v8.rs | 82 ++++++++++++++++++++++++++++----
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/analyzeme/src/file_formats/v8.rs b/analyzeme/src/file_formats/v8.rs
index d3bb994..51013bc 100644
--- a/analyzeme/src/file_formats/v8.rs
+++ b/analyzeme/src/file_formats/v8.rs
@@ -18,9 +18,12 @@ pub use decodeme_10::EventDecoder;
 use decodeme_10::Metadata as OldMetadata;
 use measureme::{try_split_streams, PageTag};
 use measureme_10::file_header::FILE_HEADER_SIZE;
-use measureme_10::stringtable::{METADATA_STRING_ID, TERMINATOR};
-use measureme_10::RawEvent;
-use memchr::memchr;
+use measureme_10::stringtable::{
+    FIRST_REGULAR_STRING_ID, METADATA_STRING_ID, STRING_REF_ENCODED_SIZE, STRING_REF_TAG,
+    TERMINATOR,
+};
+use measureme_10::{RawEvent, StringId};
+use memchr::memchr2;
 use std::convert::TryInto;
 use std::error::Error;
 use std::path::Path;
@@ -60,20 +63,79 @@ pub fn new_event_decoder(
         return Err(From::from("StringTable index size appears malformed"));
     }
 
-    let metadata_addr = index_entries
-        .chunks(8)
-        .rev()
-        .find(|entry| entry[..4] == METADATA_STRING_ID.to_le_bytes())
-        .map(|entry| u32::from_le_bytes(entry[4..].try_into().unwrap()) as usize)
+    let metadata_addr = find_index_entry(index_entries, METADATA_STRING_ID)
         .ok_or("Invalid file: No metadata found")?;
-    let metadata = string_data.get(metadata_addr..).unwrap_or(&[]);
-    if memchr(TERMINATOR, metadata).is_none() {
+    if !is_complete_string(&string_data, index_entries, metadata_addr, &mut Vec::new()) {
         return Err(From::from("Invalid file: Incomplete metadata"));
     }
 
     EventDecoder::from_separate_buffers(string_data, index_data, event_data, diagnostic_file_path)
 }
 
+/// Finds the address that a virtual string has been mapped to.
+fn find_index_entry(index_entries: &[u8], id: u32) -> Option<usize> {
+    index_entries
+        .chunks(8)
+        .rev()
+        .find(|entry| entry[..4] == id.to_le_bytes())
+        .map(|entry| u32::from_le_bytes(entry[4..].try_into().unwrap()) as usize)
+}
+
+/// Checks if the string at the given address, including everything it refers
+/// to, is there up to its end and does not contain itself.
+fn is_complete_string(
+    string_data: &[u8],
+    index_entries: &[u8],
+    addr: usize,
+    enclosing: &mut Vec<usize>,
+) -> bool {
+    const MAX_NESTING_DEPTH: usize = 100;
+
+    if enclosing.contains(&addr) || enclosing.len() == MAX_NESTING_DEPTH {
+        return false;
+    }
+
+    let mut pos = addr;
+
+    loop {
+        let remaining_data = string_data.get(pos..).unwrap_or(&[]);
+
+        match remaining_data.first() {
+            None => return false,
+            Some(&TERMINATOR) => return true,
+            Some(&STRING_REF_TAG) => {
+                let id = match remaining_data.get(1..STRING_REF_ENCODED_SIZE) {
+                    Some(bytes) => u32::from_le_bytes(bytes.try_into().unwrap()),
+                    None => return false,
+                };
+
+                let target = if StringId::new(id).is_virtual() {
+                    find_index_entry(index_entries, id)
+                } else {
+                    // This excludes `StringId::INVALID`.
+                    id.checked_sub(FIRST_REGULAR_STRING_ID)
+                        .map(|addr| addr as usize)
+                };
+
+                // What cannot be found is shown as an unknown string.
+                if let Some(target) = target {
+                    enclosing.push(addr);
+                    if !is_complete_string(string_data, index_entries, target, enclosing) {
+                        return false;
+                    }
+                    enclosing.pop();
+                }
+
+                pos += STRING_REF_ENCODED_SIZE;
+            }
+            Some(_) => match memchr2(TERMINATOR, STRING_REF_TAG, remaining_data) {
+                Some(len) => pos += len,
+                None => return false,
+            },
+        }
+    }
+}
+
 // NOTE: These are functionally a hand-rolled "impl From<Old> -> New", but
 // given orphan rules, it seems undesirable to spread version-specific
 // converters around the codebase.
-- 
2.43.0

