From 9ecda37227680550e751db82ac9844a42b088357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 01/19] fix: report the right line number for records with
 invalid UTF-8

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..6fa2274 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -258,7 +258,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From e8b3c4ce05b54303df26b0a435bb62bdc9838563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 02/19] fix: read all members of gzip-compressed input files

---
 crates/pica-cli/src/commands/invalid.rs | 4 ++--
 src/reader.rs                           | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 6fa2274..5931e04 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -105,7 +105,9 @@ impl ReaderBuilder {
             .extension()
             .and_then(OsStr::to_str)
         {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+            Some("gz") => {
+                Box::new(MultiGzDecoder::new(File::open(path)?))
+            }
             _ => {
                 if path.to_str() != Some("-") {
                     Box::new(File::open(path)?)
-- 
2.43.0


From 75bfd9afa30c0e596245cd2445caaf9653d4f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 03/19] fix: discard the raw data of a byte record on mutable
 access

---
 src/record.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record.rs b/src/record.rs
index b9776d9..72c8ddc 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -222,6 +222,9 @@ impl<'a> Deref for ByteRecord<'a> {
 impl DerefMut for ByteRecord<'_> {
     #[inline]
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The underlying record may be altered through the returned
+        // reference, hence the unmodified input is no longer valid.
+        self.raw_data = None;
         &mut self.record
     }
 }
-- 
2.43.0


From 761ef9200a5a2dcbbae34a642cf302434533d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 04/19] fix: compare values of different length under
 case_ignore

---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 62f6a0298e3f0967544811970e43149f83dff800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 05/19] fix: do not panic on records without IDN in concat
 --unique

---
 crates/pica-cli/src/commands/concat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..122d1c7 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -76,7 +76,7 @@ pub(crate) enum Strategy {
 #[inline]
 fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
+        Strategy::Idn => record.ppn().unwrap_or_default().to_string(),
         Strategy::Hash => {
             record.sha256().iter().fold(String::new(), |mut out, b| {
                 let _ = write!(out, "{b:02x}");
-- 
2.43.0


From 40e5cb787a9a22358963b7ac6bfdf91b65e96ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 06/19] fix: do not panic on invalid UTF-8 in print and convert
 to XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 6 +-----
 crates/pica-cli/src/commands/print.rs       | 6 ++----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..c320539 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -2,7 +2,6 @@ use std::ffi::OsString;
 use std::fs::File;
 use std::io::{self, BufWriter, Write, stdout};
 
-use bstr::ByteSlice;
 use pica_record::prelude::*;
 use quick_xml::events::{
     BytesDecl, BytesEnd, BytesStart, BytesText, Event,
@@ -73,10 +72,7 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(BytesText::new(
-                                        subfield
-                                            .value()
-                                            .to_str()
-                                            .unwrap(),
+                                        &subfield.value().to_string(),
                                     ))
                                     .unwrap();
                             }
diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..3a1e87c 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -3,7 +3,6 @@ use std::fs::File;
 use std::io::{self, BufWriter, Write};
 use std::process::ExitCode;
 
-use bstr::ByteSlice;
 use clap::Parser;
 use pica_record::prelude::*;
 
@@ -88,9 +87,8 @@ impl Print {
                                 let code = subfield.code();
                                 write!(writer, " ${code}")?;
 
-                                let value = translit(
-                                    subfield.value().to_str().unwrap(),
-                                );
+                                let value =
+                                    translit(subfield.value().to_string());
                                 write!(writer, " {value}")?;
                             }
 
-- 
2.43.0


From 5aa8cb7d7e4b81008b5d1c0961a1c6a636ea860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 07/19] fix: report I/O errors when converting to XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index c320539..1c4fe9d 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -27,8 +27,7 @@ impl XmlWriter {
                 "1.0",
                 Some("UTF-8"),
                 None,
-            )))
-            .unwrap();
+            )))?;
 
         let attributes = [
             ("targetNamespace", "info:srw/schema/5/picaXML-v1.0"),
@@ -40,8 +39,7 @@ impl XmlWriter {
             .write_event(Event::Start(
                 BytesStart::from_content("collection", 0)
                     .with_attributes(attributes),
-            ))
-            .unwrap();
+            ))?;
 
         Ok(Self { writer })
     }
@@ -73,26 +71,22 @@ impl ByteRecordWrite for XmlWriter {
                                     ))
                                     .write_text_content(BytesText::new(
                                         &subfield.value().to_string(),
-                                    ))
-                                    .unwrap();
+                                    ))?;
                             }
 
                             Ok::<(), std::io::Error>(())
-                        })
-                        .unwrap();
+                        })?;
                 }
 
                 Ok::<(), std::io::Error>(())
-            })
-            .unwrap();
+            })?;
 
         Ok(())
     }
 
     fn finish(&mut self) -> io::Result<()> {
         self.writer
-            .write_event(Event::End(BytesEnd::new("collection")))
-            .unwrap();
-        Ok(())
+            .write_event(Event::End(BytesEnd::new("collection")))?;
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From ec577d14cfa8f0c9952edfe0e2b0fc81a3e139ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 08/19] fix: apply --limit in the count command

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 92450eacbe3cf4bbe50a15dceeeff21fd22de87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 09/19] fix: reject the combination of --append and --gzip in
 slice

---
 crates/pica-cli/src/commands/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..698fa16 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -58,7 +58,9 @@ pub(crate) struct Slice {
     gzip: bool,
 
     /// Append to the given file, do not overwrite
-    #[arg(long, short)]
+    ///
+    /// Warning: This option can't be used when writing to a gzip file.
+    #[arg(long, short, conflicts_with = "gzip")]
     append: bool,
 
     /// Show progress bar (requires `-o`/`--output`).
-- 
2.43.0


From a359c37b6177f78cc512b25f1720c545c095e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 10/19] fix: treat a broken pipe below a CSV writer as success

---
 crates/pica-cli/src/main.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..57de3a6 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -6,6 +6,8 @@ use cli::{Args, Command};
 use config::Config;
 use error::{CliError, CliResult};
 
+use crate::commands::check::writer::Error as CheckError;
+
 mod cli;
 mod commands;
 mod config;
@@ -47,14 +49,25 @@ fn run() -> CliResult {
     }
 }
 
+fn is_broken_pipe(err: &CliError) -> bool {
+    let err = match err {
+        CliError::IO(err) | CliError::Check(CheckError::IO(err)) => err,
+        CliError::Csv(err) | CliError::Check(CheckError::Csv(err)) => {
+            match err.kind() {
+                csv::ErrorKind::Io(err) => err,
+                _ => return false,
+            }
+        }
+        _ => return false,
+    };
+
+    err.kind() == ErrorKind::BrokenPipe
+}
+
 fn main() -> ExitCode {
     match run() {
         Ok(code) => code,
-        Err(CliError::IO(err))
-            if err.kind() == ErrorKind::BrokenPipe =>
-        {
-            ExitCode::SUCCESS
-        }
+        Err(err) if is_broken_pipe(&err) => ExitCode::SUCCESS,
         Err(err) => {
             eprintln!("error: {err}");
             ExitCode::from(2)
-- 
2.43.0


From 53cc95418e9af81f2a9a2cd4db0dc44e60bb8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 11/19] fix: report an invalid config file instead of panicking
 or ignoring it

---
 crates/pica-cli/src/config.rs | 4 +++-
 crates/pica-cli/src/main.rs   | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..5cabe1f 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -55,7 +55,9 @@ impl Config {
         let path = path.as_ref().into();
         let content = fs::read_to_string(&path)?;
         let mut config: Self =
-            toml::from_str(&content).expect("valid config");
+            toml::from_str(&content).map_err(|e| {
+                io::Error::new(io::ErrorKind::InvalidData, e)
+            })?;
         config.path = path;
 
         Ok(config)
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index 57de3a6..8c21e53 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -22,7 +22,12 @@ fn run() -> CliResult {
 
     #[allow(unused_mut)]
     let mut config = if let Some(ref path) = args.config {
-        Config::from_path(path).unwrap_or(Config::new(path))
+        match Config::from_path(path) {
+            Err(err) if err.kind() == ErrorKind::NotFound => {
+                Config::new(path)
+            }
+            result => result?,
+        }
     } else {
         Config::discover()?
     };
-- 
2.43.0


From e71c4ac5ab7db9ee3a04cc0bba64682dabefacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/19] fix: apply the frequency threshold independent of the
 sort order

---
 crates/pica-cli/src/commands/frequency.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..0547a2f 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -216,15 +216,12 @@ impl Frequency {
         }
 
         let translit = crate::translit::translit(self.nf.clone());
+        ftable_sorted.retain(|(_, freq)| **freq >= self.threshold);
         for (i, (values, freq)) in ftable_sorted.iter().enumerate() {
             if self.num > 0 && i >= self.num {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From c73a8ebd8e8414ae88370fed038923634a5fbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 13/19] fix: compare rows instead of 64-bit hashes in select
 --unique

---
 crates/pica-cli/src/commands/select.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/pica-cli/src/commands/select.rs b/crates/pica-cli/src/commands/select.rs
index e03152f..6b9f89b 100644
--- a/crates/pica-cli/src/commands/select.rs
+++ b/crates/pica-cli/src/commands/select.rs
@@ -1,7 +1,5 @@
-use std::collections::hash_map::DefaultHasher;
 use std::ffi::OsString;
 use std::fs::OpenOptions;
-use std::hash::{Hash, Hasher};
 use std::io::{self, Write};
 use std::process::ExitCode;
 
@@ -194,15 +192,11 @@ impl Select {
                             }
 
                             if self.unique {
-                                let mut hasher = DefaultHasher::new();
-                                row.hash(&mut hasher);
-                                let hash = hasher.finish();
-
-                                if seen.contains(&hash) {
+                                if seen.contains(row) {
                                     continue;
                                 }
 
-                                seen.insert(hash);
+                                seen.insert(row.clone());
                             }
 
                             if !row.iter().all(|e| e.is_empty()) {
-- 
2.43.0


From 98376127e2c60b155cf26d50426ba98d2ffb1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 14/19] fix: report empty values in the allow, iso639-2b, jelc
 and link checks

---
 crates/pica-cli/src/commands/check/checks/allow.rs  |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/iso639.rs |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/jelc.rs   |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/link.rs   | 10 +++++-----
 4 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..34bd8e8 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f87e3ee 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f8506c6 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..bb1d58a 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -87,15 +87,15 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let messages = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !messages.is_empty() {
+                result
+                    .push((ppn.to_owned(), Some(messages.join(", "))));
             }
         }
 
-- 
2.43.0


From 4c0ce5f5d78615697ce6310c43bb480d867e0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 15/19] fix: write the findings of check in a deterministic
 order

---
 crates/pica-cli/src/commands/check/checks/duplicates.rs | 5 +++--
 crates/pica-cli/src/commands/check/checks/link.rs       | 6 ++++--
 crates/pica-cli/src/commands/check/set.rs               | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index d5950e0..5da5a96 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -1,4 +1,5 @@
-use hashbrown::HashMap;
+use std::collections::BTreeMap;
+
 use pica_record::prelude::*;
 
 #[inline(always)]
@@ -38,7 +39,7 @@ impl Duplicates {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let mut freqs = HashMap::new();
+        let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
             let values =
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index bb1d58a..56bc086 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -1,5 +1,7 @@
+use std::collections::BTreeMap;
+
 use bstr::{BString, ByteSlice};
-use hashbrown::{HashMap, HashSet};
+use hashbrown::HashSet;
 use pica_record::prelude::*;
 
 #[derive(Debug, serde::Deserialize)]
@@ -15,7 +17,7 @@ pub(crate) struct Link {
     case_ignore: bool,
 
     #[serde(skip, default)]
-    unseen: HashMap<BString, Vec<BString>>,
+    unseen: BTreeMap<BString, Vec<BString>>,
 
     #[serde(skip, default)]
     seen: HashSet<BString>,
diff --git a/crates/pica-cli/src/commands/check/set.rs b/crates/pica-cli/src/commands/check/set.rs
index d12c244..567ddde 100644
--- a/crates/pica-cli/src/commands/check/set.rs
+++ b/crates/pica-cli/src/commands/check/set.rs
@@ -1,7 +1,7 @@
+use std::collections::BTreeMap;
 use std::fs::read_to_string;
 use std::path::Path;
 
-use hashbrown::HashMap;
 use pica_record::prelude::*;
 use unicode_normalization::UnicodeNormalization;
 
@@ -18,7 +18,7 @@ pub(crate) struct RuleSet {
     pub(crate) termination: Termination,
 
     #[serde(rename = "rule", default)]
-    pub(crate) rules: HashMap<String, Rule>,
+    pub(crate) rules: BTreeMap<String, Rule>,
 }
 
 #[derive(Debug, PartialEq, Default, serde::Deserialize)]
-- 
2.43.0


From 19abf1b382c7a5eae7f875d34bbefca9500768b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 16/19] fix: parse nested and long filter expressions
 independent of earlier attempts

---
 src/fmt/parser.rs              |  6 +++
 src/matcher/field/parser.rs    | 91 +++++++++-------------------------
 src/matcher/subfield/parser.rs | 85 +++++++++----------------------
 3 files changed, 54 insertions(+), 128 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..f171379 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -16,6 +16,8 @@ use crate::matcher::tag::parse_tag_matcher;
 use crate::parser::{parse_string, parse_subfield_codes, ws};
 
 pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
+    group_level_reset();
+
     (
         parse_tag_matcher,
         parse_occurrence_matcher,
@@ -55,6 +57,10 @@ thread_local! {
     pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
 }
 
+fn group_level_reset() {
+    GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
+}
+
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     GROUP_LEVEL.with(|level| {
         *level.borrow_mut() += 1;
diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..e825415 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -238,10 +238,10 @@ fn group_level_reset() {
 
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
+        if *level.borrow() + 1 >= 256 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
+            *level.borrow_mut() += 1;
             Ok(())
         }
     })
@@ -257,19 +257,14 @@ fn group_level_dec() {
 fn parse_field_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec()),
-    )
-    .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
-    .parse_next(i)
+    terminated(ws('('), group_level_inc).parse_next(i)?;
+
+    let result = terminated(parse_field_or_matcher, ws(')'))
+        .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
+        .parse_next(i);
+
+    group_level_dec();
+    result
 }
 
 #[inline]
@@ -290,20 +285,10 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("||"), atom)))
+    (
+        parse_field_xor_matcher,
+        repeat(0.., preceded(ws("||"), parse_field_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -311,19 +296,13 @@ fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_field_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_field_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -342,41 +321,19 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
+    (atom, repeat(0.., preceded(ws("&&"), atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_field_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
-        parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 /// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    group_level_reset();
+    ws(parse_field_or_matcher).parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..3707ad0 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -291,10 +291,10 @@ fn group_level_reset() {
 
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
+        if *level.borrow() + 1 >= 256 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
+            *level.borrow_mut() += 1;
             Ok(())
         }
     })
@@ -310,18 +310,14 @@ fn group_level_dec() {
 fn parse_subfield_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec),
-    )
-    .map(|m| SubfieldMatcher::Group(Box::new(m)))
-    .parse_next(i)
+    terminated(ws('('), group_level_inc).parse_next(i)?;
+
+    let result = terminated(parse_subfield_or_matcher, ws(')'))
+        .map(|m| SubfieldMatcher::Group(Box::new(m)))
+        .parse_next(i);
+
+    group_level_dec();
+    result
 }
 
 #[inline(always)]
@@ -353,18 +349,10 @@ fn parse_subfield_not_matcher(
 fn parse_subfield_or_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("||", atom)))
+    (
+        parse_subfield_xor_matcher,
+        repeat(0.., preceded("||", parse_subfield_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -374,17 +362,13 @@ fn parse_subfield_or_matcher(
 fn parse_subfield_xor_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_subfield_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -403,39 +387,18 @@ fn parse_subfield_and_matcher(
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded("&&", atom)))
+    (atom, repeat(0.., preceded("&&", atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_subfield_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
-        parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    group_level_reset();
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 558b604172a7853bcb0c2cc133bedd64c7aadf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 17/19] fix: flush the underlying writer when finishing a gzip
 writer

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From 913a2ad0363774a3bd9a5b66053f0a9a49930528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 18/19] fix: keep slice --length as the maximum when invalid
 records are skipped

---
 crates/pica-cli/src/commands/slice.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index 698fa16..aa71c59 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -99,7 +99,7 @@ impl Slice {
             .append(self.append)
             .from_path_or_stdout(self.output)?;
 
-        let mut range = if self.end > 0 {
+        let range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
             self.start..(self.start + self.length)
@@ -118,9 +118,6 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
-                            range.end += 1;
-                        }
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From 03e9051e6e9ab47bbcadef2612d779a1caf54459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 19/19] fix: do not overflow the end of a slice given by
 --start and --length

---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index aa71c59..09efbd8 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -102,7 +102,7 @@ impl Slice {
         let range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
-- 
2.43.0

