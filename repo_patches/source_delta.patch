From 424b62ae98268aabd2951b04bd1a2e5156397f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 01/33] fix: makedng must not delete or truncate an existing
 output file without --override

Any error of makedng (including 'already exists' and an invalid --map) removed
whatever file was present at the output path. Create the output atomically once
the arguments are validated and only remove it after that point. Also flush the
buffered writer so that a failing final write is reported.
---
 bin/dnglab/dnglab-lib/src/jobs/mod.rs | 27 ++++++++++++++-
 bin/dnglab/dnglab-lib/src/makedng.rs  | 50 ++++++++++++++-------------
 2 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index d86a8f4..03b7497 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -1,8 +1,14 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
+use crate::{AppError, Result};
 use async_trait::async_trait;
-use std::fmt::Debug;
+use std::{
+  fmt::Debug,
+  fs::{File, OpenOptions},
+  io::ErrorKind,
+  path::Path,
+};
 
 pub mod extractraw;
 pub mod process_raw;
@@ -15,3 +21,22 @@ pub trait Job: Clone + Debug + Send {
   /// Execute the job
   async fn execute(&self) -> Self::Output;
 }
+
+/// Create the output file for a job
+///
+/// Unless `replace` is set, a file that already exists at `path` is left alone
+/// and reported as `AppError::AlreadyExists`. Check and creation are one atomic
+/// operation, so concurrent jobs can't end up with the same output file.
+pub(crate) fn create_output(path: &Path, replace: bool) -> Result<File> {
+  let mut options = OpenOptions::new();
+  options.write(true);
+  if replace {
+    options.create(true).truncate(true);
+  } else {
+    options.create_new(true);
+  }
+  options.open(path).map_err(|err| match err.kind() {
+    ErrorKind::AlreadyExists => AppError::AlreadyExists(path.to_owned()),
+    _ => err.into(),
+  })
+}
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 57ba717..b4b280d 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
+use crate::jobs::create_output;
 use clap::ArgMatches;
 use clap::builder::{NonEmptyStringValueParser, TypedValueParser};
 
@@ -21,7 +22,7 @@ use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
 use std::fs::{File, remove_file};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
 use std::path::{Path, PathBuf};
 
@@ -41,21 +42,6 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     .get_one("OUTPUT")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("Output path is required".into()))?;
 
-  match makedng_internal(options, dest_path).await {
-    Ok(_) => Ok(()),
-    Err(err) => {
-      if let Err(err) = remove_file(dest_path) {
-        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
-      }
-      Err(err)
-    }
-  }
-}
-
-/// Entry point for Clap sub command `makedng`
-pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::Result<()> {
-  let _now = Instant::now();
-
   let inputs: Vec<&PathBuf> = options
     .get_many("inputs")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("inputs are required".into()))?
@@ -71,11 +57,26 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     )));
   }
 
-  if dest_path.exists() && !options.get_flag("override") {
-    return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
+  // From here on, the output file belongs to us and is removed on failure. Any
+  // error before must not touch a file that already exists at this location.
+  let file = create_output(dest_path, options.get_flag("override"))?;
+
+  match makedng_internal(options, &inputs, &maps, file, dest_path).await {
+    Ok(_) => Ok(()),
+    Err(err) => {
+      if let Err(err) = remove_file(dest_path) {
+        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
+      }
+      Err(err)
+    }
   }
+}
+
+/// Entry point for Clap sub command `makedng`
+async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsageMap], file: File, dest_path: &Path) -> crate::Result<()> {
+  let _now = Instant::now();
 
-  let mut stream = BufWriter::new(File::create(dest_path)?);
+  let mut stream = BufWriter::new(file);
 
   let backward_version = options
     .get_one::<DngVersion>("dng_backward_version")
@@ -104,7 +105,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     dng.root_ifd_mut().add_tag(DngTag::ColorimetricReference, colorimetric_reference.as_dng_value());
   }
 
-  if let Ok(raw_input) = get_input_path(&inputs, &maps, InputUsage::Raw) {
+  if let Ok(raw_input) = get_input_path(inputs, maps, InputUsage::Raw) {
     let rawfile = RawSource::new(raw_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       let rawimage = decoder.raw_image(&rawfile, &RawDecodeParams::default(), false)?;
@@ -160,7 +161,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No raw input file found");
   }
 
-  if let Ok(preview_input) = get_input_path(&inputs, &maps, InputUsage::Preview) {
+  if let Ok(preview_input) = get_input_path(inputs, maps, InputUsage::Preview) {
     let rawfile = RawSource::new(preview_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -178,7 +179,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No preview input file found");
   }
 
-  if let Ok(thumbnail_input) = get_input_path(&inputs, &maps, InputUsage::Thumbnail) {
+  if let Ok(thumbnail_input) = get_input_path(inputs, maps, InputUsage::Thumbnail) {
     let rawfile = RawSource::new(thumbnail_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -192,7 +193,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No thumbnail input file found");
   }
 
-  if let Ok(exif_input) = get_input_path(&inputs, &maps, InputUsage::Exif) {
+  if let Ok(exif_input) = get_input_path(inputs, maps, InputUsage::Exif) {
     let rawfile = RawSource::new(exif_input)?;
     // First, prefer JFIF decoder for preview files
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -210,7 +211,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No EXIF input file found");
   }
 
-  if let Ok(xmp_input) = get_input_path(&inputs, &maps, InputUsage::Xmp) {
+  if let Ok(xmp_input) = get_input_path(inputs, maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -268,6 +269,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
   //eprintln!("XYZ: {:?}", xyz);
 
   dng.close()?;
+  stream.flush()?;
 
   println!("File saved to: {}", dest_path.display());
 
-- 
2.43.0


From a810c4b21a7eee68923ea646190483ad309932d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 02/33] fix: process-raw creates its output atomically and
 leaves nothing behind on failure

The exists() check followed by File::create() let two concurrent jobs with the
same output name write to one file, and an error while flushing or setting the
mtime left the output file in place although the job was reported as failed.
---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index fadcdef..ba81007 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -69,9 +69,6 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 
 impl Raw2Image {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     // File name for embedding
     let orig_filename = self
       .input
@@ -81,19 +78,27 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(File::create(&self.output)?);
+    let mut image_file = BufWriter::new(create_output(&self.output, self.replace)?);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
       Ok(_) => {
-        let file = image_file
-          .into_inner()
-          .map_err(|e| AppError::General(format!("Can't access image inner file: {e}")))?;
-        if self.params.keep_mtime {
-          let file_mtime = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
-          let rawfile = RawSource::new(&self.input)?;
-          copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
+        let finish = || -> Result<()> {
+          let file = image_file
+            .into_inner()
+            .map_err(|e| AppError::General(format!("Can't access image inner file: {e}")))?;
+          if self.params.keep_mtime {
+            let file_mtime = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
+            let rawfile = RawSource::new(&self.input)?;
+            copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
+          }
+          Ok(())
+        };
+        if let Err(err) = finish() {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete output file: {:?}", err);
+          }
+          return Err(err);
         }
-        drop(file);
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0,
-- 
2.43.0


From 1c8237d829dc2a1d7ff8400a4cfb839aad29e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 03/33] fix: extract creates its output atomically, isolates
 panics, removes incomplete files

A panic in one extraction took down the whole batch because it ran inline in the
async driver, and a failing flush left an incomplete file behind.
---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 28 +++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a4bcccf..a41fda3 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -16,6 +16,7 @@ use std::{
   io::{BufReader, BufWriter, Cursor, Write},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
+use tokio::task::spawn_blocking;
 
 /// Job for converting RAW to DNG
 #[derive(Debug, Clone)]
@@ -53,9 +54,6 @@ impl Display for JobResult {
 
 impl ExtractRawJob {
   fn internal_exec(&self) -> Result<JobResult> {
-    if self.output.exists() && !self.replace {
-      return Err(AppError::AlreadyExists(self.output.clone()));
-    }
     let dng_file = File::open(&self.input)?;
 
     let mut in_file = BufReader::new(dng_file);
@@ -73,7 +71,7 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
-        let mut stream = BufWriter::new(File::create(&self.output)?);
+        let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
         if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
           drop(original);
           if let Err(err) = remove_file(&self.output) {
@@ -81,7 +79,12 @@ impl ExtractRawJob {
           }
           return Err(err.into());
         }
-        stream.flush()?;
+        if let Err(err) = stream.flush() {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete output file: {:?}", err);
+          }
+          return Err(err.into());
+        }
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0, // TODO: fixme
@@ -103,16 +106,23 @@ impl Job for ExtractRawJob {
   async fn execute(&self) -> Self::Output {
     debug!("Job running: input: {:?}, output: {:?}", self.input, self.output);
     let now = Instant::now();
-    match self.internal_exec() {
-      Ok(mut stat) => {
+    let cp = self.clone();
+    let handle = spawn_blocking(move || cp.internal_exec());
+    match handle.await {
+      Ok(Ok(mut stat)) => {
         stat.duration = now.elapsed().as_secs_f32();
         stat
       }
-      Err(e) => JobResult {
+      Ok(Err(e)) => JobResult {
         job: self.clone(),
         duration: now.elapsed().as_secs_f32(),
         error: Some(e),
       },
+      Err(e) => JobResult {
+        job: self.clone(),
+        duration: now.elapsed().as_secs_f32(),
+        error: Some(AppError::General(format!("Join handle failed: {:?}", e))),
+      },
     }
   }
 }
-- 
2.43.0


From 2628f4769b192f91bb65eae64eeca412a79962f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 04/33] fix: convert contains panics of a single job and leaves
 nothing behind on failure

rayon::spawn aborts the process when the closure panics, so one bad file killed
the whole batch. Errors after the conversion (lock, flush, mtime) left the DNG
in place although the job was reported as failed.
---
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs | 33 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 144b7b7..bdb0a9f 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -16,6 +16,7 @@ use std::{
   fmt::Display,
   fs::{File, remove_file},
   io::BufWriter,
+  panic::{AssertUnwindSafe, catch_unwind},
   time::SystemTime,
 };
 use std::{path::PathBuf, time::Instant};
@@ -93,22 +94,33 @@ impl Raw2DngJob {
       Err(e) => return Err(e.into()),
     };
     if let Err(err) = file.try_lock() {
+      if let Err(err) = remove_file(&self.output) {
+        log::error!("Failed to delete incomplete DNG file: {:?}", err);
+      }
       return Err(AppError::General(format!("Cannot acquire exclusive lock on {}: {err}", self.output.display())));
     }
     let mut dng = BufWriter::new(file);
 
     match convert_raw_file(&self.input, &mut dng, &self.params) {
       Ok(info) => {
-        let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access DNG inner file: {e}")))?;
-        if self.params.keep_mtime {
-          let fallback = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
-          if let Some(ts) = info.last_modified.or(fallback) {
-            file.set_modified(ts)?;
-            let datetime: chrono::DateTime<Local> = ts.into();
-            log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
+        let finish = || -> Result<()> {
+          let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access DNG inner file: {e}")))?;
+          if self.params.keep_mtime {
+            let fallback = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
+            if let Some(ts) = info.last_modified.or(fallback) {
+              file.set_modified(ts)?;
+              let datetime: chrono::DateTime<Local> = ts.into();
+              log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
+            }
+          }
+          Ok(())
+        };
+        if let Err(err) = finish() {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete DNG file: {:?}", err);
           }
+          return Err(err);
         }
-        drop(file);
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0,
@@ -158,7 +170,10 @@ impl Job for Raw2DngJob {
     // A tokio oneshot bridges the result back into the async driver.
     let (tx, rx) = tokio::sync::oneshot::channel();
     rayon::spawn(move || {
-      let _ = tx.send(cp.internal_exec());
+      // A panic must not escape from the closure, rayon aborts the whole process in this case.
+      let result = catch_unwind(AssertUnwindSafe(|| cp.internal_exec()))
+        .unwrap_or_else(|_| Err(AppError::General("Conversion panicked".into())));
+      let _ = tx.send(result);
     });
 
     match rx.await {
-- 
2.43.0


From 7ca6af1c57b6fd258aad348b45bbb14bf5368921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 05/33] fix: extract must not follow path components in the
 embedded original file name

OriginalRawFileName comes from the DNG file. '../x' or '/abs/x' escaped from the
output directory; an empty ASCII value panicked.
---
 bin/dnglab/dnglab-lib/src/extract.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 2e98566..abadc9e 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -9,7 +9,7 @@ use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
@@ -109,6 +109,10 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, use_orig_filename: bool)
   }
 
   let orig_filename = get_original_name(&file).ok_or(AppError::General("No embedded raw file found".into()))?;
+  // The name comes from the input file, it must never select another location than the destination.
+  let orig_filename = Path::new(&orig_filename)
+    .file_name()
+    .ok_or(AppError::General("Embedded original file name is invalid".into()))?;
 
   let output = if entry.dest.is_dir() {
     let mut p = PathBuf::from(&entry.dest);
@@ -141,7 +145,7 @@ fn get_original_name(file: &GenericTiffReader) -> Option<String> {
     ..
   }) = file.get_entry(DngTag::OriginalRawFileName)
   {
-    Some(orig_name.strings()[0].clone())
+    orig_name.first().cloned()
   } else {
     None
   }
-- 
2.43.0


From 81c0ba90190441df25970ca2c8dc58aec1bf7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 06/33] fix: ftpserver reports a failed final write and removes
 incomplete DNG files

Without --keep-mtime the BufWriter was dropped without checking the flush, so a
truncated DNG was acknowledged and the original upload discarded.
---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 57e8864..1a003fa 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -7,8 +7,8 @@ use embedftp::server::serve;
 use rawler::decoders::supported_extensions;
 use rawler::rawsource::RawSource;
 use std::ffi::OsStr;
-use std::fs::File;
-use std::io::BufWriter;
+use std::fs::{File, remove_file};
+use std::io::{BufWriter, Write};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -38,18 +38,19 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
-      let mut dng = BufWriter::new(File::create(out_path)?);
-      let _info =
-        convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
+      let mut dng = BufWriter::new(File::create(&out_path)?);
+      let converted = convert_raw_source(&rawfile, &mut dng, original_filename, &state.params)
+        .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))
+        .and_then(|_info| dng.flush());
+      if let Err(err) = converted {
+        drop(dng);
+        if let Err(err) = remove_file(&out_path) {
+          log::error!("Failed to delete incomplete DNG file: {:?}", err);
+        }
+        return Err(err);
+      }
       if state.params.keep_mtime {
-        if let Err(err) = copy_mtime_from_rawsource(
-          &rawfile,
-          &dng
-            .into_inner()
-            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?,
-          None,
-          &state.params,
-        ) {
+        if let Err(err) = copy_mtime_from_rawsource(&rawfile, dng.get_ref(), None, &state.params) {
           log::warn!("Failed to set mtime, continue anyway: {}", err);
         }
       }
-- 
2.43.0


From 866054d2665a96790d5f0fb7b5eef70f7a52fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 07/33] fix: embedding the original must not drop a block that
 failed to compress

---
 rawler/src/dng/original.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..58e132c 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -68,7 +68,7 @@ impl OriginalCompressed {
     for chunk in self.chunks.iter().map(ForkBlock::decompress) {
       let buf = chunk?;
       stream.write_all(&buf)?;
-      total = buf.len();
+      total += buf.len();
       ctx.consume(&buf);
     }
 
@@ -117,7 +117,7 @@ impl OriginalCompressed {
       forks.push(buf);
       //chunks.push(ForkBlock::compress(&buf)?);
     }
-    let chunks = forks.par_iter().flat_map(ForkBlock::compress).collect();
+    let chunks = forks.par_iter().map(ForkBlock::compress).collect::<io::Result<Vec<_>>>()?;
     let digest = Some(ctx.finalize().into());
 
     Ok(Self { raw_fork_size, chunks, digest })
-- 
2.43.0


From 0ca2267dc36a98d8620b05146cf5682bea4322fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 08/33] fix: output must not depend on hash map iteration order

---
 bin/dnglab/dnglab-lib/src/cameras.rs |  4 ++--
 rawler/src/decoders/iiq.rs           |  8 ++++----
 rawler/src/dng/writer.rs             |  2 +-
 rawler/src/formats/tiff/ifd.rs       | 10 +++++-----
 rawler/src/rawimage.rs               |  6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/cameras.rs b/bin/dnglab/dnglab-lib/src/cameras.rs
index 7c81484..2ec4a85 100644
--- a/bin/dnglab/dnglab-lib/src/cameras.rs
+++ b/bin/dnglab/dnglab-lib/src/cameras.rs
@@ -49,7 +49,7 @@ pub async fn cameras(options: &ArgMatches) -> crate::Result<()> {
         } else {
           model.1.modes.iter().sorted().join(", ")
         };
-        let remarks = model.1.remarks.iter().join(", ");
+        let remarks = model.1.remarks.iter().sorted().join(", ");
 
         println!("|{:max_make$}  | {:max_model$} | ✅ Yes | {} | {} |", make.0, model.0, modes, remarks);
       }
@@ -65,7 +65,7 @@ pub async fn cameras(options: &ArgMatches) -> crate::Result<()> {
         } else {
           model.1.modes.iter().sorted().join(", ")
         };
-        let remarks = model.1.remarks.iter().join(", ");
+        let remarks = model.1.remarks.iter().sorted().join(", ");
         if remarks.is_empty() {
           println!("{:max_make$}  {:max_model$}  {}", make.0, model.0, modes);
         } else {
diff --git a/rawler/src/decoders/iiq.rs b/rawler/src/decoders/iiq.rs
index adeef1e..7c58b10 100644
--- a/rawler/src/decoders/iiq.rs
+++ b/rawler/src/decoders/iiq.rs
@@ -14,7 +14,7 @@ use log::debug;
 use log::warn;
 use serde::Deserialize;
 use serde::Serialize;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io::Read;
 use std::io::Seek;
 use std::io::SeekFrom;
@@ -148,7 +148,7 @@ pub struct IiqFormat {
   makernotes: IiqMakernotes,
 }
 
-pub type IiqMakernotes = HashMap<u32, (usize, tiff::Value)>;
+pub type IiqMakernotes = BTreeMap<u32, (usize, tiff::Value)>;
 
 #[derive(Debug, Clone)]
 pub struct IiqDecoder<'a> {
@@ -173,7 +173,7 @@ impl<'a> IiqDecoder<'a> {
   }
 }
 
-fn new_makernote(file: &RawSource, moffset: u64) -> std::io::Result<HashMap<u32, (usize, tiff::Value)>> {
+fn new_makernote(file: &RawSource, moffset: u64) -> std::io::Result<BTreeMap<u32, (usize, tiff::Value)>> {
   // All makernote offsets are not absolute to file, but to start of makernote data.
   // The makernote data starts straight after the TIFF header (8 bytes).
   // If this may change in future, offsets must be revalidated.
@@ -188,7 +188,7 @@ fn new_makernote(file: &RawSource, moffset: u64) -> std::io::Result<HashMap<u32,
   let mut buf = vec![0; entry_count * 16];
   stream.read_exact(&mut buf)?;
 
-  let mut entries: HashMap<u32, (usize, tiff::Value)> = HashMap::with_capacity(entry_count);
+  let mut entries: BTreeMap<u32, (usize, tiff::Value)> = BTreeMap::new();
   let mut buf = &buf[..];
 
   for _ in 0..entry_count {
diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..4911eb6 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -156,7 +156,7 @@ where
       self.writer.as_shot_neutral(wbcoeff_to_tiff_value(&rawimage));
       // Add matrix and illumninant
       let mut available_matrices = rawimage.color_matrix.clone();
-      if let Some(first_key) = available_matrices.keys().next().cloned() {
+      if let Some(first_key) = available_matrices.keys().min().cloned() {
         let first_matrix = available_matrices
           .remove_entry(&Illuminant::A)
           .or_else(|| available_matrices.remove_entry(&Illuminant::A))
diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..49ca791 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -16,7 +16,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use log::debug;
 use serde::{Deserialize, Serialize};
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::BTreeMap,
   io::{Read, Seek, SeekFrom},
 };
 
@@ -42,7 +42,7 @@ pub struct IFD {
   pub next_ifd: u32,
   pub entries: BTreeMap<u16, Entry>,
   pub endian: Endian,
-  pub sub: HashMap<u16, Vec<IFD>>,
+  pub sub: BTreeMap<u16, Vec<IFD>>,
   pub chain: Vec<IFD>,
 }
 
@@ -102,7 +102,7 @@ impl IFD {
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
     reader.seek(SeekFrom::Start((base + offset) as u64))?;
-    let mut sub_ifd_offsets = HashMap::new();
+    let mut sub_ifd_offsets = BTreeMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
 
@@ -115,7 +115,7 @@ impl IFD {
     }
 
     let mut entries = BTreeMap::new();
-    let mut sub = HashMap::new();
+    let mut sub = BTreeMap::new();
     let mut next_pos = reader.position()?;
     debug!("Parse entries");
     let mut consecutive_errors = 0;
@@ -328,7 +328,7 @@ impl IFD {
     }
   }
 
-  pub fn sub_ifds(&self) -> &HashMap<u16, Vec<IFD>> {
+  pub fn sub_ifds(&self) -> &BTreeMap<u16, Vec<IFD>> {
     &self.sub
   }
 
diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 510f2e7..a3f7235 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -545,9 +545,9 @@ impl RawImage {
     //let color_matrix = self.color_matrix.get(&Illuminant::D65).unwrap(); // TODO fixme
     let color_matrix = self
       .color_matrix
-      .values()
-      .next()
-      .cloned()
+      .iter()
+      .min_by_key(|(illuminant, _)| **illuminant)
+      .map(|(_, matrix)| matrix.clone())
       .unwrap_or(vec![1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0]); // TODO: invalid
     assert_eq!(color_matrix.len() % 3, 0); // this is not so nice...
     let components = color_matrix.len() / 3;
-- 
2.43.0


From 2c0b899742ae55289b54f3745681fb9303f44478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 09/33] fix: TIFF reader terminates on cyclic IFD chains and
 does not panic on empty input

---
 rawler/src/formats/tiff/ifd.rs    | 8 +++++++-
 rawler/src/formats/tiff/reader.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 49ca791..a9fc999 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -85,6 +85,10 @@ impl IFD {
 
     while next_ifd != 0 {
       next_ifd = apply_corr(next_ifd, corr);
+      if root.offset == next_ifd || root.chain.iter().any(|ifd| ifd.offset == next_ifd) {
+        log::warn!("TIFF: IFD chain links back to offset {}, ignoring remaining chain", next_ifd);
+        break;
+      }
       let ifd = IFD::new(reader, next_ifd, base, corr, endian, &multi_sub_tags)?;
       if ifd.entries.is_empty() {
         return Err(TiffError::General("TIFF is invalid, IFD must contain at least one entry".to_string()));
@@ -154,7 +158,9 @@ impl IFD {
                 sub_ifd_offsets.insert(tag, offsets.clone());
               }
               Value::Unknown(tag, offsets) => {
-                sub_ifd_offsets.insert(*tag, vec![offsets[0] as u32]);
+                if let Some(offset) = offsets.first() {
+                  sub_ifd_offsets.insert(*tag, vec![*offset as u32]);
+                }
               }
               Value::Undefined(_) => {
                 if let Some(offset) = entry.offset() {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..5aa1bee 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -166,8 +166,12 @@ pub trait TiffReader {
     let reader = reader.into_inner();
 
     next_ifd = apply_corr(next_ifd, self.file().corr);
-    let mut chain = Vec::new();
+    let mut chain: Vec<IFD> = Vec::new();
     while next_ifd != 0 {
+      if chain.iter().any(|ifd| ifd.offset == next_ifd) {
+        log::warn!("TIFF: IFD chain links back to offset {}, ignoring remaining chain", next_ifd);
+        break;
+      }
       // TODO: check if offset is in range
       let mut multi_sub_tags = self.wellknown_sub_ifd_tags();
       multi_sub_tags.extend_from_slice(sub_tags);
@@ -212,7 +216,7 @@ impl GenericTiffReader {
   /// Check if buffer looks like a TIFF file
   pub fn is_tiff<T: AsRef<[u8]>>(buffer: T) -> bool {
     let buffer = buffer.as_ref();
-    buffer[0] == 0x49 || buffer[0] == 0x4d // TODO
+    matches!(buffer.first(), Some(0x49 | 0x4d)) // TODO
   }
 
   pub fn little_endian(&self) -> bool {
-- 
2.43.0


From ed3404c4675fd683feef73649a039d0e27c377bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 10/33] fix: TIFF offsets above 4 GiB are an error instead of
 being truncated

---
 rawler/src/formats/tiff/reader.rs | 3 ++-
 rawler/src/formats/tiff/writer.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index 5aa1bee..ea91da1 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -292,7 +292,8 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
   }
 
   pub fn position(&mut self) -> Result<u32> {
-    Ok(self.inner.stream_position().map(|v| v as u32)?)
+    let pos = self.inner.stream_position()?;
+    u32::try_from(pos).map_err(|_| TiffError::Overflow(format!("Offset {} exceeds the TIFF limit of 4 GiB", pos)))
   }
 
   // TODO: try_from?
diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..a65a142 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -134,7 +134,8 @@ where
   W: Seek,
 {
   pub fn position(&mut self) -> Result<u32> {
-    Ok(self.writer.stream_position().map(|v| v as u32)?) // TODO: try_from?
+    let pos = self.writer.stream_position()?;
+    u32::try_from(pos).map_err(|_| TiffError::Overflow(format!("Offset {} exceeds the TIFF limit of 4 GiB", pos)))
   }
 }
 
-- 
2.43.0


From c22670db19e3d037406b7181591908e0e744c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 11/33] fix: RawSource sub views report overflowing ranges as
 EOF instead of panicking

---
 rawler/src/rawsource.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rawler/src/rawsource.rs b/rawler/src/rawsource.rs
index 06bd3c7..2f04384 100644
--- a/rawler/src/rawsource.rs
+++ b/rawler/src/rawsource.rs
@@ -72,14 +72,17 @@ impl RawSource {
   }
 
   pub fn subview(&self, offset: u64, size: u64) -> std::io::Result<&[u8]> {
-    self.buf().get(offset as usize..(offset + size) as usize).ok_or(std::io::Error::new(
-      std::io::ErrorKind::UnexpectedEof,
-      format!("subview(): Offset {}+{} is behind EOF", offset, size),
-    ))
+    offset
+      .checked_add(size)
+      .and_then(|end| self.buf().get(offset as usize..end as usize))
+      .ok_or(std::io::Error::new(
+        std::io::ErrorKind::UnexpectedEof,
+        format!("subview(): Offset {}+{} is behind EOF", offset, size),
+      ))
   }
 
   pub fn subview_padded(&self, offset: u64, size: u64) -> std::io::Result<PaddedBuf<'_>> {
-    if offset + size <= self.len() as u64 {
+    if offset.checked_add(size).is_some_and(|end| end <= self.len() as u64) {
       if offset + size + 16 <= self.len() as u64 {
         self.subview(offset, size + 16).map(|buf| PaddedBuf::new_ref(buf, size as usize))
       } else {
-- 
2.43.0


From ce83bdf1beb17a96a151411c422d912371199da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 12/33] fix: FTP STOR must not follow symlinks out of the
 server root

---
 embedftp/src/client.rs | 19 +++++++++++++++++--
 embedftp/src/server.rs |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..0a62f2c 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -14,7 +14,7 @@ use std::net::{IpAddr, SocketAddr};
 use std::path::{Component, Path, PathBuf, StripPrefixError};
 use std::result;
 use std::sync::Arc;
-use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file};
+use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file, symlink_metadata};
 use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
@@ -266,6 +266,21 @@ where
     dir
   }
 
+  /// Resolve the path of a file which may not exist yet
+  ///
+  /// Neither the directory nor an existing file may resolve to a location
+  /// outside of the server root.
+  async fn complete_new_path(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
+    let (Some(parent), Some(name)) = (path.parent(), path.file_name()) else {
+      return Err(io::ErrorKind::InvalidInput.into());
+    };
+    let target = self.complete_path(parent).await?.join(name);
+    if symlink_metadata(&target).await.is_ok_and(|m| m.is_symlink()) {
+      return self.complete_path(path).await;
+    }
+    Ok(target)
+  }
+
   async fn mkd(&mut self, path: PathBuf) -> Result<()> {
     let fullpath = self.cwd.join(&path);
     let parent = get_parent(fullpath.clone());
@@ -654,7 +669,7 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
+    let path = self.complete_new_path(&path).await?;
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
       tokio::fs::write(&path, content.as_ref()).await?;
diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..7f385cb 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -26,6 +26,9 @@ where
   let addr = SocketAddr::new(config.server_addr, port);
   let listener = TcpListener::bind(&addr).await?;
 
+  // Requested paths are compared in canonical form
+  let server_root = tokio::fs::canonicalize(server_root).await?;
+
   info!("Listening for clients on port {}...", port);
   loop {
     let (stream, addr) = listener.accept().await?;
-- 
2.43.0


From 3acaf3088a3a55c7c539854c3710a22e5ca75eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:52 +0000
Subject: [PATCH 13/33] fix: a failed accept must not stop the FTP server

---
 embedftp/src/server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index 7f385cb..b2f372e 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -31,7 +31,15 @@ where
 
   info!("Listening for clients on port {}...", port);
   loop {
-    let (stream, addr) = listener.accept().await?;
+    let (stream, addr) = match listener.accept().await {
+      Ok(connection) => connection,
+      Err(err) => {
+        // For example the peer has gone already or we're out of file descriptors
+        error!("Failed to accept a client connection: {}", err);
+        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
+        continue;
+      }
+    };
     info!("New client connected: {}", addr);
     handle.spawn(handle_client(addr, stream, handle.clone(), server_root.clone(), config.clone(), env.clone()));
   }
-- 
2.43.0


From dc118559fbdde7177b57ff780e9c8b1ca5596c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:59 +0000
Subject: [PATCH 14/33] fix: FTP commands send one final reply and release the
 data connection on failure

---
 embedftp/src/client.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 0a62f2c..2fb59f1 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -234,8 +234,9 @@ where
       let stream = match TcpStream::connect(addr).await {
         Ok(stream) => stream,
         Err(e) => {
+          // The caller answers the command, there is no data connection.
           error!("Connection failed to {}, {}", addr, e);
-          self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
+          self.close_data_connection();
           return Ok(());
         }
       };
@@ -389,6 +390,7 @@ where
               self
                 .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
                 .await?;
+              self.close_data_connection();
               return Ok(());
             }
           }
@@ -401,6 +403,7 @@ where
         self
           .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
           .await?;
+        self.close_data_connection();
       }
     } else {
       warn!("No opened data connection");
@@ -440,6 +443,7 @@ where
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
               .await?;
+            self.close_data_connection();
             return Ok(());
           }
         };
@@ -471,6 +475,7 @@ where
         self.send_data(out).await?;
       } else {
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
+        self.close_data_connection();
       }
     } else {
       self.send(Answer::new(ResultCode::ConnectionClosed, "No opened data connection")).await?;
@@ -535,8 +540,8 @@ where
 
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
-        self.data_writer = None;
-        return Ok(());
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL ok")).await;
       }
     }
 
@@ -601,6 +606,7 @@ where
                   &format!("\"{}\" doesn't exist", path.to_str().ok_or_else(|| Error::Msg("No path".to_string()))?),
                 ))
                 .await?;
+              self.close_data_connection();
               return Ok(());
             }
           };
@@ -617,6 +623,7 @@ where
               &format!("\"{}\" doesn't exist", path.to_str().ok_or_else(|| Error::Msg("No path".to_string()))?),
             ))
             .await?;
+          self.close_data_connection();
         }
       } else {
         warn!("No path");
@@ -626,6 +633,7 @@ where
             &format!("\"{}\" doesn't exist", path.to_str().ok_or_else(|| Error::Msg("No path".to_string()))?),
           ))
           .await?;
+        self.close_data_connection();
       }
     } else {
       warn!("No open data connection");
-- 
2.43.0


From 2d86f3fff6e11a78099e2602c9fce1d66dd7ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:43 +0000
Subject: [PATCH 15/33] fix: a panic while converting a file must not leave an
 incomplete output behind

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs          | 3 ++-
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 9 +++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 4 ++--
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs     | 4 ++--
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 1a003fa..bbc48d0 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -14,6 +14,7 @@ use std::sync::Arc;
 
 use tokio::runtime::Handle;
 
+use crate::jobs::contain_panic;
 use crate::jobs::raw2dng::copy_mtime_from_rawsource;
 use crate::{PKG_NAME, PKG_VERSION};
 use rawler::dng::convert::{ConvertParams, convert_raw_source};
@@ -39,7 +40,7 @@ impl FtpCallback for FtpState {
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
       let mut dng = BufWriter::new(File::create(&out_path)?);
-      let converted = convert_raw_source(&rawfile, &mut dng, original_filename, &state.params)
+      let converted = contain_panic(|| convert_raw_source(&rawfile, &mut dng, original_filename, &state.params))
         .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))
         .and_then(|_info| dng.flush());
       if let Err(err) = converted {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index 03b7497..2738be9 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -3,10 +3,12 @@
 
 use crate::{AppError, Result};
 use async_trait::async_trait;
+use rawler::RawlerError;
 use std::{
   fmt::Debug,
   fs::{File, OpenOptions},
   io::ErrorKind,
+  panic::{AssertUnwindSafe, catch_unwind},
   path::Path,
 };
 
@@ -40,3 +42,10 @@ pub(crate) fn create_output(path: &Path, replace: bool) -> Result<File> {
     _ => err.into(),
   })
 }
+
+/// Report a panic while processing a (corrupt) file as decoder error
+///
+/// The caller owns an output file that must be cleaned up in this case, too.
+pub(crate) fn contain_panic<T>(op: impl FnOnce() -> rawler::Result<T>) -> rawler::Result<T> {
+  catch_unwind(AssertUnwindSafe(op)).unwrap_or_else(|_| Err(RawlerError::DecoderFailed("Processing the file panicked".into())))
+}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index ba81007..5a76ba7 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, create_output};
+use super::{Job, contain_panic, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -80,7 +80,7 @@ impl Raw2Image {
 
     let mut image_file = BufWriter::new(create_output(&self.output, self.replace)?);
 
-    match process_raw_image(&self.input, &mut image_file, &self.params) {
+    match contain_panic(|| process_raw_image(&self.input, &mut image_file, &self.params)) {
       Ok(_) => {
         let finish = || -> Result<()> {
           let file = image_file
diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index bdb0a9f..71ad417 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, contain_panic};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -101,7 +101,7 @@ impl Raw2DngJob {
     }
     let mut dng = BufWriter::new(file);
 
-    match convert_raw_file(&self.input, &mut dng, &self.params) {
+    match contain_panic(|| convert_raw_file(&self.input, &mut dng, &self.params)) {
       Ok(info) => {
         let finish = || -> Result<()> {
           let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access DNG inner file: {e}")))?;
-- 
2.43.0


From 11111252430fb57e4f40e8711bcafdf05b5b8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:08 +0000
Subject: [PATCH 16/33] fix: refuse to replace the input file with its own
 output

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  |  3 ++-
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 11 +++++++++++
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs |  3 ++-
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs     |  3 ++-
 bin/dnglab/dnglab-lib/src/makedng.rs          |  6 +++++-
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a41fda3..9cee8e1 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, create_output};
+use super::{Job, create_output, ensure_distinct};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -71,6 +71,7 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
+        ensure_distinct(&self.input, &self.output)?;
         let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
         if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
           drop(original);
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index 2738be9..d759373 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -43,6 +43,17 @@ pub(crate) fn create_output(path: &Path, replace: bool) -> Result<File> {
   })
 }
 
+/// Refuse to use the input file as output file
+///
+/// With `--override` the output is removed or truncated before the input is
+/// read, so the input would be lost.
+pub(crate) fn ensure_distinct(input: &Path, output: &Path) -> Result<()> {
+  match (input.canonicalize(), output.canonicalize()) {
+    (Ok(src), Ok(dest)) if src == dest => Err(AppError::General(format!("Input and output are the same file: {}", input.display()))),
+    _ => Ok(()),
+  }
+}
+
 /// Report a panic while processing a (corrupt) file as decoder error
 ///
 /// The caller owns an output file that must be cleaned up in this case, too.
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 5a76ba7..24ddd98 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, contain_panic, create_output};
+use super::{Job, contain_panic, create_output, ensure_distinct};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -78,6 +78,7 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
+    ensure_distinct(&self.input, &self.output)?;
     let mut image_file = BufWriter::new(create_output(&self.output, self.replace)?);
 
     match contain_panic(|| process_raw_image(&self.input, &mut image_file, &self.params)) {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 71ad417..4ee4c8d 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{Job, contain_panic};
+use super::{Job, contain_panic, ensure_distinct};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -78,6 +78,7 @@ impl Raw2DngJob {
       .to_string_lossy()
       .to_string();
 
+    ensure_distinct(&self.input, &self.output)?;
     if self.replace && self.output.exists() {
       remove_file(&self.output)?;
     }
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index b4b280d..23509ea 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use crate::jobs::create_output;
+use crate::jobs::{create_output, ensure_distinct};
 use clap::ArgMatches;
 use clap::builder::{NonEmptyStringValueParser, TypedValueParser};
 
@@ -57,6 +57,10 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     )));
   }
 
+  for input in &inputs {
+    ensure_distinct(input, dest_path)?;
+  }
+
   // From here on, the output file belongs to us and is removed on failure. Any
   // error before must not touch a file that already exists at this location.
   let file = create_output(dest_path, options.get_flag("override"))?;
-- 
2.43.0


From c2154f48fc216669822870502f790c76765ce8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 17/33] fix: makedng and extract remove the incomplete output
 if processing panics

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 5 ++++-
 bin/dnglab/dnglab-lib/src/makedng.rs         | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 9cee8e1..389f67f 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -14,6 +14,7 @@ use std::{
   fmt::Display,
   fs::remove_file,
   io::{BufReader, BufWriter, Cursor, Write},
+  panic::{AssertUnwindSafe, catch_unwind},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
 use tokio::task::spawn_blocking;
@@ -73,7 +74,9 @@ impl ExtractRawJob {
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
         ensure_distinct(&self.input, &self.output)?;
         let mut stream = BufWriter::new(create_output(&self.output, self.replace)?);
-        if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
+        let result = catch_unwind(AssertUnwindSafe(|| original.decompress(&mut stream, !self.skip_checks)))
+          .unwrap_or_else(|_| Err(std::io::Error::other("Decompression of the embedded raw file panicked")));
+        if let Err(err) = result {
           drop(original);
           if let Err(err) = remove_file(&self.output) {
             log::error!("Failed to delete original file after decompress error: {:?}", err);
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 23509ea..a9b11ef 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -4,6 +4,7 @@
 use crate::jobs::{create_output, ensure_distinct};
 use clap::ArgMatches;
 use clap::builder::{NonEmptyStringValueParser, TypedValueParser};
+use futures::FutureExt;
 
 use image::DynamicImage;
 use itertools::Itertools;
@@ -24,6 +25,7 @@ use rawler::tags::{DngTag, TiffCommonTag};
 use std::fs::{File, remove_file};
 use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
+use std::panic::AssertUnwindSafe;
 use std::path::{Path, PathBuf};
 
 use std::str::FromStr;
@@ -65,7 +67,12 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
   // error before must not touch a file that already exists at this location.
   let file = create_output(dest_path, options.get_flag("override"))?;
 
-  match makedng_internal(options, &inputs, &maps, file, dest_path).await {
+  let result = AssertUnwindSafe(makedng_internal(options, &inputs, &maps, file, dest_path))
+    .catch_unwind()
+    .await
+    .unwrap_or_else(|_| Err(crate::AppError::General("Processing the input files panicked".into())));
+
+  match result {
     Ok(_) => Ok(()),
     Err(err) => {
       if let Err(err) = remove_file(dest_path) {
-- 
2.43.0


From 1867555ac4c37c5701611b3e870a7fe790cabe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 18/33] fix: ftpserver must not write the converted DNG through
 a symlink

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index bbc48d0..b3ace8d 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -39,6 +39,10 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
+      // The server has checked `path` only, the DNG must not be written through a link.
+      if std::fs::symlink_metadata(&out_path).is_ok_and(|md| md.is_symlink()) {
+        return Err(std::io::ErrorKind::PermissionDenied.into());
+      }
       let mut dng = BufWriter::new(File::create(&out_path)?);
       let converted = contain_panic(|| convert_raw_source(&rawfile, &mut dng, original_filename, &state.params))
         .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))
-- 
2.43.0


From c1c7bf62c3dbfda293728d8899302bed6680ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:07 +0000
Subject: [PATCH 19/33] fix: process-raw removes output when taking over the
 mtime panics

---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index 24ddd98..3ecd9fb 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -94,7 +94,7 @@ impl Raw2Image {
           }
           Ok(())
         };
-        if let Err(err) = finish() {
+        if let Err(err) = contain_panic(|| Ok(finish())).unwrap_or_else(|err| Err(err.into())) {
           if let Err(err) = remove_file(&self.output) {
             log::error!("Failed to delete incomplete output file: {:?}", err);
           }
-- 
2.43.0


From 02eeeeda81e01ade8f62425ea5c7a17e7c6a7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:55 +0000
Subject: [PATCH 20/33] fix: makedng --artist must not be replaced by the
 artist of the EXIF input

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index a9b11ef..ae3a0bb 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -96,10 +96,6 @@ async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&In
 
   let mut dng = DngWriter::new(&mut stream, backward_version)?;
 
-  if let Some(artist) = options.get_one::<String>("artist") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
-  }
-
   if let Some(make) = options.get_one::<String>("make") {
     dng.root_ifd_mut().add_tag(TiffCommonTag::Make, make);
   }
@@ -222,6 +218,11 @@ async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&In
     eprintln!("No EXIF input file found");
   }
 
+  // Must follow the metadata from the EXIF input, which may contain an artist, too.
+  if let Some(artist) = options.get_one::<String>("artist") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
+  }
+
   if let Ok(xmp_input) = get_input_path(inputs, maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
-- 
2.43.0


From 26e0c8ead435693b6bee75e8a0c1f993cd3b9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 21/33] fix: write CFARepeatPatternDim as rows and columns, not
 columns and rows

---
 rawler/src/dng/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 4911eb6..61544ed 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -284,7 +284,7 @@ where
         let cfa = config.cfa.shift(active_area.p.x, active_area.p.y);
         self
           .ifd_mut()
-          .add_tag(TiffCommonTag::CFARepeatPatternDim, [cfa.width as u16, cfa.height as u16]);
+          .add_tag(TiffCommonTag::CFARepeatPatternDim, [cfa.height as u16, cfa.width as u16]); // rows, columns
         self.ifd_mut().add_tag(TiffCommonTag::CFAPattern, &cfa.flat_pattern()[..]);
         self.ifd_mut().add_tag(TiffCommonTag::PhotometricInt, PhotometricInterpretation::CFA);
         self.ifd_mut().add_tag(DngTag::CFAPlaneColor, &config.colors);
-- 
2.43.0


From 06626a81474b497e81841fd32ff7708bdca326d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 22/33] fix: embedded TIFF values of type FLOAT, SSHORT and
 SBYTE must keep their bits

---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..e39a15c 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From 1f4b8b52aa575e8af8fe68219fb02d8b20e22501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 23/33] fix: HostComputer is EXIF tag 0x013c

---
 rawler/src/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/tags.rs b/rawler/src/tags.rs
index 889b8cb..646e964 100644
--- a/rawler/src/tags.rs
+++ b/rawler/src/tags.rs
@@ -218,7 +218,7 @@ pub enum ExifTag {
   Software = 0x0131,
   ModifyDate = 0x0132,
   Artist = 0x013b,
-  HostComputer = 0x0103c,
+  HostComputer = 0x013c,
   Predictor = 0x013d,
   WhitePoint = 0x013e,
   PrimaryChromaticities = 0x013f,
-- 
2.43.0


From 6eda4893d136f0d5203efc30e97385b21b2bf9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 24/33] fix: PreviewColorSpace ProPhoto RGB is 4

---
 rawler/src/formats/tiff/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/mod.rs b/rawler/src/formats/tiff/mod.rs
index c52dadc..bc0088e 100644
--- a/rawler/src/formats/tiff/mod.rs
+++ b/rawler/src/formats/tiff/mod.rs
@@ -104,7 +104,7 @@ pub enum PreviewColorSpace {
   GrayGamma = 1,
   SRgb = 2,
   AdobeRGB = 3,
-  ProPhotoRGB = 5,
+  ProPhotoRGB = 4,
 }
 
 impl ExtractFromIFD for PreviewColorSpace {
-- 
2.43.0


From 90f10d4e6a2e358636d1c72d2fc59e92a0b4fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 25/33] fix: makedng writes WhiteLevel of 8 bit images as SHORT
 instead of SLONG

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index ae3a0bb..4f6db41 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -135,7 +135,7 @@ async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&In
           } else {
             // We have no linearization table, so from 8 bit image there is a maximum
             // white level of 255.
-            frame.ifd_mut().add_tag(DngTag::WhiteLevel, [255, 255, 255]);
+            frame.ifd_mut().add_tag(DngTag::WhiteLevel, [255_u16, 255, 255]);
           }
 
           frame.finalize()?;
-- 
2.43.0


From c7209059f709affe3a2b9f3565a5047699e2b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 26/33] fix: write Compression and Predictor of developed TIFF
 files as SHORT instead of SLONG

---
 rawler/src/imgop/develop.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 96d7e44..5b975b5 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -9,7 +9,7 @@ use crate::{
   RawImage,
   decoders::{RawDecodeParams, RawMetadata},
   dng::CropMode,
-  formats::tiff::{DirectoryWriter, TiffWriter},
+  formats::tiff::{CompressionMethod, DirectoryWriter, Predictor, TiffWriter},
   imgop::{
     chromatic_adaption::adapt_bradford,
     fuji_rotate::fuji_normalize_rotation,
@@ -357,8 +357,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 1, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, CompressionMethod::LZW);
+        root_ifd.add_tag(TiffCommonTag::Predictor, Predictor::None);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16]);
@@ -373,8 +373,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 3, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, CompressionMethod::LZW);
+        root_ifd.add_tag(TiffCommonTag::Predictor, Predictor::None);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16]);
@@ -389,8 +389,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 4, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, CompressionMethod::LZW);
+        root_ifd.add_tag(TiffCommonTag::Predictor, Predictor::None);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16, 16]); // Extra-channel, even if PhotometricInt is RGB!
-- 
2.43.0


From 28251ab1de8cbe8e825f5d0fdc67101d4a109e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 27/33] fix: remove the shadowed second definition of the
 Panasonic DMC-FZ2000

The camera is an alias of the DMC-FZ2500, whose entry always replaced this one.
The two disagreed about the white level.
---
 rawler/data/cameras/panasonic/fz2000.toml | 12 ------------
 1 file changed, 12 deletions(-)
 delete mode 100644 rawler/data/cameras/panasonic/fz2000.toml

diff --git a/rawler/data/cameras/panasonic/fz2000.toml b/rawler/data/cameras/panasonic/fz2000.toml
deleted file mode 100644
index 870125b..0000000
--- a/rawler/data/cameras/panasonic/fz2000.toml
+++ /dev/null
@@ -1,12 +0,0 @@
-make = "Panasonic"
-model = "DMC-FZ2000"
-clean_make = "Panasonic"
-clean_model = "DMC-FZ2000"
-#blackpoint = 142
-whitepoint = 2095
-color_pattern = "GBRG"
-
-[cameras.color_matrix]
-A = [0.772, -0.3126, -0.0163, -0.3867, 1.1799, 0.2339, -0.0433, 0.1183, 0.5996]
-D65 = [0.7386, -0.2443, -0.0743, -0.3437, 1.1864, 0.1757, -0.0608, 0.166, 0.4766]
-
-- 
2.43.0


From 787dfa9a3daff298d66d8585a04f23a39b5c5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 28/33] fix: two lenses could not be found by their name
 because of a misspelt key

---
 rawler/data/lenses/ef_mount/canon.toml  | 2 +-
 rawler/data/lenses/ef_mount/tamron.toml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/data/lenses/ef_mount/canon.toml b/rawler/data/lenses/ef_mount/canon.toml
index feef36c..262e744 100644
--- a/rawler/data/lenses/ef_mount/canon.toml
+++ b/rawler/data/lenses/ef_mount/canon.toml
@@ -1349,7 +1349,7 @@ make = "Canon"
 model = "EF 70-200mm f/2.8L IS III USM + 2x"
 focal_range = [[70, 1], [200, 1]]
 aperture_range = [[28, 10], [28, 10]]
-keyname = "EF70-200mm f/2.8L IS II USM +2x III"
+key = "EF70-200mm f/2.8L IS II USM +2x III"
 
 [[lenses]]
 mount = "ef-mount"
diff --git a/rawler/data/lenses/ef_mount/tamron.toml b/rawler/data/lenses/ef_mount/tamron.toml
index 97b4b78..5510ab7 100644
--- a/rawler/data/lenses/ef_mount/tamron.toml
+++ b/rawler/data/lenses/ef_mount/tamron.toml
@@ -320,7 +320,7 @@ make = "Tamron"
 model = "100-400mm f/4.5-6.3 Di VC USD (A035)"
 focal_range = [[100, 1], [400, 1]]
 aperture_range = [[45, 10], [63, 10]]
-keyname = "TAMRON 100-400mm F/4.5-6.3 Di VC USD A035"
+key = "TAMRON 100-400mm F/4.5-6.3 Di VC USD A035"
 
 [[lenses]]
 mount = "ef-mount"
-- 
2.43.0


From ef02d4034ee7b8f90c86df0ba8bee64a2dc86237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 29/33] fix: write DNG areas and crops of images wider or
 higher than 65535 pixels uncut

---
 rawler/src/dng/mod.rs    | 10 +++++-----
 rawler/src/dng/writer.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rawler/src/dng/mod.rs b/rawler/src/dng/mod.rs
index 1a39c83..396de21 100644
--- a/rawler/src/dng/mod.rs
+++ b/rawler/src/dng/mod.rs
@@ -19,12 +19,12 @@ pub const DNG_VERSION_V1_6: [u8; 4] = [1, 6, 0, 0];
 ///
 /// DNG ActiveArea  is:
 ///  Top, Left, Bottom, Right
-pub fn rect_to_dng_area(area: &Rect) -> [u16; 4] {
+pub fn rect_to_dng_area(area: &Rect) -> [u32; 4] {
   [
-    area.p.y as u16,
-    area.p.x as u16,
-    area.p.y as u16 + area.d.h as u16,
-    area.p.x as u16 + area.d.w as u16,
+    area.p.y as u32,
+    area.p.x as u32,
+    area.p.y as u32 + area.d.h as u32,
+    area.p.x as u32 + area.d.w as u32,
   ]
   /*
   [
diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 61544ed..dd8ec71 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -200,9 +200,9 @@ where
         assert!(crop.p.y >= active_area.p.y);
         self.ifd_mut().add_tag(
           DngTag::DefaultCropOrigin,
-          [(crop.p.x - active_area.p.x) as u16, (crop.p.y - active_area.p.y) as u16],
+          [(crop.p.x - active_area.p.x) as u32, (crop.p.y - active_area.p.y) as u32],
         );
-        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u16, crop.d.h as u16]);
+        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u32, crop.d.h as u32]);
       }
       CropMode::Best => {
         let crop = rawimage.crop_area.unwrap_or(active_area);
@@ -210,9 +210,9 @@ where
         assert!(crop.p.y >= active_area.p.y);
         self.ifd_mut().add_tag(
           DngTag::DefaultCropOrigin,
-          [(crop.p.x - active_area.p.x) as u16, (crop.p.y - active_area.p.y) as u16],
+          [(crop.p.x - active_area.p.x) as u32, (crop.p.y - active_area.p.y) as u32],
         );
-        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u16, crop.d.h as u16]);
+        self.ifd_mut().add_tag(DngTag::DefaultCropSize, [crop.d.w as u32, crop.d.h as u32]);
       }
       CropMode::None => {}
     }
@@ -267,7 +267,7 @@ where
     }
 
     if !rawimage.blackareas.is_empty() {
-      let data: Vec<u16> = rawimage.blackareas.iter().flat_map(rect_to_dng_area).collect();
+      let data: Vec<u32> = rawimage.blackareas.iter().flat_map(rect_to_dng_area).collect();
       self.ifd_mut().add_tag(DngTag::MaskedAreas, &data);
     }
 
-- 
2.43.0


From 1f7b2440406133157cd28cde65e1fcfe1cb3678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 30/33] fix: write the real size of developed images wider or
 higher than 65535 pixels

---
 rawler/src/imgop/develop.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 5b975b5..125ba8d 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -365,8 +365,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [1_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::ThreeColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -381,8 +381,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [3_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
       Intermediate::FourColor(pixels) => {
         let data = convert_from_f32_scaled_u16(&pixels.flatten(), 0, u16::MAX);
@@ -397,8 +397,8 @@ impl RawDevelop {
         root_ifd.add_tag(TiffCommonTag::SamplesPerPixel, [4_u16]);
         root_ifd.add_tag(TiffCommonTag::PhotometricInt, [2_u16]);
         root_ifd.add_tag(TiffCommonTag::RowsPerStrip, strip_rows);
-        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u16);
-        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u16);
+        root_ifd.add_tag(TiffCommonTag::ImageWidth, pixels.width as u32);
+        root_ifd.add_tag(TiffCommonTag::ImageLength, pixels.height as u32);
       }
     }
 
-- 
2.43.0


From 4e68c454151b420a276383a577fe893789ba494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:35 +0000
Subject: [PATCH 31/33] fix: reject BMFF boxes that are smaller than their
 header

A box of size 0 (or one whose end wraps around) inside of a container box
moved the reader back to its own start, so parsing a damaged CR3 file never
ended and used up all memory.
---
 rawler/src/formats/bmff/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/formats/bmff/mod.rs b/rawler/src/formats/bmff/mod.rs
index 4127787..774ec10 100644
--- a/rawler/src/formats/bmff/mod.rs
+++ b/rawler/src/formats/bmff/mod.rs
@@ -82,6 +82,10 @@ impl BoxHeader {
     }
 
     let current = reader.stream_position()?;
+    if size < current - start || start.checked_add(size).is_none() {
+      // Such a box would end before its own content, reading it would never make progress.
+      return Err(BmffError::Parse(format!("Invalid size {} of box {} at offset {}", size, typ, start)));
+    }
     Ok(BoxHeader {
       size,
       typ,
-- 
2.43.0


From 21b7148c481b6dd9324630aec1966eb685ca25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 32/33] fix: continue with the next JFIF segment after an
 unreadable APP1

The marker was evaluated again instead of reading the next one, so a JPEG
file which ends behind a damaged EXIF segment was read forever.
---
 rawler/src/formats/jfif.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 05f8964..491e104 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -232,6 +232,8 @@ impl Jfif {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
           Err(err) => {
             log::warn!("Failed to read APP1 (EXIF) segement, maybe corrupt: {:?}", err);
+            pos = reader.stream_position()?;
+            sym = reader.read_u16::<BigEndian>().ok();
             continue;
           }
         },
-- 
2.43.0


From b5e22b60ee8bdafd637b3b0fda5d4c41bdee3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 33/33] fix: do not wrap the block length of MRW files

A block length of 0xFFFFFFF8 wraps around to 0, so the block list of such a
file was read forever (or panicked with overflow checks).
---
 rawler/src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/mrw.rs b/rawler/src/decoders/mrw.rs
index 263d7b3..bd437c2 100644
--- a/rawler/src/decoders/mrw.rs
+++ b/rawler/src/decoders/mrw.rs
@@ -182,7 +182,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len + 8) as usize;
+      currpos += len as usize + 8;
     }
 
     let tiff_data = file.subview_until_eof(tiffpos as u64)?;
-- 
2.43.0

