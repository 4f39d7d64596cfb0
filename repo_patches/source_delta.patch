From d7d636f1e07859575756d9f1c665ef1cefb92c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 01/14] fix: reject zero block size in the index header

Parsing any file entry of such an index divided by zero.
---
 src/v1/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..7a6e1ed 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,8 +295,9 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
+                        Some(v) => u64::from_str_radix(v, 10).ok()
+                            .filter(|&size| size > 0)
+                            .ok_or_else(|| ParseRowError::InvalidBlockSize(
                                 v.to_string()))?,
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
-- 
2.43.0


From 2d20f1aa2fcf01695ef1ea864c0e7b3e3ed80d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 02/14] fix: don't overflow when counting blocks of huge file
 sizes

---
 src/v1/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 7a6e1ed..b4c714f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -522,7 +522,12 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let full_blocks = file_size / block_size;
+                let hashes_num = if file_size % block_size > 0 {
+                    full_blocks + 1
+                } else {
+                    full_blocks
+                } as usize;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
-- 
2.43.0


From 9533ce0d8c9b99d11dbf6391bad5e3861f14a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 03/14] fix: limit the size of the hash buffer to the size of
 the line

A huge file size in an index line caused a capacity overflow panic or
a huge allocation.
---
 src/v1/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index b4c714f..bfa6249 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -826,7 +826,11 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // the number of hashes comes from the (untrusted) file size, so limit it
+    // to the number of hashes that can be in the data
+    let max_hashes = data.len() / hash_len;
+    let mut buf = Vec::with_capacity(
+        std::cmp::min(hashes_num, max_hashes) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From be34edb9aea4572333eb54f9b0e473b268da74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 04/14] fix: reject entry names that are not a single path
 component

Such entries (absolute names, '.', '..', slashes, entries before the first
directory) escaped the index root and made comparing entries panic.
---
 src/v1/parser.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bfa6249..a39e356 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -6,7 +6,7 @@ use std::convert::From;
 use std::ffi::{OsStr, OsString};
 use std::os::unix::ffi::{OsStrExt, OsStringExt};
 use std::io::{self, BufRead};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::slice::Chunks;
 use std::str::{self, FromStr};
 
@@ -514,11 +514,23 @@ impl Entry {
     {
         let (entry, tail) = if row.starts_with(b"/") {
             let (path, row) = parse_path_buf(row)?;
+            if path.components().any(|c| c == Component::ParentDir) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Directory path contains '..': {:?}", path)));
+            }
             (Entry::Dir(path), row)
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
-            let (path, row) = parse_path(row)?;
-            let path = current_dir.join(&path);
+            let (name, row) = parse_path(row)?;
+            let path = current_dir.join(&name);
+            if !path.is_absolute() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Entry is outside of any directory: {:?}", name)));
+            }
+            if path.file_name() != Some(name.as_os_str()) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid entry name: {:?}", name)));
+            }
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-- 
2.43.0


From c820bfa8d0a97d44442a1e60f799783f15a39bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 05/14] fix: count each line once in parser error positions

A line left in place by `advance` was counted again when revisited.
---
 src/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index a39e356..92350cb 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -675,8 +675,8 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
+            self.current_row_num += 1;
             read_line(self.reader.by_ref(), &mut self.current_row)
                 .context(self.current_row_num)?;
         }
-- 
2.43.0


From 41d628ddae57d12c698e0a594d869fd9a7844195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 06/14] fix: consume a bad line in EntryIterator::advance

The line was left in the buffer, so the same error repeated forever and a
line cut by the end of file was later parsed as if it were complete.
---
 src/v1/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 92350cb..a35352a 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -735,7 +735,10 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     }
                 },
                 Ok(None) => return None,
-                Err(e) => return Some(Err(e)),
+                Err(e) => {
+                    self.current_row.clear();
+                    return Some(Err(e));
+                }
             }
         }
     }
-- 
2.43.0


From 62a9bad0369a510e33ad64c7faa5a3429ab440d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 07/14] fix: end the iteration after a truncated file or
 trailing data

Iterating over a file without a footer yielded errors forever.
---
 src/v1/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index a35352a..7859fbb 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -677,8 +677,12 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         }
         if self.current_row.is_empty() {
             self.current_row_num += 1;
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            if let Err(e) = read_line(self.reader.by_ref(),
+                &mut self.current_row)
+            {
+                self.exhausted = true;
+                return Err(ErrorEnum::Parse(e, self.current_row_num));
+            }
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
@@ -688,6 +692,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
+                self.exhausted = true;
                 let mut test_buf = [0; 1];
                 if self.reader.read(&mut test_buf)? != 0 {
                     return Err(ErrorEnum::Parse(
@@ -695,7 +700,6 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                             format!("Found extra lines after the footer")),
                         self.current_row_num));
                 }
-                self.exhausted = true;
                 Ok(None)
             },
             Some(entry) => {
-- 
2.43.0


From b05124f70090107340c0b3b38390e673be6e1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 08/14] fix: don't add a hash of an empty block in
 Hashes::hash_file

A file whose size is a multiple of the block size (or zero) got one hash
more than the index contains for it.
---
 src/v1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 7859fbb..3ab8712 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -436,6 +436,9 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From 03d16c718a6b132e1f5db37b34dfe7a930a81315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 09/14] fix: keep the digest intact in get_hash

With progress enabled the hash is requested twice and the footer was the
hash of an empty input.
---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..5e57baa 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..7521c95 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 9886bd7c651d59d93c792ddee1233ebbf230cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 10/14] fix: report a failure to write the footer as a write
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 5e57baa..df7216c 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -162,7 +162,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 7521c95..e2b4c30 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -82,7 +82,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From b66db70368473e84638a90eb85442f2d21e0c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 11/14] fix: flush the index before reporting success

The command line tool lost errors of the final write when its buffered
writer was dropped.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index df7216c..ee585dd 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -162,7 +162,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)?;
+        self.file.file.flush().map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index e2b4c30..8b4cc22 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -82,7 +82,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)?;
+        self.file.file.flush().map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 3b1e24ce6a7023a7f0bd10d1de3442485c50c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 12/14] fix: write the whole blake3 footer line in
 Emitter::finish

It lacked a newline and could be cut by a short write.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..7e8bce6 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{}", self.finalize().to_hex())
     }
 }
 
-- 
2.43.0


From e57be9a5d4a07d255d618e45fc48906dfcc6b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 13/14] fix: don't rely on full reads in get_hash

---
 src/read.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..aa11f4e 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -19,7 +19,7 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
     let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
+    f.read_exact(&mut signature)?;
     if &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
@@ -32,9 +32,7 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
     let mut buf = [0u8; 100];
     assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
-        return Err(io::ErrorKind::UnexpectedEof.into());
-    }
+    f.read_exact(&mut buf[..nbytes])?;
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
         return Err(einval.into());
     }
-- 
2.43.0


From fa25091533faee95e81e3f380823aba44bb2d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 14/14] fix: use the configured queue size

---
 src/v1/mod.rs             | 2 +-
 src/v1/threaded_writer.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..eb17278 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -66,7 +66,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
 {
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
-            config.threads,
+            config.threads, config.queue_size,
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index ee585dd..32ea88a 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -38,7 +38,8 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_size: Option<usize>,
+        mut f: F, hash: H, block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
         writeln!(&mut f,
@@ -52,7 +53,7 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
+            queue_limit: queue_size.unwrap_or(threads*16),
             queue: VecDeque::with_capacity(threads*16),
             pool: CpuPool::new(threads),
         })
-- 
2.43.0

