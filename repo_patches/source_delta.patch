From f3d1c050742acaa2a14bafb2072e5ca342b85b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 01/10] fix: keep the reported position in sync when a missing
 CRC is pending

When a read had already produced output and then had to wait for the CRC of
an entry, it returned early without adding the produced bytes to the position.
`tell()`, relative seeks, `clone()` and `take_pinned()` were off from then on.
---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..d9c1907 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -771,7 +771,7 @@ impl ReadState {
                     Poll::Pending if output.remaining() == initial_remaining => {
                         return Poll::Pending
                     }
-                    _ => return Poll::Ready(Ok(())),
+                    Poll::Pending => break,
                 }
             };
         }
-- 
2.43.0


From 74c8d052713f0940e99eb7253e62d6cd07ab8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 02/10] fix: don't lose output when calculating a missing CRC
 fails

A read that had already produced output and then failed to read the entry data
while calculating a CRC returned an error, so the caller dropped the produced
bytes, although the reader had already moved past them.
---
 src/reader.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index d9c1907..ef4d7cc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -80,6 +80,11 @@ impl<D: EntryData> ReaderEntry<D> {
         }
     }
 
+    /// Returns true if [`ReaderEntry::get_crc`] doesn't have to read the entry data.
+    fn is_crc_available(&self) -> bool {
+        self.crc32.is_some() || self.size == 0
+    }
+
     /// Get the CRC for this entry, possibly recomputing it from the file.
     /// Stores state in `self.crc32` and `pinned`,
     /// Calling this method repeatedly will either return the already computed CRC without changes.
@@ -815,6 +820,12 @@ impl ReadState {
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining
+                        && !entries[entry_index].is_crc_available()
+                    {
+                        // Calculating the CRC can fail, pass on what we have already written first
+                        break;
+                    }
                     zippity_ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
@@ -824,6 +835,12 @@ impl ReadState {
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining
+                        && !entries[entry_index].is_crc_available()
+                    {
+                        // Calculating the CRC can fail, pass on what we have already written first
+                        break;
+                    }
                     zippity_ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
-- 
2.43.0


From c89c2872b5fc35e159128b172caedbd7cf7baafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 03/10] fix: don't poll a completed future after opening an
 entry failed

Reading again after an entry could not be opened polled the already completed
future of `EntryData::get_reader()`, which panics for most futures. Open the
entry again instead.
---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ef4d7cc..bc75ecc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            match ready!(reader_future.as_mut().poll(ctx)) {
+                Ok(reader) => pinned.set(ReaderPinned::FileReader(CrcReader::new(reader))),
+                Err(e) => {
+                    // The future is completed, it must not be polled again.
+                    pinned.set(ReaderPinned::Nothing);
+                    return Poll::Ready(Err(e));
+                }
+            }
         }
 
         match pinned.project() {
-- 
2.43.0


From 71d66458e9c9c6fb89ff3243716026e7d40fc136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 04/10] fix: report the size mismatch again when reading is
 retried

After reporting `ReadError::SizeMismatch` the entry was opened again on the
next read and its data was sent to the output for the second time, possibly
even making up for the missing bytes.
---
 src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index bc75ecc..6652c33 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -613,9 +613,8 @@ impl ReadState {
                 entry.crc32 = Some(actual_crc);
             }
 
-            pinned.set(ReaderPinned::Nothing);
-
             if self.chunk_processed_size == entry.size {
+                pinned.set(ReaderPinned::Nothing);
                 Poll::Ready(Ok(true)) // We're done with this state
             } else {
                 Poll::Ready(Err(ReadError::SizeMismatch {
-- 
2.43.0


From 70e1fc4ac1e0815164ccef9516b1d21f56db7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 05/10] fix: start a new seek in the entry data after a failed
 one

A failed seek was left marked as in progress, so reading again only completed
a seek that was never started and panicked on the unexpected position.
---
 src/crc_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..c5a803a 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From e123083070a187cc3e3e283626ef13ba53a83778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 06/10] fix: don't panic when polling a cloned `BytesStream`

The buffer of the cloned stream had no capacity.
---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..5e8d265 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -15,7 +15,7 @@ use crate::{Reader, entry_data::EntryData, reader::READ_SIZE};
 ///
 /// This is useful for streaming the output of the ZIP reader, for example,
 /// to a network socket or other byte-based sink.
-#[derive(Clone, Debug)]
+#[derive(Debug)]
 #[pin_project]
 pub struct BytesStream<D: EntryData> {
     #[pin]
@@ -77,6 +77,13 @@ impl<D: EntryData> BytesStream<D> {
     }
 }
 
+impl<D: EntryData + Clone> Clone for BytesStream<D> {
+    fn clone(&self) -> Self {
+        // Cloned `BytesMut` would not keep the capacity
+        BytesStream::new(self.reader.clone())
+    }
+}
+
 impl<D: EntryData> From<Reader<D>> for BytesStream<D> {
     fn from(value: Reader<D>) -> Self {
         BytesStream::new(value)
-- 
2.43.0


From 010c3598036738b3484e5ffa79bbfae3b97617b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 07/10] fix: use the documented 1980-01-01T00:00:00 as the
 default datetime

The default was all zeros, which is day 0 of month 0.
---
 src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..40e6fbf 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,23 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// 1980-01-01T00:00:00, all zeros would be a nonexistent date.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From fa1f22e0f789bb23abf3b87fa007468c9e423b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 08/10] fix: make `datetime*_or_default()` fall back to the
 default

`datetime_or_default()`, `datetime_system_or_default()` and `metadata()` kept
the previously set value when the new one was not representable, contrary to
the documentation and to `datetime_fields_or_default()`.
---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..7ecf64f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,15 +190,14 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
             datetime.hour(),
             datetime.minute(),
             datetime.second(),
-        );
-        self
+        )
     }
 
     /// Sets the entry to be a file.
-- 
2.43.0


From 91546e04b44ef90335f147851e3e144f8ff70e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 09/10] fix: don't panic on system times that chrono can't
 represent

Builder::system_time_timezone() converter panicked for (for example) file
modification times after year 262142, instead of treating them as out of range.
---
 src/builder.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7ecf64f..4ce6467 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -522,12 +522,30 @@ fn system_timezone_converter<Tz>(
 where
     Tz: TimeZone + 'static,
 {
-    use chrono::{DateTime, Utc};
+    use chrono::{DateTime, Offset as _};
 
     move |system_time| {
-        let naive = DateTime::<Utc>::from(system_time)
-            .with_timezone(&tz)
-            .naive_local();
+        // `DateTime::from(SystemTime)` and `DateTime::naive_local()` would panic for times that
+        // chrono can't represent. Fractions of a second are not needed.
+        let timestamp = match system_time.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(since) => i64::try_from(since.as_secs()).ok(),
+            Err(e) => {
+                let before = e.duration();
+                let round_down = i64::from(before.subsec_nanos() > 0);
+                i64::try_from(before.as_secs())
+                    .ok()
+                    .map(|seconds| -seconds - round_down)
+            }
+        };
+        let naive = timestamp
+            .and_then(|timestamp| DateTime::from_timestamp(timestamp, 0))
+            .map(|utc| utc.naive_utc())
+            .and_then(|utc| utc.checked_add_offset(tz.offset_from_utc_datetime(&utc).fix()));
+
+        let Some(naive) = naive else {
+            // Far out of the range of zip timestamps
+            return (i32::MAX, 1, 1, 0, 0, 0);
+        };
         (
             naive.year(),
             naive.month(),
-- 
2.43.0


From 4528d5e2e4a1e9f7616a30055dda27ed9cf02586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 10/10] Verification hook: export EntryReader with --cfg
 zippity_verif

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5a38bef..427f460 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)] // zippity_verif
 
 mod builder;
 mod crc_reader;
@@ -20,6 +21,9 @@ mod test_util;
 
 pub use builder::{AddEntryError, Builder, BuilderEntry};
 pub use entry_data::EntryData;
+// Verification hook: lets data sources be driven on their own.
+#[cfg(zippity_verif)]
+pub use entry_data::EntryReader;
 pub use reader::{ReadError, Reader};
 
 #[cfg(feature = "actix-web")]
-- 
2.43.0

