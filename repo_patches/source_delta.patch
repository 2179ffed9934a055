From 8a34fbc83ed16397df6f4ac4087decce9b0938c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 01/11] fix: include the last row group in stripe and file
 statistics

The stripe statistics were taken before write_index_streams() closed the
last, partially filled row group, so its values were missing from the
statistics of the stripe and of the file.
---
 src/writer/stripe.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 15f51a3..983df22 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -80,12 +80,15 @@ impl Stripe {
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
-        let mut statistics: Vec<Statistics> = Vec::new();
-        self.data.statistics(&mut statistics);
 
         let index_start_pos = out.pos();
         self.data.write_index_streams(out, &mut stream_infos)?;
 
+        // Writing the index closes the last row group of every column, so the stripe's statistics
+        // are only complete from here on.
+        let mut statistics: Vec<Statistics> = Vec::new();
+        self.data.statistics(&mut statistics);
+
         let data_start_pos = out.pos();
         self.data.write_data_streams(out, &mut stream_infos)?;
         
-- 
2.43.0


From 4892a66fbf8fe95a689c32e070fc55bfea1ce427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 02/11] fix: encode nanoseconds without overflowing 32 bits

nanos_val << 3 was computed in u32 and lost the top bits of nanosecond
values of 2^29 and above that have no trailing zeros to strip.
---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 465b2b6..8063f10 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -127,7 +127,7 @@ impl TimestampData {
 
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
-        self.streams.nanos.write((nanos_val << 3 | trailing_zeros) as u64);
+        self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
-- 
2.43.0


From e2617870f0227cd04fe23f4bb62b68650f8e8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 03/11] fix: give timestamp statistics in milliseconds since
 the UNIX epoch

The minimum and maximum were relative to 2015-01-01, so readers using
them to skip data would look in the wrong place; instants far from the
origin overflowed.
---
 src/writer/data/timestamp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 8063f10..8f694f3 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -128,7 +128,9 @@ impl TimestampData {
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
-        self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
+        // Statistics are in milliseconds since the UNIX epoch, while `sec` counts from the ORC origin.
+        let millis = (sec as i128 - Self::EPOCH_SECONDS as i128) * 1000 + (nanos / 1000000) as i128;
+        self.row_group_stats.update(millis.max(i64::MIN as i128).min(i64::MAX as i128) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0


From 5cee55aec86f3bbd9e1d5df0c7698e58302625be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 04/11] fix: write the header and the postscript length
 completely

write() may accept only part of the bytes, or fail with Interrupted,
without that being an error.
---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index bd7aa2d..5dc7ec5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -107,14 +107,14 @@ impl<W: Write> Writer<W> {
 
         let end_pos = self.inner.pos();
         let postscript_length = (end_pos - postscript_start_pos) as u8;
-        self.inner.write(slice::from_ref(&postscript_length))?;
+        self.inner.write_all(slice::from_ref(&postscript_length))?;
 
         self.inner.flush()?;
         Ok(self.inner.into_inner())
     }
 
     fn write_header(&mut self) -> Result<()> {
-        self.inner.write(b"ORC")?;
+        self.inner.write_all(b"ORC")?;
         Ok(())
     }
 
-- 
2.43.0


From 017d280de0a4a0ebf80bdae40472fa2d9d90b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 05/11] fix: keep NaN out of floating-point minimum and maximum

A NaN at the start of a row group became its minimum and maximum and was
never replaced, hiding the values that followed.
---
 src/writer/statistics/double.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/writer/statistics/double.rs b/src/writer/statistics/double.rs
index f107b95..354799d 100644
--- a/src/writer/statistics/double.rs
+++ b/src/writer/statistics/double.rs
@@ -47,8 +47,11 @@ impl DoubleStatistics {
     pub fn update(&mut self, x: f64) {
         self.num_values += 1;
         self.num_present += 1;
-        merge_min(&mut self.min, Some(x));
-        merge_max(&mut self.max, Some(x));
+        // NaN is not ordered, and must not become a bound.
+        if !x.is_nan() {
+            merge_min(&mut self.min, Some(x));
+            merge_max(&mut self.max, Some(x));
+        }
         self.sum += x;
     }
 }
-- 
2.43.0


From 1b08c0722003429bd33a717614c181c5d13a2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 06/11] fix: format the smallest decimal without overflow

Negating i128::MIN overflows.
---
 src/writer/statistics/decimal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/writer/statistics/decimal.rs b/src/writer/statistics/decimal.rs
index cda4aab..58d8e1a 100644
--- a/src/writer/statistics/decimal.rs
+++ b/src/writer/statistics/decimal.rs
@@ -67,13 +67,13 @@ impl DecimalStatistics {
         merge_sum(&mut self.sum, Some(x));
     }
 
-    pub fn format(&self, mut val: i128) -> String {
+    pub fn format(&self, val: i128) -> String {
         let mut out = String::new();
         if val < 0 {
             out.push_str("-");
-            val = -val;
         }
-        let modulus = 10i128.pow(self.scale);
+        let val = val.unsigned_abs();
+        let modulus = 10u128.pow(self.scale);
         let quo = val / modulus;
         let rem = val % modulus;
         write!(&mut out, "{}", quo).unwrap();
-- 
2.43.0


From 5562be0b3b0f763cee5b8730b2e291f52e4ffd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 07/11] fix: never exceed the compression block size

A write longer than the remaining space was split only once: the rest
went into the next block whole, however long, giving chunks larger than
the declared block size (and, beyond 8 MiB, corrupt chunk headers). The
buffer also grew by this, so later blocks were too large as well.
---
 src/writer/compression.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/writer/compression.rs b/src/writer/compression.rs
index bc52cf7..30a46c7 100644
--- a/src/writer/compression.rs
+++ b/src/writer/compression.rs
@@ -94,6 +94,7 @@ struct BlockInfo {
 
 pub(crate) struct CompressionStream {
     compressor: Option<Box<dyn Compressor>>,
+    block_size: usize,
     buf: Buffer,
     output: Buffer,
     output_block_info: Vec<BlockInfo>,
@@ -120,6 +121,8 @@ impl CompressionStream {
     pub fn new(compression: &Compression) -> Self {
         CompressionStream {
             compressor: compression.compressor(),
+            // A block holds at least one byte.
+            block_size: compression.block_size().max(1),
             buf: Buffer::with_capacity(compression.block_size()),
             output: Buffer::new(),
             output_block_info: Vec::new(),
@@ -167,7 +170,7 @@ impl CompressionStream {
 
     #[inline(always)]
     pub fn write_u8(&mut self, b: u8) {
-        if self.buf.len() >= self.buf.capacity() {
+        if self.buf.len() >= self.block_size {
             self.finish_block();
             self.buf.write_u8(b);
         } else {
@@ -178,15 +181,15 @@ impl CompressionStream {
     #[inline(always)]
     pub fn write_bytes(&mut self, bytes: &[u8]) {
         if let Some(_) = &mut self.compressor {
-            if self.buf.len() + bytes.len() > self.buf.capacity() {
-                let i = self.buf.capacity() - self.buf.len();
+            // The bytes may span any number of blocks, and no block may exceed the block size.
+            let mut bytes = bytes;
+            while self.buf.len() + bytes.len() > self.block_size {
+                let i = self.block_size - self.buf.len();
                 self.buf.write_bytes(&bytes[..i]);
                 self.finish_block();
-                self.buf.resize(0);
-                self.buf.write_bytes(&bytes[i..]);
-            } else {
-                self.buf.write_bytes(bytes);
+                bytes = &bytes[i..];
             }
+            self.buf.write_bytes(bytes);
         } else {
             self.buf.write_bytes(bytes);
         }
-- 
2.43.0


From 11dd80cfeef890d0e036da407391b106eb5e1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 08/11] fix: a writer never succeeds after its sink failed

When the sink failed while a stripe was written, a later finish() wrote on
behind the torn stripe and reported success for a corrupt file.
---
 src/writer/count_write.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/writer/count_write.rs b/src/writer/count_write.rs
index 45cbdd2..ad731db 100644
--- a/src/writer/count_write.rs
+++ b/src/writer/count_write.rs
@@ -1,8 +1,10 @@
-use std::io::{Write, Result};
+use std::io::{Error, ErrorKind, Write, Result};
 
 pub struct CountWrite<W: Write> {
     pub inner: W,
     pub count: usize,
+    // Once a write has failed, the sink may lack any part of it, and nothing may follow.
+    failed: bool,
 }
 
 impl<W: Write> CountWrite<W> {
@@ -10,6 +12,7 @@ impl<W: Write> CountWrite<W> {
         CountWrite {
             inner: inner,
             count: 0,
+            failed: false,
         }
     }
 
@@ -24,9 +27,20 @@ impl<W: Write> CountWrite<W> {
 
 impl<W: Write> Write for CountWrite<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let size = self.inner.write(buf)?;
-        self.count += size;
-        Ok(size)
+        if self.failed {
+            return Err(Error::new(ErrorKind::Other, "an earlier write to the sink failed"));
+        }
+        match self.inner.write(buf) {
+            Ok(size) => {
+                self.failed = size == 0 && buf.len() > 0;
+                self.count += size;
+                Ok(size)
+            }
+            Err(e) => {
+                self.failed = e.kind() != ErrorKind::Interrupted;
+                Err(e)
+            }
+        }
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From cc55b9a58ae65855a651ef01250666202dd568cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 09/11] fix: values that belong to no committed batch make
 finish() fail

They were written to the last stripe behind the committed rows, or, without
any committed row, still counted in the file statistics.
---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 5dc7ec5..2daceb6 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -90,6 +90,8 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn finish(mut self) -> Result<W> {
+        // Values that belong to no committed batch must not end up in the last stripe.
+        self.current_stripe.data.verify_row_count(self.current_stripe.num_rows);
         self.current_stripe
             .finish(&mut self.inner, &mut self.stripe_infos)?;
         let content_length = self.current_stripe.offset - Self::HEADER_LENGTH;
-- 
2.43.0


From df57d51e6dee9136754ee84fc52a353d627dc144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 10/11] fix: state the writer's time zone in stripe footers

---
 src/writer/stripe.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 983df22..68df93d 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -71,6 +71,9 @@ impl Stripe {
         self.data.column_encodings(&mut encodings);
         footer.set_columns(RepeatedField::from_vec(encodings));
 
+        // Timestamps count from 2015-01-01 UTC; without this, readers assume their own time zone.
+        footer.set_writerTimezone("UTC".to_owned());
+
         footer.write_to(&mut coded_out)?;
         coded_out.flush()?;
         compressed_stream.finish(out)?;
-- 
2.43.0


From a7929bedd2798681d2c2322cc53102d20ab64034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 11/11] fix: do not let list and map lengths wrap around

---
 src/writer/data/list.rs | 3 ++-
 src/writer/data/map.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/list.rs b/src/writer/data/list.rs
index c106356..5445244 100644
--- a/src/writer/data/list.rs
+++ b/src/writer/data/list.rs
@@ -104,7 +104,8 @@ impl ListData {
     pub fn write(&mut self, len: u64) {
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        // Wrapping around would let lengths pass verify_row_count that do not add up.
+        self.num_child_values = self.num_child_values.checked_add(len).expect("too many child values");
         self.row_group_stats.update();
         self.check_row_group();
     }
diff --git a/src/writer/data/map.rs b/src/writer/data/map.rs
index ca128fd..07d4a0b 100644
--- a/src/writer/data/map.rs
+++ b/src/writer/data/map.rs
@@ -115,7 +115,8 @@ impl MapData {
     pub fn write(&mut self, len: u64) {
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        // Wrapping around would let lengths pass verify_row_count that do not add up.
+        self.num_child_values = self.num_child_values.checked_add(len).expect("too many child values");
         self.row_group_stats.update();
         self.check_row_group();
     }
-- 
2.43.0

