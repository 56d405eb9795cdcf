From 2bffae4308ac0c59d0471ef469359540a617206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:24 +0000
Subject: [PATCH 01/46] fix: build ebi without the ffi_alp feature

With default features off the ALP compressor module, the match arms that
name it and its scheme id were still compiled (or missing), so the crate
did not build without the native ALP library.
---
 ebi/src/compressor.rs | 13 ++++++++-----
 ebi/src/format.rs     |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebi/src/compressor.rs b/ebi/src/compressor.rs
index 2025644..59c2479 100644
--- a/ebi/src/compressor.rs
+++ b/ebi/src/compressor.rs
@@ -26,7 +26,7 @@ pub mod buff;
 pub mod chimp;
 pub mod chimp_n;
 pub mod elf;
-// #[cfg(feature = "ffi_alp")]
+#[cfg(feature = "ffi_alp")]
 pub mod ffi_alp;
 pub mod general_xor;
 pub mod gorilla;
@@ -302,8 +302,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => {}
+            | CompressorConfig::Snappy(_) => {}
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => {}
         }
     }
 
@@ -320,8 +321,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => None,
+            | CompressorConfig::Snappy(_) => None,
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => None,
         }
     }
 
@@ -358,6 +360,7 @@ impl CompressorConfig {
             CompressorConfig::Zstd(mut c) => just_write!(c, w),
             CompressorConfig::Gzip(mut c) => just_write!(c, w),
             CompressorConfig::Snappy(mut c) => just_write!(c, w),
+            #[cfg(feature = "ffi_alp")]
             CompressorConfig::FFIAlp(mut c) => just_write!(c, w),
         }
 
diff --git a/ebi/src/format.rs b/ebi/src/format.rs
index f4b9ca3..d42d00f 100644
--- a/ebi/src/format.rs
+++ b/ebi/src/format.rs
@@ -195,6 +195,7 @@ pub enum CompressionScheme {
     Zstd = 9,
     Gzip = 10,
     Snappy = 11,
+    #[cfg(feature = "ffi_alp")]
     FFIAlp = 12,
 }
 
-- 
2.43.0


From 4f77f792a215f9c1dd7e2b1079bdf2801f600b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:44 +0000
Subject: [PATCH 02/46] fix: BufferedBitReader reads past the end return None
 after skipping beyond it

---
 ebi/src/io/bit_read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..1023a45 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,9 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        let available_bits = (self.buffer.as_ref().len().saturating_sub(self.byte_pos) * 8)
+            .saturating_sub(self.bit_pos);
+        if available_bits < n as usize {
             return None;
         }
 
-- 
2.43.0


From 8c7b9a79d62cd8de3e8104215cdb1a1ca3e7610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:44 +0000
Subject: [PATCH 03/46] fix: rewinding the uncompressed compressor takes the
 records out of total_bytes_in

---
 ebi/src/compressor/uncompressed.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..7a938cf 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -87,6 +87,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From 9ee85b61bdf2611faeeacc0c4d75ca69d5ad11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:45 +0000
Subject: [PATCH 04/46] fix: run length compressor accepts an empty input

---
 ebi/src/compressor/run_length.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebi/src/compressor/run_length.rs b/ebi/src/compressor/run_length.rs
index f9a0eef..ec041bb 100644
--- a/ebi/src/compressor/run_length.rs
+++ b/ebi/src/compressor/run_length.rs
@@ -63,6 +63,9 @@ impl Default for RunLengthCompressor {
 impl Compressor for RunLengthCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
         self.reset();
+        if input.is_empty() {
+            return Ok(());
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
@@ -139,6 +142,9 @@ impl Compressor for RunLengthCompressor {
 
 impl AppendableCompressor for RunLengthCompressor {
     fn append_compress(&mut self, input: &[f64]) {
+        if input.is_empty() {
+            return;
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
-- 
2.43.0


From ee605e5332223ad93cdacb112a53621c39d84351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:45 +0000
Subject: [PATCH 05/46] fix: Elf encoder does not shift by 64 for words with 63
 trailing zeros

---
 ebi/src/compressor/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..8639918 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -196,7 +196,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -249,7 +249,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -258,7 +258,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From 4150ed1e4f56ed2cdf525b202c07418d92ffcd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:12 +0000
Subject: [PATCH 06/46] fix: XOR compressors count buffered bits, not padded
 bytes, in total_bytes_buffered

---
 ebi/src/compressor/general_xor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/compressor/general_xor.rs b/ebi/src/compressor/general_xor.rs
index c7b79a0..351655c 100644
--- a/ebi/src/compressor/general_xor.rs
+++ b/ebi/src/compressor/general_xor.rs
@@ -148,7 +148,7 @@ impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T> {
 
     fn total_bytes_buffered(&self) -> usize {
         // EOF: f64::NAN + 1 bit
-        let n_bits = self.w.as_slice().len() * 8 + self.encoder.simulate_close();
+        let n_bits = self.w.number_of_bits_written() + self.encoder.simulate_close();
 
         n_bits.next_multiple_of(8) / 8
     }
-- 
2.43.0


From 5cce46f29e968ff7cda4877f173e871b452da47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:12 +0000
Subject: [PATCH 07/46] fix: encoder retries interrupted reads instead of
 ending the chunk early

---
 ebi/src/encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..570c073 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,10 +280,8 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                 if n_read == 0 {
                     return Err(e.into());
                 }
-- 
2.43.0


From c74f3870c62967912d1d1c041154de85b9caae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 08/46] fix: decompress_iter always starts at the first record
 of the chunk

---
 ebi/src/decoder/chunk_reader/chimp_n.rs      |  1 +
 ebi/src/decoder/chunk_reader/general_xor.rs  |  1 +
 ebi/src/decoder/chunk_reader/run_length.rs   | 16 +++++++++++++---
 ebi/src/decoder/chunk_reader/sprintz.rs      |  1 +
 ebi/src/decoder/chunk_reader/uncompressed.rs |  8 +++++---
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..22de353 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..82958c4 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,15 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> RunLengthReaderImpl<R> {
+    fn seek_to_first_field(&mut self) -> io::Result<()> {
+        self.reader
+            .seek(SeekFrom::Start(size_of::<RunLengthHeader>() as u64))?;
+        Ok(())
+    }
+}
+
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -72,6 +80,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
 
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
+        self.seek_to_first_field()?;
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
@@ -99,6 +108,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.seek_to_first_field()?;
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +167,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..a0fedf7 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -58,6 +58,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..01731ff 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +80,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader.rewind()?;
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +125,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From 7c20050149e0aca9b44df7ee1e6a2ef0d131af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 09/46] fix: Sprintz min of an already decompressed chunk is
 the minimum

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index a0fedf7..fea6113 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -211,7 +212,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From 17dfa1a5119d6d7eb28f902cc94443b915ac01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 10/46] fix: Sprintz sum over no selected record of the chunk
 is 0

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index fea6113..4c286e8 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -290,7 +290,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 7d1e2dad7a1004e24fefafa7548d4a9ad1acec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:22 +0000
Subject: [PATCH 11/46] fix: BUFF filter returns only records of the given
 bitmask

---
 ebi/src/decoder/chunk_reader/buff.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..8ef4bf0 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -145,6 +145,11 @@ impl QueryExecutor for BUFFReader {
             all.insert_range(logical_offset..(number_of_records + logical_offset));
             all
         };
+        // The comparisons may answer for the whole chunk without looking at the bitmask.
+        let within_bitmask = |result: RoaringBitmap| match &bitmask {
+            Some(bitmask) => result & bitmask,
+            None => result,
+        };
         let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
         let result = match predicate {
             p @ (Predicate::Eq(pred) | Predicate::Ne(pred)) => {
@@ -160,7 +165,7 @@ impl QueryExecutor for BUFFReader {
                 } else {
                     // Predicate::Ne
                     #[allow(clippy::suspicious_operation_groupings)]
-                    if let Some(bitmask) = bitmask {
+                    if let Some(bitmask) = &bitmask {
                         bitmask - result
                     } else {
                         all() - result
@@ -209,13 +214,7 @@ impl QueryExecutor for BUFFReader {
                 };
 
                 match (left, right) {
-                    (None, None) => {
-                        if let Some(bitmask) = bitmask {
-                            bitmask
-                        } else {
-                            all()
-                        }
-                    }
+                    (None, None) => all(),
                     (None, Some(right)) => right,
                     (Some(left), None) => left,
                     (Some(left), Some(right)) => left & right,
@@ -223,6 +222,7 @@ impl QueryExecutor for BUFFReader {
             }
         };
 
+        let result = within_bitmask(result);
         comparison_timer.stop();
         Ok(result)
     }
-- 
2.43.0


From 29e8633f8d6dd61ea9f58ec159278099a6c4c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:22 +0000
Subject: [PATCH 12/46] fix: BUFF equality filter matches nothing above the
 range of the chunk

---
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..dc6de22 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -112,6 +112,10 @@ pub(crate) fn buff_simd256_equal_filter(
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    // No value of the chunk is as large as the predicate
+    if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0


From c74d0a1f9a9aae3c3016a67fcab64a99d2881653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 13/46] fix: BUFF sum of a constant chunk counts only the
 selected records

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..f63a78a 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -80,7 +80,8 @@ pub(super) fn sum_with_bitmask(
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        let n_selected = bitmask.map_or(number_of_records as u64, |b| b.len());
+        return Ok(fp * n_selected as f64);
     }
 
     let mut sum = 0;
-- 
2.43.0


From 3203cd604914ef618ed15cbef952c960d18a3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:38 +0000
Subject: [PATCH 14/46] fix: BUFF and Zstd compressors forget the previous
 input on compress

---
 ebi/src/compressor/buff.rs | 1 +
 ebi/src/compressor/zstd.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 8c62872..08d3ac7 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -45,6 +45,7 @@ impl BUFFCompressor {
 
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
         let precalculated = Precalculated::precalculate(self.scale as usize, data);
         quantization_timer.stop();
diff --git a/ebi/src/compressor/zstd.rs b/ebi/src/compressor/zstd.rs
index aafe28f..4a6f1fa 100644
--- a/ebi/src/compressor/zstd.rs
+++ b/ebi/src/compressor/zstd.rs
@@ -47,6 +47,7 @@ impl From<ZstdCompressorConfig> for ZstdCompressor {
 
 impl Compressor for ZstdCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let bytes =
             unsafe { std::slice::from_raw_parts(input.as_ptr().cast::<u8>(), size_of_val(input)) };
         self.total_bytes_in += bytes.len();
-- 
2.43.0


From 2d6ee2b7b181c6252d4fe24577045eea40d995da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:23 +0000
Subject: [PATCH 15/46] fix: knn1 handles vectors that span chunk boundaries

---
 ebi/src/api/decoder.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..5724d10 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,10 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            #[allow(clippy::useless_conversion)]
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
@@ -494,18 +498,23 @@ impl<R: Read + Seek> Decoder<R> {
 
             if remaining_records != 0 {
                 // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
+                // The vector may span more than two chunks.
                 let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
+                processing_vector.distance += chunk_reader.distance_squared(
+                    0,
+                    &target[remaining_target_start..remaining_target_start + n_records_in_vector],
+                )?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                remaining_records -= n_records_in_vector;
+                offset += n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance < min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From c00f1e9aa73ac6cd93fd820c6842cef3d99e868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:23 +0000
Subject: [PATCH 16/46] fix: matmul multiplies matrices that span chunk
 boundaries and rejects bad shapes

---
 ebi/src/api/decoder.rs | 52 +++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 5724d10..d250aba 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -624,14 +624,18 @@ impl<R: Read + Seek> Decoder<R> {
         let (target_rows, target_columns) = target_matrix_shape;
         let (data_rows, data_columns) = data_matrix_shape;
 
-        let is_matrix_shape_invalid = data_columns != target_rows;
-        let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % (data_rows * data_columns) != 0;
-        if is_matrix_shape_invalid || is_data_matrix_shape_aligned_to_number_of_records_invalid {
+        let data_matrix_size = data_rows * data_columns;
+        let is_matrix_shape_invalid = data_columns != target_rows
+            || data_matrix_size == 0
+            || target_rows * target_columns != target_matrix.len();
+        if is_matrix_shape_invalid || number_of_records % data_matrix_size != 0 {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
 
-        let batch_size = number_of_records / (data_rows * data_columns);
+        let batch_size = number_of_records / data_matrix_size;
+        if batch_size == 0 {
+            return Ok(Box::new([]));
+        }
 
         let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
 
@@ -639,22 +643,32 @@ impl<R: Read + Seek> Decoder<R> {
         let mut chunk_index = 0;
         let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
 
-        for _ in 0..batch_size {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-            }
-            for row_index in 0..data_rows {
-                for target_column in target_matrix.chunks_exact(target_rows) {
-                    let result = chunk_reader
-                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;
-
-                    result_matrices.push(result);
+        for _ in 0..batch_size * data_rows {
+            let row_start = result_matrices.len();
+            result_matrices.resize(row_start + target_columns, 0.0);
+
+            // A row of the data matrix may span several chunks.
+            let mut column = 0;
+            while column < data_columns {
+                if offset_in_chunk >= chunk_reader.number_of_records() as usize {
+                    offset_in_chunk = 0;
+                    chunk_index += 1;
+                    timer += chunk_reader.segmented_execution_times();
+                    chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+                    continue;
+                }
+                let n_columns = (data_columns - column)
+                    .min(chunk_reader.number_of_records() as usize - offset_in_chunk);
+                for (result, target_column) in result_matrices[row_start..]
+                    .iter_mut()
+                    .zip(target_matrix.chunks_exact(target_rows))
+                {
+                    *result += chunk_reader
+                        .dot_product(offset_in_chunk, &target_column[column..column + n_columns])?;
                 }
+                column += n_columns;
+                offset_in_chunk += n_columns;
             }
-            offset_in_chunk += data_rows * data_columns;
         }
         debug_assert!(chunk_reader.is_last_chunk());
         timer += chunk_reader.segmented_execution_times();
-- 
2.43.0


From 40aa67403f1de5bb5f725f9fb7d6d4898238dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:23 +0000
Subject: [PATCH 17/46] fix: aggregating a bare column with
 AggregationKind::None materializes it

---
 ebi/src/api/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index d250aba..450dadb 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -838,7 +838,17 @@ impl AggregationKind {
         bitmask: Option<&RoaringBitmap>,
     ) -> decoder::Result<AggregationResult> {
         Ok(match self {
-            AggregationKind::None => todo!(),
+            AggregationKind::None => {
+                let mut output = DecoderOutput::from_vec(Vec::new());
+                decoder.materialize(&mut output, bitmask, None)?;
+                output
+                    .into_writer()
+                    .into_inner()
+                    .chunks_exact(size_of::<f64>())
+                    .map(|bytes| f64::from_ne_bytes(bytes.try_into().unwrap()))
+                    .collect::<Vec<f64>>()
+                    .into()
+            }
             AggregationKind::Max => decoder.max(bitmask, None)?.into(),
             AggregationKind::Min => decoder.min(bitmask, None)?.into(),
             AggregationKind::Sum => decoder.sum(bitmask, None)?.into(),
-- 
2.43.0


From eb12b6f5945288207a8f00f8f96309a4bde8c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:24 +0000
Subject: [PATCH 18/46] fix: reading the footer of a file without chunks does
 not panic

---
 ebi/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..22e7516 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,8 +196,9 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
-        let config_size = buf[0] as usize;
+        let mut config_size = [0u8];
+        input.read_exact(&mut config_size)?;
+        let config_size = config_size[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
 
-- 
2.43.0


From 77693c3fcff811b0befd00f58179b82de5588dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:41 +0000
Subject: [PATCH 19/46] fix: a failed chunk read of BUFF or Chimp128 is an
 error, not a panic

---
 ebi/src/decoder/chunk_reader.rs         | 4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 8 ++++----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..4c23d0b 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 8ef4bf0..1bda486 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -37,20 +37,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 22de353..0fe284d 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 7c800383e86886ab4ee5740c7f2ac7045c7df29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:09 +0000
Subject: [PATCH 20/46] fix: the decoder rejects files with a wrong magic
 number or without a footer

---
 ebi/src/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 22e7516..8347167 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -22,6 +22,8 @@ use crate::{
     },
 };
 
+const MAGIC_NUMBER: &[u8; 4] = b"EBI1";
+
 pub trait FileMetadataLike {
     fn header(&self) -> &NativeFileHeader;
     fn footer(&self) -> &NativeFileFooter;
@@ -137,6 +139,9 @@ impl FileReader {
         let mut buf = [0u8; size_of::<FileHeader>()];
         input.read_exact(&mut buf)?;
         let header = FileHeader::try_from_le_bytes(&buf)?;
+        if header.magic_number != *MAGIC_NUMBER {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "not an EBI file").into());
+        }
 
         self.header = Some(NativeFileHeader::from(&header));
 
@@ -159,6 +164,12 @@ impl FileReader {
             .header()
             .ok_or(DecoderError::PreconditionsNotMet)?
             .footer_offset();
+        // The footer offset is filled in after everything else is written.
+        if footer_offset < size_of::<FileHeader>() as u64 {
+            return Err(
+                io::Error::new(io::ErrorKind::InvalidData, "the file is not finished").into(),
+            );
+        }
         input.seek(io::SeekFrom::Start(footer_offset))?;
         Ok(())
     }
-- 
2.43.0


From f26a1c153a632ccca0dd26e6de836182029d7665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:35 +0000
Subject: [PATCH 21/46] fix: gemm copies back only the result when the device
 buffer is larger

---
 cuda-binding/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuda-binding/src/lib.rs b/cuda-binding/src/lib.rs
index 4801014..624e701 100644
--- a/cuda-binding/src/lib.rs
+++ b/cuda-binding/src/lib.rs
@@ -134,7 +134,9 @@ mod if_cuda {
                     c_buf.as_mut().unwrap(),
                 )?;
             }
-            self.stream.memcpy_dtoh(c_buf.as_mut().unwrap(), c)?;
+            // The reused device buffer may be larger than the result.
+            let result = c_buf.as_ref().unwrap().slice(..c.len());
+            self.stream.memcpy_dtoh(&result, c)?;
 
             Ok(())
         }
-- 
2.43.0


From a591c9dd5f45656f936c6b8a15592f05a1874f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:22 +0000
Subject: [PATCH 22/46] fix: Elf erases only values it can recover

---
 ebi/src/compression_common/elf.rs   | 22 +++++++++++++++++++++-
 ebi/src/compressor/elf.rs           |  6 +++++-
 ebi/src/decoder/chunk_reader/elf.rs | 12 +-----------
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..ef94525 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -57,6 +57,22 @@ pub fn round_up(v: f64, alpha: u32) -> f64 {
     }
 }
 
+/// Recovers the original value from the erased value and its beta star.
+pub fn recover(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        let alpha = beta_star - sp - 1;
+        round_up(v_prime, alpha as u32)
+    }
+}
+
 fn get_significant_count(v: f64, sp: i32, last_beta_star: i32) -> i32 {
     let mut i = if last_beta_star != i32::MAX && last_beta_star != 0 {
         std::cmp::max(last_beta_star - sp - 1, 1)
@@ -150,6 +166,10 @@ fn get_sp_and_10i_n_flag(v: f64) -> (i32, i32) {
     let log10v = v.log10();
     (
         log10v.floor() as i32,
-        if log10v == log10v.floor() { 1 } else { 0 },
+        if v < 1.0 && log10v == log10v.floor() {
+            1
+        } else {
+            0
+        },
     )
 }
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 8639918..9f59efb 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -122,7 +122,11 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // The erased value must be recoverable: the decimal arithmetic is inexact for very small values.
+            let is_recoverable =
+                || elf::recover(f64::from_bits(mask & v_bits), beta_star).to_bits() == v_bits;
+
+            if beta_star < 16 && erase_bits > 4 && delta != 0 && is_recoverable() {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..9737c46 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,17 +66,7 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
+        let v = compression_common::elf::recover(v_prime, self.last_beta_star);
         Ok(Some(v))
     }
 
-- 
2.43.0


From 2020cc0eb9312e2f284369f74f20cab36a26d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:36 +0000
Subject: [PATCH 23/46] fix: BUFF at precision 0 stays within half a unit

---
 ebi/src/decoder/chunk_reader/buff/controlled_precision.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
index 2e3a061..023482f 100644
--- a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
+++ b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
@@ -21,7 +21,8 @@ pub fn decode_with_precision(bytes: &[u8], precision: u32) -> Vec<f64> {
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
-    let controlled_fractional_part_bits_length = PRECISION_MAP[precision as usize] as u32;
+    // Precision 0 also needs a fractional bit, or the error could reach a whole unit.
+    let controlled_fractional_part_bits_length = (PRECISION_MAP[precision as usize] as u32).max(1);
     let bits_unnecessary =
         fractional_part_bits_length.saturating_sub(controlled_fractional_part_bits_length);
 
-- 
2.43.0


From f0eddb9e41b2fb1d9fbd15cde7e179fef48174bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:58 +0000
Subject: [PATCH 24/46] fix: an input that fails with UnexpectedEof makes
 encoding fail

---
 ebi/src/encoder.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 570c073..beea2ac 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -281,12 +281,6 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
             Ok(0) => break,
             Ok(n) => n_read += n,
             Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
-            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
-                if n_read == 0 {
-                    return Err(e.into());
-                }
-                break;
-            }
             Err(e) => return Err(e.into()),
         }
     }
-- 
2.43.0


From 9a3fa0e0b53b4978a42b77e869bff7a1ca96b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 25/46] fix: compressing an empty input with BUFF or
 Delta-Sprintz panicked

---
 ebi/src/compressor/buff.rs    | 3 +++
 ebi/src/compressor/sprintz.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 08d3ac7..96ab3dd 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -46,6 +46,9 @@ impl BUFFCompressor {
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
         self.reset();
+        if data.is_empty() {
+            return Ok(());
+        }
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
         let precalculated = Precalculated::precalculate(self.scale as usize, data);
         quantization_timer.stop();
diff --git a/ebi/src/compressor/sprintz.rs b/ebi/src/compressor/sprintz.rs
index 912fe44..0f02d92 100644
--- a/ebi/src/compressor/sprintz.rs
+++ b/ebi/src/compressor/sprintz.rs
@@ -87,6 +87,9 @@ impl<W: BitWrite> DeltaSprintzCompressorImpl<W> {
 impl<W: BitWrite> Compressor for DeltaSprintzCompressorImpl<W> {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
         self.reset();
+        if input.is_empty() {
+            return Ok(());
+        }
         // quantize
         self.total_bytes_in += size_of_val(input);
         // TODO: return quantize error here
-- 
2.43.0


From 211a09a828c2964a9dc0bf90699b223721068084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:15 +0000
Subject: [PATCH 26/46] fix: Context::gemm computed operand lengths in 32 bits,
 so huge shapes overflowed instead of being refused

---
 cuda-binding/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cuda-binding/src/lib.rs b/cuda-binding/src/lib.rs
index 624e701..c40ee3b 100644
--- a/cuda-binding/src/lib.rs
+++ b/cuda-binding/src/lib.rs
@@ -70,24 +70,25 @@ mod if_cuda {
                     cfg.m, cfg.n, cfg.k
                 )));
             }
-            if a.len() != (cfg.m * cfg.k) as usize {
+            let (m, n, k) = (cfg.m as usize, cfg.n as usize, cfg.k as usize);
+            if a.len() != m * k {
                 return Err(CudaError::size(format!(
                     "Invalid length of A, expected {} but got {}",
-                    cfg.m * cfg.k,
+                    m * k,
                     a.len()
                 )));
             }
-            if b.len() != (cfg.k * cfg.n) as usize {
+            if b.len() != k * n {
                 return Err(CudaError::size(format!(
                     "Invalid length of B, expected {} but got {}",
-                    cfg.k * cfg.n,
+                    k * n,
                     b.len()
                 )));
             }
-            if c.len() != (cfg.m * cfg.n) as usize {
+            if c.len() != m * n {
                 return Err(CudaError::size(format!(
                     "Invalid length of C, expected {} but got {}",
-                    cfg.m * cfg.n,
+                    m * n,
                     c.len()
                 )));
             }
-- 
2.43.0


From 96405f4c83cede6a46f1084f25621bda2c0050df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:23 +0000
Subject: [PATCH 27/46] fix: matmul_cuda failed on matrices that span chunks,
 empty shapes and empty files

---
 ebi/src/api/decoder.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 450dadb..e170ad6 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -686,7 +686,6 @@ impl<R: Read + Seek> Decoder<R> {
         data_matrix_shape: (usize, usize),
     ) -> decoder::Result<Box<[f64]>> {
         let mut timer = SegmentedExecutionTimes::new();
-        let mut context = cuda_binding::Context::new_at(0)?;
         let number_of_records = self.footer().number_of_records() as usize;
 
         let (data_rows, data_columns) = data_matrix_shape;
@@ -695,7 +694,7 @@ impl<R: Read + Seek> Decoder<R> {
         let is_matrix_shape_invalid = data_columns != target_rows;
         let data_matrix_size = data_rows * data_columns;
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % data_matrix_size != 0;
+            data_matrix_size == 0 || number_of_records % data_matrix_size != 0;
         let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
         if is_matrix_shape_invalid
             || is_data_matrix_shape_aligned_to_number_of_records_invalid
@@ -706,6 +705,10 @@ impl<R: Read + Seek> Decoder<R> {
 
         let result_matrix_size = data_rows * target_columns;
         let batch_size = number_of_records / data_matrix_size;
+        if batch_size * result_matrix_size == 0 {
+            return Ok(Box::new([]));
+        }
+        let mut context = cuda_binding::Context::new_at(0)?;
 
         let mut result_matrices = Vec::with_capacity(batch_size * result_matrix_size);
         result_matrices.resize(batch_size * result_matrix_size, 0.0);
@@ -721,22 +724,26 @@ impl<R: Read + Seek> Decoder<R> {
         // C: m x n = data_rows x target_columns
         let cfg =
             cuda_binding::Context::config_matmul_row_major(data_rows, target_columns, data_columns);
+        let mut data_matrix = Vec::with_capacity(data_matrix_size);
         for result_matrix_dest in result_matrices.chunks_exact_mut(result_matrix_size) {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+            // A data matrix may span several chunks.
+            data_matrix.clear();
+            while data_matrix.len() < data_matrix_size {
+                if offset_in_chunk >= chunk_reader.number_of_records() as usize {
+                    offset_in_chunk = 0;
+                    chunk_index += 1;
+                    timer += chunk_reader.segmented_execution_times();
+                    chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+                    continue;
+                }
+                let n_records = (data_matrix_size - data_matrix.len())
+                    .min(chunk_reader.number_of_records() as usize - offset_in_chunk);
+                let range = offset_in_chunk..offset_in_chunk + n_records;
+                let values = chunk_reader.inner_mut().decompress(&mut timer)?;
+                data_matrix.extend_from_slice(&values[range]);
+                offset_in_chunk += n_records;
             }
-            chunk_reader.gemm(
-                &mut context,
-                offset_in_chunk..offset_in_chunk + data_matrix_size,
-                target_matrix,
-                result_matrix_dest,
-                true,
-                cfg,
-            )?;
-            offset_in_chunk += data_matrix_size;
+            context.gemm(target_matrix, &data_matrix, result_matrix_dest, cfg)?;
         }
         debug_assert!(chunk_reader.is_last_chunk());
         timer += chunk_reader.segmented_execution_times();
-- 
2.43.0


From 9525123181dc38f5eabd23c4163701206829faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:58 +0000
Subject: [PATCH 28/46] fix: knn1 returns an infinitely distant vector also
 when it spans chunks

---
 ebi/src/api/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index e170ad6..a3cd440 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -510,7 +510,7 @@ impl<R: Read + Seek> Decoder<R> {
                 offset += n_records_in_vector;
 
                 if remaining_records == 0 {
-                    if processing_vector.distance < min_result.distance {
+                    if processing_vector.distance <= min_result.distance {
                         min_result = processing_vector;
                     }
                     processing_vector.index += 1;
-- 
2.43.0


From 767623a8ccd242abb29df962ebb2c61589b4c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:28 +0000
Subject: [PATCH 29/46] fix: chunk options larger than the input no longer
 allocate up front or overflow

---
 ebi/src/encoder.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index beea2ac..47f002a 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -14,7 +14,6 @@ use crate::{
     },
     time::{SegmentKind, SegmentedExecutionTimes},
 };
-use core::slice;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 use std::{
@@ -269,24 +268,14 @@ pub struct ChunkWriter<'a, R: Read> {
     timer: SegmentedExecutionTimes,
 }
 
-fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
-    let mut buf = vec![0.0; (n_bytes + 7) / size_of::<f64>()];
-    let u8_slice = unsafe {
-        let ptr = buf.as_mut_ptr().cast::<u8>();
-        slice::from_raw_parts_mut(ptr, n_bytes)
-    };
-    let mut n_read = 0;
-    while n_read < n_bytes {
-        match f.read(&mut u8_slice[n_read..]) {
-            Ok(0) => break,
-            Ok(n) => n_read += n,
-            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
-            Err(e) => return Err(e.into()),
-        }
-    }
+fn read_less_or_equal<R: Read>(f: R, n_bytes: usize) -> Result<Vec<f64>> {
+    let mut buf = Vec::new();
+    f.take(n_bytes as u64).read_to_end(&mut buf)?;
 
-    buf.truncate(n_read / size_of::<f64>());
-    Ok(buf)
+    Ok(buf
+        .chunks_exact(size_of::<f64>())
+        .map(|chunk| f64::from_le_bytes(chunk.try_into().unwrap()))
+        .collect())
 }
 
 impl<'a, R: Read> ChunkWriter<'a, R> {
@@ -313,7 +302,10 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = if let ChunkOption::RecordCount(count) = opt {
-                    read_less_or_equal(self.file_writer.input_mut(), count * size_of::<f64>())?
+                    read_less_or_equal(
+                        self.file_writer.input_mut(),
+                        count.saturating_mul(size_of::<f64>()),
+                    )?
                 } else {
                     let mut buf = Vec::new();
                     self.file_writer.input_mut().read_to_end(&mut buf)?;
@@ -337,7 +329,7 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = read_less_or_equal(
                     self.file_writer.input_mut(),
-                    record_count * size_of::<f64>(),
+                    record_count.saturating_mul(size_of::<f64>()),
                 )?;
                 io_read_timer.stop();
                 if buf.is_empty() {
-- 
2.43.0


From 482238f46e82c17dd9e9f5c4513207b3b355d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 30/46] fix: csv2bin notices when the end of its output cannot
 be written

---
 tools/src/csv2bin.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/csv2bin.rs b/tools/src/csv2bin.rs
index ae1a61b..65bd312 100644
--- a/tools/src/csv2bin.rs
+++ b/tools/src/csv2bin.rs
@@ -101,6 +101,7 @@ fn process_file(path: &Path) -> Result<()> {
                 }
             }
         }
+        writer.flush().context("Failed to write to output file")?;
 
         Ok(())
     };
-- 
2.43.0


From d5939b088aee6dbe036e3de1a41838c938f3e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 31/46] fix: decimal precision of numbers with an upper-case
 exponent

---
 experimenter/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 844c315..1d01705 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -365,7 +365,7 @@ pub enum Output {
 /// assert_eq!(get_decimal_precision("-99"), 0);
 /// ```
 pub fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
 
-- 
2.43.0


From 764523c5ba959169470f4a929d68655f7b11aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 32/46] fix: order and labels of the averages of TPC-H query 1

---
 experimenter/src/tpch.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/tpch.rs b/experimenter/src/tpch.rs
index fd2d683..36303c0 100644
--- a/experimenter/src/tpch.rs
+++ b/experimenter/src/tpch.rs
@@ -308,9 +308,8 @@ pub fn process_h01(path: impl AsRef<Path>) -> anyhow::Result<HashMap<String, Tpc
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
-        // swap the order of the result for the consistency with SQL
-        result.swap(4, 6);
-        query_names.swap(4 - 3, 6 - 3);
+        // move AVG(l_discount) behind the other averages for the consistency with SQL
+        result[4..7].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01".to_string(),
@@ -545,6 +544,8 @@ pub fn process_h01_simplified(
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
+        // move AVG(l_discount) behind the other averages for the consistency with SQL
+        result[2..5].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01_simplified".to_string(),
-- 
2.43.0


From b78f3f879c5be1719675cbf4e33bd528887fd639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 33/46] fix: BUFF filters with constants beyond the fixed-point
 range or NaN

---
 ebi/src/compression_common/buff.rs            |  6 ++++++
 .../decoder/chunk_reader/buff/filter_cmp.rs   | 19 +++++++++++++------
 .../decoder/chunk_reader/buff/filter_eq.rs    | 15 +++++++++------
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..b4b9c49 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -35,6 +35,12 @@ pub(crate) mod precision_bound {
 
     pub const PRECISION_MAP: [u64; 13] = [0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50];
 
+    /// Returns whether a double is within the range of the fixed representation with a given fractional part bits length
+    #[inline]
+    pub fn fits_fixed_representation(v: f64, fractional_part_bits_length: i32) -> bool {
+        v.abs() < 2.0f64.powi(63 - fractional_part_bits_length)
+    }
+
     /// Use this function to convert a double to fixed representation with a given fractional part bits length
     #[inline]
     pub fn into_fixed_representation_with_fractional_part_bits_length(
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..080e202 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -313,17 +313,24 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
     let fixed_representation_bits_length = bitpack.read_u32().unwrap();
     let fractional_part_bits_length = bitpack.read_u32().unwrap();
 
-    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
-        pred,
-        fractional_part_bits_length as i32,
-    );
-
     let all = || {
         let mut all = RoaringBitmap::new();
         all.insert_range(logical_offset..(number_of_records + logical_offset));
         all
     };
     let none = RoaringBitmap::new;
+    // A constant outside the fixed-point range is beyond all values of the chunk, and no comparison with NaN holds
+    if !precision_bound::fits_fixed_representation(pred, fractional_part_bits_length as i32) {
+        return if !pred.is_nan() && pred.is_sign_negative() == IS_GREATER {
+            all()
+        } else {
+            none()
+        };
+    }
+    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
+        pred,
+        fractional_part_bits_length as i32,
+    );
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return if IS_GREATER { all() } else { none() };
@@ -338,7 +345,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     {
         let pred_fixed_representation_bits_length = if delta_fixed_pred == 0 {
             0
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index dc6de22..44b35ce 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -88,17 +88,20 @@ pub(crate) fn buff_simd256_equal_filter(
     let fixed_representation_bits_length = bitpack.read_u32().unwrap();
     let fractional_part_bits_length = bitpack.read_u32().unwrap();
 
-    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
-        pred,
-        fractional_part_bits_length as i32,
-    );
-
     let all = || {
         let mut all = RoaringBitmap::new();
         all.insert_range(logical_offset..(number_of_records + logical_offset));
         all
     };
     let none = RoaringBitmap::new;
+    // No value of the chunk equals a constant outside the fixed-point range
+    if !precision_bound::fits_fixed_representation(pred, fractional_part_bits_length as i32) {
+        return none();
+    }
+    let fixed_pred = precision_bound::into_fixed_representation_with_fractional_part_bits_length(
+        pred,
+        fractional_part_bits_length as i32,
+    );
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return none();
@@ -111,7 +114,7 @@ pub(crate) fn buff_simd256_equal_filter(
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     // No value of the chunk is as large as the predicate
     if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
         return none();
-- 
2.43.0


From 98846503845e4c1c2ad4b469d244b6f4619f54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 34/46] fix: Delta-Sprintz filters with constants off the
 quantization grid

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 4c286e8..a38be79 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -117,6 +117,10 @@ impl QueryExecutor for DeltaSprintzReader {
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
         let predicate_encoded = predicate.map(|v| (v * scale as f64).round() as i64);
+        // A constant that is not a multiple of the quantization step cannot be compared in quantized form.
+        if predicate_encoded.map(|v| v as f64 / scale as f64) != predicate {
+            return default_filter(self, predicate, bitmask, logical_offset, timer);
+        }
         let all = || {
             let mut all = roaring::RoaringBitmap::new();
             all.insert_range(
-- 
2.43.0


From 5dcf5a41e833570db94e4d4b508c419620a2a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 35/46] fix: chunk options of 0 records or 0 bytes dropped the
 whole input

---
 ebi/src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 47f002a..a17b790 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -304,7 +304,8 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
                 let mut buf = if let ChunkOption::RecordCount(count) = opt {
                     read_less_or_equal(
                         self.file_writer.input_mut(),
-                        count.saturating_mul(size_of::<f64>()),
+                        // A chunk holds at least one record: reading none means the end of the input
+                        count.max(1).saturating_mul(size_of::<f64>()),
                     )?
                 } else {
                     let mut buf = Vec::new();
@@ -329,7 +330,8 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = read_less_or_equal(
                     self.file_writer.input_mut(),
-                    record_count.saturating_mul(size_of::<f64>()),
+                    // A chunk holds at least one record: reading none means the end of the input
+                    record_count.max(1).saturating_mul(size_of::<f64>()),
                 )?;
                 io_read_timer.stop();
                 if buf.is_empty() {
-- 
2.43.0


From b7a10ba6ff60151070b9116a02ecbb5b146ae778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:32 +0000
Subject: [PATCH 36/46] fix: an expression's timer covers reading its chunks
 and bare columns

---
 ebi/src/api/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index a3cd440..921d54c 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -903,7 +903,9 @@ impl Aggregation {
     ) -> decoder::Result<AggregationResult> {
         if let Expr::Index(index) = &self.expr {
             // We can directly access the chunk reader using in-situ query execution if possible.
-            return self.kind.dispatch(&mut decoders[*index], bitmask);
+            let result = self.kind.dispatch(&mut decoders[*index], bitmask)?;
+            *timer += decoders[*index].segmented_execution_times();
+            return Ok(result);
         }
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         let mut result = AggregationResult::zero(self.kind);
@@ -912,6 +914,10 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            // Opening a chunk reads it; `compute_chunk` measures only what follows.
+            for reader in &readers {
+                *timer += reader.segmented_execution_times();
+            }
             let computed_chunk = self.expr.compute_chunk(&mut readers, bitmask, timer)?;
             result.concat(self.kind.dispatch_on_vec(computed_chunk)?, self.kind)?;
         }
@@ -943,6 +949,10 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            // Opening a chunk reads it; `compute_chunk` measures only what follows.
+            for reader in &readers {
+                *timer += reader.segmented_execution_times();
+            }
             for (aggr_i, aggr) in aggregations.iter().enumerate() {
                 if computed[aggr_i] {
                     continue;
-- 
2.43.0


From a1e0125c5a4e27b5d0d25aac8b895f3ba5987d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:14 +0000
Subject: [PATCH 37/46] fix: collect-stats counts the places of numbers with an
 upper-case exponent

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 1235453..35d6b43 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
         if let Some(dot_pos) = base.find('.') {
-- 
2.43.0


From 1569f9a8a2c700bf085e37bb38c4e5b00ecb9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:14 +0000
Subject: [PATCH 38/46] fix: one NaN ended collect-stats for all files

---
 tools/src/collect-stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 35d6b43..818005f 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -181,11 +181,11 @@ fn compute_stats(decimal_precisions: &[usize], values: &[f64], exponents: &[i32]
 
     let &value_max = values
         .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap();
     let &value_min = values
         .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.total_cmp(b))
         .unwrap();
     let value_mean = mean_f64(values);
     let value_std_dev = std_dev_f64(values, value_mean);
-- 
2.43.0


From 3a96fe1b123c3176a9cea918071a11d5d1d750dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:14 +0000
Subject: [PATCH 39/46] fix: an experiment result that could not be written was
 reported as finished

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4a0d53a..bd4d8d9 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -811,6 +811,7 @@ fn write_output_json(
     let mut writer = std::io::BufWriter::new(output_file);
     let write_result = writer
         .write_all(output_json.as_bytes())
+        .and_then(|()| writer.flush())
         .context("Failed to write output");
     if let Err(e) = write_result {
         eprintln!("{}\n", output_filename.as_ref().display());
-- 
2.43.0


From 0e8dcb150d1e1064398ea5eabdf5ad36158e97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:14 +0000
Subject: [PATCH 40/46] fix: an empty data file ended create-filter-config for
 all files

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index bd4d8d9..afeb321 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -1395,6 +1395,7 @@ fn create_config_command(
 
     let number_of_records = floats.len() as u64;
 
+    anyhow::ensure!(number_of_records > 0, "No records in the input file");
     anyhow::ensure!(
         !floats.iter().any(|&f| f.is_nan()),
         "Found NaN in the input file"
-- 
2.43.0


From 8aee0e0e9706044ced2f318a62bd82d6fee577d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 41/46] fix: all and all-patch shared -s between two options

---
 experimenter/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index afeb321..ac750dd 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -90,7 +90,7 @@ struct AllPatchArgs {
     binary_dir: PathBuf,
     #[arg(long, short('s'))]
     save_dir: PathBuf,
-    #[arg(long, short('s'))]
+    #[arg(long, short)]
     n: Option<usize>,
 
     #[arg(long("pd"))]
@@ -185,7 +185,7 @@ struct AllArgs {
     binary_dir: PathBuf,
     #[arg(long, short('s'))]
     save_dir: PathBuf,
-    #[arg(long, short('s'))]
+    #[arg(long, short)]
     n: Option<usize>,
 }
 impl AllArgs {
-- 
2.43.0


From f3f6b1b1a5912bdf10eb1ca14aad8f3a71d9f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 42/46] fix: all-patch kept old max and sum measurements

---
 experimenter/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 1d01705..c1b886c 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -209,6 +209,8 @@ impl AllOutputInner {
         self.compress.clear();
         self.filters.clear();
         self.materialize.clear();
+        self.max.clear();
+        self.sum.clear();
     }
 }
 
-- 
2.43.0


From 83343bfd897e4fb206ae3cb1af7e6c6fd51c5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 43/46] fix: all-patch could not read any result

---
 experimenter/src/main.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index ac750dd..7c22bba 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -529,12 +529,16 @@ fn main() -> anyhow::Result<()> {
             "Patched dataset is not a file: {}",
             patched.display()
         );
-        let Output::All(patched) =
-            serde_json::from_reader::<_, Output>(&mut BufReader::new(File::open(&patched)?))
-                .context("Failed to read results being patched")?
-        else {
-            anyhow::bail!("Patched dataset is not an AllOutput");
-        };
+        // Not through `Output`: internally tagged enums cannot hold the u128 execution times
+        let mut patched: serde_json::Map<String, serde_json::Value> =
+            serde_json::from_reader(&mut BufReader::new(File::open(&patched)?))
+                .context("Failed to read results being patched")?;
+        anyhow::ensure!(
+            patched.remove("command_type") == Some("All".into()),
+            "Patched dataset is not an AllOutput"
+        );
+        let patched: AllOutput = serde_json::from_value(patched.into())
+            .context("Failed to read results being patched")?;
         let save_dir = args
             .binary_dir
             .parent()
-- 
2.43.0


From b645515e1c54eaa961127ce0a29e0e3cb60cb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 44/46] fix: large negative data counted as small for
 quantization

---
 experimenter/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 7c22bba..b15f93c 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -1036,7 +1036,7 @@ fn process_experiment_for_dataset(
                     break;
                 }
                 let value = u64::from_le_bytes(buffer);
-                max_value = max_value.max(f64::from_bits(value));
+                max_value = max_value.max(f64::from_bits(value).abs());
             }
             max_value
         };
-- 
2.43.0


From b0a1cba9a0dd145b1c386642336ea3b339d90aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:23 +0000
Subject: [PATCH 45/46] fix: embedding panicked on an empty data set

---
 experimenter/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index b15f93c..5661306 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2685,10 +2685,8 @@ fn embedding_command(
                 );
                 decompression_segmented_execution_times
                     .push(decoder.segmented_execution_times().into());
-                decompression_result_string.push(format!(
-                    "{:?}",
-                    &decoder_output.into_writer().into_inner()[..5.min(encoded.len())]
-                ));
+                let decoded = decoder_output.into_writer().into_inner();
+                decompression_result_string.push(format!("{:?}", &decoded[..5.min(decoded.len())]));
             }
 
             let result = SimpleCompressionPerformanceForOneDataset {
-- 
2.43.0


From d517a5354acba4cbb3e2a558dbb4fcc94831f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:23 +0000
Subject: [PATCH 46/46] fix: ucr2018 rounded data of ten or more places by a
 truncated scale

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 5661306..29f43a8 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2085,7 +2085,7 @@ pub struct LabelPixel {
     pub label: isize,
     pub pixels: Vec<f64>,
 }
-pub fn slurp_file(file: impl AsRef<Path>, prec: i32) -> Vec<LabelPixel> {
+pub fn slurp_file(file: impl AsRef<Path>, prec: i64) -> Vec<LabelPixel> {
     fn nan_to_zero(x: f64) -> f64 {
         if x.is_nan() {
             0.0
@@ -2219,7 +2219,7 @@ fn ucr2018_command(
             .to_string_lossy()
             .to_string();
         let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
-        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
         let test_vectors = test_data
             .iter()
             .map(|x| x.pixels.clone())
@@ -2255,8 +2255,8 @@ fn ucr2018_command(
             let train_file = dataset_entry.join(format!("{}_TRAIN.tsv", dataset_name));
             let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
 
-            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i32);
-            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i64);
+            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
             let train_vectors = train_data
                 .iter()
                 .flat_map(|x| x.pixels.clone())
-- 
2.43.0

