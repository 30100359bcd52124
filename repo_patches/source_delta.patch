From a65c0e8495131c81bcfef708849da47601214077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 01/17] hooks: re-export private items under cfg(rezip_verif)

---
 lib/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..0d4c392 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -36,6 +36,20 @@ pub use crate::serialise::decompressed_codes;
 pub use crate::technique::Config;
 pub use crate::technique::Technique;
 
+/// Private items the verification harness needs; never built normally.
+#[allow(unexpected_cfgs)]
+#[cfg(rezip_verif)]
+pub mod verif_hooks {
+    pub use crate::bit::BitWriter;
+    pub use crate::lookahead::Lookahead;
+    pub use crate::picker::Picker;
+    pub use crate::wams::CONFIGURATIONS;
+
+    pub fn make_ref(dist: u16, run: u16) -> crate::Ref {
+        crate::Ref::new(dist, run)
+    }
+}
+
 #[derive(Copy, Clone, PartialEq, Eq)]
 pub struct Ref {
     pub dist: u16,
-- 
2.43.0


From 1b0015df8328c16c909a7ae609291735a9d0d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 02/17] fix: write the lengths of stored blocks little-endian

The reader and RFC 1951 have the low byte first; the writer had it last, so
no stored block could be re-serialised.
---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From eee77516ba016ffe29dee4f53c5737903224cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 03/17] fix: restore literals from the right place after a
 preroll

Scanner positions count the preroll, so indexing only the data restored a
wrong byte, or panicked.
---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From 87fce8c8dd4b5f54f22664e24f9c891e12864348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 04/17] fix: list the contents of a full 65535-byte window

---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From ca8e0e6bc952a99e5b1f9d9377632717826a0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 05/17] fix: report trace metadata that ends inside a record

A lone trailing byte was silently ignored.
---
 lib/src/serialise_trace.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..1c7608c 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -66,11 +66,13 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
     loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
+        // the input may only end between records
+        let low = match data.read_u8() {
+            Ok(low) => low,
             Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
             Err(e) => bail!(e),
         };
+        let first = u16::from_le_bytes([low, data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
-- 
2.43.0


From 81c9e7ca606713122e615ac1a2c7679df48e6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 06/17] fix: accept several unused distance codes

Only a single zero length was taken as "no distance codes"; other decoders
accept any number of them.
---
 lib/src/huffman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/huffman.rs b/lib/src/huffman.rs
index ebfddce..cf0d9b5 100644
--- a/lib/src/huffman.rs
+++ b/lib/src/huffman.rs
@@ -100,7 +100,7 @@ pub fn read_codes<B: BitSource>(reader: &mut B) -> Result<(CodeTree, Option<Code
     let lit_len_code = CodeTree::new(&code_lens[0..usize::from(num_lit_len_codes)])?;
     let dist_code_len = &code_lens[usize::from(num_lit_len_codes)..];
 
-    if 1 == dist_code_len.len() && 0 == dist_code_len[0] {
+    if dist_code_len.iter().all(|len| 0 == *len) {
         return Ok((lit_len_code, None));
     }
 
-- 
2.43.0


From dad1556aeef8c7d4c4989dabbce3bd3fce65f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 07/17] fix: end the iteration over blocks after an error

On truncated input the iterator returned errors forever, and after other
errors it carried on decoding garbage from the middle of a block.
---
 lib/src/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/parse.rs b/lib/src/parse.rs
index 75e7394..9f7dc43 100644
--- a/lib/src/parse.rs
+++ b/lib/src/parse.rs
@@ -16,18 +16,32 @@ pub fn parse_deflate<R: Read>(bytes: R) -> BlockIter<R> {
     BlockIter {
         inner: BitReader::new(bytes),
         end: false,
+        failed: false,
     }
 }
 
 pub struct BlockIter<R: Read> {
     inner: BitReader<R>,
     end: bool,
+    failed: bool,
 }
 
 impl<R: Read> Iterator for BlockIter<R> {
     type Item = Result<Block, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            return None;
+        }
+
+        let ret = self.next_block();
+        self.failed = matches!(ret, Some(Err(_)));
+        ret
+    }
+}
+
+impl<R: Read> BlockIter<R> {
+    fn next_block(&mut self) -> Option<Result<Block, Error>> {
         if self.end {
             return match self.inner.align() {
                 Ok(()) => None,
-- 
2.43.0


From 3f578c36eabcf6fd88c494be236febfb0abf0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 08/17] fix: keep blocks written by zero within the 65535 byte
 limit

A block of 65536 bytes had its length written as zero.
---
 rezippers/src/zero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..8d70cdb 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,8 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+/// The most a stored block can hold.
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From b8dc3b3510f28707a4bf283e3537f1af06ebe133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 09/17] fix: let zero handle empty files

---
 rezippers/src/zero.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 8d70cdb..dff993e 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -60,13 +60,13 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     let writer = io::stdout();
     let mut writer = writer.lock();
 
-    assert!(
-        reader.peek().is_some(),
-        "TODO: can't deal with an empty file"
-    );
-
     writer.write_all(&orig_header)?;
 
+    if reader.peek().is_none() {
+        // there's no data, but there must be a final block
+        writer.write_all(&[0b0000_0001, 0, 0, 0xff, 0xff])?;
+    }
+
     let mut data_len = 0u32;
     let mut data_csum = CRC32.digest();
 
-- 
2.43.0


From 90940224bef4a04d705efb2b5968faa987646835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 10/17] fix: report errors writing the last output of cat and
 zero

Whatever was still buffered at exit was written with errors ignored.
---
 rezippers/src/cat.rs  | 2 ++
 rezippers/src/zero.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..93d9741 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
     Ok(())
 }
diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index dff993e..8157229 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -95,5 +95,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 9536627d0daf8e7bd2b8707fe2b90f33159ef4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 11/17] fix: refuse length 258 coded with symbol 284

---
 lib/src/huffman.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/huffman.rs b/lib/src/huffman.rs
index cf0d9b5..aac1d2a 100644
--- a/lib/src/huffman.rs
+++ b/lib/src/huffman.rs
@@ -180,6 +180,8 @@ pub fn decode_run_length<R: Read>(reader: &mut BitReader<R>, sym: u16) -> Result
 
         let high_part = (((sym - 265) as u8) % 4 + 4) << extra_bits;
         let low_part = reader.read_part(extra_bits)? as u8;
+        // 284 ends at 257; taking this for 258 would lose which code was used
+        ensure!(sym != 284 || low_part != 31, "258 has its own symbol");
         return Ok(u16::from(high_part) + u16::from(low_part) + 3);
     }
 
-- 
2.43.0


From deafc06e60ae8b44fd04f25647698dc06c494f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 12/17] fix: let zero refuse references to before the start of
 the data

flate2's decoder takes whatever is in its window, so damaged input was
turned into a valid file with different contents.
---
 rezippers/src/zero.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 8157229..758611b 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -7,8 +7,8 @@ use byteorder::WriteBytesExt;
 use byteorder::LE;
 use crc::Crc;
 use crc::CRC_32_ISO_HDLC;
-use flate2;
 use librezip;
+use librezip::CircularBuffer;
 
 /// gzip/zlib use the CRC-32/ISO-HDLC variant (the old `crc` crate's `IEEE`).
 const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
@@ -18,6 +18,22 @@ const RSYNC_MOD: usize = 1024 * 4;
 /// The most a stored block can hold.
 const RSYNC_MAX: usize = 1024 * 64 - 1;
 
+/// The decompressed data. Unlike `flate2`, this refuses references to before its start.
+fn payload<R: Read>(reader: R) -> impl Iterator<Item = io::Result<u8>> {
+    let mut dictionary = CircularBuffer::new();
+
+    librezip::parse_deflate(reader)
+        .into_iter()
+        .flat_map(move |block| {
+            let mut buf = Vec::new();
+            let result = block
+                .and_then(|block| librezip::decompressed_block(&mut buf, &mut dictionary, &block));
+            buf.into_iter()
+                .map(Ok)
+                .chain(result.err().map(|e| Err(io::Error::other(e))))
+        })
+}
+
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
     let mut buf = Vec::with_capacity(RSYNC_MAX);
@@ -55,8 +71,7 @@ fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Ve
 pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     let orig_header = librezip::gzip::discard_header(&mut reader)?;
 
-    let reader = flate2::bufread::DeflateDecoder::new(io::BufReader::new(reader));
-    let mut reader = reader.bytes().peekable();
+    let mut reader = payload(reader).peekable();
     let writer = io::stdout();
     let mut writer = writer.lock();
 
-- 
2.43.0


From f70abb4da5c35301f8053f4eefed999fe8861221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 13/17] fix: a failing reader is never the end of the metadata,
 whatever the kind of error

---
 lib/src/serialise_trace.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index 1c7608c..5aa7b3b 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -3,7 +3,6 @@ use std::io;
 use std::io::Read;
 use std::u16;
 
-use anyhow::bail;
 use anyhow::Error;
 use byteorder::LittleEndian as LE;
 use byteorder::ReadBytesExt;
@@ -66,11 +65,10 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
     loop {
-        // the input may only end between records
-        let low = match data.read_u8() {
-            Ok(low) => low,
-            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
-            Err(e) => bail!(e),
+        // the input may only end between records; an error is never its end, whatever its kind
+        let low = match data.by_ref().bytes().next() {
+            Some(low) => low?,
+            None => break,
         };
         let first = u16::from_le_bytes([low, data.read_u8()?]);
 
-- 
2.43.0


From e39c455c4ad7e6c626b3eb275d56f79d56bc1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 14/17] fix: report codes a block has no symbol for instead of
 panicking

compressed_block() reported a literal without a code, but panicked on a
length, a distance or an end of block without one.
---
 lib/src/serialise.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 7d783b8..2fd6e2d 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -162,7 +162,11 @@ fn compressed_codes<W: Write>(
     }
 
     // End of stream marker
-    into.write_vec(length_tree[256].as_ref().unwrap())?;
+    into.write_vec(
+        length_tree[256]
+            .as_ref()
+            .ok_or_else(|| anyhow!("no code for the end of the block"))?,
+    )?;
 
     Ok(())
 }
@@ -175,7 +179,7 @@ fn encode_run<W: Write>(
     into.write_vec(
         length_tree[huffman::encode_run_length(run) as usize]
             .as_ref()
-            .unwrap(),
+            .ok_or_else(|| anyhow!("invalid run length"))?,
     )?;
 
     if let Some((bits, val)) = huffman::extra_run_length(run) {
@@ -195,7 +199,11 @@ fn encode_distance<W: Write>(
             .as_ref()
             .ok_or_else(|| anyhow!("reference but not distance tree"))?;
 
-        into.write_vec(distance_tree[usize::from(code)].as_ref().unwrap())?;
+        into.write_vec(
+            distance_tree[usize::from(code)]
+                .as_ref()
+                .ok_or_else(|| anyhow!("invalid distance"))?,
+        )?;
 
         if bits > 0 {
             into.write_bits_val(bits, val)?;
-- 
2.43.0


From 322a256932760c8d9003c1238b0849220c8bb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 15/17] fix: refuse a code description of the wrong length

compressed_block() panicked on a description that ends early, and wrote
one with bits left over, which reads back as other codes.
---
 lib/src/bit.rs       | 3 ++-
 lib/src/serialise.rs | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 94eeed7..9d93bff 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -359,7 +359,8 @@ impl<R: Read> BitSource for BitReader<R> {
 
 impl<'a> BitSource for StackIterator<'a> {
     fn read_bit(&mut self) -> Result<bool, Error> {
-        Ok(self.next().expect("TODO: EOF"))
+        self.next()
+            .ok_or_else(|| format_err!("code description ends early"))
     }
 }
 
diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 2fd6e2d..d27d24d 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -1,6 +1,7 @@
 use std::io::Write;
 
 use anyhow::anyhow;
+use anyhow::ensure;
 use anyhow::Context;
 use anyhow::Error;
 
@@ -78,7 +79,12 @@ pub fn compressed_block<W: Write>(into: &mut BitWriter<W>, block: &Block) -> Res
         } => {
             into.write_bits_val(2, 2)?;
             into.write_vec(trees)?;
-            let (length, distance) = huffman::read_codes(&mut trees.iter())?;
+            let mut description = trees.iter();
+            let (length, distance) = huffman::read_codes(&mut description)?;
+            ensure!(
+                description.next().is_none(),
+                "code description goes on after its end"
+            );
             compressed_codes(into, &length, distance.as_ref(), codes)
         }
     }
-- 
2.43.0


From 319de0d2dbd3cdc09ce3d08731b9732b85729bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 16/17] fix: refuse distances out of range

A reference's distance is a public field: compressed_block() panicked on
a distance of zero, and never came back from one over 32768.
---
 lib/src/serialise.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index d27d24d..175fcc9 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -200,6 +200,8 @@ fn encode_distance<W: Write>(
     tree: Option<&Vec<Option<BitVec>>>,
     dist: u16,
 ) -> Result<(), Error> {
+    ensure!(dist > 0 && dist <= 32_768, "distance out of range: {}", dist);
+
     if let Some((code, bits, val)) = huffman::encode_distance(dist) {
         let distance_tree = tree
             .as_ref()
-- 
2.43.0


From 103e4465e29c9600f35832d935a46c3b36dae7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 17/17] fix: really take off the bit when popping it

BitVec::pop() left the bit set in its byte: a false pushed afterwards
became true, and bit vectors of the same bits compared unequal.
---
 lib/src/bit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 9d93bff..c29eafd 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -236,6 +236,8 @@ impl BitVec {
 
         if self.len % WORD_SIZE == 0 {
             self.bytes.pop();
+        } else {
+            self.bytes[self.len / WORD_SIZE] &= !(1 << (self.len % WORD_SIZE));
         }
 
         Some(answer)
-- 
2.43.0

