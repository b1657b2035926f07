From 6dd6fb351d92af62d7f96c2f1dbd2e30d90ca321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:37 +0000
Subject: [PATCH 01/33] fix: average the masked black areas without losing
 precision

The sums were accumulated in f32, which stops being exact at 2^24, so on
real sized images the black levels came out wrong by a few units.
---
 src/decoders/image.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 4e3b311..a9a48dd 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -64,26 +64,24 @@ pub struct SRGBImage {
 impl RawImage {
   #[doc(hidden)] pub fn new(camera: Camera, width: usize, height: usize, wb_coeffs: [f32;4], image: Vec<u16>) -> RawImage {
     let blacks = if camera.blackareah.1 != 0 || camera.blackareav.1 != 0 {
-      let mut avg = [0 as f32; 4];
-      let mut count = [0 as f32; 4];
+      let mut sum = [0 as u64; 4];
+      let mut count = [0 as u64; 4];
       for row in camera.blackareah.0 .. camera.blackareah.0+camera.blackareah.1 {
         for col in 0..width {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
-          count[color] += 1.0;
+          sum[color] += image[row*width+col] as u64;
+          count[color] += 1;
         }
       }
       for row in 0..height {
         for col in camera.blackareav.0 .. camera.blackareav.0+camera.blackareav.1 {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
-          count[color] += 1.0;
+          sum[color] += image[row*width+col] as u64;
+          count[color] += 1;
         }
       }
-      [(avg[0]/count[0]) as u16,
-       (avg[1]/count[1]) as u16,
-       (avg[2]/count[2]) as u16,
-       (avg[3]/count[3]) as u16]
+      let avg = |c: usize| if count[c] == 0 {0} else {(sum[c]/count[c]) as u16};
+      [avg(0), avg(1), avg(2), avg(3)]
     } else {
       camera.blacklevels
     };
-- 
2.43.0


From 4bc92167aa285c28662af18a0be7ae02f143893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:37 +0000
Subject: [PATCH 02/33] fix: don't underflow on steep linearization curves
 close to zero

A curve like [0,1,100,...] made LookupTable::new() subtract past zero and
panic, so the file could not be decoded.
---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..065af11 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -112,7 +112,7 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 {table[i-1]} else {center};
       let upper = if i < (table.len()-1) {table[i+1]} else {center};
-      let base = if center == 0 {0} else {center - ((upper - lower + 2) / 4)};
+      let base = if center == 0 {0} else {center.saturating_sub((upper - lower + 2) / 4)};
       let delta = upper - lower;
       tbl[i] = (center, base, delta);
     }
-- 
2.43.0


From 4545d8adab4c1e095c3462be7fcf4fa16d570515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:06 +0000
Subject: [PATCH 03/33] fix: clamp values that are too large to the maximum in
 clampbits()

The port used an arithmetic shift, so anything above the range came out as
-1 (65535 when cast to u16) instead of as the largest value of that many
bits. Bright sNEF pixels indexed past the end of the gamma table because of
it and the file couldn't be decoded.
---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 065af11..70679b9 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -10,7 +10,7 @@ pub use decoders::pumps::*;
 pub fn clampbits(val: i32, bits: u32) -> i32 {
   let temp = val >> bits;
   if temp != 0 {
-    !temp >> (32-bits)
+    ((!temp as u32) >> (32-bits)) as i32
   } else {
     val
   }
-- 
2.43.0


From 2b8275a2435a8ee2722f5e51dffe99dd1b07aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:06 +0000
Subject: [PATCH 04/33] fix: decode the rows after the split in lossy NEF files

The huffman tables used from the split row on encode in their high nibble
how many low bits of the difference aren't stored. That was being taken as
part of the length (e.g. 57 bits) so all those files failed to decode.
---
 src/decoders/ljpeg/huffman.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..361e1f9 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -314,6 +314,17 @@ impl HuffTable {
         }
         -32768
       },
+      len if len > 16 => {
+        // Nikon tables where the low bits of the difference aren't stored, the high
+        // nibble says how many are missing and we use the middle of that range
+        let shift = len >> 4;
+        let len = len & 15;
+        let mut diff = ((((pump.get_bits(len - shift) << 1) + 1) << shift) >> 1) as i32;
+        if (diff & (1 << (len - 1))) == 0 {
+          diff -= 1 << len;
+        }
+        diff
+      },
       len => {
         // decode the difference and extend sign bit
         let mut diff = pump.get_bits(len) as i32;
-- 
2.43.0


From cd986a1dc017a7c2a9131a1f85144064d9bae343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:06 +0000
Subject: [PATCH 05/33] fix: don't dither lossless NEF files

Lossless files have no linearization curve but the values were still being
dithered over the identity one, randomly decrementing about half of the
pixels.
---
 src/decoders/nef.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 894402c..b855c13 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -302,8 +302,14 @@ impl<'a> NefDecoder<'a> {
           pred_left1 += try!(htable.huff_decode(&mut pump));
           pred_left2 += try!(htable.huff_decode(&mut pump));
         }
-        out[row*width+col+0] = curve.dither(clampbits(pred_left1,15) as u16, &mut random);
-        out[row*width+col+1] = curve.dither(clampbits(pred_left2,15) as u16, &mut random);
+        let (val1, val2) = (clampbits(pred_left1,15) as u16, clampbits(pred_left2,15) as u16);
+        if v0 == 70 { // lossless, there's no curve to dither
+          out[row*width+col+0] = val1;
+          out[row*width+col+1] = val2;
+        } else {
+          out[row*width+col+0] = curve.dither(val1, &mut random);
+          out[row*width+col+1] = curve.dither(val2, &mut random);
+        }
       }
     }
 
-- 
2.43.0


From 8cd27355a67416fba986050acd3ad2035ad02238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:06 +0000
Subject: [PATCH 06/33] fix: don't print to stdout when decoding sNEF files

The library shouldn't write to stdout, it corrupts the output of programs
that write the decoded image there.
---
 src/decoders/nef.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index b855c13..8e0898e 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -323,8 +323,6 @@ impl<'a> NefDecoder<'a> {
     let inv_wb_r = (1024.0 / coeffs[0]) as i32;
     let inv_wb_b = (1024.0 / coeffs[2]) as i32;
 
-    println!("Got invwb {} {}", inv_wb_r, inv_wb_b);
-
     Ok(decode_threaded(width*3, height, &(|out: &mut [u16], row| {
       let inb = &src[row*width*3..];
       let mut random = BEu32(inb, 0);
-- 
2.43.0


From e533f151a68c14fdf93f421829c7ee37b8747df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:27 +0000
Subject: [PATCH 07/33] fix: don't wrap around when dithering close to the
 maximum value

The dither adds up to a quarter of the distance between the neighboring
curve points so with a curve that ends at 65535 white pixels would end up
black.
---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 70679b9..f9633c0 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -132,6 +132,6 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    if pixel > 65535 {65535} else {pixel as u16}
   }
 }
-- 
2.43.0


From d3fc04a7c3fac2438f883745ddc54ce9836f2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:11 +0000
Subject: [PATCH 08/33] fix: wrap around inside the block when decoding split
 RW2 files

The two halves of each 16k block are swapped so the byte that follows the
last one is the first one of the same block. The first byte of the next
block was being used instead which corrupted a pixel or more per block.
---
 src/decoders/rw2.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index eeee447..947b7ee 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -151,11 +151,14 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
       self.nbits += 0x4000 * 8;
       self.pos += 0x4000;
     }
-    let mut byte = (self.nbits-num) >> 3 ^ 0x3ff0;
+    let mut byte1 = (self.nbits-num) >> 3 ^ 0x3ff0;
+    let mut byte2 = byte1 + 1;
     if self.split {
-      byte = (byte + 0x4000 - 0x2008) % 0x4000;
+      byte1 = (byte1 + 0x4000 - 0x2008) % 0x4000;
+      byte2 = (byte2 + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    let block = &self.buffer[self.pos - 0x4000..];
+    let bits = (block[byte1 as usize] as u32) | (block[byte2 as usize] as u32) << 8;
     (bits >> ((self.nbits-num) & 7)) & (0x0ffffffffu32 >> (32-num))
   }
 
-- 
2.43.0


From 3bcc977f4c7f8644598248da72c3ec9abeafdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:14 +0000
Subject: [PATCH 09/33] fix: use the right byte for the third sample of 10 bit
 packed data

---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From 240322a9182e33640946f57d6fafd87f41add307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:14 +0000
Subject: [PATCH 10/33] fix: respect the byte order of uncompressed 16 bit DNG
 files

---
 src/decoders/dng.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 98aab16..2a6f246 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -156,7 +156,11 @@ impl<'a> DngDecoder<'a> {
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-      16  => Ok(decode_16le(src, width, height)),
+      16  => Ok(if self.tiff.little_endian() {
+        decode_16le(src, width, height)
+      } else {
+        decode_16be(src, width, height)
+      }),
       12  => Ok(decode_12be(src, width, height)),
       10  => Ok(decode_10le(src, width, height)),
       8   => {
-- 
2.43.0


From ef28de5707d5945e5729cbd49cde509d40377ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:14 +0000
Subject: [PATCH 11/33] fix: don't consume more bits than were peeked for 16
 bit differences

---
 src/decoders/ljpeg/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 361e1f9..d752440 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -236,7 +236,8 @@ impl HuffTable {
 
       if rv == 16 {
         self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
+          // The 16 extra bits never fit in the ones we've peeked at
+          0xff
         } else {
           (-(32768 << 8)) | l as i32
         };
-- 
2.43.0


From 1ded9053d3c2deb8449f5d7484f46f679bff5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:14 +0000
Subject: [PATCH 12/33] fix: place 4 component ljpeg tiles at their position in
 the image

---
 src/decoders/ljpeg/decompressors.rs | 28 ++++++++++++++--------------
 src/decoders/ljpeg/mod.rs           |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index 430e71f..e50d6bb 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -92,7 +92,7 @@ pub fn decode_ljpeg_3components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
   Ok(())
 }
 
-pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], width: usize, height: usize) -> Result<(),String> {
+pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: usize, stripwidth:usize, width: usize, height: usize) -> Result<(),String> {
   if ljpeg.sof.width*4 < width || ljpeg.sof.height < height {
     return Err(format!("ljpeg: trying to decode {}x{} into {}x{}",
                        ljpeg.sof.width*4, ljpeg.sof.height,
@@ -105,21 +105,21 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
   let mut pump = BitPumpJPEG::new(ljpeg.buffer);
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
-  out[0] = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  out[2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
-  out[3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
+  out[x]   = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
+  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
+  out[x+2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
+  out[x+3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
   let skip_x = ljpeg.sof.width - width/4;
 
   for row in 0..height {
-    let startcol = if row == 0 {4} else {0};
-    for col in (startcol..width).step(4) {
-      let pos = if col == 0 {
+    let startcol = if row == 0 {x+4} else {x};
+    for col in (startcol..(width+x)).step(4) {
+      let pos = if col == x {
         // At start of line predictor starts with start of previous line
-        (row-1)*width
+        (row-1)*stripwidth+x
       } else {
         // All other cases use the two previous pixels in the same line
-        row*width+col-4
+        row*stripwidth+col-4
       };
 
       let (p1,p2,p3,p4) = (out[pos],out[pos+1],out[pos+2],out[pos+3]);
@@ -128,10 +128,10 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
       let diff2 = try!(htable2.huff_decode(&mut pump));
       let diff3 = try!(htable3.huff_decode(&mut pump));
       let diff4 = try!(htable4.huff_decode(&mut pump));
-      out[row*width+col] = ((p1 as i32) + diff1) as u16;
-      out[row*width+col+1] = ((p2 as i32) + diff2) as u16;
-      out[row*width+col+2] = ((p3 as i32) + diff3) as u16;
-      out[row*width+col+3] = ((p4 as i32) + diff4) as u16;
+      out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
+      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      out[row*stripwidth+col+2] = ((p3 as i32) + diff3) as u16;
+      out[row*stripwidth+col+3] = ((p4 as i32) + diff4) as u16;
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index 5e0e0f5..b4421a4 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -256,7 +256,7 @@ impl<'a> LjpegDecompressor<'a> {
         match self.sof.cps {
           2 => decode_ljpeg_2components(self, out, x, stripwidth, width, height),
           3 => decode_ljpeg_3components(self, out, x, stripwidth, width, height),
-          4 => decode_ljpeg_4components(self, out, width, height),
+          4 => decode_ljpeg_4components(self, out, x, stripwidth, width, height),
           c => return Err(format!("ljpeg: {} component files not supported", c).to_string()),
         }
       },
-- 
2.43.0


From dbb444d91880fcc7d6c869e82187c74a534ee487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:52 +0000
Subject: [PATCH 13/33] fix: don't guess the bits of 16 bit difference codes
 longer than the table

---
 src/decoders/ljpeg/huffman.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index d752440..90a9166 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -235,8 +235,8 @@ impl HuffTable {
       }
 
       if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          // The 16 extra bits never fit in the ones we've peeked at
+        self.bigtable[i] = if self.dng_bug || l > BIG_TABLE_BITS {
+          // The code and its extra bits don't fit in the ones we've peeked at
           0xff
         } else {
           (-(32768 << 8)) | l as i32
-- 
2.43.0


From 5b843ea5e22cbec877d4c643319664d0daa74d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 14/33] fix: start each line of RGB images at its own samples

---
 src/imageops/gofloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..9e39976 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
-- 
2.43.0


From 88acfb7de488892993f5499cad79876eb7b174ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 15/33] fix: use the height ratio for rows and the width ratio
 for columns when scaling

---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From d5851959769df739d89de9c1439c3bed5ce2c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 16/33] fix: don't scale thin images down to nothing

---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From d99a851847ce7fcd68384a40aa217a00ab34862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 17/33] fix: weigh the partially covered last row and column
 when scaling

---
 src/imageops/demosaic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 37f6105..caee37a 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -88,7 +88,7 @@ fn calc_skips(idx: usize, idxmax: usize, skip: f32) -> (usize, usize, f32, f32)
 
   let to = ((idx+1) as f32)*skip;
   let toforward = (idxmax as f32).min(to.ceil());
-  let tofactor = (toforward-to).fract();
+  let tofactor = 1.0 - (toforward-to).max(0.0).fract();
 
   (fromback as usize, toforward as usize, fromfactor, tofactor)
 }
@@ -110,8 +110,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
         let (fromcol, tocol, leftfactor, rightfactor) = calc_skips(col, buf.width, colskip);
         for x in fromcol..tocol {
           let factor = {
-            (if y == fromrow {topfactor} else if y == torow {bottomfactor} else {1.0}) *
-            (if x == fromcol {leftfactor} else if x == tocol {rightfactor} else {1.0})
+            (if y == fromrow {topfactor} else if y+1 == torow {bottomfactor} else {1.0}) *
+            (if x == fromcol {leftfactor} else if x+1 == tocol {rightfactor} else {1.0})
           };
 
           let c = crop_cfa.color_at(y, x);
@@ -146,8 +146,8 @@ pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
         let (fromcol, tocol, leftfactor, rightfactor) = calc_skips(col, buf.width, colskip);
         for x in fromcol..tocol {
           let factor = {
-            (if y == fromrow {topfactor} else if y == torow {bottomfactor} else {1.0}) *
-            (if x == fromcol {leftfactor} else if x == tocol {rightfactor} else {1.0})
+            (if y == fromrow {topfactor} else if y+1 == torow {bottomfactor} else {1.0}) *
+            (if x == fromcol {leftfactor} else if x+1 == tocol {rightfactor} else {1.0})
           };
 
           for c in 0..buf.colors {
-- 
2.43.0


From ec9d2c577e13681da637dea20dc739772bc8542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:08 +0000
Subject: [PATCH 18/33] fix: keep neutral colors neutral in the output

---
 src/decoders/image.rs       | 5 ++---
 src/imageops/colorspaces.rs | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index a9a48dd..901955c 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -123,7 +123,6 @@ impl RawImage {
   }
 
   fn xyz_matrix_and_neutralwb(&self) -> ([[f32;4];3],[f32;4]) {
-    let d65_white = [0.9547,1.0,1.08883];
     let rgb_to_xyz = [
     // sRGB D65
       [ 0.412453, 0.357580, 0.180423 ],
@@ -161,12 +160,12 @@ impl RawImage {
 
     let cam_to_rgb = self.pseudoinverse(rgb_to_cam);
     let mut cam_to_xyz = [[0.0;4];3];
-    // Multiply RGB matrix and adjust white to get a cam_to_xyz
+    // Multiply RGB matrix to get a cam_to_xyz
     for i in 0..3 {
       for j in 0..4 {
         cam_to_xyz[i][j] = 0.0;
         for k in 0..3 {
-          cam_to_xyz[i][j] += cam_to_rgb[k][j] * rgb_to_xyz[i][k] / d65_white[i];
+          cam_to_xyz[i][j] += cam_to_rgb[k][j] * rgb_to_xyz[i][k];
         }
       }
     }
diff --git a/src/imageops/colorspaces.rs b/src/imageops/colorspaces.rs
index eaa0532..53823a5 100644
--- a/src/imageops/colorspaces.rs
+++ b/src/imageops/colorspaces.rs
@@ -79,8 +79,8 @@ fn xyz_to_rec709_matrix() -> [[f32;3];3] {
 }
 
 fn xyz_to_lab(x: f32, y: f32, z: f32) -> (f32,f32,f32) {
-  // D50 White
-  let xw = 0.9642; let yw = 1.000; let zw = 0.8249;
+  // D65 White, the white of the sRGB matrix
+  let xw = 0.950456; let yw = 1.000; let zw = 1.088754;
 
   let l = 116.0 * labf(y/yw) - 16.0;
   let a = 500.0 * (labf(x/xw) - labf(y/yw));
@@ -118,8 +118,8 @@ fn labf(val: f32) -> f32 {
 }
 
 fn lab_to_xyz(l: f32, a: f32, b: f32) -> (f32,f32,f32) {
-  // D50 White
-  let xw = 0.9642; let yw = 1.000; let zw = 0.8249;
+  // D65 White, the white of the sRGB matrix
+  let xw = 0.950456; let yw = 1.000; let zw = 1.088754;
 
   let cl = l * 100.0;
   let ca = (a * 256.0) - 128.0;
-- 
2.43.0


From 7896e52bc1db999e32e9c6bb3c1f212dbac9bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:21 +0000
Subject: [PATCH 19/33] fix: return an error instead of aborting on absurd
 image dimensions

---
 src/decoders/arw.rs    |  2 +-
 src/decoders/basics.rs | 13 +++++++++++--
 src/decoders/cr2.rs    |  4 ++--
 src/decoders/crw.rs    |  2 +-
 src/decoders/dcr.rs    |  2 +-
 src/decoders/dng.rs    |  2 +-
 src/decoders/mos.rs    |  2 +-
 src/decoders/nef.rs    |  2 +-
 src/decoders/orf.rs    |  2 +-
 src/decoders/packed.rs |  4 ++--
 src/decoders/pef.rs    |  2 +-
 src/decoders/raf.rs    |  4 ++--
 src/decoders/srw.rs    |  6 +++---
 src/decoders/tfr.rs    |  3 ++-
 14 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index aeccb3b..c237b7a 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -141,7 +141,7 @@ impl<'a> ArwDecoder<'a> {
 
   fn decode_arw1(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
     let mut pump = BitPumpMSB::new(buf);
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     let mut sum: i32 = 0;
     for x in 0..width {
diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index f9633c0..e0b826e 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -80,10 +80,19 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
   LittleEndian::read_u16(&buf[pos..pos+2])
 }
 
+/// Allocate the output of a decoder. Dimensions are read from the file so they can be
+/// anything, and failing to allocate memory aborts the process instead of just panicking
+pub fn alloc_image(width: usize, height: usize) -> Vec<u16> {
+  if width > 500_000 || height > 500_000 || width*height > 500_000_000 {
+    panic!("Image dimensions of {}x{} are too large to be real", width, height);
+  }
+  vec![0; width*height]
+}
+
 pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
   out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {
     closure(line, row);
   });
@@ -93,7 +102,7 @@ pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
 pub fn decode_threaded_multiline<F>(width: usize, height: usize, lines: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
   out.par_chunks_mut(width*lines).enumerate().for_each(|(row, line)| {
     closure(line, row*lines);
   });
diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index f8f2688..462c683 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -44,7 +44,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       let mut width = ljpegwidth;
       let mut height = decompressor.height();
       let cpp = if decompressor.super_h() == 2 {3} else {1};
-      let mut ljpegout = vec![0 as u16; width*height];
+      let mut ljpegout = alloc_image(width, height);
       try!(decompressor.decode(&mut ljpegout, 0, width, width, height));
 
       // Linearize the output (applies only to D2000 as far as I can tell)
@@ -87,7 +87,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         if canoncol.get_usize(0) == 0 {
           (width, height, cpp, ljpegout)
         } else {
-          let mut out = vec![0 as u16; width*height];
+          let mut out = alloc_image(width, height);
           let mut fieldwidths = Vec::new();
           for _ in 0..canoncol.get_usize(0) {
             fieldwidths.push(canoncol.get_usize(1));
diff --git a/src/decoders/crw.rs b/src/decoders/crw.rs
index 88777d6..d05e1a9 100644
--- a/src/decoders/crw.rs
+++ b/src/decoders/crw.rs
@@ -189,7 +189,7 @@ impl<'a> CrwDecoder<'a> {
   }
 
   fn decode_compressed(&self, cam: &Camera, width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
 
     let dectable = fetch_tag!(self.ciff, CiffTag::DecoderTable).get_usize(0);
     if dectable > 2 {
diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e18b32a..e832d58 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -61,7 +61,7 @@ impl<'a> DcrDecoder<'a> {
   }
 
   fn decode_kodak65000(buf: &[u8], curve: &LookupTable, width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
     let mut input = ByteStream::new(buf, LITTLE_ENDIAN);
 
     let mut random: u32 = 0;
diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 2a6f246..f6ba78f 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -186,7 +186,7 @@ impl<'a> DngDecoder<'a> {
       }
       let offset = offsets.get_usize(0);
       let src = &self.buffer[offset..];
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       let decompressor = try!(LjpegDecompressor::new(src));
       try!(decompressor.decode(&mut out, 0, width, width, height));
       Ok(out)
diff --git a/src/decoders/mos.rs b/src/decoders/mos.rs
index 27ba117..7c957d1 100644
--- a/src/decoders/mos.rs
+++ b/src/decoders/mos.rs
@@ -89,7 +89,7 @@ impl<'a> MosDecoder<'a> {
     let decompressor = try!(LjpegDecompressor::new_full(src, true, true));
     let ljpegout = try!(decompressor.decode_leaf(width, height));
     if cam.find_hint("interlaced") {
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       for (row,line) in ljpegout.chunks(width).enumerate() {
         let orow = if row & 1 == 1 {height-1-row/2} else {row/2};
         out[orow*width .. (orow+1)*width].copy_from_slice(line);
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 8e0898e..29bdec9 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -285,7 +285,7 @@ impl<'a> NefDecoder<'a> {
     }
     let curve = LookupTable::new(&points[0..max]);
 
-    let mut out = vec![0 as u16; width * height];
+    let mut out = alloc_image(width, height);
     let mut pump = BitPumpMSB::new(src);
     let mut random = pump.peek_bits(24);
 
diff --git a/src/decoders/orf.rs b/src/decoders/orf.rs
index 2ab2802..7ab4d8e 100644
--- a/src/decoders/orf.rs
+++ b/src/decoders/orf.rs
@@ -67,7 +67,7 @@ impl<'a> OrfDecoder<'a> {
    */
 
   pub fn decode_compressed(buf: &'a [u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     /* Build a table to quickly look up "high" value */
     let mut bittable: [u8; 4096] = [0; 4096];
diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index fc7a18e..df180b1 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -74,7 +74,7 @@ pub fn decode_12be(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 }
 
 pub fn decode_12be_msb16(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(4).zip(buf.chunks(6)) {
     let g1:  u16 = i[ 0] as u16;
@@ -109,7 +109,7 @@ pub fn decode_12le_16bitaligned(buf: &[u8], width: usize, height: usize) -> Vec<
 }
 
 pub fn decode_12be_msb32(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(8).zip(buf.chunks(12)) {
     let g1:  u16 = i[ 0] as u16;
diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 2150809..6bd74c5 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -121,7 +121,7 @@ impl<'a> PefDecoder<'a> {
     let mut pred_left1: i32;
     let mut pred_left2: i32;
 
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     for row in 0..height {
       pred_up1[row & 1] += try!(htable.huff_decode(&mut pump));
       pred_up2[row & 1] += try!(htable.huff_decode(&mut pump));
diff --git a/src/decoders/raf.rs b/src/decoders/raf.rs
index ae8dae2..0ecc00c 100644
--- a/src/decoders/raf.rs
+++ b/src/decoders/raf.rs
@@ -109,7 +109,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropheight + cropwidth/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
@@ -124,7 +124,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropwidth + cropheight/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..c29345c 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -74,7 +74,7 @@ impl<'a> Decoder for SrwDecoder<'a> {
 
 impl<'a> SrwDecoder<'a> {
   pub fn decode_srw1(buf: &[u8], loffsets: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     for row in 0..height {
       let mut len: [u32; 4] = [if row < 2 {7} else {4}; 4];
@@ -141,7 +141,7 @@ impl<'a> SrwDecoder<'a> {
   }
 
   pub fn decode_srw2(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     // This format has a variable length encoding of how many bits are needed
     // to encode the difference between pixels, we use a table to process it
@@ -213,7 +213,7 @@ impl<'a> SrwDecoder<'a> {
     // and Loring von Palleske (Samsung) for pointing to the open-source code of
     // Samsung's DNG converter at http://opensource.samsung.com/
 
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
     let mut pump = BitPumpMSB32::new(buf);
 
     // Process the initial metadata bits, we only really use initVal, width and
diff --git a/src/decoders/tfr.rs b/src/decoders/tfr.rs
index 339be38..1308e44 100644
--- a/src/decoders/tfr.rs
+++ b/src/decoders/tfr.rs
@@ -1,5 +1,6 @@
 use decoders::*;
 use decoders::tiff::*;
+use decoders::basics::alloc_image;
 use decoders::ljpeg::*;
 use std::f32::NAN;
 
@@ -41,7 +42,7 @@ impl<'a> TfrDecoder<'a> {
   }
 
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     let decompressor = try!(LjpegDecompressor::new_full(src, true, false));
     try!(decompressor.decode(&mut out, 0, width, width, height));
     Ok(out)
-- 
2.43.0


From 8e20bec58cc1e00169f027769e3e0c10710b9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:24 +0000
Subject: [PATCH 20/33] fix: limit the total number of TIFF IFDs

---
 src/decoders/tiff.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..e5800c9 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -101,6 +101,9 @@ fn t (tag: Tag) -> u16 {
   tag as u16
 }
 
+// Real files don't get anywhere near this many
+const MAX_IFDS: usize = 1000;
+
 #[derive(Debug, Copy, Clone)]
 pub struct TiffEntry<'a> {
   tag: u16,
@@ -170,8 +173,9 @@ impl<'a> TiffIFD<'a> {
       x => {return Err(format!("TIFF: don't know marker 0x{:x}", x).to_string())},
     };
     let mut nextifd = endian.ru32(buf, offset+4) as usize;
+    let mut budget = MAX_IFDS;
     for _ in 0..100 { // Never read more than 100 IFDs
-      let ifd = try!(TiffIFD::new(&buf[offset..], nextifd, 0, offset, 0, endian));
+      let ifd = try!(TiffIFD::new_limited(&buf[offset..], nextifd, 0, offset, 0, endian, &mut budget));
       nextifd = ifd.nextifd;
       subifds.push(ifd);
       if nextifd == 0 {
@@ -189,9 +193,21 @@ impl<'a> TiffIFD<'a> {
   }
 
   pub fn new(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+    let mut budget = MAX_IFDS;
+    TiffIFD::new_limited(buf, offset, base_offset, start_offset, depth, e, &mut budget)
+  }
+
+  // The budget is shared by all the IFDs of a file, as IFDs that point at each other
+  // multiply at every level even with the depth limited
+  fn new_limited(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian, budget: &mut usize) -> Result<TiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
+    if *budget == 0 {
+      return Err("too many IFDs".to_string())
+    }
+    *budget -= 1;
+
     let num = e.ru16(buf, offset); // Directory entries in this IFD
     if num > 4000 {
       return Err(format!("too many entries in IFD ({})", num).to_string())
@@ -211,7 +227,8 @@ impl<'a> TiffIFD<'a> {
       || entry.tag == t(Tag::KdcIFD) {
         if depth < 10 { // Avoid infinite looping IFDs
           for i in 0..entry.count {
-            let ifd = TiffIFD::new(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e);
+            if *budget == 0 { break }
+            let ifd = TiffIFD::new_limited(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e, budget);
             match ifd {
               Ok(val) => {subifds.push(val);},
               Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
@@ -220,7 +237,7 @@ impl<'a> TiffIFD<'a> {
         }
       } else if entry.tag == t(Tag::Makernote) {
         if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e);
+          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
@@ -240,7 +257,7 @@ impl<'a> TiffIFD<'a> {
     })
   }
 
-  pub fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+  fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian, budget: &mut usize) -> Result<TiffIFD<'a>, String> {
     let mut off = 0;
     let data = &buf[offset..];
     let mut endian = e;
@@ -267,13 +284,13 @@ impl<'a> TiffIFD<'a> {
     if data[0..6] == b"PENTAX"[..] {
       off += 8;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[offset..], 10, base_offset, 0, depth, endian)
+      return TiffIFD::new_limited(&buf[offset..], 10, base_offset, 0, depth, endian, budget)
     }
 
     if data[0..7] == b"Nikon\0\x02"[..] {
       off += 10;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[off+offset..], 8, base_offset, 0, depth, endian)
+      return TiffIFD::new_limited(&buf[off+offset..], 8, base_offset, 0, depth, endian, budget)
     }
 
     // Some have MM or II to indicate endianness - read that
@@ -285,7 +302,7 @@ impl<'a> TiffIFD<'a> {
       endian = BIG_ENDIAN;
     }
 
-    TiffIFD::new(buf, offset+off, base_offset, 0, depth, endian)
+    TiffIFD::new_limited(buf, offset+off, base_offset, 0, depth, endian, budget)
   }
 
   pub fn new_fuji(buf: &'a[u8], offset: usize) -> Result<TiffIFD<'a>, String> {
-- 
2.43.0


From 095f6a046222a7b3a243c3525694964349058eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:48 +0000
Subject: [PATCH 21/33] fix: limit the total number of CIFF IFDs

---
 src/decoders/ciff.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/decoders/ciff.rs b/src/decoders/ciff.rs
index 7ffdde1..21c976f 100644
--- a/src/decoders/ciff.rs
+++ b/src/decoders/ciff.rs
@@ -48,10 +48,19 @@ pub fn is_ciff(buf: &[u8]) -> bool {
 impl<'a> CiffIFD<'a> {
   pub fn new_file(buf: &'a Buffer) -> Result<CiffIFD<'a>,String> {
     let data = &buf.buf;
-    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1)
+    // Real files don't get anywhere near this many IFDs
+    let mut budget = 1000;
+    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1, &mut budget)
   }
 
-  pub fn new(buf: &'a[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD<'a>, String> {
+  // The budget is shared by all the IFDs of a file, as IFDs that point at each other
+  // multiply at every level even with the depth limited
+  fn new(buf: &'a[u8], start: usize, end: usize, depth: u32, budget: &mut usize) -> Result<CiffIFD<'a>, String> {
+    if *budget == 0 {
+      return Err("CIFF: too many IFDs".to_string())
+    }
+    *budget -= 1;
+
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
@@ -63,7 +72,7 @@ impl<'a> CiffIFD<'a> {
       let e = try!(CiffEntry::new(buf, start, entry_offset));
       if e.typ == 0x2800 || e.typ == 0x3000 { // SubIFDs
         if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1);
+          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(e.tag, e);}, // Ignore unparsable IFDs
-- 
2.43.0


From ea36884c59a2ea5dc0ff4197ccc15b436712bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:48 +0000
Subject: [PATCH 22/33] fix: don't overflow on long MRW blocks

---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..d38b8c7 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -52,7 +52,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len+8) as usize;
+      currpos += len as usize + 8;
     }
 
     MrwDecoder { 
-- 
2.43.0


From a7f67c919b2fbd5eade2edf0b3aaf6f113fec53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:48 +0000
Subject: [PATCH 23/33] fix: don't overflow on long RAF metadata entries

---
 src/decoders/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index e5800c9..d5929eb 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -336,7 +336,7 @@ impl<'a> TiffIFD<'a> {
           endian: BIG_ENDIAN,
         });
       }
-      off += (len+4) as usize;
+      off += len as usize + 4;
     }
 
     Ok(TiffIFD {
-- 
2.43.0


From 646173130c4becb570d58fb4da5685164ecbf68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:17 +0000
Subject: [PATCH 24/33] fix: return an error when sRAW dimensions don't match
 the data

---
 src/decoders/cr2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 462c683..b64549e 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -142,6 +142,10 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       }
     };
 
+    if image.len() != width*height || width % cpp != 0 {
+      return Err(format!("CR2: {} samples don't make up a {}x{} image", image.len(), width, height).to_string())
+    }
+
     let wb = self.get_wb(&camera)?;
     let mut img = RawImage::new(camera, width, height, wb, image);
     if cpp == 3 {
-- 
2.43.0


From 0dff2886c3e6a376d85877842989214bf38ff1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:39 +0000
Subject: [PATCH 25/33] fix: don't overflow on linearization curves that jump
 over the full range

---
 src/decoders/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index e0b826e..f58b4db 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -121,8 +121,8 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 {table[i-1]} else {center};
       let upper = if i < (table.len()-1) {table[i+1]} else {center};
-      let base = if center == 0 {0} else {center.saturating_sub((upper - lower + 2) / 4)};
       let delta = upper - lower;
+      let base = if center == 0 {0} else {center.saturating_sub(((delta as u32 + 2) / 4) as u16)};
       tbl[i] = (center, base, delta);
     }
     LookupTable {
-- 
2.43.0


From fb09fac905d247e95c2eaf819c29127eb6aed8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 26/33] fix: refuse CR2 stripe counts that cannot fit the image

---
 src/decoders/cr2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index b64549e..6529a8a 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -87,6 +87,9 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         if canoncol.get_usize(0) == 0 {
           (width, height, cpp, ljpegout)
         } else {
+          if canoncol.get_usize(1) == 0 || canoncol.get_usize(0)*canoncol.get_usize(1) > width {
+            return Err("CR2: Stripes don't fit the image".to_string())
+          }
           let mut out = alloc_image(width, height);
           let mut fieldwidths = Vec::new();
           for _ in 0..canoncol.get_usize(0) {
-- 
2.43.0


From bf9def9b43ecfddea672dd93d33bb0e330585ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:52 +0000
Subject: [PATCH 27/33] fix: accept lossless JPEG Huffman codes longer than the
 sample precision

Code lengths go up to 16 bits for every precision.
---
 src/decoders/ljpeg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index b4421a4..67f9f67 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -171,7 +171,7 @@ impl<'a> LjpegDecompressor<'a> {
     let mut dhts = Vec::new();
     for i in 0..4 {
       dhts.push(if dht_init[i] {
-        try!(HuffTable::new(dht_bits[i], dht_huffval[i], sof.precision, dng_bug))
+        try!(HuffTable::new(dht_bits[i], dht_huffval[i], 16, dng_bug))
       } else {
         HuffTable::empty(0)
       });
-- 
2.43.0


From 198e9f30fc667972ecb36ed75784a143e679c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:31 +0000
Subject: [PATCH 28/33] fix: report statistics over all the samples of RGB
 images

Images with 3 components per pixel have width*height*3 samples but only the
first third of them was looked at.
---
 src/bin/rawloader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index a2feb62..5f223e8 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -52,14 +52,13 @@ fn main() {
   let mut sum: u64 = 0;
   let mut min: u16 = image.data[0];
   let mut max: u16 = 0;
-  for i in 0..(image.width*image.height) {
-    let val = image.data[i as usize];
+  for &val in image.data.iter() {
     sum += val as u64;
     if val < min { min = val; }
     if val > max { max = val; }
   }
   println!("Image sum: {}", sum);
-  let count: u64 = (image.width as u64) * (image.height as u64);
+  let count: u64 = image.data.len() as u64;
   println!("Image avg: {}", sum/count);
   println!("Image min: {}", min);
   println!("Image max: {}", max);
-- 
2.43.0


From 66519263534633e3b101bf46774be6923c6a075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:33 +0000
Subject: [PATCH 29/33] fix: report errors in writing out the end of the output
 file

---
 src/bin/rawloader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index 5f223e8..545e378 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -80,4 +80,8 @@ fn main() {
       error(err.description());
     }
   }
+  // Dropping the writer would ignore any error in writing out what's still buffered
+  if let Err(err) = f.flush() {
+    error(err.description());
+  }
 }
-- 
2.43.0


From 4985ac624a916caa8a730c95e4e36695441ab897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:55 +0000
Subject: [PATCH 30/33] fix: don't reserve memory for Sony data the file
 doesn't have

---
 src/decoders/arw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index c237b7a..53d650b 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -259,7 +259,8 @@ impl<'a> ArwDecoder<'a> {
       pad[p] = u32::from_be(pad[p]);
     }
 
-    let mut out = Vec::with_capacity(length+4);
+    // The length comes from the file, never reserve more than there is data to decrypt
+    let mut out = Vec::with_capacity(cmp::min(length, buf.len())+4);
     for i in 0..(length/4+1) {
       let p = i + 127;
       pad[p & 127] = pad[(p+1) & 127] ^ pad[(p+1+64) & 127];
-- 
2.43.0


From a77118b93609a176d9e6fbb95b86160a38c78c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 31/33] fix: take the levels of DNG files from their place in
 the pattern or pixel

---
 src/decoders/dng.rs  | 59 ++++++++++++++++++++++++++++++++++----------
 src/decoders/tiff.rs |  1 +
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index f6ba78f..730f649 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -61,6 +61,8 @@ impl<'a> Decoder for DngDecoder<'a> {
       }
     };
 
+    let cfa = if linear {CFA::new("")} else {try!(self.get_cfa(raw))};
+
     Ok(RawImage {
       make: make,
       model: model,
@@ -71,10 +73,10 @@ impl<'a> Decoder for DngDecoder<'a> {
       cpp: cpp,
       wb_coeffs: try!(self.get_wb()),
       data: image,
-      blacklevels: try!(self.get_blacklevels(raw)),
-      whitelevels: try!(self.get_whitelevels(raw)),
+      blacklevels: try!(self.get_blacklevels(raw, cpp, &cfa)),
+      whitelevels: try!(self.get_whitelevels(raw, cpp)),
       xyz_to_cam: try!(self.get_color_matrix()),
-      cfa: if linear {CFA::new("")} else {try!(self.get_cfa(raw))},
+      cfa: cfa,
       crops: try!(self.get_crops(raw, width, height)),
       orientation: orientation,
     })
@@ -90,23 +92,54 @@ impl<'a> DngDecoder<'a> {
     }
   }
 
-  fn get_blacklevels(&self, raw: &TiffIFD) -> Result<[u16;4], String> {
+  fn get_blacklevels(&self, raw: &TiffIFD, cpp: usize, cfa: &CFA) -> Result<[u16;4], String> {
     if let Some(levels) = raw.find_entry(Tag::BlackLevels) {
-      if levels.count() < 4 {
-        let black = levels.get_f32(0) as u16;
-        Ok([black, black, black, black])
-      } else {
-        Ok([levels.get_f32(0) as u16,levels.get_f32(1) as u16,
-            levels.get_f32(2) as u16,levels.get_f32(3) as u16])
+      let level = |i: usize| levels.get_f32(i) as u16;
+      let mut out = [level(0); 4];
+
+      if cpp > 1 {
+        // One level for each of the samples of a pixel
+        for c in 0..cmp::min(4, cmp::min(cpp, levels.count())) {
+          out[c] = level(c);
+        }
+      } else if cfa.is_valid() {
+        // The levels are those of the positions of a repeating pattern
+        let (rows, cols) = match raw.find_entry(Tag::BlackLevelRepeatDim) {
+          Some(dim) => (dim.get_usize(0), dim.get_usize(1)),
+          None => (cfa.height, cfa.width),
+        };
+        if rows > 0 && cols > 0 && rows <= 48 && cols <= 48 && rows*cols <= levels.count() {
+          let mut sums: [u64; 4] = [0; 4];
+          let mut counts: [u64; 4] = [0; 4];
+          for row in 0..rows*cfa.height {
+            for col in 0..cols*cfa.width {
+              let color = cfa.color_at(row, col);
+              sums[color] += level((row%rows)*cols + col%cols) as u64;
+              counts[color] += 1;
+            }
+          }
+          for c in 0..4 {
+            if counts[c] > 0 {
+              out[c] = (sums[c] / counts[c]) as u16;
+            }
+          }
+        }
       }
+
+      Ok(out)
     } else {
       Ok([0,0,0,0])
     }
   }
 
-  fn get_whitelevels(&self, raw: &TiffIFD) -> Result<[u16;4], String> {
-    let level = fetch_tag!(raw, Tag::WhiteLevel).get_u32(0) as u16;
-    Ok([level,level,level,level])
+  fn get_whitelevels(&self, raw: &TiffIFD, cpp: usize) -> Result<[u16;4], String> {
+    let levels = fetch_tag!(raw, Tag::WhiteLevel);
+    let mut out = [levels.get_u32(0) as u16; 4];
+    // One level for each of the samples of a pixel
+    for c in 0..cmp::min(4, cmp::min(cpp, levels.count())) {
+      out[c] = levels.get_u32(c) as u16;
+    }
+    Ok(out)
   }
 
   fn get_cfa(&self, raw: &TiffIFD) -> Result<CFA,String> {
diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index d5929eb..d7fb205 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -72,6 +72,7 @@ pub enum Tag {
   Cr2Id            = 0xc5d8,
   DNGVersion       = 0xC612,
   Linearization    = 0xC618,
+  BlackLevelRepeatDim = 0xC619,
   BlackLevels      = 0xC61A,
   WhiteLevel       = 0xC61D,
   ColorMatrix1     = 0xC621,
-- 
2.43.0


From 80ebfda854729e2f1930f432343f06bdc8904cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 32/33] fix: take the blue black level of PEF files from the
 last of the four

---
 src/decoders/pef.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 6bd74c5..d56cc1d 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -52,8 +52,9 @@ impl<'a> PefDecoder<'a> {
   fn get_blacklevels(&self) -> Option<[u16;4]> {
     match self.tiff.find_entry(Tag::PefBlackLevels) {
       Some(levels) => {
+        // The levels are in RGGB order just like the white balance
         Some([levels.get_f32(0) as u16,levels.get_f32(1) as u16,
-             levels.get_f32(2) as u16,levels.get_f32(3) as u16])
+             levels.get_f32(3) as u16,levels.get_f32(2) as u16])
       },
       None => None,
     }
-- 
2.43.0


From a891a1fbb835a25df983d68c0dc239caaf14fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 33/33] fix: don't truncate orientations that don't fit 16 bits

---
 src/decoders/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index 59abd25..24b50af 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::collections::HashMap;
 use std::io::Read;
 use std::fs::File;
@@ -227,7 +228,7 @@ impl Orientation {
   /// value or contains no orientation data `Orientation::Unknown` is returned
   fn from_tiff(tiff: &TiffIFD) -> Orientation {
     match tiff.find_entry(Tag::Orientation) {
-      Some(entry) => Orientation::from_u16(entry.get_usize(0) as u16),
+      Some(entry) => Orientation::from_u16(cmp::min(entry.get_usize(0), 0xffff) as u16),
       None => Orientation::Unknown,
     }
   }
-- 
2.43.0

