From f9aa4817a385b63051f7851067256630cd3876af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 01/51] fix: ljpeg: a difference of category 16 has no
 additional bits

---
 src/decompress/ljpeg.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..823d87b 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -446,11 +446,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = read_diff(reader, s)?;
                     self.mcu_row[self.cur_row][0][cur_comp] =
                         (d + self.mcu_row[self.prev_row][0][cur_comp] as i32) as u16;
                 } else {
@@ -470,11 +466,7 @@ impl LJpeg {
                     if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                         // Section F.2.2.1: decode the difference
                         let s = self.huff_decode(dctbl, reader)? as u8;
-                        let d = if s != 0 {
-                            extend(reader.get_bits(s)?, s)
-                        } else {
-                            0
-                        };
+                        let d = read_diff(reader, s)?;
                         let predictor = self.quick_predict(
                             col as i32,
                             cur_comp as i16,
@@ -566,11 +558,7 @@ impl LJpeg {
             if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                 // Section F.2.2.1: decode the difference
                 let s = self.huff_decode(dctbl, reader)? as u8;
-                let d = if s != 0 {
-                    extend(reader.get_bits(s)?, s)
-                } else {
-                    0
-                };
+                let d = read_diff(reader, s)?;
 
                 // Add the predictor to the difference.
                 let cur_row_buf = &mut self.mcu_row[self.cur_row];
@@ -591,11 +579,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = read_diff(reader, s)?;
                     // Add the predictor to the difference.
                     let cur_row_buf = &mut self.mcu_row[self.cur_row];
                     cur_row_buf[col as usize][cur_comp as usize] =
@@ -1121,6 +1105,17 @@ fn extend(x: u16, s: u8) -> i32 {
     }
 }
 
+#[inline]
+/// Read the difference of category `s`. The category 16 has no
+/// additional bits (ITU T.81 H.1.2.2).
+fn read_diff(reader: &mut LJpegBitReader, s: u8) -> Result<i32> {
+    match s {
+        0 => Ok(0),
+        16 => Ok(32768),
+        _ => Ok(extend(reader.get_bits(s)?, s)),
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::io::Read;
-- 
2.43.0


From 98b4d3d8bef7f1a022ace26804287d287c342521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 02/51] fix: ljpeg: return an error for truncated or
 inconsistent streams

---
 src/decompress/bit_reader.rs    | 42 +++++++++++---
 src/decompress/ljpeg.rs         | 99 ++++++++++++++++++++-------------
 src/decompress/sliced_buffer.rs |  4 --
 3 files changed, 92 insertions(+), 53 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..861a49d 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -162,6 +162,10 @@ impl BitReader for LJpegBitReader<'_> {
     }
 }
 
+fn end_of_data() -> Error {
+    Error::Decompression("LJPEG: unexpected end of data".into())
+}
+
 impl<'a> LJpegBitReader<'a> {
     pub fn new(buffer: &'a [u8]) -> LJpegBitReader<'a> {
         LJpegBitReader {
@@ -173,17 +177,22 @@ impl<'a> LJpegBitReader<'a> {
     }
 
     /// Read a byte out of the buffer.
-    pub(crate) fn read_u8(&mut self) -> u8 {
-        let b = self.buffer[self.pos];
+    pub(crate) fn read_u8(&mut self) -> Result<u8> {
+        let b = self.buffer.get(self.pos).copied().ok_or_else(end_of_data)?;
         self.pos += 1;
-        b
+        Ok(b)
     }
 
     /// Read an u16 from the bit reader. JPEG is always BigEndian.
-    pub(crate) fn read_u16(&mut self) -> u16 {
-        let b = BigEndian::read_u16(&self.buffer[self.pos..]);
+    pub(crate) fn read_u16(&mut self) -> Result<u16> {
+        let b = self
+            .buffer
+            .get(self.pos..)
+            .filter(|b| b.len() >= 2)
+            .map(BigEndian::read_u16)
+            .ok_or_else(end_of_data)?;
         self.pos += 2;
-        b
+        Ok(b)
     }
 
     /// Skip `seek` bytes.
@@ -201,14 +210,29 @@ impl<'a> LJpegBitReader<'a> {
     // Process any stuffed bytes at this time.
     fn fill_bit_buffer(&mut self, nbits: u8) -> Result<()> {
         while self.bits_left < MIN_GET_BITS {
-            let mut c = self.read_u8();
+            let mut c = match self.read_u8() {
+                Ok(c) => c,
+                // The data may end before the buffer is full.
+                Err(_) if self.bits_left >= nbits => break,
+                Err(err) => return Err(err),
+            };
+            let marker_pos = self.pos - 1;
             // If it's 0xFF, check and discard stuffed zero byte
             if c == 0xff {
-                let c2 = self.read_u8();
+                let c2 = match self.read_u8() {
+                    Ok(c) => c,
+                    Err(err) => {
+                        self.pos = marker_pos;
+                        if self.bits_left >= nbits {
+                            break;
+                        }
+                        return Err(err);
+                    }
+                };
                 if c2 != 0 {
                     // Oops, it's actually a marker indicating end of
                     // compressed data.  Better put it back for use later.
-                    self.pos -= 2;
+                    self.pos = marker_pos;
                     // There should be enough bits still left in the data
                     // segment; if so, just break out of the while loop.
                     if self.bits_left > nbits {
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 823d87b..a538fb9 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -174,7 +174,9 @@ impl LJpeg {
 
         let mut bit_reader = LJpegBitReader::new(buffer);
         self.read_file_header(&mut dc_info, &mut bit_reader)?;
-        self.read_scan_header(&mut dc_info, &mut bit_reader)?;
+        if !self.read_scan_header(&mut dc_info, &mut bit_reader)? {
+            return Err(Error::JpegFormat("LJPEG: no scan".into()));
+        }
 
         if dc_info.image_width == 0 || dc_info.image_height == 0 {
             return Err(Error::JpegFormat(format!(
@@ -188,17 +190,32 @@ impl LJpeg {
                 dc_info.num_components
             )));
         }
+        let out_width = dc_info.image_width as usize * dc_info.num_components as usize;
+        // Each sample takes at least one bit.
+        if out_width * dc_info.image_height as usize > buffer.len().saturating_mul(8) {
+            return Err(Error::JpegFormat(format!(
+                "LJPEG: not enough data for dimensions {}x{}",
+                dc_info.image_width, dc_info.image_height
+            )));
+        }
+        if dc_info.comps_in_scan != dc_info.num_components as u16 {
+            return Err(Error::JpegFormat(
+                "LJPEG: the scan doesn't have all the components".into(),
+            ));
+        }
+        if let Some(slices) = &self.slices {
+            if slices.iter().map(|w| *w as u64).sum::<u64>() > out_width as u64 {
+                return Err(Error::JpegFormat(
+                    "LJPEG: slices are wider than the image".into(),
+                ));
+            }
+        }
         let bpc = dc_info.data_precision;
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             dc_info.image_width as u32 * dc_info.num_components as u32,
             dc_info.image_height as u32,
             self.slices.clone().as_deref(),
         );
-        output.reserve(
-            dc_info.image_width as usize
-                * dc_info.image_height as usize
-                * dc_info.num_components as usize,
-        );
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
@@ -281,8 +298,8 @@ impl LJpeg {
     fn read_file_header(&self, dc: &mut DecompressInfo, reader: &mut LJpegBitReader) -> Result<()> {
         // Demand an SOI marker at the start of the file --- otherwise it's
         // probably not a JPEG file at all.
-        let c = reader.read_u8();
-        let c2 = reader.read_u8();
+        let c = reader.read_u8()?;
+        let c2 = reader.read_u8()?;
         if c != 0xff || c2 != M_SOI {
             return Err(Error::Decompression(format!(
                 "LJPEG: Not a JPEG file. Marker is {c:x} {c2:x}"
@@ -507,18 +524,18 @@ impl LJpeg {
         let mut c = 0;
         while c == 0 {
             // nbytes += 1;
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any non-FF bytes
             while c != 0xff {
                 // nbytes += 1;
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any duplicate FFs
             while c == 0xff {
                 //  we don't increment nbytes here since extra FFs are legal
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
         } // repeat if it was a stuffed FF/00
 
@@ -622,8 +639,10 @@ impl LJpeg {
                 // log::warn!("Corrupt JPEG data: bad huffman code")
                 rv = 0;
             } else {
-                rv = htbl.huffval[((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize]
-                    as u16;
+                let index = ((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize;
+                rv = *htbl.huffval.get(index).ok_or_else(|| {
+                    Error::JpegFormat("LJPEG: invalid Huffman table".into())
+                })? as u16;
             }
         }
 
@@ -920,11 +939,11 @@ impl DecompressInfo {
     }
 
     fn get_sof(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
-        self.data_precision = reader.read_u8();
-        self.image_height = reader.read_u16();
-        self.image_width = reader.read_u16();
-        self.num_components = reader.read_u8();
+        let length = reader.read_u16()?;
+        self.data_precision = reader.read_u8()?;
+        self.image_height = reader.read_u16()?;
+        self.image_width = reader.read_u16()?;
+        self.num_components = reader.read_u8()?;
 
         // We don't support files in which the image height is initially
         // specified as 0 and is later redefined by DNL.  As long as we
@@ -951,11 +970,11 @@ impl DecompressInfo {
         for ci in 0..self.num_components {
             let compptr = &mut self.comp_info[ci as usize];
             compptr.component_index = ci as u16;
-            compptr.component_id = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            compptr.component_id = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             compptr.h_samp_factor = ((c >> 4) & 15) as u16;
             compptr.v_samp_factor = (c & 15) as u16;
-            reader.read_u8(); // skip Tq
+            reader.read_u8()?; // skip Tq
         }
 
         Ok(())
@@ -963,9 +982,9 @@ impl DecompressInfo {
 
     fn get_dht(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
         // length as a signed i32 is safer
-        let mut length = reader.read_u16() as i32 - 2;
+        let mut length = reader.read_u16()? as i32 - 2;
         while length > 0 {
-            let index = reader.read_u8();
+            let index = reader.read_u8()?;
 
             if index >= 4 {
                 return Err(Error::JpegFormat(format!("LJPEG: Bogus DHT index {index}")));
@@ -978,7 +997,7 @@ impl DecompressInfo {
             htblptr.bits[0] = 0;
             let mut count = 0_u16;
             for i in 1..=16 {
-                let b = reader.read_u8();
+                let b = reader.read_u8()?;
                 htblptr.bits[i] = b;
                 count += b as u16;
             }
@@ -987,7 +1006,7 @@ impl DecompressInfo {
                 return Err(Error::JpegFormat("LJPEG: Bogus DHT counts".into()));
             }
             for i in 0_usize..count as usize {
-                htblptr.huffval[i] = reader.read_u8();
+                htblptr.huffval[i] = reader.read_u8()?;
             }
             length -= 1 + 16 + count as i32;
         }
@@ -995,7 +1014,7 @@ impl DecompressInfo {
     }
 
     fn skip_variable(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: invalid variable length".into()));
         }
@@ -1010,14 +1029,14 @@ impl DecompressInfo {
 
         loop {
             // skip any non-FF bytes
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c != 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c == 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
             if c != 0 {
                 break;
@@ -1028,16 +1047,16 @@ impl DecompressInfo {
     }
 
     fn get_dri(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        if reader.read_u16() != 4 {
+        if reader.read_u16()? != 4 {
             return Err(Error::JpegFormat("LJPEG: Invalid DRI length.".into()));
         }
-        self.restart_interval = reader.read_u16();
+        self.restart_interval = reader.read_u16()?;
         Ok(())
     }
 
     /// Process APP0 marker.
     fn get_app0(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: Invalid APP0 length.".into()));
         }
@@ -1047,12 +1066,12 @@ impl DecompressInfo {
     }
 
     fn get_sos(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let mut length = reader.read_u16();
+        let mut length = reader.read_u16()?;
         if length < 3 {
             return Err(Error::JpegFormat("LJPEG: invalid SOS length".into()));
         }
 
-        let n = reader.read_u8();
+        let n = reader.read_u8()?;
         self.comps_in_scan = n as u16;
         length -= 3;
 
@@ -1061,8 +1080,8 @@ impl DecompressInfo {
         }
 
         for i in 0..n {
-            let cc = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            let cc = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             length -= 2;
 
             let mut ci = 0;
@@ -1084,9 +1103,9 @@ impl DecompressInfo {
             self.cur_comp_info[i as usize] = compptr.clone();
         }
 
-        self.ss = reader.read_u8();
+        self.ss = reader.read_u8()?;
         reader.skip(1);
-        let c = reader.read_u8();
+        let c = reader.read_u8()?;
         self.pt = c & 0x0f;
 
         Ok(())
diff --git a/src/decompress/sliced_buffer.rs b/src/decompress/sliced_buffer.rs
index c4cf5cb..16e4f0a 100644
--- a/src/decompress/sliced_buffer.rs
+++ b/src/decompress/sliced_buffer.rs
@@ -80,10 +80,6 @@ impl<T: Copy + Default> SlicedBuffer<T> {
         }
     }
 
-    pub fn reserve(&mut self, reserve_size: usize) {
-        self.buffer.reserve(reserve_size)
-    }
-
     /// Move to next slice
     fn next_slice(&mut self) {
         if self.slices.len() > self.slice {
-- 
2.43.0


From f9d0fc197e336f6302885ce1178b8884654c782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 03/51] fix: tiled ljpeg: fail when a tile is missing or too
 small

---
 src/decompress/tiled.rs | 48 ++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..7ed4767 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -24,7 +24,7 @@
 use rayon::prelude::*;
 
 use crate::bitmap::Bitmap;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 use super::ljpeg::{LJpeg, Tile};
 
@@ -38,7 +38,7 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0_u16; data_size];
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
@@ -77,6 +77,22 @@ impl TiledLJpeg {
         buffer
     }
 
+    /// Check that there are enough tiles to cover the image.
+    fn check_tile_count(rawdata: &RawImage, count: usize) -> Result<()> {
+        if let Some((tile_width, tile_height)) = rawdata.tile_size() {
+            if tile_width == 0 || tile_height == 0 {
+                return Err(Error::Decompression("Empty tiles".into()));
+            }
+            let needed = rawdata.width().div_ceil(tile_width) as u64
+                * rawdata.height().div_ceil(tile_height) as u64;
+            if needed > count as u64 {
+                log::error!("{count} tiles, {needed} needed");
+                return Err(Error::Decompression("Missing tiles".into()));
+            }
+        }
+        Ok(())
+    }
+
     /// Decompress the RawImage into a new RawImage.
     pub fn decompress(
         &self,
@@ -86,7 +102,8 @@ impl TiledLJpeg {
         if let Some(tiles) = rawdata.tile_data() {
             probe!(probe, "ljpeg.tiled", "true");
             let tile_size = rawdata.tile_size();
-            let dec_tiles: Vec<Option<Tile>> = tiles
+            Self::check_tile_count(&rawdata, tiles.len())?;
+            let dec_tiles: Vec<Result<Tile>> = tiles
                 .par_iter()
                 .map(|tile| {
                     log::debug!("Decompressing tile");
@@ -99,18 +116,23 @@ impl TiledLJpeg {
                             #[cfg(feature = "probe")]
                             &None,
                         )
-                        .ok()
-                })
-                .map(|tile| {
-                    tile.map(|mut tile| {
-                        if let Some(tile_size) = tile_size {
-                            tile.u_width = tile_size.0;
-                            tile.u_height = tile_size.1;
-                        }
-                        tile
-                    })
+                        .and_then(|mut tile| {
+                            if let Some(tile_size) = tile_size {
+                                tile.u_width = tile_size.0;
+                                tile.u_height = tile_size.1;
+                            }
+                            if tile.u_width as u64 * tile.u_height as u64 > tile.buf.len() as u64 {
+                                log::error!("Tile is too small: {}", tile.buf.len());
+                                return Err(Error::Decompression("Tile is too small".into()));
+                            }
+                            Ok(tile)
+                        })
                 })
                 .collect();
+            let dec_tiles = dec_tiles
+                .into_iter()
+                .map(|tile| tile.map(Some))
+                .collect::<Result<Vec<Option<Tile>>>>()?;
 
             let data = Self::combine_tiles(
                 rawdata.width() as usize,
-- 
2.43.0


From 2813482f691c010a84d01d1d7b425c11b50fed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 04/51] fix: don't deliver uninitialised or partly read data
 when loading a buffer

---
 src/canon/cr2.rs |  2 +-
 src/canon/cr3.rs |  2 +-
 src/container.rs | 56 +++++++++++++++++++++---------------------------
 src/fujifilm.rs  |  6 +++---
 src/minolta.rs   |  9 ++++----
 src/panasonic.rs |  6 +++---
 src/sony.rs      |  2 +-
 src/tiff.rs      | 16 +++++++-------
 8 files changed, 46 insertions(+), 53 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 947b49f..317ac13 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -87,7 +87,7 @@ impl Cr2File {
         slices: &[u32],
         skip_decompress: bool,
     ) -> Result<RawImage> {
-        let data = self.container()?.load_buffer8(offset, byte_len);
+        let data = self.container()?.load_buffer8(offset, byte_len)?;
         if (data.len() as u64) != byte_len {
             log::warn!("Size mismatch for data. Moving on");
         }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index c3e3bab..3f4a414 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -195,7 +195,7 @@ impl RawFileImpl for Cr3File {
             let height = raw_track.image_height;
             let byte_len = raw_track.len;
             let offset = raw_track.offset;
-            let data = container.load_buffer8(offset, byte_len);
+            let data = container.load_buffer8(offset, byte_len)?;
 
             let mut rawdata = RawImage::with_data8(
                 width as u32,
diff --git a/src/container.rs b/src/container.rs
index 31cee69..736be19 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -141,59 +141,51 @@ pub trait RawContainer {
     /// Get the io::View for the container.
     fn borrow_view_mut(&self) -> RefMut<'_, View>;
 
-    /// Load an 8bit buffer at `offset` and of `len` bytes.
-    fn load_buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
-        let mut data = uninit_vec!(len as usize);
-
+    /// Load an 8bit buffer at `offset` and of `len` bytes. The
+    /// buffer is shorter if it goes past the end of the file.
+    fn load_buffer8(&self, offset: u64, len: u64) -> Result<Vec<u8>> {
         let mut view = self.borrow_view_mut();
-        if view.seek(SeekFrom::Start(offset)).is_err() {
-            log::error!("load_buffer8: Seek failed");
-        }
-        if let Ok(n) = view.read(data.as_mut_slice()) {
-            if n < len as usize {
-                log::debug!("Short read {} < {}", n, len);
-                data.resize(n, 0);
-            }
-        } else {
-            log::error!("load_buffer8: read failed");
-        }
-
-        data
+        load_buffer(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes in the native endian.
-    fn load_buffer16(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<NativeEndian>(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes, from Little Endian
-    fn load_buffer16_le(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16_le(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<LittleEndian>(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes, from Big Endian
-    fn load_buffer16_be(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16_be(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<BigEndian>(&mut view, offset, len)
     }
 }
 
+/// Load a buffer at `offset` and of `len` bytes, less if it goes past
+/// the end of the file.
+fn load_buffer(view: &mut View, offset: u64, len: u64) -> Result<Vec<u8>> {
+    let available = view.len().saturating_sub(offset);
+    if len > available {
+        log::warn!("load_buffer: {len} bytes at {offset} go past the end of file");
+    }
+    view.seek(SeekFrom::Start(offset))?;
+    let len = std::cmp::min(len, available);
+    let mut data = Vec::with_capacity(len as usize);
+    view.take(len).read_to_end(&mut data)?;
+    Ok(data)
+}
+
 /// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
-fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
+fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Result<Vec<u16>>
 where
     E: ByteOrder,
 {
-    let mut data = uninit_vec!((len / 2) as usize);
-
-    if let Err(err) = view.seek(SeekFrom::Start(offset)) {
-        log::error!("load_buffer16: Seek failed: {err}");
-    }
-
-    if let Err(err) = view.read_u16_into::<E>(&mut data) {
-        log::error!("load_buffer16: {err}");
-    }
-
-    data
+    let data = load_buffer(view, offset, len)?;
+    Ok(data.chunks_exact(2).map(E::read_u16).collect())
 }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 090911f..f4a55ee 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -236,7 +236,7 @@ impl RawFileImpl for RafFile {
                                 dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)?;
                             let len =
                                 dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)?;
-                            let bytes = exif.load_buffer8(offset as u64, len as u64);
+                            let bytes = exif.load_buffer8(offset as u64, len as u64).ok()?;
                             let mut byte_slice = bytes.as_slice();
                             let mut decoder = jpeg_decoder::Decoder::new(&mut byte_slice);
                             decoder
@@ -456,7 +456,7 @@ impl RawFileImpl for RafFile {
                 probe!(self.probe, "raf.compressed", compressed);
                 let mut rawdata = if !compressed {
                     if cfa_len == (2 * raw_size.width as u64 * raw_size.height as u64) {
-                        let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len);
+                        let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len)?;
                         RawImage::with_data16(
                             raw_size.width,
                             raw_size.height,
@@ -509,7 +509,7 @@ impl RawFileImpl for RafFile {
                         )
                     }
                 } else {
-                    let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len);
+                    let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len)?;
                     // The decompressor needs some extra bytes. We add 16.
                     raw.extend(&[0; 16]);
                     let mut rawbuffer = None;
diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..7de8abb 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -198,6 +198,7 @@ impl RawFileImpl for MrwFile {
                     preview
                         .offset()
                         .map(|offset| ifd.load_buffer8(offset as u64, preview.count as u64))
+                        .transpose()?
                 } else {
                     // Most file have offset and byte length in two tags.
                     let offset = makernote
@@ -207,12 +208,12 @@ impl RawFileImpl for MrwFile {
                         .uint_value(exif::MNOTE_MINOLTA_THUMBNAIL_LENGTH)
                         .unwrap_or(0);
                     if offset != 0 && length != 0 {
-                        Some(ifd.load_buffer8(offset as u64, length as u64))
+                        Some(ifd.load_buffer8(offset as u64, length as u64)?)
                     } else {
                         None
                     }
                 };
-                if let Some(mut buffer) = buffer {
+                if let Some(mut buffer) = buffer.filter(|b| !b.is_empty()) {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
                     buffer[0] = 0xff;
@@ -259,7 +260,7 @@ impl RawFileImpl for MrwFile {
             } as u64;
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
-                let raw = container.load_buffer8(cfa_offset, cfa_len);
+                let raw = container.load_buffer8(cfa_offset, cfa_len)?;
                 if skip_decompress {
                     RawImage::with_data8(
                         rawinfo.x,
@@ -286,7 +287,7 @@ impl RawFileImpl for MrwFile {
                     )
                 }
             } else {
-                let raw = container.load_buffer16_be(cfa_offset, cfa_len);
+                let raw = container.load_buffer16_be(cfa_offset, cfa_len)?;
                 RawImage::with_data16(
                     rawinfo.x,
                     rawinfo.y,
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 890ff97..8815f6b 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1007,7 +1007,7 @@ impl RawFileImpl for Rw2File {
             let (compression, mut raw_data) = match data_type {
                 DataType::CompressedRaw => {
                     let pattern = mosaic_pattern.unwrap_or_default();
-                    let buffer = self.container()?.load_buffer8(offset.offset, offset.len);
+                    let buffer = self.container()?.load_buffer8(offset.offset, offset.len)?;
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
                         decompress::panasonic_raw1(&buffer).ok().map(|raw| {
                             (
@@ -1037,7 +1037,7 @@ impl RawFileImpl for Rw2File {
                 DataType::Raw => {
                     let raw = if packed {
                         log::debug!("Panasonic: packed data");
-                        let raw = self.container()?.load_buffer8(offset.offset, offset.len);
+                        let raw = self.container()?.load_buffer8(offset.offset, offset.len)?;
                         let len = raw.len();
                         let mut buf = std::io::Cursor::new(raw);
                         crate::decompress::unpack_from_reader(
@@ -1057,7 +1057,7 @@ impl RawFileImpl for Rw2File {
                         // significant bits are discarded.
                         let mut buffer = self
                             .container()?
-                            .load_buffer16_le(offset.offset, offset.len);
+                            .load_buffer16_le(offset.offset, offset.len)?;
                         buffer.iter_mut().for_each(|v| *v >>= 4);
                         buffer
                     };
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..5f37acc 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1071,7 +1071,7 @@ impl ArwFile {
         let width = prd.x; //3881;
         let height = prd.y; //2608;
         let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
 
         let mut rawimage = RawImage::with_data8(
             width,
diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..d239cc5 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -349,16 +349,16 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         if tile_bytes.is_some() && tile_offsets.is_some() {
             let tile_bytes = tile_bytes.as_ref().unwrap();
             let tile_offsets = tile_offsets.as_ref().unwrap();
-            let data = std::iter::zip(tile_offsets, tile_bytes)
+            let data: Result<Vec<Vec<u8>>> = std::iter::zip(tile_offsets, tile_bytes)
                 .map(|(offset, byte_len)| {
                     // If we exceed file boundaries, return empty buffers
                     if *offset as u64 > container.borrow_view_mut().len() {
                         log::error!("TIFF: trying to load tile past EOF");
-                        vec![]
+                        Ok(vec![])
                     } else if *byte_len as u64 + *offset as u64 > container.borrow_view_mut().len()
                     {
                         log::error!("TIFF: byte length for tile exceed file size");
-                        vec![]
+                        Ok(vec![])
                     } else {
                         container.load_buffer8(*offset as u64, *byte_len as u64)
                     }
@@ -369,12 +369,12 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 y,
                 actual_bpc,
                 data_type,
-                data,
+                data?,
                 tile_size.unwrap(),
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data = container.load_buffer8(offset as u64, byte_len as u64);
+            let data = container.load_buffer8(offset as u64, byte_len as u64)?;
             RawImage::with_data8(
                 x,
                 y,
@@ -386,9 +386,9 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         }
     } else if bpc == 16 {
         let data = if endian == Endian::Big {
-            container.load_buffer16_be(offset as u64, byte_len as u64)
+            container.load_buffer16_be(offset as u64, byte_len as u64)?
         } else {
-            container.load_buffer16_le(offset as u64, byte_len as u64)
+            container.load_buffer16_le(offset as u64, byte_len as u64)?
         };
         RawImage::with_data16(
             x,
@@ -417,7 +417,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 8 {
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
         // XXX is this efficient?
         RawImage::with_data16(
             x,
-- 
2.43.0


From 479f7438d2e1c2885b77e559136005c925bca9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:14 +0000
Subject: [PATCH 05/51] fix: thumbnail offset past the end of the file
 overflows

---
 src/container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 736be19..d19cc18 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -113,7 +113,8 @@ pub trait RawContainer {
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
                 let mut len = offset.len;
-                if offset.offset + len > view.len() {
+                let available = view.len().saturating_sub(offset.offset);
+                if len > available {
                     // Ricoh GXR A16 have a thumbnail size that goes past EOF
                     // Just readjust the size to go to the end and load that.
                     // It seems to work. Worst case scenario it still doesn't.
@@ -122,9 +123,9 @@ pub trait RawContainer {
                         offset,
                         view.len()
                     );
-                    len = view.len() - offset.offset;
+                    len = available;
                 }
-                let mut data = uninit_vec!(len as usize);
+                let mut data = vec![0; len as usize];
                 view.seek(SeekFrom::Start(offset.offset))?;
                 view.read_exact(data.as_mut_slice())?;
                 data
-- 
2.43.0


From f5ed014589ff5589b2e1f413621adf106b30a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 06/51] fix: identification from the content must not depend on
 a single read()

---
 src/identify.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/identify.rs b/src/identify.rs
index 89252e3..d91bc24 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -22,7 +22,7 @@
 //! Indentification of RAW files.
 
 use std::collections::HashMap;
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 use std::iter::FromIterator;
 
 use once_cell::sync::Lazy;
@@ -124,7 +124,16 @@ pub(crate) fn type_for_content(content: &mut View) -> Result<Option<Type>> {
     // Change as needed
     let mut buf = [0_u8; 16];
 
-    let len = content.read(&mut buf)?;
+    // A single `read()` may return less than what is available.
+    let mut len = 0;
+    while len < buf.len() {
+        match content.read(&mut buf[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            Err(e) => return Err(e.into()),
+        }
+    }
     if len <= 4 {
         return Err(Error::BufferTooSmall);
     }
-- 
2.43.0


From 07e0056a2b333f29578d846ad7b1b1b3a4f18849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 07/51] fix: tiff: a seek error or a loop in the IFD chain must
 not crash or hang

---
 src/tiff/container.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..b873527 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -22,7 +22,7 @@
 //! The IFD Container. Contains the IFD `Dir`
 
 use std::cell::{RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -229,10 +229,17 @@ impl Container {
             let mut index = 0_usize;
             let mut dir_offset = {
                 let mut view = self.view.borrow_mut();
-                view.seek(SeekFrom::Start(4)).expect("Seek failed");
-                view.read_endian_u32(self.endian()).unwrap_or(0)
+                view.seek(SeekFrom::Start(4))
+                    .and_then(|_| view.read_endian_u32(self.endian()))
+                    .unwrap_or(0)
             };
+            // Offsets already read. A file can have a loop.
+            let mut visited = HashSet::new();
             while dir_offset != 0 {
+                if !visited.insert(dir_offset) {
+                    error!("Loop in the dirs at {dir_offset}");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
-- 
2.43.0


From e5e82c810ce5ae1397fe8d732f6fe5649b2c84ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:11 +0000
Subject: [PATCH 08/51] fix: metadata: empty values must not panic, nor many
 empty dirs exhaust the stack

---
 src/metadata.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..1ddd0de 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
@@ -163,23 +163,26 @@ impl std::iter::Iterator for Iterator<'_> {
     type Item = Metadata;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next = match self.inner {
-            InnerIter::Container(ref mut iter) => iter.next().and_then(|container| {
-                let mut iter = InnerIter::Ifd(container.iter());
-                std::mem::swap(&mut self.inner, &mut iter);
-                self.stack.push(iter);
-                self.next()
-            }),
-            InnerIter::Ifd(ref mut iter) => iter.next(),
-            InnerIter::Empty => return None,
-        };
-        if next.is_none() {
-            if let Some(iter) = self.stack.pop() {
-                self.inner = iter;
-                return self.next();
+        // This is a loop as there might be a lot of empty containers.
+        loop {
+            let next = match self.inner {
+                InnerIter::Container(ref mut iter) => {
+                    if let Some(container) = iter.next() {
+                        let mut iter = InnerIter::Ifd(container.iter());
+                        std::mem::swap(&mut self.inner, &mut iter);
+                        self.stack.push(iter);
+                        continue;
+                    }
+                    None
+                }
+                InnerIter::Ifd(ref mut iter) => iter.next(),
+                InnerIter::Empty => return None,
+            };
+            if next.is_some() {
+                return next;
             }
+            self.inner = self.stack.pop()?;
         }
-        next
     }
 }
 
-- 
2.43.0


From 1cbd99feafa7855acb44c44be293206b4e5d9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 09/51] fix: tiff: inline byte values have count bytes, values
 that can't be read are invalid

---
 src/tiff/iterator.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index d34b5f5..371b4cd 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -73,28 +73,31 @@ impl std::iter::Iterator for Iterator<'_> {
 
 fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
     match exif::TagType::try_from(entry.type_).unwrap_or(exif::TagType::Invalid) {
-        exif::TagType::Ascii => {
-            MetadataValue::String(utils::to_nul_terminated(&entry.string_value().unwrap()))
-        }
-        exif::TagType::Rational => {
-            MetadataValue::Rational(entry.value_array::<exif::Rational>(endian).unwrap())
-        }
-        exif::TagType::SRational => {
-            MetadataValue::SRational(entry.value_array::<exif::SRational>(endian).unwrap())
-        }
-        exif::TagType::Float => MetadataValue::Float(entry.value_array::<f32>(endian).unwrap()),
-        exif::TagType::Double => MetadataValue::Double(entry.value_array::<f64>(endian).unwrap()),
+        exif::TagType::Ascii => entry
+            .string_value()
+            .map(|s| MetadataValue::String(utils::to_nul_terminated(&s))),
+        exif::TagType::Rational => entry
+            .value_array::<exif::Rational>(endian)
+            .map(MetadataValue::Rational),
+        exif::TagType::SRational => entry
+            .value_array::<exif::SRational>(endian)
+            .map(MetadataValue::SRational),
+        exif::TagType::Float => entry.value_array::<f32>(endian).map(MetadataValue::Float),
+        exif::TagType::Double => entry.value_array::<f64>(endian).map(MetadataValue::Double),
         exif::TagType::Byte | exif::TagType::Undefined => {
-            MetadataValue::Bytes(entry.data().to_vec())
+            // Inline data always has four bytes.
+            let data = entry.data();
+            let count = std::cmp::min(entry.count as usize, data.len());
+            Some(MetadataValue::Bytes(data[..count].to_vec()))
         }
-        exif::TagType::SByte => MetadataValue::SBytes(entry.value_array::<i8>(endian).unwrap()),
+        exif::TagType::SByte => entry.value_array::<i8>(endian).map(MetadataValue::SBytes),
         exif::TagType::Short | exif::TagType::Long => {
-            MetadataValue::Int(entry.uint_value_array(endian).unwrap())
+            entry.uint_value_array(endian).map(MetadataValue::Int)
         }
         exif::TagType::SShort | exif::TagType::SLong => {
-            MetadataValue::SInt(entry.int_value_array(endian).unwrap())
+            entry.int_value_array(endian).map(MetadataValue::SInt)
         }
-        exif::TagType::Error_ => MetadataValue::Invalid(entry.data().to_vec()),
-        exif::TagType::Invalid => MetadataValue::Invalid(entry.data().to_vec()),
+        exif::TagType::Error_ | exif::TagType::Invalid => None,
     }
+    .unwrap_or_else(|| MetadataValue::Invalid(entry.data().to_vec()))
 }
-- 
2.43.0


From b030ea1a8c3b2c369c69524ce84467aad57126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 10/51] fix: tiff: entries whose data is shorter than their
 count and null denominators panic

---
 src/tiff/entry.rs | 169 ++++++++++++++++------------------------------
 1 file changed, 59 insertions(+), 110 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..a77166c 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -131,7 +131,7 @@ impl Entry {
         debug!("Loading data at {}: {} bytes", offset, data_size);
 
         view.seek(SeekFrom::Start(offset))?;
-        if data_size > (view.len() - offset) as usize {
+        if data_size as u64 > view.len().saturating_sub(offset) {
             log::error!("TIFFEntry: data size too large");
             return Err(Error::FormatError);
         }
@@ -165,6 +165,35 @@ impl Entry {
         Ok(bytes)
     }
 
+    /// Get the bytes starting at index for `T`. `None` if the data is
+    /// too short: the count might not match.
+    fn bytes_at<T>(&self, index: usize) -> Option<&[u8]>
+    where
+        T: ExifValue,
+    {
+        let min_len = if T::is_array() { 0 } else { T::unit_size() };
+        T::unit_size()
+            .checked_mul(index)
+            .and_then(|start| self.data.as_slice().get(start..))
+            .filter(|bytes| bytes.len() >= min_len)
+    }
+
+    /// Get `count` values of type `T`. `None` if the data is too short.
+    fn values<T>(&self, count: usize, endian: Endian) -> Option<Vec<T>>
+    where
+        T: ExifValue,
+    {
+        (0..count)
+            .map(|index| {
+                self.bytes_at::<T>(index).map(|bytes| match endian {
+                    Endian::Big => T::read::<BigEndian>(bytes),
+                    Endian::Little => T::read::<LittleEndian>(bytes),
+                    _ => unreachable!(),
+                })
+            })
+            .collect()
+    }
+
     /// Get the value at index.
     pub(crate) fn value_at_index<T, E>(&self, index: u32) -> Option<T>
     where
@@ -188,9 +217,7 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            return self.bytes_at::<T>(index as usize).map(T::read::<E>);
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
@@ -215,13 +242,11 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::Short => Some(u16::read::<E>(
-                    &self.data.as_slice()[u16::unit_size() * index as usize..],
-                ) as u32),
-                TagType::Long => Some(u32::read::<E>(
-                    &self.data.as_slice()[u32::unit_size() * index as usize..],
-                )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Short => self
+                    .bytes_at::<u16>(index as usize)
+                    .map(|bytes| u16::read::<E>(bytes) as u32),
+                TagType::Long => self.bytes_at::<u32>(index as usize).map(u32::read::<E>),
+                TagType::Rational => self.value::<Rational, E>().map(|r| (&r).into()),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -242,12 +267,10 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::SShort => Some(i16::read::<E>(
-                    &self.data.as_slice()[i16::unit_size() * index as usize..],
-                ) as i32),
-                TagType::SLong => Some(i32::read::<E>(
-                    &self.data.as_slice()[i32::unit_size() * index as usize..],
-                )),
+                TagType::SShort => self
+                    .bytes_at::<i16>(index as usize)
+                    .map(|bytes| i16::read::<E>(bytes) as i32),
+                TagType::SLong => self.bytes_at::<i32>(index as usize).map(i32::read::<E>),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -318,35 +341,14 @@ impl Entry {
                 return None;
             }
         };
-        let unit_size = match type_ {
-            TagType::Short => u16::unit_size(),
-            TagType::Long => u32::unit_size(),
-            _ => unreachable!(),
-        };
-
-        let data_slice = self.data.as_slice();
         let count = self.count as usize;
-        let mut values = Vec::with_capacity(count);
-        for index in 0..count {
-            let slice = &data_slice[unit_size * index..];
-            let v = match type_ {
-                TagType::Short => {
-                    (match endian {
-                        Endian::Big => u16::read::<BigEndian>(slice),
-                        Endian::Little => u16::read::<LittleEndian>(slice),
-                        _ => unreachable!(),
-                    }) as u32
-                }
-                TagType::Long => match endian {
-                    Endian::Big => u32::read::<BigEndian>(slice),
-                    Endian::Little => u32::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                },
-                _ => unreachable!(),
-            };
-            values.push(v);
+        match type_ {
+            TagType::Short => self
+                .values::<u16>(count, endian)
+                .map(|v| v.into_iter().map(u32::from).collect()),
+            TagType::Long => self.values::<u32>(count, endian),
+            _ => unreachable!(),
         }
-        Some(values)
     }
 
     /// Get the value array out of the entry, using `endian`.
@@ -373,35 +375,14 @@ impl Entry {
                 return None;
             }
         };
-        let unit_size = match type_ {
-            TagType::Float => f32::unit_size(),
-            TagType::Double => f64::unit_size(),
-            _ => unreachable!(),
-        };
-
-        let data_slice = self.data.as_slice();
         let count = self.count as usize;
-        let mut values = Vec::with_capacity(count);
-        for index in 0..count {
-            let slice = &data_slice[unit_size * index..];
-            let v = match type_ {
-                TagType::Float => {
-                    (match endian {
-                        Endian::Big => f32::read::<BigEndian>(slice),
-                        Endian::Little => f32::read::<LittleEndian>(slice),
-                        _ => unreachable!(),
-                    }) as f64
-                }
-                TagType::Double => match endian {
-                    Endian::Big => f64::read::<BigEndian>(slice),
-                    Endian::Little => f64::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                },
-                _ => unreachable!(),
-            };
-            values.push(v);
+        match type_ {
+            TagType::Float => self
+                .values::<f32>(count, endian)
+                .map(|v| v.into_iter().map(f64::from).collect()),
+            TagType::Double => self.values::<f64>(count, endian),
+            _ => unreachable!(),
         }
-        Some(values)
     }
 
     /// Get the value array out of the entry, using `endian`.
@@ -413,35 +394,14 @@ impl Entry {
                 return None;
             }
         };
-        let unit_size = match type_ {
-            TagType::SShort => i16::unit_size(),
-            TagType::SLong => i32::unit_size(),
-            _ => unreachable!(),
-        };
-
-        let data_slice = self.data.as_slice();
         let count = self.count as usize;
-        let mut values = Vec::with_capacity(count);
-        for index in 0..count {
-            let slice = &data_slice[unit_size * index..];
-            let v = match type_ {
-                TagType::SShort => {
-                    (match endian {
-                        Endian::Big => i16::read::<BigEndian>(slice),
-                        Endian::Little => i16::read::<LittleEndian>(slice),
-                        _ => unreachable!(),
-                    }) as i32
-                }
-                TagType::SLong => match endian {
-                    Endian::Big => i32::read::<BigEndian>(slice),
-                    Endian::Little => i32::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                },
-                _ => unreachable!(),
-            };
-            values.push(v);
+        match type_ {
+            TagType::SShort => self
+                .values::<i16>(count, endian)
+                .map(|v| v.into_iter().map(i32::from).collect()),
+            TagType::SLong => self.values::<i32>(count, endian),
+            _ => unreachable!(),
         }
-        Some(values)
     }
 
     /// Get the value array out of the entry, using `endian`.
@@ -449,7 +409,6 @@ impl Entry {
     where
         T: ExifValue,
     {
-        let data_slice = self.data.as_slice();
         let count = if self.type_ == TagType::Undefined as i16 {
             // count is in bytes
             self.count as usize / T::unit_size()
@@ -459,17 +418,7 @@ impl Entry {
         if !T::is_array()
             && ((self.type_ == T::exif_type() as i16) || (self.type_ == TagType::Undefined as i16))
         {
-            let mut values = Vec::with_capacity(count);
-            for index in 0..count {
-                let slice = &data_slice[T::unit_size() * index..];
-                let v = match endian {
-                    Endian::Big => T::read::<BigEndian>(slice),
-                    Endian::Little => T::read::<LittleEndian>(slice),
-                    _ => unreachable!(),
-                };
-                values.push(v);
-            }
-            Some(values)
+            self.values::<T>(count, endian)
         } else {
             log::error!("incorrect type {} for {:?}", self.type_, T::exif_type());
             None
-- 
2.43.0


From 8d0e3b9f695364cae06d4c22a6d42f65de6cccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 11/51] fix: dump: stop instead of panicking when the output
 fails

---
 src/dump.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dump.rs b/src/dump.rs
index 8c4d876..2ee1496 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -56,8 +56,13 @@ pub fn dump_indent(indent: u32) -> String {
 macro_rules! dump_writeln {
     ( $out:expr, $indent:expr, $( $x:expr ),* ) => {
         {
-            $out.write_all(&$crate::dump::dump_indent( $indent ).into_bytes()).unwrap();
-            writeln!($out, $( $x ),*).unwrap();
+            if let Err(err) = $out
+                .write_all(&$crate::dump::dump_indent( $indent ).into_bytes())
+                .and_then(|_| writeln!($out, $( $x ),*))
+            {
+                log::error!("Failed to write dump: {err}");
+                return;
+            }
         }
     };
 }
-- 
2.43.0


From c28209d0d3b69fe4b6cdaddaa6b1acb9a39edcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 12/51] fix: dump: don't panic when the container can't be
 loaded

---
 src/canon/cr2.rs |  4 +++-
 src/canon/cr3.rs |  4 +++-
 src/dng.rs       |  4 +++-
 src/epson.rs     |  4 +++-
 src/fujifilm.rs  |  4 +++-
 src/jpeg.rs      |  4 +++-
 src/minolta.rs   |  4 +++-
 src/nikon.rs     |  4 +++-
 src/olympus.rs   |  4 +++-
 src/panasonic.rs | 25 +++++++++++++------------
 src/pentax.rs    |  4 +++-
 src/sony.rs      |  4 +++-
 12 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 317ac13..47955d9 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -443,7 +443,9 @@ impl Dump for Cr2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR2 File>");
     }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index 3f4a414..b7829ec 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -254,7 +254,9 @@ impl Dump for Cr3File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR3 File>");
     }
diff --git a/src/dng.rs b/src/dng.rs
index f9103b0..7bb77b2 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -442,7 +442,9 @@ impl Dump for DngFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</DNG File>");
     }
diff --git a/src/epson.rs b/src/epson.rs
index a35f402..7282525 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -241,7 +241,9 @@ impl Dump for ErfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Epson ERF File>");
     }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index f4a55ee..7458ed1 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -587,7 +587,9 @@ impl Dump for RafFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Fujifilm RAF File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Fujfilm RAF File>");
     }
 }
diff --git a/src/jpeg.rs b/src/jpeg.rs
index a1a73b9..07fa8aa 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -146,7 +146,9 @@ impl Dump for JpegFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</JPEG File>");
     }
diff --git a/src/minolta.rs b/src/minolta.rs
index 7de8abb..16e2f4e 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -334,7 +334,9 @@ impl Dump for MrwFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Minolta MRW File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Minolat MRW File>");
     }
 }
diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..22d09ed 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -717,7 +717,9 @@ impl Dump for NefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Nikon NEF File>");
     }
diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..f47bb9b 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -628,7 +628,9 @@ impl Dump for OrfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
             if let Some(mnote) = self.maker_note_ifd() {
                 if let Some(dir) = self.olympus_cs_ifd(mnote) {
                     dir.write_dump(out, indent);
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 8815f6b..92be12e 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1193,18 +1193,19 @@ impl Dump for Rw2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            let container = self.container.get().unwrap();
-            container.write_dump(out, indent);
-            if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
-                // id = "PanasonicRaw.CameraIfd"
-                dir.tiff_in_entry(
-                    container,
-                    exif::RW2_TAG_CAMERA_IFD,
-                    Some(&RAW_CAMERAIFD_TAG_NAMES),
-                )
-            }) {
-                if let Some(camera_ifd) = camera_tiff.directory(0) {
-                    camera_ifd.write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+                if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
+                    // id = "PanasonicRaw.CameraIfd"
+                    dir.tiff_in_entry(
+                        container,
+                        exif::RW2_TAG_CAMERA_IFD,
+                        Some(&RAW_CAMERAIFD_TAG_NAMES),
+                    )
+                }) {
+                    if let Some(camera_ifd) = camera_tiff.directory(0) {
+                        camera_ifd.write_dump(out, indent);
+                    }
                 }
             }
         }
diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..5e9b28a 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -577,7 +577,9 @@ impl Dump for PefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Pentax PEF File>");
     }
diff --git a/src/sony.rs b/src/sony.rs
index 5f37acc..33b71e0 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1190,7 +1190,9 @@ impl Dump for ArwFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Sony ARW File>");
     }
-- 
2.43.0


From 6a6a95a135bcc183112f85bdd8d6e54f3214534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 13/51] fix: render: inconsistent data, levels, matrices or
 tables give an error and not a panic

---
 src/bitmap.rs          |  8 ++++----
 src/rawimage.rs        | 46 +++++++++++++++++++++++++-----------------
 src/render/demosaic.rs | 14 ++++++++++++-
 3 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/bitmap.rs b/src/bitmap.rs
index 6984325..b752ada 100644
--- a/src/bitmap.rs
+++ b/src/bitmap.rs
@@ -66,13 +66,13 @@ impl<T> ImageBuffer<T> {
     where
         T: Copy,
     {
-        if x > self.width || y > self.height {
+        if x >= self.width || y >= self.height {
             return None;
         }
-        let pos = ((y * self.width * self.cc) + x * self.cc) as usize;
-        let pixel = &self.data[pos..pos + self.cc as usize];
+        let cc = self.cc as usize;
+        let pos = (y as usize * self.width as usize + x as usize) * cc;
 
-        Some(pixel.to_vec())
+        self.data.get(pos..pos + cc).map(|pixel| pixel.to_vec())
     }
 
     #[inline]
diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..5136424 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -427,11 +427,11 @@ impl RawImage {
         // XXX fix this to use the 4 component
         let white = self.whites()[0];
         let black = self.blacks()[0];
-        let range = (white - black) as f64;
+        let range = white as f64 - black as f64;
         let table = if self
             .linearization_table
             .as_ref()
-            .map(|t| t.len() == (1 << self.bpc()))
+            .map(|t| Some(t.len()) == 1_usize.checked_shl(self.bpc() as u32))
             .unwrap_or(false)
         {
             self.linearization_table.as_ref()
@@ -443,13 +443,12 @@ impl RawImage {
             .data
             .iter()
             .map(|v| {
-                table.map(|t| t[*v as usize] as f64).unwrap_or_else(|| {
-                    if *v < black {
-                        0.0
-                    } else {
-                        (*v - black) as f64
-                    }
-                }) / range
+                table
+                    // A value past the end of the table has the last value
+                    .and_then(|t| t.get(*v as usize).or_else(|| t.last()))
+                    .map(|v| *v as f64)
+                    .unwrap_or_else(|| if *v < black { 0.0 } else { (*v - black) as f64 })
+                    / range
             })
             .collect();
 
@@ -504,7 +503,9 @@ impl RawImage {
             cm = self
                 .colour_matrix(i)
                 .filter(|m| m.illuminant == exif::LightsourceValue::D65)
-                .map(|m| Matrix3::from_row_slice(&m.matrix));
+                .filter(|m| m.matrix.len() == 9)
+                .map(|m| Matrix3::from_row_slice(&m.matrix))
+                .filter(|m| m.is_invertible());
             if cm.is_some() {
                 break;
             }
@@ -514,11 +515,12 @@ impl RawImage {
             let cam_rgb = Self::calculate_cam_rgb(&cm);
             log::debug!("pixel cam at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
             log::debug!("Applying colour matrix");
-            for row in 0..height {
+            for row in 0..height as usize {
+                let width = width as usize;
                 let pos = row * width * 3;
                 let mut col = 0;
                 while col < width * 3 {
-                    let c = (pos + col) as usize;
+                    let c = pos + col;
                     let abc = Vector3::from_row_iterator(buffer.data[c..c + 3].iter().copied());
                     let rgb = cam_rgb * abc;
                     col += 3;
@@ -546,13 +548,19 @@ impl RawImage {
         let x = self.width();
         let y = self.height();
         let mut pattern = self.mosaic_pattern().clone();
-        let data16 = ImageBuffer::with_data(
-            self.data16().ok_or(Error::InvalidFormat)?.to_vec(),
-            x,
-            y,
-            16,
-            1,
-        );
+        // All the pixels are needed.
+        let pixels = self
+            .data16()
+            .and_then(|data| data.get(..x as usize * y as usize))
+            .ok_or_else(|| {
+                log::error!("Not enough data to render {x}x{y}");
+                Error::InvalidFormat
+            })?;
+        if self.whites()[0] <= self.blacks()[0] {
+            log::error!("Invalid levels to render");
+            return Err(Error::InvalidFormat);
+        }
+        let data16 = ImageBuffer::with_data(pixels.to_vec(), x, y, 16, 1);
         log::debug!("Linearizing data");
         let mut data = self.linearize(data16);
         if options.stage >= RenderingStage::Interpolation {
diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..6039f8d 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -76,6 +76,18 @@ pub(crate) fn bimedian(
         }
     };
 
+    if input.width < 3
+        || input.height < 3
+        || input.data.len() < input.width as usize * input.height as usize
+    {
+        log::error!(
+            "Image too small to demosaic {}x{}",
+            input.width,
+            input.height
+        );
+        return Err(Error::InvalidFormat);
+    }
+
     let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
 
     #[allow(non_snake_case)]
@@ -165,7 +177,7 @@ pub(crate) fn bimedian(
     // This is necessary to have a consistent size with the output.
     // Notably, the `image` crate doesn't like it.
     // The assumption is that the resize should shrink the buffer.
-    dst.resize((3 * out_w * out_h) as usize, 0.0);
+    dst.resize(3 * out_w as usize * out_h as usize, 0.0);
 
     Ok(ImageBuffer::with_data(dst, out_w, out_h, input.bpc, 3))
 }
-- 
2.43.0


From 1771f5b60beb866ecd44db2c39753e82f6ba143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 14/51] fix: tiff, dng: short arrays, large offsets and 32 bits
 samples panic

---
 src/dng.rs            | 10 +++++++---
 src/rawimage.rs       |  4 ++++
 src/tiff.rs           |  7 ++++---
 src/tiff/container.rs |  2 +-
 src/utils.rs          |  2 +-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index 7bb77b2..71de52e 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -377,9 +377,11 @@ impl RawFileImpl for DngFile {
                             let origin = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_ORIGIN)
                                 .and_then(|v| if v.len() < 2 { None } else { Some(v) })
-                                .map(|v| Point {
-                                    x: v[0] + active_area.x,
-                                    y: v[1] + active_area.y,
+                                .and_then(|v| {
+                                    Some(Point {
+                                        x: v[0].checked_add(active_area.x)?,
+                                        y: v[1].checked_add(active_area.y)?,
+                                    })
                                 })?;
                             let size = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_SIZE)
@@ -400,11 +402,13 @@ impl RawFileImpl for DngFile {
                         if let Some(as_shot_wb) = self
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_NEUTRAL))
+                            .filter(|v| v.len() >= 3)
                         {
                             rawdata.set_as_shot_neutral(&as_shot_wb);
                         } else if let Some(as_shot_xy) = self
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_WHITE_XY))
+                            .filter(|v| v.len() >= 2)
                         {
                             rawdata.set_as_shot_white_xy((as_shot_xy[0], as_shot_xy[1]));
                         }
diff --git a/src/rawimage.rs b/src/rawimage.rs
index 5136424..190e539 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -276,6 +276,10 @@ impl RawImage {
 
     /// Set the white balance.
     pub fn set_as_shot_neutral(&mut self, as_shot: &[f64]) {
+        if as_shot.len() < 3 {
+            log::error!("As shot neutral needs 3 values");
+            return;
+        }
         let mut as_shot_neutral = [0_f64; 4];
         as_shot_neutral[0] = as_shot[0];
         as_shot_neutral[1] = as_shot[1];
diff --git a/src/tiff.rs b/src/tiff.rs
index d239cc5..152f2f1 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -174,10 +174,11 @@ fn convert_cfa_pattern(dir: &Dir, entry: &Entry) -> Option<Pattern> {
 }
 
 fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
-    if entry.count < 4 {
+    let data = entry.data();
+    // Two dimensions and a 2x2 pattern.
+    if data.len() < 8 {
         return None;
     }
-    let data = entry.data();
 
     let h = data[0];
     let v = data[1];
@@ -441,7 +442,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white: u32 = (1_u32 << actual_bpc) - 1;
+        let white: u64 = (1_u64 << actual_bpc) - 1;
         rawdata.set_whites([white as u16; 4]);
     }
 
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index b873527..ca929c2 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -375,7 +375,7 @@ impl Container {
         list: &mut Vec<(u32, thumbnail::ThumbDesc)>,
     ) -> Result<usize> {
         if let Some(val_offset) = e.offset() {
-            let val_offset = val_offset + offset;
+            let val_offset = val_offset.checked_add(offset).ok_or(Error::FormatError)?;
             self.add_thumbnail_from_stream(val_offset, e.count, list)
         } else {
             log::error!("Entry for thumbnail has no offset");
diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..6777916 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ macro_rules! uninit_vec {
 /// value for the quad.
 pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        [slice.first().copied().unwrap_or(0) as u16; 4]
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
-- 
2.43.0


From e8d917382e4591f4f02a9926541f843f9ccf3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 15/51] fix: bit reader: don't consume the bits that can't be
 read

---
 src/decompress/bit_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 861a49d..4138196 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -44,10 +44,10 @@ pub(crate) trait BitReader {
                 "BitReader: Tried to request {nbits} bits (max 16)."
             )));
         }
-        let value = self.peek(nbits);
+        let value = self.peek(nbits)?;
         self.consume(nbits);
 
-        value
+        Ok(value)
     }
 
     #[inline]
-- 
2.43.0


From d00a318e11106951ff13bb62a1575e0aec0b2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 16/51] fix: a buffer can't be loaded from a file that got
 shorter

---
 src/container.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/container.rs b/src/container.rs
index d19cc18..7908452 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -179,6 +179,10 @@ fn load_buffer(view: &mut View, offset: u64, len: u64) -> Result<Vec<u8>> {
     let len = std::cmp::min(len, available);
     let mut data = Vec::with_capacity(len as usize);
     view.take(len).read_to_end(&mut data)?;
+    if (data.len() as u64) < len {
+        // The file is shorter than when it was opened.
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     Ok(data)
 }
 
-- 
2.43.0


From f970e949bc65bd7d4b66f6d57916fc9210960e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 17/51] fix: crw: heaps and records that don't fit must not
 panic

---
 src/canon/crw.rs                |  31 +++++----
 src/canon/crw/ciff.rs           |  30 ++++++--
 src/canon/crw/ciff/container.rs | 119 ++++++++++++++++++++------------
 3 files changed, 116 insertions(+), 64 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c5f4a41..f5ff816 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -25,7 +25,7 @@
 pub(crate) mod ciff;
 mod decompress;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 use std::rc::Rc;
 
 use once_cell::unsync::OnceCell;
@@ -115,12 +115,12 @@ impl CrwFile {
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                let magic = view.read_endian_u16(container.endian()).unwrap_or(0);
+                let magic = view.read_endian_u16(container.endian()).ok()?;
                 if magic > 512 {
                     view.seek(SeekFrom::Start(pos as u64 + 120)).ok()?;
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
-                        .ok();
+                        .ok()?;
                     let g = wb_data[0] as f64;
                     Some(vec![
                         g / wb_data[2] as f64,
@@ -133,8 +133,8 @@ impl CrwFile {
                     view.seek(SeekFrom::Start(pos as u64 + 100)).ok()?;
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
-                        .ok();
-                    let g = (wb_data[0] + wb_data[3]) as f64 / 2.0;
+                        .ok()?;
+                    let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
                     Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
                 } else {
                     log::warn!("Unexpected ColourInfo2 magic {magic}");
@@ -181,7 +181,7 @@ impl CrwFile {
                         view.seek(SeekFrom::Start(pos as u64 + offset)).ok()?;
                         let mut wb_data = [0_u16; 3];
                         view.read_endian_u16_array(&mut wb_data, container.endian())
-                            .ok();
+                            .ok()?;
                         let r = (wb_data[1] ^ key.1) as f64;
                         let g = (wb_data[0] ^ key.0) as f64;
                         let b = (wb_data[2] ^ key.0) as f64;
@@ -211,7 +211,8 @@ impl CrwFile {
             let r = heap.records().get(&ciff::Tag::WhiteBalanceTable)?;
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 // Some dark magic lifted from both rawspeed and dcraw
-                let wb_offset = 1 + (b"0134567028"[wb_idx as usize] - b'0') as u64 * 4;
+                let wb_idx = b"0134567028".get(wb_idx as usize)?;
+                let wb_offset = 1 + (wb_idx - b'0') as u64 * 4;
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64 + wb_offset * 2))
                     .ok()?;
@@ -244,7 +245,10 @@ impl RawFileImpl for CrwFile {
                             .and_then(|r| r.data(container))
                             .and_then(|data| {
                                 if let ciff::RecordData::DWord(id) = data {
-                                    return canon::CANON_MODEL_ID_MAP.get(&id[0]).copied();
+                                    return id
+                                        .first()
+                                        .and_then(|id| canon::CANON_MODEL_ID_MAP.get(id))
+                                        .copied();
                                 }
                                 None
                             })
@@ -274,7 +278,7 @@ impl RawFileImpl for CrwFile {
             let mut thumbnails = Vec::new();
             self.container()?;
             let container = self.container.get().unwrap();
-            let heap = container.heap();
+            let heap = container.heap()?;
             heap.records().get(&ciff::Tag::JpegImage).and_then(|r| {
                 if let ciff::Record::InHeap((pos, len)) = r.data {
                     Viewer::create_subview(&container.borrow_view_mut(), pos as u64)
@@ -363,10 +367,7 @@ impl RawFileImpl for CrwFile {
                         if let ciff::Record::InHeap((pos, len)) = r.data {
                             // XXX pattern is RGGB
                             if skip_decompression {
-                                let mut view = container.borrow_view_mut();
-                                view.seek(SeekFrom::Start(pos as u64))?;
-                                let mut data = vec![0; len as usize];
-                                view.read_exact(&mut data)?;
+                                let data = container.load_buffer8(pos as u64, len as u64)?;
                                 let mut rawdata = RawImage::with_data8(
                                     x,
                                     y,
@@ -381,6 +382,10 @@ impl RawFileImpl for CrwFile {
                                 rawdata.set_active_area(sensor_info.map(|v| v.1));
                                 Ok(rawdata)
                             } else {
+                                if cfa_x == 0 || cfa_y == 0 {
+                                    log::error!("CRW: no sensor info");
+                                    return Err(Error::NotFound);
+                                }
                                 let mut decompressor =
                                     Decompress::new(decoder_table as usize, cfa_x, cfa_y);
                                 let mut view = Viewer::create_subview(
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3e231a..e41ab0c 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -39,6 +39,9 @@ const FORMAT_MASK: u16 = 0x3800;
 /// Include the format, as it is significant
 const TAGCODE_MASK: u16 = 0x3fff;
 
+/// How deep can heaps be nested.
+const MAX_HEAP_DEPTH: usize = 4;
+
 /// Tags for the CIFF records.
 ///
 /// List made by a combination of the CIFF spec and
@@ -263,7 +266,10 @@ impl RecordEntry {
             Record::InRec(bytes)
         } else {
             let len = view.read_endian_u32(endian)?;
-            let offset = view.read_endian_u32(endian)? + base;
+            let offset = view
+                .read_endian_u32(endian)?
+                .checked_add(base)
+                .ok_or(Error::FormatError)?;
             Record::InHeap((offset, len))
         };
 
@@ -344,6 +350,12 @@ impl RecordEntry {
     }
 
     pub(super) fn data(&self, container: &Container) -> Option<RecordData> {
+        if let Record::InHeap((pos, len)) = self.data {
+            if pos as u64 + len as u64 > container.borrow_view_mut().len() {
+                log::error!("CIFF: record past the end of file");
+                return None;
+            }
+        }
         match self.data {
             Record::InRec(_) => self.inline_data(container),
             Record::InHeap((pos, len)) => match self.type_() {
@@ -395,7 +407,11 @@ impl RecordEntry {
             let mut heap = Heap::new(pos, len);
             let mut view = container.borrow_view_mut();
             heap.load(&mut view, container.endian())
-                .expect("Failed to load heap");
+                .map_err(|err| {
+                    log::error!("Failed to load heap: {err}");
+                    err
+                })
+                .ok()?;
             Some(heap)
         } else {
             None
@@ -408,6 +424,7 @@ impl RecordEntry {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: usize,
     ) {
         let type_ = self.type_();
         dump_writeln!(
@@ -448,9 +465,9 @@ impl RecordEntry {
                         dump_writeln!(out, indent, "{:?}", values);
                     }
                 }
-                RecordType::Heap1 | RecordType::Heap2 => {
+                RecordType::Heap1 | RecordType::Heap2 if depth < MAX_HEAP_DEPTH => {
                     if let Some(RecordData::Heap(heap)) = self.data(container) {
-                        heap.write_dump(out, indent, container);
+                        heap.write_dump(out, indent, container, depth + 1);
                     }
                 }
                 _ => {
@@ -488,7 +505,7 @@ impl Heap {
         if self.len as u64 + self.pos as u64 > view.len() {
             log::error!(
                 "CIFF Heap too big: {} for {}",
-                self.len + self.pos,
+                self.len as u64 + self.pos as u64,
                 view.len()
             );
             return Err(Error::FormatError);
@@ -525,13 +542,14 @@ impl Heap {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: usize,
     ) {
         dump_writeln!(out, indent, "<HEAP pos={} len={}>", self.pos, self.len);
         {
             let indent = indent + 1;
             dump_writeln!(out, indent, "Num records: {}", self.records.len());
             for record in self.records().values() {
-                record.write_dump(out, indent, container);
+                record.write_dump(out, indent, container, depth);
             }
         }
         dump_writeln!(out, indent, "</HEAP");
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65f9cc5..62bd921 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -23,7 +23,7 @@
 
 use std::cell::{RefCell, RefMut};
 use std::collections::HashMap;
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use chrono::TimeZone;
@@ -34,10 +34,11 @@ use crate::io::View;
 use crate::metadata;
 use crate::tiff::{exif, Dir, Entry, IfdType, TagType};
 use crate::utils;
-use crate::{Dump, Type};
+use crate::{Dump, Error, Result, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
+    MAX_HEAP_DEPTH,
 };
 
 type Converter = fn(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry>;
@@ -73,7 +74,10 @@ fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref serial)) = record.data(container) {
-        vec![Entry::from_string(tag, &format!("{:X}", serial[0]))]
+        serial
+            .first()
+            .map(|serial| vec![Entry::from_string(tag, &format!("{serial:X}"))])
+            .unwrap_or_default()
     } else {
         vec![]
     }
@@ -81,7 +85,7 @@ fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     let mut entries = vec![];
-    if let Some(camera_settings) = container.camera_settings() {
+    if let Some(camera_settings) = container.camera_settings().filter(|s| s.len() > 20) {
         // Macro mode
         let value = camera_settings[1];
         if value == 1 {
@@ -147,10 +151,13 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
 fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Word(ref value)) = record.data(container) {
-        let fl = value[1] as u32;
+        let fl = match value.get(1) {
+            Some(value) => *value as u32,
+            None => return vec![],
+        };
         let mut fu = 0;
-        if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings[25] as u32
+        if let Some(value) = container.camera_settings().and_then(|s| s.get(25)) {
+            fu = *value as u32
         }
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
@@ -164,7 +171,10 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
 
 fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref value)) = record.data(container) {
-        if let Some(date_time) = chrono::Utc.timestamp_opt(value[0] as i64, 0).single() {
+        if let Some(date_time) = value
+            .first()
+            .and_then(|value| chrono::Utc.timestamp_opt(*value as i64, 0).single())
+        {
             let date = format!("{}", date_time.format("%Y:%m:%d %H:%M:%S"));
 
             let original = Entry::from_string(exif::EXIF_TAG_DATE_TIME_ORIGINAL, &date);
@@ -245,9 +255,9 @@ impl Container {
         }
     }
 
-    fn dirs(&self) -> &Vec<Dir> {
-        self.dirs.get_or_init(|| {
-            self.header();
+    fn dirs(&self) -> &[Dir] {
+        let dirs = self.dirs.get_or_try_init(|| -> Result<Vec<Dir>> {
+            self.header()?;
 
             let mut main_ifd = Dir::new(self.endian(), IfdType::Main);
             if let Some(image_spec) = self.image_spec() {
@@ -304,7 +314,7 @@ impl Container {
             let mut exif_ifd = Dir::new(self.endian(), IfdType::Exif);
             if let Some(image_props) = self.image_props() {
                 image_props.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -312,24 +322,36 @@ impl Container {
             }
             if let Some(exif_info) = self.exif_info() {
                 exif_info.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
                 })
             }
 
-            vec![main_ifd, exif_ifd]
-        })
+            Ok(vec![main_ifd, exif_ifd])
+        });
+        dirs.map(|dirs| dirs.as_slice()).unwrap_or_default()
     }
 
-    fn translate_record_entry(&self, record: &RecordEntry, ifd_type: IfdType) -> Vec<Entry> {
+    fn translate_record_entry(
+        &self,
+        record: &RecordEntry,
+        ifd_type: IfdType,
+        depth: usize,
+    ) -> Vec<Entry> {
         if record.is_heap() {
+            if depth >= MAX_HEAP_DEPTH {
+                log::error!("CIFF: heaps nested too deep");
+                return vec![];
+            }
             if let Some(heap) = record.heap(self) {
                 return heap
                     .records()
                     .iter()
-                    .flat_map(|(_, record)| self.translate_record_entry(record, ifd_type))
+                    .flat_map(|(_, record)| {
+                        self.translate_record_entry(record, ifd_type, depth + 1)
+                    })
                     .collect();
             }
         }
@@ -344,37 +366,39 @@ impl Container {
     }
 
     pub(crate) fn main_ifd(&self) -> Option<&Dir> {
-        Some(&self.dirs()[0])
+        self.dirs().first()
     }
 
     pub(crate) fn exif_ifd(&self) -> Option<&Dir> {
-        Some(&self.dirs()[1])
+        self.dirs().get(1)
     }
 
-    fn header(&self) -> &HeapFileHeader {
-        self.header.get_or_init(|| {
+    fn header(&self) -> Result<&HeapFileHeader> {
+        self.header.get_or_try_init(|| {
             let mut view = self.borrow_view_mut();
-            let header = HeapFileHeader::from_view(&mut view).expect("Coudln't read file header");
+            view.rewind()?;
+            let header = HeapFileHeader::from_view(&mut view)?;
             self.endian.replace(header.endian);
-            header
+            Ok(header)
         })
     }
 
-    pub(crate) fn heap(&self) -> &Heap {
-        self.heap.get_or_init(|| {
-            let header = self.header();
+    pub(crate) fn heap(&self) -> Result<&Heap> {
+        self.heap.get_or_try_init(|| {
+            let header = self.header()?;
             if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
                 log::error!("Wrong CIFF header types");
             }
             let mut view = self.borrow_view_mut();
-            // XXX check that header.len < view.len()
-            let heaplen = view.len() - header.len as u64;
-            // XXX heaplen should be < u32::MAX
-            let mut heap = Heap::new(header.len, heaplen as u32);
-            heap.load(&mut view, self.endian())
-                .expect("Failed to load heap");
-
-            heap
+            let heaplen = view
+                .len()
+                .checked_sub(header.len as u64)
+                .and_then(|len| u32::try_from(len).ok())
+                .ok_or(Error::FormatError)?;
+            let mut heap = Heap::new(header.len, heaplen);
+            heap.load(&mut view, self.endian())?;
+
+            Ok(heap)
         })
     }
 
@@ -391,7 +415,7 @@ impl Container {
     fn image_props(&self) -> Option<&Heap> {
         self.image_props
             .get_or_init(|| {
-                let heap = self.heap();
+                let heap = self.heap().ok()?;
                 self.heap_from_heap(heap, super::Tag::ImageProps)
             })
             .as_ref()
@@ -446,10 +470,7 @@ impl Container {
                 .get(&super::Tag::RawMakeModel)
                 .and_then(|r| {
                     if let Record::InHeap((pos, len)) = r.data {
-                        let mut s = vec![0; len as usize];
-                        let mut view = self.borrow_view_mut();
-                        view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                        view.read_exact(&mut s).ok()?;
+                        let s = self.load_buffer8(pos as u64, len as u64).ok()?;
                         let mut s = s.split(|b| *b == 0);
                         let mut v = s.next()?;
                         if tag == exif::EXIF_TAG_MODEL {
@@ -475,8 +496,12 @@ impl Container {
                         .get(&super::Tag::CameraSettings)
                         .and_then(|r| {
                             let count = r.count()?;
-                            if let Record::InHeap((pos, _)) = r.data {
+                            if let Record::InHeap((pos, len)) = r.data {
                                 let mut view = self.borrow_view_mut();
+                                if pos as u64 + len as u64 > view.len() {
+                                    log::error!("CIFF: camera settings past the end");
+                                    return None;
+                                }
                                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
                                 let mut settings = vec![0_u16; count as usize];
                                 view.read_endian_u16_array(&mut settings, self.endian())
@@ -496,7 +521,9 @@ impl Container {
     }
 
     pub(crate) fn raw_data_record(&self) -> Option<&RecordEntry> {
-        self.heap().records().get(&super::Tag::RawImageData)
+        self.heap()
+            .ok()
+            .and_then(|heap| heap.records().get(&super::Tag::RawImageData))
     }
 }
 
@@ -507,11 +534,13 @@ impl Dump for Container {
         {
             let indent = indent + 1;
 
-            let header = self.header();
-            header.write_dump(out, indent);
+            if let Ok(header) = self.header() {
+                header.write_dump(out, indent);
+            }
 
-            let heap = self.heap();
-            heap.write_dump(out, indent, self);
+            if let Ok(heap) = self.heap() {
+                heap.write_dump(out, indent, self, 0);
+            }
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
-- 
2.43.0


From fe691adbdca19ff1f42cdfb3d123c41e92283512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 18/51] fix: crw: the low bits go with their own pixel, no
 padding pixels delivered

---
 src/canon/crw/decompress.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 26da8fb..b98d0e5 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -249,7 +249,7 @@ impl Decompress {
     }
 
     pub(super) fn decompress(&mut self, reader: &mut dyn ReadAndSeek) -> Result<RawImage> {
-        let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
+        let mut data = Vec::new();
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
         reader.seek(SeekFrom::Start(
@@ -264,7 +264,8 @@ impl Decompress {
         let mut carry = 0_i32;
         let mut outbuf = [0_u16; 64];
 
-        while column < self.width * self.height {
+        let size = self.width * self.height;
+        while column < size {
             let mut diffbuf = [0_i32; 64];
             let mut decoder: &[DecoderNode] = &self.first_decoder;
             let mut i = 0_usize;
@@ -296,7 +297,7 @@ impl Decompress {
 
                 i += 1;
             }
-            diffbuf[0] += carry;
+            diffbuf[0] = diffbuf[0].wrapping_add(carry);
             carry = diffbuf[0];
             for i in 0..64 {
                 if column % self.width == 0 {
@@ -304,7 +305,7 @@ impl Decompress {
                     base[1] = 512;
                 }
                 column += 1;
-                base[i & 1] += diffbuf[i];
+                base[i & 1] = base[i & 1].wrapping_add(diffbuf[i]);
                 outbuf[i] = base[i & 1] as u16;
             }
             if lowbits != 0 {
@@ -314,10 +315,7 @@ impl Decompress {
                 for _ in 0..16 {
                     let c = reader.read_u8()? as u16;
                     for r in 0..4 {
-                        // outbuf is 64, so we must check for it to not
-                        // overflow (read out of bounds)
-                        let next = if i < 63 { outbuf[i + 1] } else { 0 };
-                        outbuf[i] = (next << 2) + ((c >> (r * 2)) & 3);
+                        outbuf[i] = (outbuf[i] << 2) | ((c >> (r * 2)) & 3);
 
                         i += 1;
                     }
@@ -326,6 +324,8 @@ impl Decompress {
             }
             data.extend_from_slice(&outbuf);
         }
+        // The last block may go past the end of the image.
+        data.truncate(size as usize);
 
         Ok(RawImage::with_data16(
             self.width,
-- 
2.43.0


From 87e5be999f6aacb2eb33809c0e43ee55d95de804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 19/51] fix: tiff: no raw image without the location of its
 data

---
 src/tiff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tiff.rs b/src/tiff.rs
index 152f2f1..8112671 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -254,6 +254,10 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             tile_offsets = dir
                 .entry(exif::TIFF_TAG_TILE_OFFSETS)
                 .and_then(|e| e.value_array::<u32>(dir.endian()));
+            if tile_bytes.is_none() || tile_offsets.is_none() {
+                log::error!("TIFF: neither strips nor tiles");
+                return None;
+            }
             // the tile are individual JPEGS....
             let x = dir.uint_value(exif::TIFF_TAG_TILE_WIDTH).unwrap_or(0);
             let y = dir.uint_value(exif::TIFF_TAG_TILE_LENGTH).unwrap_or(0);
-- 
2.43.0


From d418ae758cd5ae46d77c4186084a4b3b0a4a4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 20/51] fix: capi: or_mosaicinfo_get_pattern follows its
 declaration instead of aborting

---
 src/capi/mosaic.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index afb7444..4e52ee9 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -19,7 +19,7 @@
  * <http://www.gnu.org/licenses/>.
  */
 
-use crate::mosaic::Pattern;
+use crate::mosaic::{Pattern, PatternColour};
 use crate::or_unwrap;
 
 use super::or_cfa_pattern;
@@ -34,8 +34,21 @@ extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pat
 }
 
 #[no_mangle]
-/// Get the pattern. Currently unimplemented.
-extern "C" fn or_mosaicinfo_get_pattern(_mosaic_info: ORMosaicInfoRef) -> *const u8 {
-    // XXX todo
-    unreachable!();
+/// Get the pattern: an array of colours. `count` receives its size.
+/// Return `null` if there is no pattern.
+///
+/// The pointer is owned by the mosaic info.
+extern "C" fn or_mosaicinfo_get_pattern(
+    mosaic_info: ORMosaicInfoRef,
+    count: *mut u16,
+) -> *const u8 {
+    let pattern: &[PatternColour] = or_unwrap!(mosaic_info, &[], mosaic_info.pattern());
+    if !count.is_null() {
+        unsafe { *count = pattern.len() as u16 };
+    }
+    if pattern.is_empty() {
+        std::ptr::null()
+    } else {
+        pattern.as_ptr() as *const u8
+    }
 }
-- 
2.43.0


From 029378210441ba5987591dd5bd216fbfa14abdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 21/51] fix: capi: colour matrix buffer larger than the matrix
 aborts, rendered image sets the error code

---
 src/capi/rawfile.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a3051b7..a81d1e8 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -250,11 +250,19 @@ extern "C" fn or_rawfile_get_rendered_image(
     error: *mut or_error,
 ) -> ORBitmapDataRef {
     let options = RenderingOptions::from(options);
+    if rawfile.is_null() && !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF };
+    }
     or_unwrap!(rawfile, std::ptr::null_mut(), {
         rawfile
             .0
             .rendered_image(options)
-            .map(|r| Box::into_raw(Box::new(r)))
+            .map(|r| {
+                if !error.is_null() {
+                    unsafe { *error = or_error::NONE };
+                }
+                Box::into_raw(Box::new(r))
+            })
             .unwrap_or_else(|e| {
                 if !error.is_null() {
                     unsafe { *error = e.into() };
@@ -312,12 +320,11 @@ fn rawfile_get_colour_matrix(
             |err| err.into(),
             |cm| {
                 let out_size = unsafe { *size } as usize;
+                unsafe { *size = cm.1.len() as u32 };
                 if out_size < cm.1.len() {
                     return or_error::BUF_TOO_SMALL;
                 }
-                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, out_size) };
-                slice.copy_from_slice(&cm.1[..out_size]);
-                unsafe { *size = cm.1.len() as u32 };
+                unsafe { matrix.copy_from_nonoverlapping(cm.1.as_ptr(), cm.1.len()) };
                 or_error::NONE
             },
         )
-- 
2.43.0


From 990a7849a9335daba0a2b7292878caea988b061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 22/51] fix: capi: tag names are NUL terminated

---
 src/capi/ifd.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 6176c58..2517ac7 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -19,6 +19,12 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+use std::collections::HashMap;
+use std::ffi::CString;
+use std::sync::Mutex;
+
+use once_cell::sync::Lazy;
+
 use crate::tiff::{Ifd, IfdType};
 
 use crate::or_unwrap;
@@ -79,6 +85,20 @@ impl From<or_ifd_dir_type> for IfdType {
     }
 }
 
+/// The NUL terminated tag names handed out so far. They are never
+/// removed, so the pointers stay valid.
+static TAG_NAMES: Lazy<Mutex<HashMap<&'static str, CString>>> = Lazy::new(Mutex::default);
+
+/// Get the static NUL terminated string for a tag name.
+fn c_tag_name(name: &'static str) -> *const std::ffi::c_char {
+    TAG_NAMES
+        .lock()
+        .unwrap_or_else(|err| err.into_inner())
+        .entry(name)
+        .or_insert_with(|| CString::new(name).unwrap_or_default())
+        .as_ptr()
+}
+
 #[no_mangle]
 /// Count the tags in the IFD. Returns -1 if the dir in `nullptr`.
 extern "C" fn or_ifd_count_tags(dir: ORIfdDirRef) -> i32 {
@@ -101,8 +121,6 @@ extern "C" fn or_ifd_get_type(dir: ORIfdDirRef) -> or_ifd_dir_type {
 #[no_mangle]
 extern "C" fn or_ifd_get_tag_name(dir: ORIfdDirRef, tag: u32) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.tag_name(tag as u16)
-            // XXX this is very very unsafe, it is not NUL terminated
-            .as_ptr() as *const std::ffi::c_char
+        c_tag_name(dir.tag_name(tag as u16))
     })
 }
-- 
2.43.0


From fe814b0113b205f82d71c846d0a92863b2952ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 23/51] fix: capi: strings that contain a NUL abort

---
 src/capi/iterator.rs  |  2 +-
 src/capi/metavalue.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/capi/iterator.rs b/src/capi/iterator.rs
index b727101..d495c0f 100644
--- a/src/capi/iterator.rs
+++ b/src/capi/iterator.rs
@@ -34,7 +34,7 @@ pub struct ORMetadata {
 impl From<metadata::Metadata> for ORMetadata {
     fn from(value: metadata::Metadata) -> Self {
         Self {
-            key: std::ffi::CString::new(value.0).unwrap(),
+            key: super::metavalue::to_c_string(value.0),
             value: ORMetaValue::from(value.1),
             type_: value.2,
         }
diff --git a/src/capi/metavalue.rs b/src/capi/metavalue.rs
index 79c2428..20b6a69 100644
--- a/src/capi/metavalue.rs
+++ b/src/capi/metavalue.rs
@@ -28,6 +28,15 @@ use once_cell::unsync::OnceCell;
 use crate::metadata;
 use crate::or_unwrap;
 
+/// Convert to a C string. It will end at the first NUL if there is any.
+pub(super) fn to_c_string(s: String) -> CString {
+    let mut bytes = s.into_bytes();
+    if let Some(end) = bytes.iter().position(|c| *c == 0) {
+        bytes.truncate(end);
+    }
+    CString::new(bytes).unwrap_or_default()
+}
+
 /// Wrap a metavalue to carry a once String conversion
 pub struct ORMetaValue(metadata::Value, OnceCell<CString>);
 
@@ -36,7 +45,7 @@ impl ORMetaValue {
     /// Any subsequent call will always return the same string.
     pub fn to_c_string(&self, full: bool) -> &CString {
         self.1
-            .get_or_init(|| CString::new(self.0.into_string(full)).unwrap())
+            .get_or_init(|| to_c_string(self.0.into_string(full)))
     }
 }
 
-- 
2.43.0


From 22e14f47a276656a92cf0dc5349517899f30a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 24/51] fix: a file name extension that isn't UTF-8 panics

---
 src/rawfile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index cc7349f..c720aef 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -127,7 +127,7 @@ where
     let file_path = filename.as_ref();
     file_path
         .extension()
-        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str().unwrap()))
+        .and_then(|e| e.to_ascii_lowercase().to_str().and_then(identify::type_for_extension))
 }
 
 /// Crate RawFile object from IO.
-- 
2.43.0


From aecf41f1c6d9403577b047667dfcd60b3989f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 25/51] fix: capi: extraction of thumbnail and raw data give
 the same as from the rawfile

---
 src/capi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 27fa11a..0f4de0b 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -313,7 +313,7 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     }
     let filename = unsafe { CStr::from_ptr(filename) };
     let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail_for_size(preferred_size))
+        .and_then(|rawfile| rawfile.thumbnail(preferred_size))
         .map(Box::new)
         .map_err(or_error::from);
     if let Err(err) = thumbnail {
@@ -352,7 +352,7 @@ unsafe extern "C" fn or_get_extract_rawdata(
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
     let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.load_rawdata(skip_decompression))
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression))
         .map(Box::new)
         .map_err(or_error::from);
     if let Err(err) = rawdata_ {
-- 
2.43.0


From dbf039742fbff1258bd85ff38010ac9c705e9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 26/51] fix: minolta: a file without a readable TTW block must
 not panic

---
 src/minolta.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 16e2f4e..cb29ec9 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,7 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self.container.get().unwrap().ifd_container()?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -236,7 +236,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get().unwrap().ifd_container().ok()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -253,11 +253,12 @@ impl RawFileImpl for MrwFile {
             let rawinfo = container.minolta_prd()?;
 
             let cfa_offset = container.raw_data_offset();
+            let num_pixels = rawinfo.x as u64 * rawinfo.y as u64;
             let cfa_len = if rawinfo.is_compressed {
-                rawinfo.x * rawinfo.y + ((rawinfo.x * rawinfo.y) >> 1)
+                num_pixels + (num_pixels >> 1)
             } else {
-                2 * rawinfo.x * rawinfo.y
-            } as u64;
+                2 * num_pixels
+            };
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
                 let raw = container.load_buffer8(cfa_offset, cfa_len)?;
@@ -271,7 +272,7 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    let mut unpacked = Vec::with_capacity(num_pixels as usize);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
@@ -602,15 +603,15 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
+    fn ifd_container(&self) -> Result<&tiff::Container> {
+        self.ifd.get_or_try_init(|| {
+            let ttw = self.ttw.as_ref().ok_or(Error::NotFound)?;
             let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
+                .context("Couldn't create view")?;
             let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
+            ifd.load(None).context("Failed to load IFD container")?;
 
-            ifd
+            Ok(ifd)
         })
     }
 
@@ -654,13 +655,13 @@ impl MrwContainer {
         self.wbg.as_ref().and_then(|wbg| {
             let rd = wbg
                 .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| f64::from(6 + d as u32).exp2())?;
             let gd = wbg
                 .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| f64::from(6 + d as u32).exp2())?;
             let bd = wbg
                 .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| f64::from(6 + d as u32).exp2())?;
             let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
             let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
             let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
@@ -717,7 +718,11 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().as_slice())
+            .unwrap_or_default()
+            .iter()
+            .into()
     }
 }
 
@@ -814,7 +819,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Ok(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
-- 
2.43.0


From 2acedc9953816abba97a9a315307dc8d63dfdf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:54 +0000
Subject: [PATCH 27/51] fix: arw: short camera settings, white balance or
 private data must not panic

---
 src/sony.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index 33b71e0..aa17925 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,12 +824,14 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= 4)
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view =
+            Viewer::create_view(&self.reader, offset as u64).context("Error creating view")?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load().context("Failed to load container")?;
 
         Ok(container)
     }
@@ -900,7 +902,7 @@ impl ArwFile {
     /// get it at the specified `offset`.
     fn aspect_ratio_2010(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings_2010()?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             0 => Some(AspectRatio(16, 9)),
             1 => Some(AspectRatio(4, 3)),
             2 => Some(AspectRatio(3, 2)),
@@ -916,7 +918,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings(Endian::Big)?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             1 => Some(AspectRatio(3, 2)),
             2 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -925,7 +927,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs3(&self) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings3()?;
-        match camera_settings[10] {
+        match *camera_settings.get(10)? {
             4 => Some(AspectRatio(3, 2)),
             8 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -1029,10 +1031,14 @@ impl ArwFile {
                     });
                 let aspect_ratio = self.aspect_ratio();
                 rawimage.set_user_crop(user_crop, aspect_ratio);
-                if let Some(wb) = dir.int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS).map(|v| {
-                    let g = v[1] as f64;
-                    [g / v[0] as f64, 1.0, g / v[3] as f64]
-                }) {
+                if let Some(wb) = dir
+                    .int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS)
+                    .filter(|v| v.len() >= 4)
+                    .map(|v| {
+                        let g = v[1] as f64;
+                        [g / v[0] as f64, 1.0, g / v[3] as f64]
+                    })
+                {
                     rawimage.set_as_shot_neutral(&wb);
                 }
                 // XXX This here and Pentax get the levels from the builtins.
@@ -1070,8 +1076,8 @@ impl ArwFile {
         // They don't match the ImageWidth and ImageHeight
         let width = prd.x; //3881;
         let height = prd.y; //2608;
-        let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
+        let byte_len = width as u64 * height as u64 * 2;
+        let data = container.load_buffer8(offset as u64, byte_len)?;
 
         let mut rawimage = RawImage::with_data8(
             width,
-- 
2.43.0


From 694f66ea3ad7ccd85cbeacf3b07bceb3b4370784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 28/51] fix: unpacking must not allocate out of proportion with
 the data

---
 src/decompress.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..a4b9e20 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -224,37 +224,45 @@ pub(crate) fn unpack_from_reader(
         height,
         compression
     );
+    let width = width as usize;
     let block_size: usize = match bpc {
-        10 => (width / 4 * 5) as usize,
+        10 => width / 4 * 5,
         12 => {
             if compression == tiff::Compression::NikonPack
                 || compression == tiff::Compression::Olympus
                 || compression == tiff::Compression::PanasonicRaw1
             {
-                ((width / 2 * 3) + width / 10) as usize
+                (width / 2 * 3) + width / 10
             } else {
-                (width / 2 * 3) as usize
+                width / 2 * 3
             }
         }
-        14 => (width / 4 * 7) as usize,
+        14 => width / 4 * 7,
         _ => {
             log::warn!("Invalid BPC {}", bpc);
             return Err(Error::InvalidFormat);
         }
     };
     log::debug!("Block size = {}", block_size);
-    let mut block = vec![0; block_size];
-    let out_size = width as usize * height as usize;
-    let mut out_data = Vec::with_capacity(out_size);
+    let byte_len = std::cmp::min(byte_len, block_size.saturating_mul(height as usize));
+    let out_size = width.saturating_mul(height as usize);
+    // A pixel is always more than a byte.
+    let mut out_data = Vec::with_capacity(std::cmp::min(out_size, byte_len));
+    // The dimensions might not be those of the data, so it grows with
+    // what is read.
+    let mut block = vec![];
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
-    let byte_len = std::cmp::min(byte_len, block_size * height as usize);
     while fetched < byte_len {
-        reader.read_exact(block.as_mut_slice())?;
+        block.clear();
+        reader.take(block_size as u64).read_to_end(&mut block)?;
+        if block.len() < block_size {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         fetched += block.len();
         match bpc {
-            n @ 10 | n @ 14 => written += unpack_bento16(&block, n, width as usize, &mut out_data)?,
+            n @ 10 | n @ 14 => written += unpack_bento16(&block, n, width, &mut out_data)?,
             12 => {
                 written += match compression {
                     tiff::Compression::NikonPack | tiff::Compression::PentaxPack => {
-- 
2.43.0


From 6163d0df854ceec2f58293ec270d851f903c4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 29/51] fix: pef: damaged streams or huffman tables must not
 panic, the end of the stream counts

---
 src/pentax.rs            | 10 ++++++---
 src/pentax/decompress.rs | 46 ++++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 5e9b28a..e67e7e3 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -418,8 +418,9 @@ impl RawFileImpl for PefFile {
             self.ifd(tiff::IfdType::MakerNote).and_then(|mnote| {
                 // The MakerNote has a MNOTE_PENTAX_PREVIEW_IMAGE_SIZE
                 // That contain w in [0] and h in [1]
-                let start =
-                    mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)? + mnote.mnote_offset;
+                let start = mnote
+                    .uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)?
+                    .checked_add(mnote.mnote_offset)?;
                 let len = mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_LENGTH)?;
                 container
                     .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -522,7 +523,10 @@ impl RawFileImpl for PefFile {
                             rawdata.set_blacks([black; 4]);
                         }
                     }
-                    if let Some(wb) = mnote.uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE) {
+                    if let Some(wb) = mnote
+                        .uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE)
+                        .filter(|wb| wb.len() >= 4)
+                    {
                         // ExifTool and the MNOTE_PENTAX_TAG_NAMES have this as WhitePoint
                         let g = wb[1] as f64;
                         let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..e764df3 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,7 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
-use crate::Result;
+use crate::{Error, Result};
 
 const DECODE_CACHE_BITS: u32 = 13;
 
@@ -40,6 +40,11 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
+    // The pixels are in pairs, and each takes at least one bit.
+    if width == 0 || width % 2 != 0 || width.saturating_mul(height) > src.len().saturating_mul(8) {
+        log::error!("PEF: invalid dimensions {width}x{height}");
+        return Err(Error::InvalidFormat);
+    }
     let mut out = vec![0_u16; width * height];
     let mut htable = HuffTable::default();
 
@@ -58,7 +63,12 @@ pub(super) fn decompress(
 
         let mut v1 = [0_u32; 16];
         let pos = cursor.position() as usize;
-        for (i, value) in huff[pos..].iter().enumerate().take(depth) {
+        let lengths = huff.get(pos..).unwrap_or_default();
+        if lengths.len() < depth || lengths[..depth].iter().any(|len| *len > 12) {
+            log::error!("PEF: invalid huffman table");
+            return Err(Error::FormatError);
+        }
+        for (i, value) in lengths.iter().enumerate().take(depth) {
             v1[i] = *value as u32;
         }
 
@@ -107,18 +117,22 @@ pub(super) fn decompress(
     let mut pred_left2: i32;
 
     for row in 0..height {
-        pred_up1[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_up2[row & 1] += htable.huff_decode(&mut pump)?;
+        pred_up1[row & 1] = pred_up1[row & 1].wrapping_add(htable.huff_decode(&mut pump)?);
+        pred_up2[row & 1] = pred_up2[row & 1].wrapping_add(htable.huff_decode(&mut pump)?);
         pred_left1 = pred_up1[row & 1];
         pred_left2 = pred_up2[row & 1];
         out[row * width] = pred_left1 as u16;
         out[row * width + 1] = pred_left2 as u16;
         for col in (2..width).step_by(2) {
-            pred_left1 += htable.huff_decode(&mut pump)?;
-            pred_left2 += htable.huff_decode(&mut pump)?;
+            pred_left1 = pred_left1.wrapping_add(htable.huff_decode(&mut pump)?);
+            pred_left2 = pred_left2.wrapping_add(htable.huff_decode(&mut pump)?);
             out[row * width + col] = pred_left1 as u16;
             out[row * width + col + 1] = pred_left2 as u16;
         }
+        if pump.is_overrun() {
+            log::error!("PEF: not enough data");
+            return Err(Error::Decompression("PEF: not enough data".into()));
+        }
     }
     Ok(out)
 }
@@ -162,6 +176,10 @@ impl HuffTable {
         for len in 0..self.nbits {
             for _ in 0..self.bits[len as usize + 1] {
                 for _ in 0..(1 << (self.nbits - len - 1)) {
+                    if h >= self.hufftable.len() {
+                        log::error!("PEF: too many huffman codes");
+                        return Err(Error::FormatError);
+                    }
                     self.hufftable[h] = (len as u8 + 1, self.huffval[pos] as u8);
                     h += 1;
                 }
@@ -292,17 +310,23 @@ impl<'a> BitPumpMSB<'a> {
             nbits: 0,
         }
     }
+
+    /// If more bits than in the buffer were consumed.
+    fn is_overrun(&self) -> bool {
+        self.pos * 8 - self.nbits as usize > self.buffer.len() * 8
+    }
 }
 
 impl BitPump for BitPumpMSB<'_> {
     #[inline(always)]
     fn peek_bits(&mut self, num: u32) -> u32 {
         if num > self.nbits {
-            let inbits = if self.pos + 4 >= self.buffer.len() {
-                0_u64
-            } else {
-                Endian::Big.read_u32(&self.buffer[self.pos..]) as u64
-            };
+            // Past the end, the bits are 0.
+            let mut bytes = [0_u8; 4];
+            let rest = self.buffer.get(self.pos..).unwrap_or_default();
+            let count = std::cmp::min(rest.len(), 4);
+            bytes[..count].copy_from_slice(&rest[..count]);
+            let inbits = Endian::Big.read_u32(&bytes) as u64;
             self.bits = (self.bits << 32) | inbits;
             self.pos += 4;
             self.nbits += 32;
-- 
2.43.0


From 72475b6cfc8d14513e2d64f759ca714d8f28dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 30/51] fix: pef: leave the raw data compressed when asked to

---
 src/pentax.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index e67e7e3..d7988ae 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -442,7 +442,7 @@ impl RawFileImpl for PefFile {
         }
     }
 
-    fn load_rawdata(&self, _skip_decompress: bool) -> Result<RawImage> {
+    fn load_rawdata(&self, skip_decompress: bool) -> Result<RawImage> {
         self.container()?;
         let type_id = self.type_id()?;
         let container = self.container.get().unwrap();
@@ -539,6 +539,9 @@ impl RawFileImpl for PefFile {
                     "pef.compression",
                     &format!("{:?}", rawdata.compression())
                 );
+                if skip_decompress {
+                    return rawdata;
+                }
                 if let Some(data8) = rawdata.data8() {
                     let huffman = self
                         .ifd(tiff::IfdType::MakerNote)
-- 
2.43.0


From ad3984d85804a03bfebe609854d4874f7ad4af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 31/51] fix: tiff: don't list a thumbnail whose JPEG can't be
 read

---
 src/tiff/container.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index ca929c2..9121d7f 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -344,6 +344,10 @@ impl Container {
         let width = jpeg.width() as u32;
         let height = jpeg.height() as u32;
         let dim = std::cmp::max(width, height);
+        if dim == 0 {
+            log::error!("Couldn't get JPEG dimensions.");
+            return Err(Error::NotFound);
+        }
         // "Olympus" MakerNote carries a 160 px thubnail we might already have.
         // We don't check it is the same.
         if !list.iter().any(|t| t.0 == dim) {
-- 
2.43.0


From a7ec37f795e96104f8bede1a9ce3d2ab214d35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 32/51] fix: pef: don't decode with the default table when the
 file's can't be loaded

---
 src/pentax.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index d7988ae..ccdd010 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -355,6 +355,20 @@ impl PefFile {
             probe: None,
         })
     }
+
+    /// Whether there is a MakerNote that couldn't be loaded.
+    fn is_maker_note_lost(&self) -> bool {
+        if self.maker_note_ifd().is_some() {
+            return false;
+        }
+        match self.exif_ifd() {
+            Some(dir) => dir.entry(exif::EXIF_TAG_MAKER_NOTE).is_some(),
+            None => self
+                .main_ifd()
+                .and_then(|dir| dir.entry(exif::EXIF_TAG_EXIF_IFD_POINTER))
+                .is_some(),
+        }
+    }
 }
 
 impl RawFileImpl for PefFile {
@@ -543,10 +557,15 @@ impl RawFileImpl for PefFile {
                     return rawdata;
                 }
                 if let Some(data8) = rawdata.data8() {
-                    let huffman = self
+                    let entry = self
                         .ifd(tiff::IfdType::MakerNote)
-                        .and_then(|mnote| mnote.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE))
-                        .and_then(|e| e.value_array::<u8>(container.endian()));
+                        .and_then(|mnote| mnote.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE));
+                    let huffman = entry.and_then(|e| e.value_array::<u8>(container.endian()));
+                    if huffman.is_none() && (entry.is_some() || self.is_maker_note_lost()) {
+                        // Without its table the data would decode to garbage.
+                        log::error!("PEF: couldn't load the huffman table");
+                        return rawdata;
+                    }
                     let huffman = huffman
                         .as_ref()
                         .map(|huffman| (huffman.as_slice(), container.endian()));
-- 
2.43.0


From d99e88b248fbb6c1b3fb94c2ad2596e2a50a829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:20 +0000
Subject: [PATCH 33/51] fix: minolta: the maker note's offsets count from the
 TIFF header

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..63259b8 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -461,7 +461,7 @@ impl Dir {
                         container,
                         container::Endian::Unset,
                         offset,
-                        offset,
+                        0,
                         &minolta::MNOTE_TAG_NAMES,
                     );
                 }
-- 
2.43.0


From d5954721ccca8d0763541f2ba3c6d1dc3e33ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 34/51] fix: mrw: don't guess the storage of the raw data when
 it can't be read

---
 src/minolta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index cb29ec9..04af288 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -630,7 +630,7 @@ impl MrwContainer {
         let is_compressed = prd
             .uint8_value(Prd::StorageType as u64, self)
             .map(|storage| storage == StorageType::Packed as u8)
-            .unwrap_or(false);
+            .ok_or(Error::NotFound)?;
         let mosaic = prd
             .uint16_value(Prd::BayerPattern as u64, self)
             .map(|pattern| {
@@ -640,7 +640,7 @@ impl MrwContainer {
                     Pattern::Rggb
                 }
             })
-            .unwrap_or(Pattern::Rggb);
+            .ok_or(Error::NotFound)?;
 
         Ok(RawInfo {
             x,
-- 
2.43.0


From e8c04afe0a6add8832114b3dd8a75b01651258fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 35/51] fix: mrw: size the unpacked raw data by the data there
 is

---
 src/minolta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 04af288..5141a25 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -272,7 +272,7 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity(num_pixels as usize);
+                    let mut unpacked = Vec::with_capacity(raw.len() / 3 * 2);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
-- 
2.43.0


From d488ffd185318428a4c1f5f2f2445e3d0b82e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 36/51] fix: erf: the white balance and the preview of a
 damaged maker note

---
 src/epson.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/epson.rs b/src/epson.rs
index 7282525..2b46905 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -136,8 +136,11 @@ impl RawFileImpl for ErfFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).map(|e| {
-                    let mut data = Vec::from(e.data());
+                let data = mnote
+                    .entry(exif::ERF_TAG_PREVIEW_IMAGE)
+                    .and_then(|e| e.value_array::<u8>(mnote.endian()))
+                    .filter(|data| !data.is_empty());
+                data.map(|mut data| {
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
                     data[0] = 0xff;
                     let desc = thumbnail::ThumbDesc {
@@ -204,10 +207,15 @@ impl RawFileImpl for ErfFile {
                             {
                                 rawdata.set_blacks(utils::to_quad(&blacks));
                             }
-                            if let Some(wb_values) = mnote.u16_value_array(exif::MNOTE_EPSON_WB) {
-                                if wb_values.len() != 128 {
-                                    log::error!("EPSON white balance len {}", wb_values.len());
-                                }
+                            if let Some(wb_values) = mnote
+                                .u16_value_array(exif::MNOTE_EPSON_WB)
+                                .filter(|values| {
+                                    if values.len() != 128 {
+                                        log::error!("EPSON white balance len {}", values.len());
+                                    }
+                                    values.len() >= 26
+                                })
+                            {
                                 // These values are taken directly from dcraw.
                                 rawdata.set_as_shot_neutral(&[
                                     (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
-- 
2.43.0


From 391818db9fe0a2422d14d2540ee373536d4f47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:55 +0000
Subject: [PATCH 37/51] fix: orf: damaged or truncated files must not panic,
 nor be decoded as something else

---
 src/olympus.rs            | 61 ++++++++++++++++++++++-----------------
 src/olympus/decompress.rs | 10 +++++--
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index f47bb9b..fce1090 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -215,7 +215,7 @@ impl OrfFile {
         let half = (height + 1) >> 1;
         // Interlaced data seems to be 2048 bytes aligned
         let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        let interlaced = buf.get(interlaced_offset..).unwrap_or_default();
 
         let mut out: Vec<u16> = vec![0; width * height];
         out.par_chunks_mut(width)
@@ -223,10 +223,11 @@ impl OrfFile {
             .for_each(|(row, outb)| {
                 let off = row / 2 * width * 12 / 8;
                 let inb = if (row % 2) == 0 {
-                    &buf[off..]
+                    buf.get(off..)
                 } else {
-                    &interlaced[off..]
-                };
+                    interlaced.get(off..)
+                }
+                .unwrap_or_default();
 
                 let mut i = 0;
                 let mut o = 0;
@@ -238,7 +239,9 @@ impl OrfFile {
                     }
                     let out_slice = &mut outb[o..];
                     out_slice[0] = ((in_slice[0] as u16) << 4) | ((in_slice[1] as u16) >> 4);
-                    out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    if out_slice.len() > 1 {
+                        out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    }
                     i += 3;
                     o += 2;
                 }
@@ -254,7 +257,7 @@ impl OrfFile {
 
         let mut i = 0;
         let mut o = 0;
-        while i < buf.len() {
+        while i + 12 <= buf.len() && o + 8 <= out.len() {
             let in_slice = &buf[i..];
             let out_slice = &mut out[o..];
 
@@ -278,12 +281,13 @@ impl OrfFile {
     fn decompress(&self, mut data: RawImage) -> RawImage {
         let width = data.width();
         let height = data.height();
+        let (w, h) = (width as usize, height as usize);
 
         if let Some(d) = data
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
-                if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
+                if data8.len() == h * ((w * 12 / 8) + ((w + 2) / 10)) {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
                     crate::decompress::unpack_from_reader(
@@ -297,29 +301,21 @@ impl OrfFile {
                         Endian::Little,
                     )
                     .ok()
-                } else if data8.len() == (height * width * 3 / 2) as usize {
+                } else if data8.len() == h * w * 3 / 2 {
                     // It seems that this is the only way™.
                     // Some decoder like rawloader use 3500,
                     // but SP565UZ is 3664 and interlaced.
                     if width < 3700 {
                         probe!(self.probe, "orf.decompress.interlaced", "true");
-                        Some(Self::decode_12be_olympus_interlaced(
-                            data8,
-                            width as usize,
-                            height as usize,
-                        ))
+                        Some(Self::decode_12be_olympus_interlaced(data8, w, h))
                     } else {
                         probe!(self.probe, "orf.decompress.12be", "true");
-                        Some(Self::decode_12be_olympus(
-                            data8,
-                            width as usize,
-                            height as usize,
-                        ))
+                        Some(Self::decode_12be_olympus(data8, w, h))
                     }
                 } else {
                     // Olympus decompression
                     probe!(self.probe, "orf.decompress.olympus", "true");
-                    decompress_olympus(data8, width as usize, height as usize)
+                    decompress_olympus(data8, w, h)
                         .map_err(|err| {
                             log::error!("Decompression failed {}", err);
                             err
@@ -459,7 +455,8 @@ impl RawFileImpl for OrfFile {
                         let start = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_START)
                             .unwrap_or(0)
-                            + mnote.mnote_offset;
+                            .checked_add(mnote.mnote_offset)
+                            .unwrap_or(0);
                         let len = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_LENGTH)
                             .unwrap_or(0);
@@ -503,7 +500,19 @@ impl RawFileImpl for OrfFile {
             .map(|mut data| {
                 let width = data.width();
                 let height = data.height();
-                let compression = if data.data_size() < width as usize * height as usize * 2 {
+                // The data is shorter than stored when the file is truncated.
+                let byte_len = self
+                    .cfa_dir()
+                    .and_then(|cfa| {
+                        cfa.entry(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+                            .and_then(|e| e.value_array::<u32>(cfa.endian()))
+                    })
+                    .map(|a| a.iter().map(|len| *len as usize).sum())
+                    .unwrap_or_else(|| data.data_size());
+                let truncated = data.data_size() < byte_len;
+                let compression = if std::cmp::max(data.data_size(), byte_len)
+                    < width as usize * height as usize * 2
+                {
                     data.set_compression(tiff::Compression::Olympus);
                     data.set_data_type(DataType::CompressedRaw);
                     tiff::Compression::Olympus
@@ -512,7 +521,7 @@ impl RawFileImpl for OrfFile {
                 };
                 let mut data = match compression {
                     tiff::Compression::Olympus => {
-                        if !skip_decompress {
+                        if !skip_decompress && !truncated {
                             self.decompress(data)
                         } else {
                             data
@@ -590,12 +599,12 @@ impl RawFileImpl for OrfFile {
                             let mut crop = Rect {
                                 x,
                                 y,
-                                width: values[2] + 1 - x,
-                                height: values[3] + 1 - y,
+                                width: values[2].checked_add(1)?.checked_sub(x)?,
+                                height: values[3].checked_add(1)?.checked_sub(y)?,
                             };
                             if let Some(active_area) = active_area {
-                                crop.x += active_area.x;
-                                crop.y += active_area.y;
+                                crop.x = crop.x.checked_add(active_area.x)?;
+                                crop.y = crop.y.checked_add(active_area.y)?;
                             }
 
                             Some(crop)
diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..757c6ca 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,6 +35,12 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
+    // A pixel is never less than 6 bits.
+    if w < 2 || (w / 2 * 2).saturating_mul(h) / 4 * 3 > input.len() {
+        return Err(Error::Decompression(
+            "ORF: Compressed data too small for the dimensions.".into(),
+        ));
+    }
     let mut output: Vec<u16> = vec![0; h * w];
     let data = output.as_mut_slice();
 
@@ -125,7 +131,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
                         nw[p]
                     };
                     // Set predictor
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) as u16 as i32;
                     wo[p] as u16
                 } else {
                     let n: i32 = data[(y - 2) * w + col + p] as i32;
@@ -144,7 +150,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
 
                     nw[p] = n;
                     // Set predictors
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) as u16 as i32;
                     wo[p] as u16
                 };
             }
-- 
2.43.0


From 1ffe213232fb9f8f02bf632921712958c8e65b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:23 +0000
Subject: [PATCH 38/51] fix: nef: lossless data has a linear curve; damaged
 files must not panic

---
 src/nikon.rs | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 22d09ed..794fd25 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -181,7 +181,8 @@ impl CompressionInfo {
     fn new() -> Self {
         Self {
             vpred: [[0; 2]; 2],
-            curve: vec![0; 0x8000],
+            // linear unless there is a curve
+            curve: (0..0x8000).collect(),
             huffman: None,
         }
     }
@@ -258,13 +259,16 @@ impl NefFile {
         let data = rawdata.data8().ok_or(Error::NotFound)?;
 
         let out_size = width as usize * height as usize;
-        let mut out_data = Vec::with_capacity(out_size);
+        // A pixel is always more than a byte.
+        let mut out_data = Vec::with_capacity(std::cmp::min(out_size, data.len()));
         let mut fetched = 0_usize;
         let mut written = 0_usize;
 
         let byte_len = std::cmp::min(data.len(), block_size * height as usize);
         while fetched < byte_len {
-            let block = &data[fetched..fetched + block_size];
+            let block = data
+                .get(fetched..fetched + block_size)
+                .ok_or(Error::UnexpectedEOF)?;
             fetched += block.len();
 
             written +=
@@ -292,7 +296,11 @@ impl NefFile {
                             log::error!("DecodeTable2 not found");
                             Error::NotFound
                         })?;
-                let pos = curve_entry.offset().ok_or(Error::NotFound)? + mnote.mnote_offset;
+                let pos = curve_entry
+                    .offset()
+                    .ok_or(Error::NotFound)?
+                    .checked_add(mnote.mnote_offset)
+                    .ok_or(Error::FormatError)?;
                 let bpc = rawdata.bpc();
 
                 let container = self.container.get().unwrap();
@@ -362,7 +370,7 @@ impl NefFile {
                     return Err(Error::FormatError);
                 }
 
-                let nelems = view.read_endian_u16(container.endian()).unwrap_or(0);
+                let nelems = view.read_endian_u16(container.endian())?;
                 log::debug!("Num elems {}", nelems);
 
                 let mut ceiling: u16 = (1 << bpc) & 0x7fff;
@@ -386,6 +394,10 @@ impl NefFile {
                     // split flag is at offset 562.
                     // XXX
                 } else if header0 != 0x46 && nelems <= 0x4001 {
+                    if nelems == 0 {
+                        log::error!("NEF empty compression curve");
+                        return Err(Error::FormatError);
+                    }
                     let num_read =
                         container.read_u16_array(&mut view, &mut curve.curve, nelems as usize)?;
                     // XXX It's likly not possible for the short read to appear.
@@ -424,7 +436,7 @@ impl NefFile {
                 let rows = rawdata.height() as usize;
                 let raw_columns = rawdata.width() as usize;
                 // XXX not always true
-                let columns = raw_columns - 1;
+                let columns = raw_columns.checked_sub(1).ok_or(Error::FormatError)?;
 
                 let data8 = rawdata.data8();
                 if data8.is_none() {
@@ -434,6 +446,12 @@ impl NefFile {
                     DiffIterator::new(curve.huffman.unwrap(), rawdata.data8().as_ref().unwrap());
                 let mut iter = CfaIterator::new(diffs, raw_columns, curve.vpred);
 
+                // A pixel is never less than 5 bits.
+                let bits = rawdata.data_size().saturating_mul(8);
+                if rows.saturating_mul(raw_columns) > bits / 5 {
+                    log::error!("NEF: compressed data too small for the dimensions");
+                    return Err(Error::UnexpectedEOF);
+                }
                 // Using uninit_vec! here is slower.
                 let mut new_data = vec![0; rows * columns];
                 for i in 0..rows {
@@ -502,9 +520,9 @@ impl NefFile {
             Some([256.0 / r, 1.0, 256.0 / b])
         } else if &data[0..4] == b"NRW " {
             probe!(self.probe, "nef.wb.nrw", "true");
-            let offset = if &data[4..8] != b"0100" && entry.count > 72 {
+            let offset = if data.len() > 72 && &data[4..8] != b"0100" {
                 56
-            } else if entry.count > 1572 {
+            } else if data.len() > 1572 {
                 1556
             } else {
                 log::error!("ColorBalanceA format unknown");
@@ -513,10 +531,10 @@ impl NefFile {
             probe!(self.probe, "nef.wb.nrw.offset", offset);
             let data = &data[offset..];
             let r = (LittleEndian::read_u32(data) << 2) as f64;
-            let g =
-                (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
+            let g = LittleEndian::read_u32(&data[4..]) as f64
+                + LittleEndian::read_u32(&data[8..]) as f64;
             let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
-            Some([g / r, 1.0, b / r])
+            Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
             None
@@ -602,8 +620,9 @@ impl RawFileImpl for NefFile {
                         None,
                     )
                     .and_then(|dir| {
-                        let start = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
-                            + mnote.mnote_offset;
+                        let start = dir
+                            .value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
+                            .checked_add(mnote.mnote_offset)?;
                         let len = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_LENGTH)?;
                         container
                             .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -641,7 +660,7 @@ impl RawFileImpl for NefFile {
                     .and_then(|rawdata| {
                         let compression = rawdata.compression();
                         probe!(self.probe, "nef.compression", &format!("{compression:?}"));
-                        if self.is_d100() {
+                        if self.is_d100() && !(skip_decompress && rawdata.data8().is_some()) {
                             self.unpack_nikon(rawdata)
                         } else if compression == tiff::Compression::None {
                             Ok(rawdata)
@@ -681,6 +700,7 @@ impl RawFileImpl for NefFile {
                         let user_crop = self
                             .maker_note_ifd()
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_CROP_AREA))
+                            .filter(|user_crop| user_crop.len() >= 4)
                             .map(|user_crop| Rect {
                                 x: user_crop[0],
                                 y: user_crop[1],
-- 
2.43.0


From 528ff81445c9f37c8bc962e8dd855f905b08397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:11 +0000
Subject: [PATCH 39/51] fix: rw2: sizes, levels and truncated raw data

The number of pixels and the white level could overflow, the black level
defaulted to the white one, and a raw image shorter than its dimensions was
delivered as decompressed. A preview that isn't a JPEG was listed with a
size of 0.
---
 src/panasonic.rs | 83 +++++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index 92be12e..e94eb03 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -885,15 +885,18 @@ impl RawFileImpl for Rw2File {
                     let width = jpeg.width() as u32;
                     let height = jpeg.height() as u32;
                     let dim = std::cmp::max(width, height);
-                    thumbnails.push((
-                        dim,
-                        thumbnail::ThumbDesc {
-                            width,
-                            height,
-                            data_type: DataType::Jpeg,
-                            data: thumbnail::Data::Offset(jpeg_offset),
-                        },
-                    ));
+                    // 0 is when the JPEG couldn't be read.
+                    if dim != 0 {
+                        thumbnails.push((
+                            dim,
+                            thumbnail::ThumbDesc {
+                                width,
+                                height,
+                                data_type: DataType::Jpeg,
+                                data: thumbnail::Data::Offset(jpeg_offset),
+                            },
+                        ));
+                    }
                 }
             }
 
@@ -952,10 +955,7 @@ impl RawFileImpl for Rw2File {
                 .value::<u16>(exif::RW2_TAG_IMAGE_BITSPERSAMPLE)
                 .unwrap_or(16);
             probe!(self.probe, "rw2.bps", bpc);
-            let pixel_count = width.checked_mul(height).ok_or_else(|| {
-                log::error!("Panasonic: dimensions too large");
-                Error::FormatError
-            })?;
+            let pixel_count = width as u64 * height as u64;
             let raw_format = cfa.value::<u16>(exif::RW2_TAG_IMAGE_RAWFORMAT);
             if let Some(raw_format) = raw_format {
                 probe!(self.probe, "rw2.raw_format", raw_format);
@@ -985,10 +985,10 @@ impl RawFileImpl for Rw2File {
             let data_type = if has_raw_offset {
                 probe!(self.probe, "rw2.compression", "panasonic");
                 DataType::CompressedRaw
-            } else if real_len >= (pixel_count * 2) as u64 {
+            } else if real_len / 2 >= pixel_count {
                 probe!(self.probe, "rw2.compression", "unpacked");
                 DataType::Raw
-            } else if real_len >= (pixel_count * 3 / 2) as u64 {
+            } else if real_len / 3 * 2 >= pixel_count {
                 // Need to unpack
                 probe!(self.probe, "rw2.compression", "packed");
                 packed = true;
@@ -1009,19 +1009,23 @@ impl RawFileImpl for Rw2File {
                     let pattern = mosaic_pattern.unwrap_or_default();
                     let buffer = self.container()?.load_buffer8(offset.offset, offset.len)?;
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
-                        decompress::panasonic_raw1(&buffer).ok().map(|raw| {
-                            (
-                                Compression::None,
-                                RawImage::with_data16(
-                                    width,
-                                    height,
-                                    bpc,
-                                    DataType::Raw,
-                                    raw,
-                                    pattern.clone(),
-                                ),
-                            )
-                        })
+                        decompress::panasonic_raw1(&buffer)
+                            .ok()
+                            // The file may have been truncated.
+                            .filter(|raw| raw.len() as u64 >= pixel_count)
+                            .map(|raw| {
+                                (
+                                    Compression::None,
+                                    RawImage::with_data16(
+                                        width,
+                                        height,
+                                        bpc,
+                                        DataType::Raw,
+                                        raw,
+                                        pattern.clone(),
+                                    ),
+                                )
+                            })
                     } else {
                         None
                     }
@@ -1119,27 +1123,26 @@ impl RawFileImpl for Rw2File {
             };
             raw_data.set_user_crop(Some(user_crop), None);
 
+            let max = if bpc < 16 {
+                (1_u32 << bpc) - 1
+            } else {
+                u16::MAX as u32
+            };
             let wr = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max) as u16;
             let wg = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max) as u16;
             let wb = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max) as u16;
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
-            let br = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
-            let bg = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
-            let bb = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+            let br = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_RED).unwrap_or(0) as u16;
+            let bg = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN).unwrap_or(0) as u16;
+            let bb = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE).unwrap_or(0) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
-- 
2.43.0


From f46e584ea9b25487ef9c1845afcd5f4eb94e3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:51 +0000
Subject: [PATCH 40/51] fix: cr2: slices, short colour data and offsets

The slices were applied to an image of the wrong width when the JPEG stream
has four components for a doubled height. Slices without three values, short
colour data or white balance, and an offset past the end panicked. The image
was decoded without slices when they couldn't be read.
---
 src/canon/colour.rs     | 70 ++++++++++++++++++++++-------------------
 src/canon/cr2.rs        | 40 +++++++++++++----------
 src/canon/cr3.rs        |  4 +--
 src/decompress/ljpeg.rs | 38 +++++++++++++---------
 4 files changed, 85 insertions(+), 67 deletions(-)

diff --git a/src/canon/colour.rs b/src/canon/colour.rs
index 6b76032..46c2cdb 100644
--- a/src/canon/colour.rs
+++ b/src/canon/colour.rs
@@ -50,6 +50,10 @@ impl ColourFormat {
     /// used.
     pub(crate) fn identify(colour_data: &[u16]) -> Option<Self> {
         use ColourFormat::*;
+        if colour_data.is_empty() {
+            log::error!("Empty ColourData.");
+            return None;
+        }
         log::debug!(
             "Probing ColourData. (len={} version={})",
             colour_data.len(),
@@ -117,48 +121,48 @@ impl ColourFormat {
     pub(crate) fn blacks(&self, colour_data: &[u16]) -> Option<[u16; 4]> {
         use ColourFormat::*;
 
-        let version = colour_data[0];
+        let version = *colour_data.first()?;
         match *self {
             ColourData1 | ColourData2 => None,
-            ColourData3 => colour_data[196..200].try_into().ok(),
+            ColourData3 => colour_data.get(196..200)?.try_into().ok(),
             ColourData4 => match version {
                 2 | 3 => None,
-                4 | 5 => colour_data[692..696].try_into().ok(),
-                6 | 7 => colour_data[715..719].try_into().ok(),
-                9 => colour_data[719..723].try_into().ok(),
+                4 | 5 => colour_data.get(692..696)?.try_into().ok(),
+                6 | 7 => colour_data.get(715..719)?.try_into().ok(),
+                9 => colour_data.get(719..723)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", colour_data[0], self);
                     None
                 }
             },
             ColourData5 => match version as i16 {
-                -4 => colour_data[333..337].try_into().ok(),
-                -3 => colour_data[264..268].try_into().ok(),
+                -4 => colour_data.get(333..337)?.try_into().ok(),
+                -3 => colour_data.get(264..268)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData6 => colour_data[479..483].try_into().ok(),
+            ColourData6 => colour_data.get(479..483)?.try_into().ok(),
             ColourData7 => match version {
-                10 => colour_data[504..508].try_into().ok(),
-                11 => colour_data[728..732].try_into().ok(),
+                10 => colour_data.get(504..508)?.try_into().ok(),
+                11 => colour_data.get(728..732)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData8 => match version {
-                14 => colour_data[556..560].try_into().ok(),
-                12 | 13 | 15 => colour_data[778..782].try_into().ok(),
+                14 => colour_data.get(556..560)?.try_into().ok(),
+                12 | 13 | 15 => colour_data.get(778..782)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData9 => colour_data[329..333].try_into().ok(),
-            ColourData10 => colour_data[343..347].try_into().ok(),
-            ColourData11 => colour_data[363..367].try_into().ok(),
+            ColourData9 => colour_data.get(329..333)?.try_into().ok(),
+            ColourData10 => colour_data.get(343..347)?.try_into().ok(),
+            ColourData11 => colour_data.get(363..367)?.try_into().ok(),
         }
     }
 
@@ -169,39 +173,39 @@ impl ColourFormat {
 
         match *self {
             ColourData1 => {
-                let r = colour_data[25] as f64;
-                let g = colour_data[25 + 1] as f64;
-                let b = colour_data[25 + 3] as f64;
+                let r = *colour_data.get(25)? as f64;
+                let g = *colour_data.get(25 + 1)? as f64;
+                let b = *colour_data.get(25 + 3)? as f64;
                 Some([g / r, 1.0, g / b])
             }
             ColourData2 => {
-                let r = colour_data[24] as f64;
-                let g = colour_data[24 + 1] as f64;
-                let b = colour_data[24 + 3] as f64;
+                let r = *colour_data.get(24)? as f64;
+                let g = *colour_data.get(24 + 1)? as f64;
+                let b = *colour_data.get(24 + 3)? as f64;
                 Some([g / r, 1.0, g / b])
             }
             ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => {
-                let r = colour_data[63] as f64;
-                let g = colour_data[63 + 1] as f64;
-                let b = colour_data[63 + 3] as f64;
+                let r = *colour_data.get(63)? as f64;
+                let g = *colour_data.get(63 + 1)? as f64;
+                let b = *colour_data.get(63 + 3)? as f64;
                 Some([g / r, 1.0, g / b])
             }
             ColourData5 | ColourData9 => {
-                let r = colour_data[71] as f64;
-                let g = colour_data[71 + 1] as f64;
-                let b = colour_data[71 + 3] as f64;
+                let r = *colour_data.get(71)? as f64;
+                let g = *colour_data.get(71 + 1)? as f64;
+                let b = *colour_data.get(71 + 3)? as f64;
                 Some([g / r, 1.0, g / b])
             }
             ColourData10 => {
-                let r = colour_data[85] as f64;
-                let g = colour_data[85 + 1] as f64;
-                let b = colour_data[85 + 3] as f64;
+                let r = *colour_data.get(85)? as f64;
+                let g = *colour_data.get(85 + 1)? as f64;
+                let b = *colour_data.get(85 + 3)? as f64;
                 Some([g / r, 1.0, g / b])
             }
             ColourData11 => {
-                let r = colour_data[105] as f64;
-                let g = colour_data[105 + 1] as f64;
-                let b = colour_data[105 + 3] as f64;
+                let r = *colour_data.get(105)? as f64;
+                let g = *colour_data.get(105 + 1)? as f64;
+                let b = *colour_data.get(105 + 3)? as f64;
                 Some([g / r, 1.0, g / b])
             }
         }
diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 47955d9..bab7ee0 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -105,7 +105,7 @@ impl Cr2File {
             let mut decompressor = decompress::LJpeg::new(true);
             // in fact on Canon CR2 files slices either do not exists
             // or is 3.
-            if slices.len() > 1 {
+            if slices.len() > 2 {
                 probe!(self.probe, "cr2.slices", "true");
                 decompressor.set_slices(slices);
             }
@@ -149,6 +149,7 @@ impl Cr2File {
     fn old_white_balance(&self) -> Option<[f64; 3]> {
         self.maker_note_ifd()
             .and_then(|mnote| mnote.uint_value_array(exif::MNOTE_CANON_WHITE_BALANCE_TABLE))
+            .filter(|v| v.len() > 2)
             .map(|v| {
                 probe!(self.probe, "cr2.old_wb", "true");
                 let g = v[1] as f64;
@@ -179,7 +180,7 @@ impl Cr2File {
                 probe!(self.probe, "cr2.no_tiff_raw_data_len", "true");
                 // not found on the 1D, so we calculate it.
                 let len = std::cmp::min(container.borrow_view_mut().len(), u32::MAX as u64) as u32;
-                len - offset
+                len.saturating_sub(offset)
             });
         let mut rawdata =
             self.get_raw_bytes(0, 0, offset as u64, byte_len as u64, &[], skip_decompress)?;
@@ -214,19 +215,24 @@ impl Cr2File {
                 log::debug!("byte len not found");
                 Error::NotFound
             })?;
-        let slices = cfa_ifd
-            .entry(exif::CR2_TAG_SLICE)
-            .or_else(|| {
-                log::debug!("CR2 slice not found");
-                None
-            })
-            .and_then(|entry| entry.uint_value_array(container.endian()))
-            .or_else(|| {
-                probe!(self.probe, "cr2.slices", "false");
-                log::debug!("CR2 slice value not found");
-                None
-            })
-            .unwrap_or_default();
+        let slices = if let Some(entry) = cfa_ifd.entry(exif::CR2_TAG_SLICE) {
+            let slices = entry.uint_value_array(container.endian());
+            if slices.is_none() && !skip_decompress {
+                // Without the slices the pixels would be at the wrong place.
+                log::error!("CR2 slice value couldn't be read");
+                return Err(Error::FormatError);
+            }
+            slices
+        } else {
+            log::debug!("CR2 slice not found");
+            None
+        }
+        .or_else(|| {
+            probe!(self.probe, "cr2.slices", "false");
+            log::debug!("CR2 slice value not found");
+            None
+        })
+        .unwrap_or_default();
 
         // The tags exif::EXIF_TAG_PIXEL_X_DIMENSION
         // and exif::EXIF_TAG_PIXEL_Y_DIMENSION from the Exif IFD
@@ -268,8 +274,8 @@ impl Cr2File {
                 .map(|mut aspect_info| {
                     probe!(self.probe, "cr2.aspect_info", true);
                     if let Some(sensor_info) = &sensor_info {
-                        aspect_info.1.x += sensor_info.x;
-                        aspect_info.1.y += sensor_info.y;
+                        aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                        aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                     }
                     aspect_info
                 })
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index b7829ec..3269202 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -217,8 +217,8 @@ impl RawFileImpl for Cr3File {
                     .map(|mut aspect_info| {
                         probe!(self.probe, "cr3.aspect_info", true);
                         if let Some(sensor_info) = &sensor_info {
-                            aspect_info.1.x += sensor_info.x;
-                            aspect_info.1.y += sensor_info.y;
+                            aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                            aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                         }
                         aspect_info
                     })
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index a538fb9..94d7cdf 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -155,7 +155,8 @@ impl LJpeg {
     /// Set the slices for Canon CR2.
     pub fn set_slices(&mut self, slices: &[u32]) {
         let mut v = Vec::new();
-        let n = slices[0] as usize;
+        // There can't be more slices than columns.
+        let n = std::cmp::min(slices[0], u16::MAX as u32) as usize;
         v.resize(n + 1, slices[1]);
         v[n] = slices[2];
 
@@ -203,19 +204,7 @@ impl LJpeg {
                 "LJPEG: the scan doesn't have all the components".into(),
             ));
         }
-        if let Some(slices) = &self.slices {
-            if slices.iter().map(|w| *w as u64).sum::<u64>() > out_width as u64 {
-                return Err(Error::JpegFormat(
-                    "LJPEG: slices are wider than the image".into(),
-                ));
-            }
-        }
         let bpc = dc_info.data_precision;
-        let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
-            dc_info.image_width as u32 * dc_info.num_components as u32,
-            dc_info.image_height as u32,
-            self.slices.clone().as_deref(),
-        );
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
@@ -232,10 +221,14 @@ impl LJpeg {
             // Some CR2 files have 4 components so we need to double the height.
             // Includes 6DMkII.
             // The 7D has proper width and height. We check against the slices.
-            let slice_width: u32 = self.slices.as_ref().map(|s| s.iter().sum()).unwrap_or(0);
+            let slice_width: u64 = self
+                .slices
+                .as_ref()
+                .map(|s| s.iter().map(|w| *w as u64).sum())
+                .unwrap_or(0);
             if self.is_raw && dc_info.num_components == 4 {
                 if slice_width != 0
-                    && (dc_info.image_width as u32 * dc_info.num_components as u32) == slice_width
+                    && (dc_info.image_width as u64 * dc_info.num_components as u64) == slice_width
                 {
                     (
                         dc_info.image_width as u32 * dc_info.num_components as u32,
@@ -254,6 +247,21 @@ impl LJpeg {
                 )
             }
         };
+        // The slices are relative to the final image.
+        let (out_width, out_height) = if tiled {
+            (out_width as u32, height)
+        } else {
+            (width, height)
+        };
+        if let Some(slices) = &self.slices {
+            if slices.iter().map(|w| *w as u64).sum::<u64>() > out_width as u64 {
+                return Err(Error::JpegFormat(
+                    "LJPEG: slices are wider than the image".into(),
+                ));
+            }
+        }
+        let mut output: SlicedBuffer<ComponentType> =
+            SlicedBuffer::new(out_width, out_height, self.slices.as_deref());
         // XXX RawImage::set_slices?
         self.decoder_struct_init(&mut dc_info)?;
         self.huff_decoder_init(&mut dc_info, &mut bit_reader)?;
-- 
2.43.0


From 4c20a4692f3664fb5bf332b229e2e4e8d19c0050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 41/51] fix: crw: white balance offset, camera settings tags
 and focal length units

---
 src/canon/crw.rs                |  3 ++-
 src/canon/crw/ciff/container.rs | 27 +++++++++++++++++++--------
 src/tiff/exif/tags.rs           |  4 ++--
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index f5ff816..781e98d 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -151,6 +151,8 @@ impl CrwFile {
         // D30, G, S.
         let wb = heap.records().get(&ciff::Tag::ColourInfo1).and_then(|r| {
             if let ciff::Record::InHeap((pos, len)) = r.data {
+                // This may load the type ID: the view can't be borrowed yet.
+                let offset = self.crw_wb_offset();
                 let mut view = container.borrow_view_mut();
                 match len {
                     768 => {
@@ -169,7 +171,6 @@ impl CrwFile {
                     }
                     769.. => {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
-                        let offset = self.crw_wb_offset();
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 62bd921..b06f1aa 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -91,7 +91,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
-            let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+            let entry = Entry::new(
+                exif::EXIF_TAG_SUBJECT_DISTANCE_RANGE,
+                TagType::Short as i16,
+                1,
+                buf,
+            );
             entries.push(entry);
         }
 
@@ -122,7 +127,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         };
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, metering);
-        let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
         entries.push(entry);
 
         // Exposure mode
@@ -142,7 +147,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, exposure);
-        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(
+            exif::EXIF_TAG_EXPOSURE_PROGRAM,
+            TagType::Short as i16,
+            1,
+            buf,
+        );
         entries.push(entry);
     }
 
@@ -155,10 +165,11 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
             Some(value) => *value as u32,
             None => return vec![],
         };
-        let mut fu = 0;
-        if let Some(value) = container.camera_settings().and_then(|s| s.get(25)) {
-            fu = *value as u32
-        }
+        // Without its units the focal length has no value.
+        let fu = match container.camera_settings().and_then(|s| s.get(25)) {
+            Some(value) => *value as u32,
+            None => return vec![],
+        };
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
         container.endian_write_u32(&mut buf[4..], fu);
@@ -292,7 +303,7 @@ impl Container {
                     .entries
                     .insert(exif::EXIF_TAG_BITS_PER_SAMPLE, entry);
 
-                self.endian_write_u16(&mut buffer, image_spec.exif_orientation());
+                self.endian_write_u32(&mut buffer, image_spec.exif_orientation() as u32);
                 let entry = Entry::new(
                     exif::EXIF_TAG_ORIENTATION,
                     exif::TagType::Long as i16,
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index f8f8819..4d28f5c 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -76,7 +76,7 @@ pub const _EXIF_TAG_IPTC_NAA: u16 = 0x83bb;
 pub const _EXIF_TAG_IMAGE_RESOURCES: u16 = 0x8649;
 pub const EXIF_TAG_EXIF_IFD_POINTER: u16 = 0x8769;
 pub const _EXIF_TAG_INTER_COLOR_PROFILE: u16 = 0x8773;
-pub const _EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
+pub const EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
 pub const _EXIF_TAG_SPECTRAL_SENSITIVITY: u16 = 0x8824;
 pub const EXIF_TAG_GPS_INFO_IFD_POINTER: u16 = 0x8825;
 pub const _EXIF_TAG_ISO_SPEED_RATINGS: u16 = 0x8827;
@@ -131,7 +131,7 @@ pub const _EXIF_TAG_CONTRAST: u16 = 0xa408;
 pub const _EXIF_TAG_SATURATION: u16 = 0xa409;
 pub const _EXIF_TAG_SHARPNESS: u16 = 0xa40a;
 pub const _EXIF_TAG_DEVICE_SETTING_DESCRIPTION: u16 = 0xa40b;
-pub const _EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
+pub const EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
 pub const _EXIF_TAG_IMAGE_UNIQUE_ID: u16 = 0xa420;
 pub const EXIF_TAG_CAMERA_OWNER_NAME: u16 = 0xa430;
 pub const EXIF_TAG_BODY_SERIAL_NUMBER: u16 = 0xa431;
-- 
2.43.0


From 9ebe5832bbf52e64eef74e9ba6e574ec52442e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 42/51] fix: arw: no raw data when the model, which tells the
 storage, is unreadable

---
 src/sony.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sony.rs b/src/sony.rs
index aa17925..41e390a 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -995,6 +995,16 @@ impl ArwFile {
     fn load_rawdata_arw(&self, dir: &Dir) -> Result<RawImage> {
         let container = self.container.get().unwrap();
         let type_id = self.type_id()?;
+        if type_id == sony!(UNKNOWN)
+            && container
+                .directory(0)
+                .and_then(|dir| dir.entry(exif::EXIF_TAG_MODEL))
+                .is_some_and(|e| e.type_ == exif::TagType::Error_ as i16)
+        {
+            // The storage depends on the model.
+            log::error!("Couldn't read the model");
+            return Err(Error::FormatError);
+        }
         let rawdata_endian = if type_id.1 == camera_ids::sony::R1 {
             Endian::Big
         } else {
-- 
2.43.0


From 58b286cc9f15330a71eb1f52acd3cbf800a605be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:00 +0000
Subject: [PATCH 43/51] fix: jpeg: always read the info from the start of the
 stream

---
 src/jpeg/container.rs | 47 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/jpeg/container.rs b/src/jpeg/container.rs
index 7e68b71..295d9b3 100644
--- a/src/jpeg/container.rs
+++ b/src/jpeg/container.rs
@@ -22,6 +22,7 @@
 //! JPEG container
 
 use std::cell::{RefCell, RefMut};
+use std::io::{Seek, SeekFrom};
 use std::rc::Rc;
 
 use jpeg_decoder::{Decoder, ImageInfo};
@@ -98,12 +99,30 @@ impl Container {
         }
     }
 
-    /// Initialize the JPEG decoder.
-    fn decoder(&self) -> &RefCell<Decoder<View>> {
-        self.decoder.get_or_init(|| {
+    /// Initialize the JPEG decoder and have it read the info.
+    fn decoder(&self) -> Option<&RefCell<Decoder<View>>> {
+        // The position is shared, and the decoder doesn't seek.
+        self.view
+            .borrow_mut()
+            .seek(SeekFrom::Start(0))
+            .map_err(|err| {
+                log::error!("JPEG seek error: {}", err);
+                err
+            })
+            .ok()?;
+        let decoder = self.decoder.get_or_init(|| {
             let view = &*self.view.borrow_mut();
             RefCell::new(Decoder::new(view.clone()))
-        })
+        });
+        decoder
+            .borrow_mut()
+            .read_info()
+            .map_err(|err| {
+                log::error!("JPEG decoding error: {}", err);
+                err
+            })
+            .ok()?;
+        Some(decoder)
     }
 
     pub fn exif_dir(&self) -> Option<&tiff::Dir> {
@@ -117,15 +136,7 @@ impl Container {
     pub fn exif(&self) -> Option<&tiff::Container> {
         self.exif
             .get_or_init(|| {
-                let decoder = self.decoder();
-                decoder
-                    .borrow_mut()
-                    .read_info()
-                    .map_err(|err| {
-                        log::error!("JPEG decoding error: {}", err);
-                        err
-                    })
-                    .ok()?;
+                let decoder = self.decoder()?;
                 decoder
                     .borrow()
                     .exif_data()
@@ -165,15 +176,7 @@ impl Container {
     /// Load the image info.
     fn image_info(&self) -> &Option<ImageInfo> {
         self.image_info.get_or_init(|| {
-            let decoder = self.decoder();
-            decoder
-                .borrow_mut()
-                .read_info()
-                .map_err(|err| {
-                    log::error!("JPEG decoding error: {}", err);
-                    err
-                })
-                .ok()?;
+            let decoder = self.decoder()?;
             decoder.borrow().info()
         })
     }
-- 
2.43.0


From c7993dac1fe5affaba2da2489d93fb4691d71350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:00 +0000
Subject: [PATCH 44/51] fix: raf: decode X-Trans with the right CFA, and no
 panic on bad data

---
 src/decompress/bit_reader.rs |   6 +-
 src/fujifilm/decompress.rs   | 213 +++++++++++++++++++----------------
 2 files changed, 123 insertions(+), 96 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 4138196..c09f1dc 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -57,7 +57,11 @@ pub(crate) trait BitReader {
         let mut count = 0;
         loop {
             // u16::leading_zeros require at least one bit set.
-            let bits = (self.peek(NUM_BITS as u8).unwrap() << 1) | 0x1;
+            let bits = match self.peek(NUM_BITS as u8) {
+                Ok(bits) => (bits << 1) | 0x1,
+                // The end of the data
+                Err(_) => break,
+            };
             let n = bits.leading_zeros();
             self.consume(n as u8);
             count += n;
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index b656830..0289769 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -36,7 +36,7 @@ use rayon::prelude::*;
 use crate::bitmap::ImageBuffer;
 use crate::decompress::bit_reader::{BitReader, BitReaderBe32};
 use crate::mosaic::{Pattern, PatternColour};
-use crate::{Error, Result, Size};
+use crate::{Error, Result};
 
 /// Calculate the required bits to encode as many states.
 pub fn log2ceil(mut states: usize) -> usize {
@@ -234,7 +234,7 @@ impl Strip {
         params: &Params,
         q_bases: Option<&[u8]>,
         out: &mut ImageBuffer<u16>,
-    ) {
+    ) -> Result<()> {
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
@@ -243,8 +243,8 @@ impl Strip {
             BitReaderBe32::new(cursor)
         } else {
             let extra_bytes = 16;
-            let cursor =
-                std::io::Cursor::new(&src[self.offset..self.offset + self.size + extra_bytes]);
+            let end = std::cmp::min(self.offset + self.size + extra_bytes, src.len());
+            let cursor = std::io::Cursor::new(&src[self.offset..end]);
             BitReaderBe32::new(cursor)
         };
 
@@ -289,9 +289,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.fuji_xtrans_decode_block(&mut pump, &params);
+                info_block.fuji_xtrans_decode_block(&mut pump, &params)?;
             } else {
-                info_block.fuji_bayer_decode_block(&mut pump, &params);
+                info_block.fuji_bayer_decode_block(&mut pump, &params)?;
             }
 
             // copy data from line buffers and advance
@@ -321,6 +321,8 @@ impl Strip {
                     info_block.linebuf[i.0 - 1][params.line_width];
             }
         }
+
+        Ok(())
     }
 }
 
@@ -337,40 +339,37 @@ pub(super) fn decompress_fuji(
 ) -> Result<ImageBuffer<u16>> {
     let mut stream = std::io::Cursor::new(buf);
     let header = Header {
-        signature: stream.read_u16::<BigEndian>().unwrap(),
-        lossless: stream.read_u8().unwrap(),
-        raw_type: stream.read_u8().unwrap(),
-        raw_bits: stream.read_u8().unwrap(),
-        raw_height: stream.read_u16::<BigEndian>().unwrap(),
-        raw_rounded_width: stream.read_u16::<BigEndian>().unwrap(),
-        raw_width: stream.read_u16::<BigEndian>().unwrap(),
-        block_size: stream.read_u16::<BigEndian>().unwrap(),
-        blocks_in_row: stream.read_u8().unwrap(),
-        total_lines: stream.read_u16::<BigEndian>().unwrap(),
+        signature: stream.read_u16::<BigEndian>()?,
+        lossless: stream.read_u8()?,
+        raw_type: stream.read_u8()?,
+        raw_bits: stream.read_u8()?,
+        raw_height: stream.read_u16::<BigEndian>()?,
+        raw_rounded_width: stream.read_u16::<BigEndian>()?,
+        raw_width: stream.read_u16::<BigEndian>()?,
+        block_size: stream.read_u16::<BigEndian>()?,
+        blocks_in_row: stream.read_u8()?,
+        total_lines: stream.read_u16::<BigEndian>()?,
     };
     log::debug!("Header: {:?}", header);
-    if !header.is_valid(corrected_cfa) {
+    let is_rgb = corrected_cfa.pattern().len() == corrected_cfa.width() * corrected_cfa.height()
+        && !corrected_cfa.pattern().contains(&PatternColour::Unknown);
+    if !is_rgb || !header.is_valid(corrected_cfa) {
         log::error!("Invalid header");
         return Err(Error::Decompression("Fuji header is not valid".into()));
     }
-    assert_eq!(
-        Size {
-            width: width as u32,
-            height: height as u32
-        },
-        Size {
-            width: header.raw_width.into(),
-            height: header.raw_height.into()
-        },
-        "RAF header specifies different dimensions!"
-    );
+    if width != header.raw_width as usize || height != header.raw_height as usize {
+        log::error!("RAF header specifies different dimensions!");
+        return Err(Error::Decompression(
+            "Fuji header specifies different dimensions".into(),
+        ));
+    }
 
     let params = Params::new(&header);
     log::debug!("Params: {:?}", params);
 
     let block_sizes: Vec<usize> = (0..header.blocks_in_row)
-        .map(|_| stream.read_u32::<BigEndian>().unwrap() as usize)
-        .collect();
+        .map(|_| Ok(stream.read_u32::<BigEndian>()? as usize))
+        .collect::<Result<_>>()?;
     let raw_offset = header.blocks_in_row as usize * size_of::<u32>();
     let raw_offset_padded = (raw_offset + 0xF) & !0xF;
     stream.seek(SeekFrom::Current((raw_offset_padded - raw_offset) as i64))?;
@@ -380,47 +379,51 @@ pub(super) fn decompress_fuji(
         let total_q_bases = block_sizes.len() * ((header.total_lines as usize + 0xF) & !0xF);
         let mut bytes = vec![0_u8; total_q_bases];
         let byteslice = bytes.as_mut_slice();
-        if stream.read_exact(byteslice).is_ok() {
-            Some(bytes)
-        } else {
-            // XXX log
-            None
-        }
+        stream.read_exact(byteslice)?;
+        Some(bytes)
     } else {
         None
     };
 
+    // There is a code per pixel, and it has at least one bit.
+    let min_size =
+        header.block_size as usize * Strip::line_height() * header.total_lines as usize / 8;
+
     // calculating raw block offsets
     let strips: Vec<Strip> = block_sizes
         .iter()
         .enumerate()
         .map(|(n, &block_size)| {
             let strip = Strip {
-                offset: stream.stream_position().unwrap() as usize,
+                offset: stream.stream_position()? as usize,
                 size: block_size,
                 n,
                 header: header.clone(),
                 cfa: corrected_cfa.clone(),
             };
-            stream.seek(SeekFrom::Current(block_size as i64)).unwrap();
-            strip
+            if block_size < min_size || block_size > buf.len().saturating_sub(strip.offset) {
+                log::error!("Fuji strip {n} doesn't fit");
+                return Err(Error::Decompression("Fuji strip doesn't fit".into()));
+            }
+            stream.seek(SeekFrom::Current(block_size as i64))?;
+            Ok(strip)
         })
-        .collect();
+        .collect::<Result<_>>()?;
 
     //  assert!(stream.remaining_bytes() <= 16);
 
     let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
 
     // Process each strip
-    strips.par_iter().for_each(|strip| {
+    strips.par_iter().try_for_each(|strip| {
         let line_step = (header.total_lines as usize + 0xF) & !0xF;
         // Each strip has it's own q_bases
         let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
         // DANGEROUS: We need multiple mut refs here. This should be
         // safe as be only write pixels to pre-allocated memory.
         let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf);
-    });
+        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
+    })?;
 
     Ok(out.into_inner())
 }
@@ -549,7 +552,7 @@ impl CompressedBlock {
         let cfa_height = strip.cfa.height();
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
-                let line_idx = match strip.cfa[(row_count % cfa_height, pixel_count % cfa_width)] {
+                let line_idx = match strip.cfa[(pixel_count % cfa_width, row_count % cfa_height)] {
                     PatternColour::Red => line_buf_r[row_count >> 1],
                     PatternColour::Green => line_buf_g[row_count],
                     PatternColour::Blue => line_buf_b[row_count >> 1],
@@ -585,7 +588,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let line_width = params.line_width;
         let mut colours = Colours::new();
 
@@ -594,7 +597,8 @@ impl CompressedBlock {
                               block: &mut CompressedBlock,
                               c0: usize,
                               c1: usize,
-                              grad: usize| {
+                              grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -604,7 +608,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -612,7 +616,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -622,7 +626,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -630,11 +634,12 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_red(line_width);
             block.fuji_extend_green(line_width);
+            Ok(())
         };
 
         let pass_green_blue = |colours: &mut Colours,
@@ -642,7 +647,8 @@ impl CompressedBlock {
                                block: &mut CompressedBlock,
                                c0: usize,
                                c1: usize,
-                               grad: usize| {
+                               grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -652,7 +658,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -660,7 +666,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -670,7 +676,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -678,33 +684,34 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_green(line_width);
             block.fuji_extend_blue(line_width);
+            Ok(())
         };
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0)?;
         colours.g().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2)
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -719,7 +726,8 @@ impl CompressedBlock {
         c1: usize,
         grad: usize,
         even_func: F,
-    ) where
+    ) -> Result<()>
+    where
         F: Fn(
             &mut CompressedBlock,
             &mut BitReaderBe32<T>,
@@ -728,14 +736,14 @@ impl CompressedBlock {
             usize,
             &mut ColourPos,
             &mut ColourPos,
-        ),
+        ) -> Result<()>,
     {
         let line_width = params.line_width;
         while colours.g().even < line_width || colours.g().odd < line_width {
             if colours.g().even < line_width {
                 let mut c0_pos = *colours.at(C0);
                 let mut c1_pos = *colours.at(C1);
-                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos);
+                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos)?;
                 *colours.at(C0) = c0_pos; // Write back
                 *colours.at(C1) = c1_pos;
             }
@@ -747,7 +755,7 @@ impl CompressedBlock {
                     c0,
                     &mut colours.at(C0).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
                 fuji_decode_sample_odd(
                     pump,
                     params,
@@ -755,9 +763,10 @@ impl CompressedBlock {
                     c1,
                     &mut colours.at(C1).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
             }
         }
+        Ok(())
     }
 
     /// Decode X-Trans pattern from block
@@ -765,7 +774,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let mut colours = Colours::new();
         let line_width = params.line_width;
 
@@ -786,9 +795,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -809,10 +819,11 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -835,13 +846,14 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c0, &mut c0_pos.even);
                 }
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -863,7 +875,7 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
 
                 if c1_pos.even & 3 == 2 {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
@@ -875,10 +887,11 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -903,7 +916,7 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
 
                 fuji_decode_sample_even(
@@ -913,9 +926,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -940,14 +954,16 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
+        Ok(())
     }
 
     fn fuji_extend_generic(&mut self, line_width: usize, start: usize, end: usize) {
@@ -1136,11 +1152,13 @@ impl Params {
 /// Count and consume all zero bits
 /// Additionally, consume the first 1 bit.
 #[inline(always)]
-fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> u32 {
+fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> Result<u32> {
     let count = pump.consume_zerobits();
-    debug_assert_eq!(pump.peek(1).unwrap(), 1);
-    pump.consume(1); // consume the next bit which is 0b1
-    count
+    // consume the next bit which is 0b1
+    if pump.get_bits(1)? != 1 {
+        return Err(Error::Decompression("Fuji unexpected end of data".into()));
+    }
+    Ok(count)
 }
 
 /// Calculate bit difference between two values
@@ -1173,22 +1191,23 @@ fn read_code<T: std::io::Read>(
     params: &Params,
     gradient: &mut Gradient,
     q_table: &QTable,
-) -> i32 {
-    let sample = fuji_zerobits(pump);
+) -> Result<i32> {
+    let sample = fuji_zerobits(pump)?;
     let mut code: i32 = if (sample as usize) < params.max_bits - q_table.raw_bits - 1 {
         let dec_bits = bit_diff(gradient.0, gradient.1);
         let extra_bits = if dec_bits == 0 {
             0
         } else {
-            pump.get_bits(dec_bits).unwrap() as i32
+            pump.get_bits(dec_bits)? as i32
         };
         (sample << dec_bits) as i32 + extra_bits
     } else {
-        1 + pump.get_bits(q_table.raw_bits as u8).unwrap() as i32
+        1 + pump.get_bits(q_table.raw_bits as u8)? as i32
     };
     // Validate code
     if code < 0 || code >= q_table.total_values {
-        panic!("Invalid code: {}", code);
+        log::error!("Invalid code: {code}");
+        return Err(Error::Decompression("Fuji invalid code".into()));
     }
     // Adjust code
     if (code & 1) != 0 {
@@ -1203,7 +1222,7 @@ fn read_code<T: std::io::Read>(
         gradient.1 >>= 1;
     }
     gradient.1 += 1;
-    code
+    Ok(code)
 }
 
 /// Decode samples for even positions
@@ -1214,7 +1233,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1255,7 +1274,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to even positions
     if grad < 0 {
@@ -1278,6 +1297,8 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Decode samples for odd positions
@@ -1288,7 +1309,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1327,7 +1348,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to odd positions
     if grad < 0 {
@@ -1350,6 +1371,8 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Interpolate x value from surrounding pixels
-- 
2.43.0


From dd0e3f21967af1578f006522eeee8b3119919e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:00 +0000
Subject: [PATCH 45/51] fix: raf: bounds, I/O errors and sizes in the container

---
 src/fujifilm.rs     | 42 +++++++++++++++++++++++++-----------------
 src/fujifilm/raf.rs | 44 ++++++++++++++++++++++++++------------------
 2 files changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 7458ed1..66fbdb4 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -211,7 +211,8 @@ impl RawFileImpl for RafFile {
             let mut thumbnails = Vec::new();
             self.container()?;
             let container = self.container.get().unwrap();
-            if let Some(jpeg) = container.jpeg_preview() {
+            // If the preview can't be read, there is none.
+            if let Some(jpeg) = container.jpeg_preview().filter(|jpeg| jpeg.width() != 0) {
                 let width = jpeg.width();
                 let height = jpeg.height();
                 let dim = std::cmp::max(width, height) as u32;
@@ -366,6 +367,9 @@ impl RawFileImpl for RafFile {
                     raf::Value::Bytes(wb) => {
                         // XXX Unsure of the format here.
                         probe!(self.probe, "raf.wb.old", true);
+                        if wb.len() < 8 {
+                            return None;
+                        }
                         let g = u16::from_be_bytes(wb[0..2].try_into().ok()?) as f64;
                         let r = u16::from_be_bytes(wb[2..4].try_into().ok()?) as f64;
                         let b = u16::from_be_bytes(wb[6..8].try_into().ok()?) as f64;
@@ -413,7 +417,7 @@ impl RawFileImpl for RafFile {
                 let mut bps: u16 = 12;
                 let mut blacks = vec![0_u32; 4];
 
-                if let Some(cfa_container) = raw_container.cfa_container() {
+                if let Some(cfa_container) = raw_container.cfa_container()? {
                     if let Some(dir) = cfa_container.directory(0).and_then(|dir| {
                         dir.ifd_in_entry(
                             cfa_container,
@@ -424,25 +428,28 @@ impl RawFileImpl for RafFile {
                     }) {
                         cfa_offset = dir
                             .value::<u32>(raf::FUJI_TAG_RAW_OFFSET)
-                            .map(|v| v + raw_container.cfa_offset())
-                            .unwrap_or(0) as u64;
+                            .map(|v| v as u64 + raw_container.cfa_offset() as u64)
+                            .unwrap_or(0);
                         cfa_len = dir.value::<u32>(raf::FUJI_TAG_RAW_BYTE_LEN).unwrap_or(0) as u64;
                         bps = dir.value::<u32>(raf::FUJI_TAG_RAW_BPS).unwrap_or(0) as u16;
                         blacks = dir
                             .uint_value_array(raf::FUJI_TAG_RAW_BLACK_LEVEL_GRB)
                             .unwrap_or_else(|| vec![0_u32; 4]);
                         if wb.is_none() {
-                            let wb_grb = dir.uint_value_array(raf::FUJI_TAG_RAW_WB_GRB).map(|v| {
-                                probe!(self.probe, "raf.wb.grb", true);
-                                let g = v[0] as f64;
-                                [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
-                            });
+                            let wb_grb = dir
+                                .uint_value_array(raf::FUJI_TAG_RAW_WB_GRB)
+                                .filter(|v| v.len() >= 3)
+                                .map(|v| {
+                                    probe!(self.probe, "raf.wb.grb", true);
+                                    let g = v[0] as f64;
+                                    [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
+                                });
                             wb = wb_grb;
                         }
                     }
                 } else {
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
-                    cfa_len = raw_container.cfa_len() as u64 - 2048;
+                    cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
                     bps = if compressed { 12 } else { 16 };
                 }
@@ -468,9 +475,7 @@ impl RawFileImpl for RafFile {
                     } else {
                         let mut view = raw_container.borrow_view_mut();
                         let unpacked = if bps == 14 {
-                            let mut unpacked = Vec::with_capacity(
-                                raw_size.width as usize * raw_size.height as usize,
-                            );
+                            let mut unpacked = Vec::new();
                             let view = crate::io::Viewer::create_subview(&view, cfa_offset)?;
                             let mut reader = BitReaderLe32::new(view);
                             unpack::unpack_14to16(
@@ -510,10 +515,11 @@ impl RawFileImpl for RafFile {
                     }
                 } else {
                     let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len)?;
-                    // The decompressor needs some extra bytes. We add 16.
-                    raw.extend(&[0; 16]);
                     let mut rawbuffer = None;
                     if !skip_decompress {
+                        let len = raw.len();
+                        // The decompressor needs some extra bytes. We add 16.
+                        raw.extend(&[0; 16]);
                         rawbuffer = decompress::decompress_fuji(
                             &raw,
                             raw_size.width as usize,
@@ -521,6 +527,7 @@ impl RawFileImpl for RafFile {
                             &mosaic,
                         )
                         .ok();
+                        raw.truncate(len);
                     }
 
                     if let Some(rawbuffer) = rawbuffer {
@@ -544,7 +551,7 @@ impl RawFileImpl for RafFile {
                         // But it is assumed that as long as a value is
                         // bigger than width then it's not right.
                         let mut idx = 0_usize;
-                        while v[idx] >= raw_size.width && idx < v.len() {
+                        while idx < v.len() && v[idx] >= raw_size.width {
                             idx += 1;
                         }
                         // We definitely want the index in probe in case
@@ -560,7 +567,8 @@ impl RawFileImpl for RafFile {
                     }
                 };
                 rawdata.set_blacks(utils::to_quad(&blacks));
-                rawdata.set_whites([((1 << bps as u32) - 1) as u16; 4]);
+                let white = 1_u32.checked_shl(bps as u32).unwrap_or(0).wrapping_sub(1);
+                rawdata.set_whites([white as u16; 4]);
                 rawdata.set_active_area(active_area);
                 rawdata.set_user_crop(crop, aspect_ratio);
                 if let Some(wb) = wb {
diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 0372d71..336c7e9 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -166,29 +166,35 @@ impl RafContainer {
             .as_ref()
     }
 
-    pub fn cfa_container(&self) -> Option<&tiff::Container> {
+    /// The container for the CFA. `None` if the CFA isn't in a container.
+    pub fn cfa_container(&self) -> Result<Option<&tiff::Container>> {
         self.cfa
-            .get_or_init(|| {
+            .get_or_try_init(|| {
                 if self.offsets.cfa_offset == 0 || self.offsets.cfa_len == 0 {
-                    return None;
+                    return Ok(None);
                 }
-                let meta = self.meta_container()?;
+                let meta = match self.meta_container() {
+                    Some(meta) => meta,
+                    None => return Ok(None),
+                };
                 if meta.value(TAG_WB_OLD).is_some() {
                     log::debug!("Found old WB, no container");
-                    return None;
+                    return Ok(None);
                 }
-                let container =
-                    Viewer::create_subview(&self.view.borrow_mut(), self.offsets.cfa_offset as u64)
-                        .map(|view| tiff::Container::new(view, vec![], RawType::Raf))
-                        .and_then(|mut container| {
-                            container.load(None)?;
-                            Ok(container)
-                        })
-                        .ok();
-
-                container
+                Viewer::create_subview(&self.view.borrow_mut(), self.offsets.cfa_offset as u64)
+                    .map(|view| tiff::Container::new(view, vec![], RawType::Raf))
+                    .and_then(|mut container| {
+                        container.load(None)?;
+                        Ok(container)
+                    })
+                    .map(Some)
+                    .or_else(|err| match err {
+                        // It's unreadable, which doesn't mean it's not there.
+                        Error::IoError(_) | Error::UnexpectedEOF => Err(err),
+                        _ => Ok(None),
+                    })
             })
-            .as_ref()
+            .map(|container| container.as_ref())
     }
 
     fn meta_container_at(&self, offset: u32, len: u32) -> Option<MetaContainer> {
@@ -349,7 +355,7 @@ impl Dump for RafContainer {
             dump_writeln!(out, indent, "<CFA @{}>", self.offsets.cfa_offset);
             {
                 let indent = indent + 1;
-                if let Some(cfa_container) = self.cfa_container() {
+                if let Ok(Some(cfa_container)) = self.cfa_container() {
                     cfa_container.write_dump(out, indent);
                     if let Some(dir) = cfa_container.directory(0).and_then(|dir| {
                         dir.ifd_in_entry(
@@ -595,8 +601,10 @@ impl MetaContainer {
                 let v = view.read_u32::<BigEndian>()?;
                 Value::Int(v)
             } else if tag == TAG_RAF_DATA {
-                let mut v = uninit_vec!(sz as usize);
+                // The size is in bytes
+                let mut v = uninit_vec!(sz as usize / 4);
                 view.read_u32_into::<LittleEndian>(&mut v)?;
+                view.seek(SeekFrom::Current(sz as i64 % 4))?;
                 Value::U32s(v)
             } else {
                 let mut v = uninit_vec!(sz as usize);
-- 
2.43.0


From 67e48195940ad5f0ad023c524c6d21b300709836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:29 +0000
Subject: [PATCH 46/51] fix: cr3: incomplete files or metadata that can't be
 parsed must not panic

---
 src/canon/cr3.rs     | 11 ++++++++---
 src/mp4/container.rs | 36 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index 3269202..8347910 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -157,9 +157,14 @@ impl RawFileImpl for Cr3File {
                 }
             }
 
-            if let Ok(desc) = container.preview_desc() {
-                let dim = std::cmp::max(desc.width, desc.height);
-                thumbnails.push((dim, desc));
+            match container.preview_desc() {
+                Ok(desc) => {
+                    let dim = std::cmp::max(desc.width, desc.height);
+                    thumbnails.push((dim, desc));
+                }
+                // Don't keep an incomplete list because of an I/O error
+                Err(Error::IoError(err)) => return Err(Error::IoError(err)),
+                Err(err) => log::debug!("No preview: {err}"),
             }
             Ok(ThumbnailStorage::with_thumbnails(thumbnails))
         })
diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 7e65ecf..702ba17 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -134,7 +134,10 @@ impl Container {
         // box (24) + content (8) + prvw box (8) + unknown (4)
         // We need to skip the "boxes" (ISO container)
         // And skip a short (16bits) value.
-        let offset = preview_offset.0 + 44 + 2;
+        let offset = preview_offset
+            .0
+            .checked_add(44 + 2)
+            .ok_or(Error::FormatError)?;
 
         let mut view = self.view.borrow_mut();
         view.seek(SeekFrom::Start(offset))?;
@@ -182,16 +185,17 @@ impl Container {
                     let viewer = Viewer::new(cursor, length as u64);
                     if let Ok(view) = Viewer::create_view(&viewer, 0) {
                         let mut ifd = tiff::Container::new(view, vec![(t, None)], raw_type);
-                        ifd.load(None).expect("ifd load");
-                        return Some((viewer, ifd));
+                        match ifd.load(None) {
+                            Ok(_) => return Some((viewer, ifd)),
+                            Err(err) => log::error!("Failed to load metadata block: {err}"),
+                        }
                     }
                 }
                 None
             })
         }
 
-        let len = self
-            .meta_ifds
+        self.meta_ifds
             .get_or_init(|| {
                 if let Ok(craw) = self.craw_header() {
                     vec![
@@ -208,13 +212,8 @@ impl Container {
                     vec![]
                 }
             })
-            .len();
-
-        if len < idx as usize {
-            None
-        } else {
-            self.meta_ifds.get().and_then(|v| v[idx as usize].as_ref())
-        }
+            .get(idx as usize)
+            .and_then(Option::as_ref)
     }
 
     /// Number of tracks in the ISO container
@@ -258,11 +257,12 @@ impl Container {
             _ => return Err(Error::NotFound),
         }
 
-        let video = match track.stsd {
+        let video = track
+            .stsd
+            .as_ref()
             // We assume there is only one.
-            Some(ref data) => &data.descriptions[0],
-            None => return Err(Error::FormatError),
-        };
+            .and_then(|data| data.descriptions.first())
+            .ok_or(Error::FormatError)?;
 
         let raw = match *video {
             mp4parse::SampleEntry::CanonCRAW(ref x) => x,
@@ -277,13 +277,13 @@ impl Container {
             if stsz.sample_size > 0 {
                 stsz.sample_size as u64
             } else {
-                stsz.sample_sizes[0] as u64
+                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
             }
         } else {
             0
         };
         track_info.offset = if let Some(ref stco) = track.stco {
-            stco.offsets[0]
+            *stco.offsets.first().ok_or(Error::FormatError)?
         } else {
             0
         };
-- 
2.43.0


From 92c780581eb44b1d06872c4715aee18b6f363be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:29 +0000
Subject: [PATCH 47/51] fix: mp4: read the uuid entirely, and don't allocate
 what the file pretends to have

---
 src/mp4/parse/mod.rs | 58 ++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 4711a8f..80ec66e 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1560,7 +1560,8 @@ impl<T: Read> Read for BMFFBox<'_, T> {
 
 impl<T: Read> TryRead for BMFFBox<'_, T> {
     fn try_read_to_end(&mut self, buf: &mut TryVec<u8>) -> std::io::Result<usize> {
-        fallible_collections::try_read_up_to(self, self.bytes_left(), buf)
+        let size = self.bytes_left();
+        read_up_to(self, size, buf)
     }
 }
 
@@ -1628,7 +1629,16 @@ fn read_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
     let uuid = if name == BoxType::UuidBox {
         if size >= offset + 16 {
             let mut buffer = [0u8; 16];
-            let count = src.read(&mut buffer)?;
+            let mut count = 0;
+            // A reader is allowed to return less than what was asked for.
+            while count < buffer.len() {
+                match src.read(&mut buffer[count..]) {
+                    Ok(0) => break,
+                    Ok(read) => count += read,
+                    Err(ref err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                    Err(err) => return Err(err.into()),
+                }
+            }
             offset += count.to_u64();
             if count == 16 {
                 Some(buffer)
@@ -3302,10 +3312,7 @@ fn read_moov<T: Read>(f: &mut BMFFBox<T>, context: Option<MediaContext>) -> Resu
                     }
                 }
                 if !box_known {
-                    debug!(
-                        "Unknown UUID box {:?} (skipping)",
-                        b.head.uuid.as_ref().unwrap()
-                    );
+                    debug!("Unknown UUID box {:?} (skipping)", b.head.uuid);
                     skip_box_content(&mut b)?;
                 }
             }
@@ -3604,7 +3611,7 @@ fn read_ftyp<T: Read>(src: &mut BMFFBox<T>) -> Result<FileTypeBox> {
     }
     // Is a brand_count of zero valid?
     let brand_count = bytes_left / 4;
-    let mut brands = TryVec::with_capacity(brand_count.try_into()?)?;
+    let mut brands = TryVec::new();
     for _ in 0..brand_count {
         brands.push(be_u32(src)?.into())?;
     }
@@ -3704,7 +3711,7 @@ fn read_tkhd<T: Read>(src: &mut BMFFBox<T>) -> Result<TrackHeaderBox> {
 fn read_elst<T: Read>(src: &mut BMFFBox<T>) -> Result<EditListBox> {
     let (version, _) = read_fullbox_extra(src)?;
     let edit_count = be_u32(src)?;
-    let mut edits = TryVec::with_capacity(edit_count.to_usize())?;
+    let mut edits = TryVec::new();
     for _ in 0..edit_count {
         let (segment_duration, media_time) = match version {
             1 => {
@@ -3780,7 +3787,7 @@ fn read_mdhd<T: Read>(src: &mut BMFFBox<T>) -> Result<MediaHeaderBox> {
 fn read_stco<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let offset_count = be_u32(src)?;
-    let mut offsets = TryVec::with_capacity(offset_count.to_usize())?;
+    let mut offsets = TryVec::new();
     for _ in 0..offset_count {
         offsets.push(be_u32(src)?.into())?;
     }
@@ -3796,7 +3803,7 @@ fn read_stco<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
 fn read_co64<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let offset_count = be_u32(src)?;
-    let mut offsets = TryVec::with_capacity(offset_count.to_usize())?;
+    let mut offsets = TryVec::new();
     for _ in 0..offset_count {
         offsets.push(be_u64(src)?)?;
     }
@@ -3812,7 +3819,7 @@ fn read_co64<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
 fn read_stss<T: Read>(src: &mut BMFFBox<T>) -> Result<SyncSampleBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::new();
     for _ in 0..sample_count {
         samples.push(be_u32(src)?)?;
     }
@@ -3828,7 +3835,7 @@ fn read_stss<T: Read>(src: &mut BMFFBox<T>) -> Result<SyncSampleBox> {
 fn read_stsc<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleToChunkBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::new();
     for _ in 0..sample_count {
         let first_chunk = be_u32(src)?;
         let samples_per_chunk = be_u32(src)?;
@@ -3860,7 +3867,7 @@ fn read_ctts<T: Read>(src: &mut BMFFBox<T>) -> Result<CompositionOffsetBox> {
         return Err(Error::InvalidData("insufficient data in 'ctts' box"));
     }
 
-    let mut offsets = TryVec::with_capacity(counts.to_usize())?;
+    let mut offsets = TryVec::new();
     for _ in 0..counts {
         let (sample_count, time_offset) = match version {
             // According to spec, Version0 shoule be used when version == 0;
@@ -3894,7 +3901,6 @@ fn read_stsz<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleSizeBox> {
     let sample_count = be_u32(src)?;
     let mut sample_sizes = TryVec::new();
     if sample_size == 0 {
-        sample_sizes.reserve(sample_count.to_usize())?;
         for _ in 0..sample_count {
             sample_sizes.push(be_u32(src)?)?;
         }
@@ -3914,7 +3920,7 @@ fn read_stsz<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleSizeBox> {
 fn read_stts<T: Read>(src: &mut BMFFBox<T>) -> Result<TimeToSampleBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::new();
     for _ in 0..sample_count {
         let sample_count = be_u32(src)?;
         let sample_delta = be_u32(src)?;
@@ -5275,9 +5281,29 @@ fn skip<T: Read>(src: &mut T, bytes: u64) -> Result<()> {
     Ok(())
 }
 
+/// Read up to size bytes. The size comes from the file: don't allocate it
+/// before there is data to be read.
+fn read_up_to<T: Read>(src: &mut T, size: u64, buf: &mut TryVec<u8>) -> std::io::Result<usize> {
+    const CHUNK_SIZE: u64 = 64 * 1024;
+
+    let mut total = 0;
+    let mut left = size;
+    while left > 0 {
+        let chunk = std::cmp::min(left, CHUNK_SIZE);
+        let count = fallible_collections::try_read_up_to(src, chunk, buf)?;
+        total += count;
+        if count.to_u64() < chunk {
+            break;
+        }
+        left -= chunk;
+    }
+    Ok(total)
+}
+
 /// Read size bytes into a Vector or return error.
 fn read_buf<T: Read>(src: &mut T, size: u64) -> Result<TryVec<u8>> {
-    let buf = src.take(size).read_into_try_vec()?;
+    let mut buf = TryVec::new();
+    read_up_to(src, size, &mut buf)?;
     if buf.len().to_u64() != size {
         return Err(Error::InvalidData("failed buffer read"));
     }
-- 
2.43.0


From e205be845c8e5289a7a1006b85346a784f3ed4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:22 +0000
Subject: [PATCH 48/51] fix: dng: list the preview in the maker note of the
 Leica M (Typ 240)

---
 src/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dng.rs b/src/dng.rs
index 71de52e..ae006e0 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -301,7 +301,7 @@ impl RawFileImpl for DngFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                if mnote.id() == b"Leica6\0" {
+                if mnote.id() == b"Exif.Leica6\0" {
                     // File with Leica6 MakerNote (Leica M Typ-240) have a
                     // larger preview in the MakerNote
                     mnote.entry(exif::MNOTE_LEICA_PREVIEW_IMAGE).map(|e| {
-- 
2.43.0


From 1d4908fff7bef5e276c06b5bea093d3bebbc8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:06 +0000
Subject: [PATCH 49/51] fix: ordiag: write thumbnails completely, and go on
 when one can't be written

---
 src/bin/ordiag.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bin/ordiag.rs b/src/bin/ordiag.rs
index 146fca3..4fcb622 100644
--- a/src/bin/ordiag.rs
+++ b/src/bin/ordiag.rs
@@ -107,9 +107,10 @@ fn save_thumbnail(p: &str, thumb: &Thumbnail) {
         DataType::Jpeg => {
             if let Some(fname) = make_thumbnail_name(p, thumb) {
                 if let Some(d) = thumb.data8() {
-                    let mut f = std::fs::File::create(&fname).expect("Couldn't open file");
-                    let amount = f.write(d).expect("Couldn't write thumbnail");
-                    eprintln!("Written {fname:?}: {amount} bytes");
+                    match std::fs::File::create(&fname).and_then(|mut f| f.write_all(d)) {
+                        Ok(()) => eprintln!("Written {fname:?}: {} bytes", d.len()),
+                        Err(err) => eprintln!("Couldn't write thumbnail {fname:?}: {err}"),
+                    }
                 }
             }
         }
@@ -134,9 +135,9 @@ fn save_raw(p: &str, rawdata: &RawImage) -> Result<usize> {
         if let Some(d) = rawdata.data16() {
             let white = (1_u32 << rawdata.bpc()) - 1;
             let mut f = std::fs::File::create(&raw)?;
-            amount += f.write(b"P5\n")?;
-            amount += f.write(format!("{} {}\n", rawdata.width(), rawdata.height()).as_bytes())?;
-            amount += f.write(format!("{white}\n").as_bytes())?;
+            let header = format!("P5\n{} {}\n{white}\n", rawdata.width(), rawdata.height());
+            f.write_all(header.as_bytes())?;
+            amount += header.len();
             for b in d {
                 let value = std::cmp::min(*b, white as u16);
                 f.write_u16::<BigEndian>(value)?;
-- 
2.43.0


From 41fe4c869157a6a076ad0335b65b162665135744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:47 +0000
Subject: [PATCH 50/51] fix: rawdata: write all of the data, and report a file
 without it instead of panicking

---
 src/bin/rawdata.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/rawdata.rs b/src/bin/rawdata.rs
index 46a1baf..0048dba 100644
--- a/src/bin/rawdata.rs
+++ b/src/bin/rawdata.rs
@@ -9,12 +9,16 @@ fn main() {
     let args: Vec<String> = std::env::args().collect();
     assert!(args.len() > 1, "Incorrect number of arguments");
 
-    let _ = libopenraw::rawfile_from_file(&args[1], None).and_then(|rawfile| {
+    let result = libopenraw::rawfile_from_file(&args[1], None).and_then(|rawfile| {
         // always skip decompression
         let rawdata = rawfile.raw_data(true)?;
+        let data = rawdata.data8().ok_or(libopenraw::Error::NotFound)?;
         let mut f = std::fs::File::create("rawdata.raw")?;
-        let _ = f.write(rawdata.data8().unwrap())?;
+        f.write_all(data)?;
 
         Ok(())
     });
+    if let Err(err) = result {
+        eprintln!("Failed to extract raw data: {err}");
+    }
 }
-- 
2.43.0


From 39fa944ac39e018fdf8553cc4df0f6330e31cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:40 +0000
Subject: [PATCH 51/51] fix: ordiag: limit the white of the extracted raw to 16
 bits

---
 src/bin/ordiag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/ordiag.rs b/src/bin/ordiag.rs
index 4fcb622..a13b5ff 100644
--- a/src/bin/ordiag.rs
+++ b/src/bin/ordiag.rs
@@ -133,7 +133,7 @@ fn save_raw(p: &str, rawdata: &RawImage) -> Result<usize> {
         let mut amount = 0;
         let raw = std::path::PathBuf::from(format!("{stem}_RAW.pgm"));
         if let Some(d) = rawdata.data16() {
-            let white = (1_u32 << rawdata.bpc()) - 1;
+            let white = (1_u32 << rawdata.bpc().min(16)) - 1;
             let mut f = std::fs::File::create(&raw)?;
             let header = format!("P5\n{} {}\n{white}\n", rawdata.width(), rawdata.height());
             f.write_all(header.as_bytes())?;
-- 
2.43.0

