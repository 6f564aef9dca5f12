From 418c22a34966dd146d5d172b7cbca6295b65f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 01/12] fix: read exactly the blocks of a component in
 non-interleaved scans

A scan with a single component consists of the blocks that contain samples of
that component (A.2.2). The decoder stopped at the image size instead of the
component size, so it read too many blocks when the component is subsampled
relative to the largest factor but has itself a factor above one, and
computing the row limit overflowed for images taller than 65528 lines.
---
 src/decoder.rs | 18 ++++--------------
 src/parser.rs  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..73fd623 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -897,26 +897,16 @@ impl<R: Read> Decoder<R> {
         };
 
         // This also affects how many MCU values we read from stream. If it's a non-interleaved stream,
-        // the MCUs will be exactly the block count.
+        // the MCUs will be exactly the blocks that contain samples of the component (A.2.2), which
+        // can be fewer than those of the complete MCUs of the frame.
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
-            (
-                components[0].block_size.width,
-                components[0].block_size.height,
-            )
+            components[0].non_interleaved_mcu_size(frame)
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1022,7 +1012,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
diff --git a/src/parser.rs b/src/parser.rs
index b17e7e9..ee8ed7b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -133,6 +133,24 @@ impl FrameInfo {
     }
 }
 
+impl Component {
+    /// Number of blocks per line and number of lines of blocks that a scan containing only this
+    /// component consists of (Section A.2.2).
+    pub(crate) fn non_interleaved_mcu_size(&self, frame: &FrameInfo) -> (u16, u16) {
+        let h_max = frame.components.iter().map(|c| c.horizontal_sampling_factor).max().unwrap();
+        let v_max = frame.components.iter().map(|c| c.vertical_sampling_factor).max().unwrap();
+        let blocks = |size: u16, factor: u8, max: u8| {
+            let samples = (u32::from(size) * u32::from(factor) + u32::from(max) - 1) / u32::from(max);
+            ((samples + 7) / 8) as u16
+        };
+
+        (
+            blocks(frame.image_size.width, self.horizontal_sampling_factor, h_max),
+            blocks(frame.image_size.height, self.vertical_sampling_factor, v_max),
+        )
+    }
+}
+
 fn read_length<R: Read>(reader: &mut R, marker: Marker) -> Result<usize> {
     assert!(marker.has_length());
 
-- 
2.43.0


From 2260ff898fb6fb22be60e9cd490dd23df594ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 02/12] fix: interleave samples when no colour transform is
 applied

ColorTransform::None wrote the line buffers of the components one after the
other, including their padding: it panicked whenever the buffers are longer
than the line and otherwise produced lines that are not pixels.
---
 src/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 73fd623..fd162e2 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1464,11 +1464,11 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
+    let component_count = data.len();
 
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (i, line) in data.iter().enumerate() {
+        for (out, d) in output[i..].iter_mut().step_by(component_count).zip(line) {
+            *out = *d;
         }
     }
 }
-- 
2.43.0


From 0c32e60e67b62d79e35ee6c4457ebed074a5352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 03/12] fix: one byte per sample for lossless images of less
 than 8 bits

Their pixel format is L8, but two bytes per sample were returned.
---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..3583d24 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -250,7 +250,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From 7c6c37dc247df5417aa991015260f1f483d3e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 04/12] fix: do not report a reduced size for lossless images

scale() changed the reported dimensions of lossless images although they are
always decoded at full size, so info() did not match the returned buffer.
---
 src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index fd162e2..39b2775 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,6 +278,10 @@ impl<R: Read> Decoder<R> {
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
+        if frame.coding_process == CodingProcess::Lossless {
+            // There is no inverse DCT that could scale, the image keeps its size.
+            return Ok((frame.output_size.width, frame.output_size.height));
+        }
         let idct_size = crate::idct::choose_idct_size(
             frame.image_size,
             Dimensions {
-- 
2.43.0


From 23929ecf29578266ac1e56d26f783ba9d9d8c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 05/12] fix: assign lossless planes to the components of their
 scan

The planes of a scan were stored by their position in the scan, so images
whose components arrive in several scans lost or exchanged components.
---
 src/decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b2775..b6c196b 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -418,9 +418,10 @@ impl<R: Read> Decoder<R> {
                     if frame.coding_process == CodingProcess::Lossless {
                         let (marker, data) = self.decode_scan_lossless(&frame, &scan)?;
 
-                        for (i, plane) in data
-                            .into_iter()
-                            .enumerate()
+                        for (&i, plane) in scan
+                            .component_indices
+                            .iter()
+                            .zip(data)
                             .filter(|(_, plane)| !plane.is_empty())
                         {
                             planes_u16[i] = plane;
-- 
2.43.0


From 5f3fb853241bb402736b3bed1d1575afaeff8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 06/12] fix: predict lossless samples correctly with restarts
 and point transform

Prediction starts anew at the first line of every restart interval, but all
lines except the first were predicted from the line above. With a point
transform the prediction used samples that were already shifted back.
---
 src/decoder/lossless.rs | 54 ++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 3583d24..cf81ffa 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -105,13 +105,16 @@ impl<R: Read> Decoder<R> {
             }
         }
 
-        if scan.predictor_selection == Predictor::Ra {
+        // The samples are reconstructed without the bits dropped by the point transform, which
+        // are added at the end (H.1.2.2).
+        let restart_interval = usize::from(self.restart_interval);
+
+        if scan.predictor_selection == Predictor::Ra && restart_interval == 0 {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -120,7 +123,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -131,7 +133,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -139,6 +140,13 @@ impl<R: Read> Decoder<R> {
         } else {
             for mcu_y in 0..height {
                 for mcu_x in 0..width {
+                    let position = mcu_y * width + mcu_x;
+                    let interval_start = if restart_interval == 0 {
+                        0
+                    } else {
+                        position - position % restart_interval
+                    };
+
                     for (i, _component) in components.iter().enumerate() {
                         let diff = differences[i][mcu_y * width + mcu_x];
 
@@ -164,18 +172,24 @@ impl<R: Read> Decoder<R> {
                             scan.predictor_selection,
                             scan.point_transform,
                             frame.precision,
-                            mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            mcu_x == 0,
+                            // no line above within the restart interval
+                            position < interval_start + width,
+                            position == interval_start,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        if scan.point_transform > 0 {
+            for result in results.iter_mut().flatten() {
+                *result <<= scan.point_transform;
+            }
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = self.read_marker().ok();
@@ -193,23 +207,19 @@ fn predict(
     predictor: Predictor,
     point_transform: u8,
     input_precision: u8,
-    ix: usize,
-    iy: usize,
-    restart: bool,
+    first_column: bool,
+    first_line: bool,
+    start: bool,
 ) -> i32 {
-    if (ix == 0 && iy == 0) || restart {
+    if start {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
-            1 << (input_precision - point_transform - 1)
-        } else {
-            0
-        }
-    } else if iy == 0 {
-        // rest of first line
-        ra
-    } else if ix == 0 {
+        1 << (input_precision - point_transform - 1)
+    } else if first_column {
         // start of other line
         rb
+    } else if first_line {
+        // rest of first line
+        ra
     } else {
         // use predictor Table H.1
         match predictor {
-- 
2.43.0


From eb3c75ce02b2f7e780facd9b55899c5b1016f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 07/12] fix: report source errors that occur after a trailing
 restart marker

The error was dropped and the source read again, so a transient failure
was swallowed and the data after it taken for the next segment.
---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b6c196b..e6e3846 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1057,7 +1057,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cf81ffa..418eb08 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -192,7 +192,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From 0a7f921c9feefaaa965ea8ea3721807e51084bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 08/12] fix: accept ICC profiles made of 255 chunks

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index e6e3846..468a683 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 3f3be4d2217fc0eed570d236cdd8a87ecaf445b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 09/12] fix: apply the buffer size limit before allocating and
 to 16 bit samples

The limit was only checked once the whole image had been read into planes and
coefficient buffers, and counted one byte for samples that take two.
---
 src/decoder.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 468a683..d216fd1 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -399,6 +399,8 @@ impl<R: Read> Decoder<R> {
                     }
 
                     let frame = self.frame.clone().unwrap();
+                    // Refuse the image before anything proportional to its size is allocated.
+                    self.check_decoding_buffer_size(&frame)?;
                     let scan = parse_sos(&mut self.reader, &frame)?;
 
                     if frame.coding_process == CodingProcess::DctProgressive
@@ -619,6 +621,30 @@ impl<R: Read> Decoder<R> {
         })
     }
 
+    fn check_decoding_buffer_size(&self, frame: &FrameInfo) -> Result<()> {
+        let bytes_per_sample =
+            if frame.coding_process == CodingProcess::Lossless && frame.precision > 8 {
+                2
+            } else {
+                1
+            };
+
+        if frame
+            .components
+            .len()
+            .checked_mul(bytes_per_sample)
+            .and_then(|m| m.checked_mul(frame.output_size.width.into()))
+            .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            .map_or(true, |m| self.decoding_buffer_size_limit < m)
+        {
+            return Err(Error::Format(
+                "size of decoded image exceeds maximum allowed size".to_owned(),
+            ));
+        }
+
+        Ok(())
+    }
+
     fn decode_planes(
         &mut self,
         worker: &mut dyn Worker,
@@ -633,17 +659,7 @@ impl<R: Read> Decoder<R> {
 
         let frame = self.frame.as_ref().unwrap();
 
-        if frame
-            .components
-            .len()
-            .checked_mul(frame.output_size.width.into())
-            .and_then(|m| m.checked_mul(frame.output_size.height.into()))
-            .map_or(true, |m| self.decoding_buffer_size_limit < m)
-        {
-            return Err(Error::Format(
-                "size of decoded image exceeds maximum allowed size".to_owned(),
-            ));
-        }
+        self.check_decoding_buffer_size(frame)?;
 
         // If we're decoding a progressive jpeg and a component is unfinished, render what we've got
         if frame.coding_process == CodingProcess::DctProgressive
-- 
2.43.0


From 99439e6bfca6d66ef8dadfb3d61deda90cc1411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 10/12] fix: do not resume an image after a failed or completed
 decode

After a source error in the middle of an image the decoder could be called
again and would then decode the remaining scans with the wrong state, and
return success. Reading an image now either proceeds from the frame header or
fails.
---
 src/decoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d216fd1..e926a63 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -127,6 +127,10 @@ pub struct Decoder<R> {
 
     // Maximum allowed size of decoded image buffer
     decoding_buffer_size_limit: usize,
+
+    // Whether reading the image has started and was not suspended after the frame header. Scans
+    // that have been read, or that failed half way, cannot be read again.
+    consumed: bool,
 }
 
 impl<R: Read> Decoder<R> {
@@ -150,6 +154,7 @@ impl<R: Read> Decoder<R> {
             coefficients: Vec::new(),
             coefficients_finished: [0; MAX_COMPONENTS],
             decoding_buffer_size_limit: usize::MAX,
+            consumed: false,
         }
     }
 
@@ -306,7 +311,16 @@ impl<R: Read> Decoder<R> {
         if stop_after_metadata && self.frame.is_some() {
             // The metadata has already been read.
             return Ok(Vec::new());
-        } else if self.frame.is_none()
+        }
+
+        // This stays set when reading fails, or is unwound by a panicking reader.
+        if mem::replace(&mut self.consumed, true) {
+            return Err(Error::Format(
+                "the image has already been read, or reading it has failed".to_owned(),
+            ));
+        }
+
+        if self.frame.is_none()
             && (read_u8(&mut self.reader)? != 0xFF
                 || Marker::from_u8(read_u8(&mut self.reader)?) != Some(Marker::SOI))
         {
@@ -385,6 +399,7 @@ impl<R: Read> Decoder<R> {
                     self.frame = Some(frame);
 
                     if stop_after_metadata {
+                        self.consumed = false;
                         return Ok(Vec::new());
                     }
 
-- 
2.43.0


From 027961cce6f22a5ad65f23a1be56369b8c6fe00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:24 +0000
Subject: [PATCH 11/12] fix: progressive scans may leave out as many bits as
 the coefficients have

The point transform of a lossless scan has to be less than the frame
precision. The successive approximation of a progressive scan shares the
field but concerns DCT coefficients, which have more bits than the samples;
up to 13 is allowed (G.1.1.1.2) and is checked separately.
---
 src/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee8ed7b..2060f49 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -423,12 +423,6 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
     let predictor_selection;
     let point_transform = successive_approximation_low;
 
-    if point_transform >= frame.precision {
-        return Err(Error::Format(
-            "invalid point transform, must be less than the frame precision".to_owned(),
-        ));
-    }
-
     if frame.coding_process == CodingProcess::DctProgressive {
         predictor_selection = Predictor::NoPrediction;
         if spectral_selection_end > 63 || spectral_selection_start > spectral_selection_end ||
@@ -457,6 +451,11 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
         if successive_approximation_high != 0 {
             return Err(Error::Format("successive approximation high shall be zero in lossless scan".to_owned()));
         }
+        if point_transform >= frame.precision {
+            return Err(Error::Format(
+                "invalid point transform, must be less than the frame precision".to_owned(),
+            ));
+        }
         predictor_selection = match spectral_selection_start {
             0 => Predictor::NoPrediction,
             1 => Predictor::Ra,
-- 
2.43.0


From a0cc5d6adb07083a45c998e05678dee12495a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 12/12] fix: refuse lossless scans that need upsampling or
 several samples per MCU

The decoder reads one sample of every component per MCU and compares all planes as if they had full size; images with other sampling factors were decoded to wrong pixels without an error.
---
 src/decoder/lossless.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 418eb08..91fe94e 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -1,5 +1,5 @@
 use crate::decoder::{Decoder, MAX_COMPONENTS};
-use crate::error::{Error, Result};
+use crate::error::{Error, Result, UnsupportedFeature};
 use crate::huffman::HuffmanDecoder;
 use crate::marker::Marker;
 use crate::parser::Predictor;
@@ -16,6 +16,15 @@ impl<R: Read> Decoder<R> {
         let ncomp = scan.component_indices.len();
         let npixel = frame.image_size.height as usize * frame.image_size.width as usize;
         assert!(ncomp <= MAX_COMPONENTS);
+
+        // One sample of every component per MCU is what gets decoded below.
+        let factors =
+            |c: &Component| (c.horizontal_sampling_factor, c.vertical_sampling_factor);
+        let first = factors(&frame.components[0]);
+        if frame.components.iter().any(|c| factors(c) != first) || (ncomp > 1 && first != (1, 1)) {
+            return Err(Error::Unsupported(UnsupportedFeature::SubsamplingRatio));
+        }
+
         let mut results = vec![vec![0u16; npixel]; ncomp];
 
         let components: Vec<Component> = scan
-- 
2.43.0

