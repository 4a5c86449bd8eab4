From 8dd725c04b4750cb0904c3510648ee387ef20902 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 1/6] fix: Evict the oldest blocks when shrinking the history,
 and don't pad when growing it

Queue::set_max_size() filled a queue that was shorter than the new maximum
with blocks of zero energy, which then counted for the loudness, and left a
queue that was longer than the new maximum alone, after which it was never
equal to the maximum again and grew without any bound.
---
 src/history.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..d280312 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,11 +179,11 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
-            // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
-            self.queue.shrink_to_fit();
+        // Drop the oldest entries until at most max remain
+        while self.queue.len() > max {
+            self.queue.pop_front();
         }
+        self.queue.shrink_to_fit();
         self.max = max;
     }
 
-- 
2.43.0


From f5759a8b91d9e91483b7eb50b471d01aae0498b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 2/6] fix: Allocate enough audio data for a whole block at very
 low sample rates

The buffer was sized from the exact rate while the 400ms and 3s blocks consist
of a multiple of the rounded number of samples in 100ms. At e.g. 16 Hz adding
frames panicked, at e.g. 125 Hz the short-term loudness was not available.
---
 src/ebur128.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..bbce48c 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -273,6 +273,13 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
+        // samples_in_100ms is rounded up for some rates, the blocks of 400ms and 3s that are made of
+        // it have to fit nonetheless
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms * (std::cmp::min(window, 3000) / 100),
+        );
+
         let audio_data = vec![
             0.0;
             audio_data_frames
-- 
2.43.0


From 325276f2d81fe47ebbb1460ee9e25b3edf480039 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 3/6] fix: Return an error for planar frames with the wrong
 number of channels

add_frames_planar_*() and seed_frames_planar_*() panicked.
---
 src/ebur128.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index bbce48c..0b1895f 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -575,6 +575,10 @@ impl EbuR128 {
         &mut self,
         mut src: S,
     ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         if src.frames() == 0 {
             return Ok(());
         }
@@ -667,8 +671,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -714,57 +727,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From f5a9fd4600bb6eafb8a4194652d90fc1872bedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 4/6] fix: Don't truncate sample rates above u32::MAX in the C
 API

ebur128_init() and ebur128_change_parameters() accepted 2^32 + 48000 as 48000.
---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..8cdf54d 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -100,6 +104,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From 1840910ab5c1fdcbe42d961988e66c612501e77f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 5/6] fix: Return an error for unknown channel types in
 ebur128_set_channel()

Transmuting them to the Channel enum is undefined behaviour.
---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 8cdf54d..346bf78 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -80,6 +80,11 @@ pub unsafe extern "C" fn ebur128_set_channel(
     channel_number: u32,
     value: i32,
 ) -> i32 {
+    // Other values are not valid for the enum
+    if value < ebur128::Channel::Unused as i32 || value > ebur128::Channel::Bm045 as i32 {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     let s = &mut *state;
     let e = &mut *s.internal;
 
-- 
2.43.0


From 83819215d51c6ad63737623b9921af4f6a4a3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 6/6] fix: Accept NULL for empty arrays in the C API

slice::from_raw_parts() is undefined behaviour for NULL even if the length is
zero, and aborts in builds with debug assertions.
---
 src/capi.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 346bf78..f98855a 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -169,14 +169,21 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     }
 }
 
+/// NULL is allowed for an empty array, but not for a slice.
+unsafe fn slice_from_array<'a, T>(array: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        std::slice::from_raw_parts(array, len)
+    }
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn ebur128_add_frames_short(
     state: *mut State,
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -185,7 +192,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_array(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -197,8 +204,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -207,7 +212,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_array(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -219,8 +224,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -229,7 +232,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_array(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -241,8 +244,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -251,7 +252,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_array(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -277,9 +278,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_array(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -361,9 +360,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_array(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0

