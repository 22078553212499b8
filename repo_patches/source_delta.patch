From 6e87343761af7bb57267935f9cd1c8cbd1e3f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 01/15] fix: decode the largest finite half float (0x7BFF) as
 65504 in the SIMD path

simd_f16_to_f32 used >= where the infinity/NaN test is strictly greater, so
+-65504.0 decoded to NaN while the scalar decoder returned the right value.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..d2629d0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From 79260b5476922c866fad555b4d546040fb734df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 02/15] fix: sample with a context that is larger than the
 animation

The cache was initialised (and seek points decoded) for every track the
context can hold instead of the tracks of the animation, so a larger context,
which validate() accepts, produced wrong entries or panicked.
---
 src/sampling_job.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..0539034 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -1170,7 +1170,8 @@ where
             }
 
             if iframe >= 0 {
-                next = Self::initialize_cache(ctrl, iframe as usize, args.entries);
+                let entries = &mut args.entries[..args.num_soa_tracks * 4];
+                next = Self::initialize_cache(ctrl, iframe as usize, entries);
                 assert!(next >= args.num_tracks * 2 && next <= num_keys);
                 Self::outdate_cache(args.outdated, args.num_soa_tracks);
             }
-- 
2.43.0


From 46a9cde97d9e450868eefd9df7083dc6860008c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 03/15] fix: zero the memory of a new SamplingContext

clone(), == and serialization of a context that has not been used yet read
uninitialised memory, and never-used padding flags were undefined.
---
 src/sampling_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 0539034..8ed9f4e 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,7 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From aa98e8d0752cf0731fceb48ef84ca60de6659e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 04/15] fix: do not read past the end of the seek-point stream

The group varint decoder always loaded 4 bytes, up to 3 bytes past the end of
the buffer for the last values of a stream (undefined behaviour).
---
 src/sampling_job.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 8ed9f4e..3e1a673 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -1397,16 +1397,9 @@ fn decode_gv4<'t>(buffer: &'t [u8], output: &mut [u32]) -> &'t [u8] {
     #[inline(always)]
     fn load(input: &[u8]) -> u32 {
         // In C++ code (ozz-animation), load() access to input overflows near the end of the buffer.
-        // But the code logic ensures that this doesn't cause problems.
-        // Here, we're completely following the logic of the original C++ library.
-        let p = input.as_ptr();
-        unsafe {
-            let i0 = *p as u32;
-            let i1 = (*p.add(1) as u32) << 8;
-            let i2 = (*p.add(2) as u32) << 16;
-            let i3 = (*p.add(3) as u32) << 24;
-            i0 | i1 | i2 | i3
-        }
+        // Here, bytes past the end of the buffer are read as 0, they are masked out by the caller.
+        let byte = |idx: usize| input.get(idx).map_or(0, |b| *b as u32);
+        byte(0) | (byte(1) << 8) | (byte(2) << 16) | (byte(3) << 24)
     }
 
     let prefix = buffer[0];
-- 
2.43.0


From d9f0c2a9ff40cbccd31f90ce33775c1a89300dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 05/15] fix: blend into an output that is longer than the rest
 pose

Without any weighted layer the rest pose was copied with copy_from_slice, which
panics when the output (which validate() only requires to be big enough) is
longer than the rest pose.
---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..252feb9 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -390,7 +390,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From 3b0144bf4281f4d79769c4e464ff96a2d4becadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 06/15] fix: usable output type for BlendingJobRef

The alias named a single transform instead of a slice, which is not an output
buffer, so no method of the aliased job could be called.
---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 252feb9..10d9297 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -127,7 +127,7 @@ where
     output: Option<O>,
 }
 
-pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut SoaTransform>;
+pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;
 pub type BlendingJobRc<'t> = BlendingJob<Rc<Skeleton>, Rc<RefCell<Vec<SoaTransform>>>, Rc<RefCell<Vec<SoaTransform>>>>;
 pub type BlendingJobArc = BlendingJob<Arc<Skeleton>, Arc<RwLock<Vec<SoaTransform>>>, Arc<RwLock<Vec<SoaTransform>>>>;
 
-- 
2.43.0


From 3d5d0b731928eb4274f682d2e8d38cf77b5d96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 07/15] fix: report a skinning job without matrices as invalid
 instead of panicking

With two or more influences the missing matrices were unwrapped. Tangents
without normals and an empty matrix buffer, which validate() rejects, are now
also rejected by run().
---
 src/skinning_job.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..4e42ddf 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -447,7 +447,7 @@ macro_rules! skinning_1 {
 
 macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
-        let matrices = $self.joint_matrices.as_ref().unwrap().buf()?;
+        let matrices = $self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
         let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
         let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
@@ -532,6 +532,12 @@ where
         if self.influences_count == 0 {
             return Err(OzzError::InvalidJob);
         }
+        if self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?.is_empty() {
+            return Err(OzzError::InvalidJob);
+        }
+        if self.in_normals.is_none() && self.in_tangents.is_some() {
+            return Err(OzzError::InvalidJob);
+        }
 
         let mut branch = (self.influences_count - 1).min(4) * 5;
         if self.in_normals.is_some() {
-- 
2.43.0


From 9b12eb6d017551ea741eef3b186a367bbc63ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 08/15] fix: no integer overflow for extreme from/to joints in
 local to model job

---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From ad8cd27468655e317f8930f9b15b5781e84cae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 09/15] fix: read booleans from an archive without creating an
 invalid bool

Any byte other than 0 and 1 was copied into a bool, which is undefined
behaviour. A non-zero byte is now true, as in C++.
---
 src/archive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 528133e..d0a5560 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -167,7 +167,6 @@ macro_rules! primitive_reader {
     };
 }
 
-primitive_reader!(bool);
 primitive_reader!(u8);
 primitive_reader!(i8);
 primitive_reader!(u16);
@@ -179,6 +178,13 @@ primitive_reader!(i64);
 primitive_reader!(f32);
 primitive_reader!(f64);
 
+impl ArchiveRead<bool> for bool {
+    #[inline]
+    fn read<R: Read>(archive: &mut Archive<R>) -> Result<bool, OzzError> {
+        Ok(u8::read(archive)? != 0)
+    }
+}
+
 impl ArchiveRead<Vec2> for Vec2 {
     #[inline]
     fn read<R: Read>(archive: &mut Archive<R>) -> Result<Vec2, OzzError> {
-- 
2.43.0


From 08e443ee82408b16f0dcc8be1211167ef2b105aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:54 +0000
Subject: [PATCH 10/15] fix: serialize SoaQuat with its real length of 4

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index d2629d0..e32ade0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -464,7 +464,7 @@ const _: () = {
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_seq(Some(4))?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
-- 
2.43.0


From 8c1150594939c35de8ac98e197c68ce0c7a2340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:54 +0000
Subject: [PATCH 11/15] fix: no zero-sized or unchecked allocation in Animation
 and Skeleton

---
 src/animation.rs | 10 ++++++++--
 src/skeleton.rs  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..ea910bc 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -221,7 +221,7 @@ pub struct Animation {
 
 impl Drop for Animation {
     fn drop(&mut self) {
-        if !self.timepoints.is_null() {
+        if !self.timepoints.is_null() && self.size != 0 {
             unsafe {
                 let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
                 alloc::dealloc(self.timepoints as *mut u8, layout);
@@ -560,7 +560,13 @@ impl Animation {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = match animation.size {
+                0 => mem::align_of::<f32>() as *mut u8, // allocating zero bytes is undefined behavior
+                _ => alloc::alloc(layout),
+            };
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             animation.timepoints = ptr as *mut f32;
             ptr = ptr.add(animation.timepoints_count as usize * mem::size_of::<f32>());
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..f1d0d44 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -40,7 +40,7 @@ unsafe impl Sync for Skeleton {}
 
 impl Drop for Skeleton {
     fn drop(&mut self) {
-        if !self.joint_rest_poses.is_null() {
+        if !self.joint_rest_poses.is_null() && self.size != 0 {
             unsafe {
                 let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
                 alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
@@ -190,7 +190,13 @@ impl Skeleton {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = match skeleton.size {
+                0 => ALIGN as *mut u8, // allocating zero bytes is undefined behavior
+                _ => alloc::alloc(layout),
+            };
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
             ptr = ptr.add(mem::size_of::<SoaTransform>() * skeleton.num_soa_joints());
-- 
2.43.0


From 4ccf9788d5278d5f338b9e647a51b7dfc8b84ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:54 +0000
Subject: [PATCH 12/15] fix: stop reading a skeleton archive after a joint
 count of zero

---
 src/skeleton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index f1d0d44..a35b937 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -124,6 +124,9 @@ impl Skeleton {
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
         let meta = Skeleton::read_meta(archive, false)?;
         let mut skeleton = Skeleton::new(meta);
+        if skeleton.num_joints() == 0 {
+            return Ok(skeleton); // nothing follows the count of an empty skeleton
+        }
 
         let _char_count: u32 = archive.read()?;
         for idx in 0..skeleton.num_joints() {
-- 
2.43.0


From 9daf1b72dbe153fec82ce2aa361222fd48e6cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 13/15] fix: ignore outdated flags beyond the tracks of the
 sampled animation

After a context switched to an animation with fewer tracks, flags left by the
previous animation made the job decompress stale entries (index out of bounds).
---
 src/sampling_job.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 3e1a673..cdce2cf 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -584,11 +584,12 @@ impl SamplingContext {
     }
 
     #[inline]
-    fn translation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn translation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_outdated = animation.num_soa_tracks().div_ceil(8);
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, num_outdated) },
             values: unsafe { slice::from_raw_parts_mut(inner.translations, inner.max_soa_tracks) },
         }
     }
@@ -606,11 +607,12 @@ impl SamplingContext {
     }
 
     #[inline]
-    fn rotation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaQuaternion> {
+    fn rotation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaQuaternion> {
         let inner = self.inner();
+        let num_outdated = animation.num_soa_tracks().div_ceil(8);
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, num_outdated) },
             values: unsafe { slice::from_raw_parts_mut(inner.rotations, inner.max_soa_tracks) },
         }
     }
@@ -628,11 +630,12 @@ impl SamplingContext {
     }
 
     #[inline]
-    fn scale_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn scale_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_outdated = animation.num_soa_tracks().div_ceil(8);
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, num_outdated) },
             values: unsafe { slice::from_raw_parts_mut(inner.scales, inner.max_soa_tracks) },
         }
     }
@@ -1115,17 +1118,17 @@ where
 
         let args = ctx.as_mut().translation_update_args(anim);
         Self::update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().translation_decompress_args();
+        let args = ctx.as_mut().translation_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations());
 
         let args = ctx.as_mut().rotation_update_args(anim);
         Self::update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().rotation_decompress_args();
+        let args = ctx.as_mut().rotation_decompress_args(anim);
         Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());
 
         let args = ctx.as_mut().scale_update_args(anim);
         Self::update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().scale_decompress_args();
+        let args = ctx.as_mut().scale_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales());
 
         Self::interpolates(anim, ctx.as_mut(), self.ratio, &mut output)?;
-- 
2.43.0


From 19481105e3e22c02673a78a8d0236a78f9b4d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 14/15] fix: reject invalid blending layers before writing any
 output

---
 src/blending_job.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 10d9297..26b6a14 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -306,6 +306,10 @@ where
 
         let mut ok = self.threshold > 0.0;
         ok &= output.len() >= skeleton.num_soa_joints();
+        for layer in self.layers.iter().chain(&self.additive_layers) {
+            ok &= layer.transform.buf()?.len() >= skeleton.num_soa_joints();
+            ok &= layer.joint_weights.is_empty() || layer.joint_weights.len() >= skeleton.num_soa_joints();
+        }
         if !ok {
             return Err(OzzError::InvalidJob);
         }
-- 
2.43.0


From 1e5ec3033255f6f6c35e1857df53f9b303526bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 15/15] fix: no integer overflow for a huge vertex count in the
 skinning job

---
 src/skinning_job.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 4e42ddf..8b4214f 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -343,11 +343,11 @@ where
             ok &= !self.joint_matrices.as_ref()?.buf().ok()?.is_empty();
 
             let joint_indices = self.joint_indices.as_ref()?.buf().ok()?;
-            ok &= joint_indices.len() >= self.vertex_count * self.influences_count;
+            ok &= joint_indices.len() >= self.vertex_count.saturating_mul(self.influences_count);
 
             if self.influences_count > 1 {
                 let joint_weights = self.joint_weights.as_ref()?.buf().ok()?;
-                ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);
+                ok &= joint_weights.len() >= self.vertex_count.saturating_mul(self.influences_count - 1);
             }
 
             ok &= self.in_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
@@ -449,8 +449,8 @@ macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
         let matrices = $self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
-        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
-        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
+        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count.saturating_mul($n))?;
+        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count.saturating_mul($n - 1))?;
 
         pnt!($pnt,
             let in_positions = unpack_buf(&$self.in_positions, $self.vertex_count)?;
-- 
2.43.0

