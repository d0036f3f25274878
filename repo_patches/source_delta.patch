From 79425b6612f65fda0f35292c5e780e3fbcec2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:53 +0000
Subject: [PATCH 1/5] fix: rotate signed lanes as bit patterns

rotate_left/rotate_right of signed vectors used an arithmetic right shift, so
the sign bit was smeared over the bits that wrap around, and took the signed
remainder of the count, so that negative counts produced over-long shifts.
---
 src/api/ops/vector_rotates.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..de07dec 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -15,8 +15,12 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                // `>>` is arithmetic for signed lanes: keep only the `n` bits
+                // that wrap around.
+                let wrapped = !($id::splat(!0) << n);
+                (self << n) | ((self >> m) & wrapped)
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -30,8 +34,12 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                // `>>` is arithmetic for signed lanes: keep only the `m` bits
+                // that do not wrap around.
+                let kept = !($id::splat(!0) << m);
+                ((self >> n) & kept) | (self << m)
             }
         }
 
-- 
2.43.0


From 298b5a548640bde32c105543faf14a70faa923ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:53 +0000
Subject: [PATCH 2/5] fix: allow shuffles with 32 lanes of m16

The Shuffle implementation for [u32; 32] and m16 was missing, so shuffle! could
not produce an m16x32 although every other vector type is supported.
---
 src/codegen/shuffle.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index d3acd48..97a605b 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -50,6 +50,7 @@ impl_shuffle! { [u32; 2], m16, crate::codegen::m16x2 }
 impl_shuffle! { [u32; 4], m16, crate::codegen::m16x4 }
 impl_shuffle! { [u32; 8], m16, crate::codegen::m16x8 }
 impl_shuffle! { [u32; 16], m16, crate::codegen::m16x16 }
+impl_shuffle! { [u32; 32], m16, crate::codegen::m16x32 }
 
 impl_shuffle! { [u32; 2], i32, crate::codegen::i32x2 }
 impl_shuffle! { [u32; 4], i32, crate::codegen::i32x4 }
-- 
2.43.0


From 41579e95c3d45b40747efda8031064cf0156d516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:53 +0000
Subject: [PATCH 3/5] fix: offset_from is self minus origin

wrapping_offset_from (and offset_from) of pointer vectors returned the distance
from self to origin, the negation of what the scalar methods return and of what
inverts offset.
---
 src/api/minimal/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index d9e47c9..290ffb5 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1166,7 +1166,7 @@ macro_rules! impl_minimal_p {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
                 // note: {-,/} currently perform wrapping_{sub, div}
-                (y - x) / (crate::mem::size_of::<T>() as isize)
+                (x - y) / (crate::mem::size_of::<T>() as isize)
             }
 
             /// Calculates the offset from a pointer (convenience for
-- 
2.43.0


From ef6cfcd9f93bbd414c4f9aee349dfcac1203d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:02 +0000
Subject: [PATCH 4/5] fix: shuffle! of pointer vectors names its output type
 correctly

---
 src/codegen/shuffle.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index 97a605b..f8b132f 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -114,28 +114,28 @@ impl_shuffle! { [u32; 8], msize, crate::codegen::msizex8 }
 
 impl<T> Seal<[u32; 2]> for *const T {}
 impl<T> Shuffle<[u32; 2]> for *const T {
-    type Output = crate::codegen::cptrx2<T>;
+    type Output = crate::codegen::cptrx2<*const T>;
 }
 impl<T> Seal<[u32; 4]> for *const T {}
 impl<T> Shuffle<[u32; 4]> for *const T {
-    type Output = crate::codegen::cptrx4<T>;
+    type Output = crate::codegen::cptrx4<*const T>;
 }
 impl<T> Seal<[u32; 8]> for *const T {}
 impl<T> Shuffle<[u32; 8]> for *const T {
-    type Output = crate::codegen::cptrx8<T>;
+    type Output = crate::codegen::cptrx8<*const T>;
 }
 
 impl<T> Seal<[u32; 2]> for *mut T {}
 impl<T> Shuffle<[u32; 2]> for *mut T {
-    type Output = crate::codegen::mptrx2<T>;
+    type Output = crate::codegen::mptrx2<*mut T>;
 }
 impl<T> Seal<[u32; 4]> for *mut T {}
 impl<T> Shuffle<[u32; 4]> for *mut T {
-    type Output = crate::codegen::mptrx4<T>;
+    type Output = crate::codegen::mptrx4<*mut T>;
 }
 impl<T> Seal<[u32; 8]> for *mut T {}
 impl<T> Shuffle<[u32; 8]> for *mut T {
-    type Output = crate::codegen::mptrx8<T>;
+    type Output = crate::codegen::mptrx8<*mut T>;
 }
 
 impl_shuffle! { [u32; 1], i128, crate::codegen::i128x1 }
-- 
2.43.0


From ff2ba7f5f95af1e54456693bd132ea02e91fc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:52 +0000
Subject: [PATCH 5/5] fix: casts to m128x1 yield a canonical mask

---
 src/api/cast/v128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/cast/v128.rs b/src/api/cast/v128.rs
index 2e10b97..e310a35 100644
--- a/src/api/cast/v128.rs
+++ b/src/api/cast/v128.rs
@@ -299,4 +299,4 @@ impl_from_cast_mask!(
 // FIXME[test_v128]: 64-bit single element vectors into_cast impls
 impl_from_cast!(i128x1[test_v128]: u128x1, m128x1);
 impl_from_cast!(u128x1[test_v128]: i128x1, m128x1);
-impl_from_cast!(m128x1[test_v128]: i128x1, u128x1);
+impl_from_cast_mask!(m128x1[test_v128]: i128x1, u128x1);
-- 
2.43.0

