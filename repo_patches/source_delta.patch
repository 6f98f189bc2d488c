From 1b35e9563a0624055aed3c31813a8b24528f16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 1/5] fix: get_row_copy reads the requested row

The source index was computed as (row + 1) * (cols - 1), which is the last
element of the requested row only for row 0 of a matrix (or a square
coincidence).  Use row * cols + cols - 1.
---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..1c62766 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = row * self.cols() + target_index;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From 1ff31ffd444307be2c8fa9bf72275a9c4bd5d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 2/5] fix: build the nalgebra integration without std

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 830009b..a26beb2 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -66,7 +66,7 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     unsafe fn as_slice_unchecked(&self) -> &[T] {
-        std::slice::from_raw_parts(self.ptr(), ROWS * COLS)
+        core::slice::from_raw_parts(self.ptr(), ROWS * COLS)
     }
 }
 
-- 
2.43.0


From 22afe8e62732dfd4add443db000b5a12613f8f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 3/5] fix: build with both libm and micromath enabled and std
 disabled

---
 crates/minikalman/src/matrix/data_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/minikalman/src/matrix/data_type.rs b/crates/minikalman/src/matrix/data_type.rs
index db57526..3298e56 100644
--- a/crates/minikalman/src/matrix/data_type.rs
+++ b/crates/minikalman/src/matrix/data_type.rs
@@ -57,7 +57,7 @@ impl MatrixDataType for f32 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -73,7 +73,7 @@ impl MatrixDataType for f32 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrtf(self)
         }
@@ -92,7 +92,7 @@ impl MatrixDataType for f64 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -108,7 +108,7 @@ impl MatrixDataType for f64 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrt(self)
         }
-- 
2.43.0


From 0b3d53657db962ed287aa79a9bfa1cf3e0549a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 4/5] fix: reject undersized arrays in the nalgebra integration
 instead of reading out of bounds

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index a26beb2..80cad55 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -46,6 +46,8 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     fn ptr(&self) -> *const T {
+        // nalgebra accesses ROWS × COLS elements through this pointer without further checks.
+        assert!(ROWS * COLS <= TOTAL);
         self.as_slice().as_ptr()
     }
 
-- 
2.43.0


From 6c271659a7a5404e9ba61e7b6e6772e886a68f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 5/5] fix: static forms of the impl_buffer macros usable
 outside functions

---
 crates/minikalman/src/static_macros.rs | 80 +++++++++++++-------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/crates/minikalman/src/static_macros.rs b/crates/minikalman/src/static_macros.rs
index 2d2c065..7b61625 100644
--- a/crates/minikalman/src/static_macros.rs
+++ b/crates/minikalman/src/static_macros.rs
@@ -55,10 +55,10 @@ macro_rules! impl_buffer_x {
         $crate::impl_buffer_x!($vec_name, $num_states, $t, $init, let)
     };
     (static mut $vec_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_x!($vec_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_x!($vec_name, $num_states, $t, $init, static mut);
     };
     (static $vec_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_x!($vec_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_x!($vec_name, $num_states, $t, $init, static);
     };
     ($vec_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $vec_name: $crate::buffers::types::StateVectorBuffer<
@@ -139,10 +139,10 @@ macro_rules! impl_buffer_A {
         $crate::impl_buffer_A!($mat_name, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_A!($mat_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_A!($mat_name, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_A!($mat_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_A!($mat_name, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::StateTransitionMatrixMutBuffer<
@@ -203,10 +203,10 @@ macro_rules! impl_buffer_P {
         $crate::impl_buffer_P!($mat_name, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_P!($mat_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_P!($mat_name, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_P!($mat_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_P!($mat_name, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::EstimateCovarianceMatrixBuffer<
@@ -267,10 +267,10 @@ macro_rules! impl_buffer_Q_direct {
         $crate::impl_buffer_Q_direct!($mat_name, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_Q_direct!($mat_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_Q_direct!($mat_name, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_Q_direct!($mat_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_Q_direct!($mat_name, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::DirectProcessNoiseCovarianceMatrixMutBuffer<
@@ -331,10 +331,10 @@ macro_rules! impl_buffer_u {
         $crate::impl_buffer_u!($vec_name, $num_controls, $t, $init, let)
     };
     (static mut $vec_name:ident, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_u!($vec_name, $num_controls, $t, $init, static mut)
+        $crate::impl_buffer_u!($vec_name, $num_controls, $t, $init, static mut);
     };
     (static $vec_name:ident, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_u!($vec_name, $num_controls, $t, $init, static)
+        $crate::impl_buffer_u!($vec_name, $num_controls, $t, $init, static);
     };
     ($vec_name:ident, $num_controls:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $vec_name: $crate::buffers::types::ControlVectorBuffer<
@@ -397,10 +397,10 @@ macro_rules! impl_buffer_B {
         $crate::impl_buffer_B!($mat_name, $num_states, $num_controls, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_B!($mat_name, $num_states, $num_controls, $t, $init, static mut)
+        $crate::impl_buffer_B!($mat_name, $num_states, $num_controls, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_B!($mat_name, $num_states, $num_controls, $t, $init, static)
+        $crate::impl_buffer_B!($mat_name, $num_states, $num_controls, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $num_controls:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::ControlMatrixMutBuffer<
@@ -464,10 +464,10 @@ macro_rules! impl_buffer_Q_control {
         $crate::impl_buffer_Q_control!($mat_name, $num_controls, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_Q_control!($mat_name, $num_controls, $t, $init, static mut)
+        $crate::impl_buffer_Q_control!($mat_name, $num_controls, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_Q_control!($mat_name, $num_controls, $t, $init, static)
+        $crate::impl_buffer_Q_control!($mat_name, $num_controls, $t, $init, static);
     };
     ($mat_name:ident, $num_controls:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::ControlProcessNoiseCovarianceMatrixMutBuffer<
@@ -522,10 +522,10 @@ macro_rules! impl_buffer_z {
         $crate::impl_buffer_z!($vec_name, $num_measurements, $t, $init, let)
     };
     (static mut $vec_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_z!($vec_name, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_z!($vec_name, $num_measurements, $t, $init, static mut);
     };
     (static $vec_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_z!($vec_name, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_z!($vec_name, $num_measurements, $t, $init, static);
     };
     ($vec_name:ident, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $vec_name: $crate::buffers::types::MeasurementVectorBuffer<
@@ -597,10 +597,10 @@ macro_rules! impl_buffer_H {
         $crate::impl_buffer_H!($mat_name, $num_measurements, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_measurements:expr, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_H!($mat_name, $num_measurements, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_H!($mat_name, $num_measurements, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_measurements:expr, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_H!($mat_name, $num_measurements, $num_states, $t, $init, static)
+        $crate::impl_buffer_H!($mat_name, $num_measurements, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_measurements:expr, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::ObservationMatrixMutBuffer<
@@ -675,10 +675,10 @@ macro_rules! impl_buffer_R {
         $crate::impl_buffer_R!($mat_name, $num_measurements, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_R!($mat_name, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_R!($mat_name, $num_measurements, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_R!($mat_name, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_R!($mat_name, $num_measurements, $t, $init, static);
     };
     ($mat_name:ident, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::MeasurementNoiseCovarianceMatrixBuffer<
@@ -753,10 +753,10 @@ macro_rules! impl_buffer_y {
         $crate::impl_buffer_y!($vec_name, $num_measurements, $t, $init, let)
     };
     (static mut $vec_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_y!($vec_name, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_y!($vec_name, $num_measurements, $t, $init, static mut);
     };
     (static $vec_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_y!($vec_name, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_y!($vec_name, $num_measurements, $t, $init, static);
     };
     ($vec_name:ident, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $vec_name: $crate::buffers::types::InnovationVectorBuffer<
@@ -818,10 +818,10 @@ macro_rules! impl_buffer_S {
         $crate::impl_buffer_S!($mat_name, $num_measurements, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_S!($mat_name, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_S!($mat_name, $num_measurements, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_S!($mat_name, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_S!($mat_name, $num_measurements, $t, $init, static);
     };
     ($mat_name:ident, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::InnovationCovarianceMatrixBuffer<
@@ -896,10 +896,10 @@ macro_rules! impl_buffer_K {
         $crate::impl_buffer_K!($mat_name, $num_states, $num_measurements, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_K!($mat_name, $num_states, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_K!($mat_name, $num_states, $num_measurements, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_K!($mat_name, $num_states, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_K!($mat_name, $num_states, $num_measurements, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::KalmanGainMatrixBuffer<
@@ -966,10 +966,10 @@ macro_rules! impl_buffer_temp_x {
         $crate::impl_buffer_temp_x!($vec_name, $num_states, $t, $init, let)
     };
     (static mut $vec_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_x!($vec_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_temp_x!($vec_name, $num_states, $t, $init, static mut);
     };
     (static $vec_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_x!($vec_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_temp_x!($vec_name, $num_states, $t, $init, static);
     };
     ($vec_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $vec_name: $crate::buffers::types::PredictedStateEstimateVectorBuffer<
@@ -1025,10 +1025,10 @@ macro_rules! impl_buffer_temp_P {
         $crate::impl_buffer_temp_P!($mat_name, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_P!($mat_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_temp_P!($mat_name, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_P!($mat_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_temp_P!($mat_name, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::TemporaryStateMatrixBuffer<
@@ -1093,10 +1093,10 @@ macro_rules! impl_buffer_temp_BQ {
         $crate::impl_buffer_temp_BQ!($mat_name, $num_states, $num_controls, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_BQ!($mat_name, $num_states, $num_controls, $t, $init, static mut)
+        $crate::impl_buffer_temp_BQ!($mat_name, $num_states, $num_controls, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $num_controls:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_BQ!($mat_name, $num_states, $num_controls, $t, $init, static)
+        $crate::impl_buffer_temp_BQ!($mat_name, $num_states, $num_controls, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $num_controls:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::TemporaryBQMatrixBuffer<
@@ -1162,10 +1162,10 @@ macro_rules! impl_buffer_temp_S_inv {
         $crate::impl_buffer_temp_S_inv!($mat_name, $num_measurements, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_S_inv!($mat_name, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_temp_S_inv!($mat_name, $num_measurements, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_S_inv!($mat_name, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_temp_S_inv!($mat_name, $num_measurements, $t, $init, static);
     };
     ($mat_name:ident, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::TemporaryResidualCovarianceInvertedMatrixBuffer<
@@ -1241,10 +1241,10 @@ macro_rules! impl_buffer_temp_HP {
         $crate::impl_buffer_temp_HP!($mat_name, $num_measurements, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_measurements:expr, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_HP!($mat_name, $num_measurements, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_temp_HP!($mat_name, $num_measurements, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_measurements:expr, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_HP!($mat_name, $num_measurements, $num_states, $t, $init, static)
+        $crate::impl_buffer_temp_HP!($mat_name, $num_measurements, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_measurements:expr, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::TemporaryHPMatrixBuffer<
@@ -1322,10 +1322,10 @@ macro_rules! impl_buffer_temp_PHt {
         $crate::impl_buffer_temp_PHt!($mat_name, $num_states, $num_measurements, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_PHt!($mat_name, $num_states, $num_measurements, $t, $init, static mut)
+        $crate::impl_buffer_temp_PHt!($mat_name, $num_states, $num_measurements, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $num_measurements:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_PHt!($mat_name, $num_states, $num_measurements, $t, $init, static)
+        $crate::impl_buffer_temp_PHt!($mat_name, $num_states, $num_measurements, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $num_measurements:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::TemporaryPHTMatrixBuffer<
@@ -1400,10 +1400,10 @@ macro_rules! impl_buffer_temp_KHP {
         $crate::impl_buffer_temp_KHP!($mat_name, $num_states, $t, $init, let)
     };
     (static mut $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_KHP!($mat_name, $num_states, $t, $init, static mut)
+        $crate::impl_buffer_temp_KHP!($mat_name, $num_states, $t, $init, static mut);
     };
     (static $mat_name:ident, $num_states:expr, $t:ty, $init:expr) => {
-        $crate::impl_buffer_temp_KHP!($mat_name, $num_states, $t, $init, static)
+        $crate::impl_buffer_temp_KHP!($mat_name, $num_states, $t, $init, static);
     };
     ($mat_name:ident, $num_states:expr, $t:ty, $init:expr, $($keywords:tt)+) => {
         $($keywords)* $mat_name: $crate::buffers::types::TemporaryKHPMatrixBuffer<
-- 
2.43.0

