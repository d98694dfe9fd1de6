From 40fc7894e315b3a207146ffda3a45247524653ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 01/24] fix: broadcast views no longer report a uniform or
 contiguous layout

---
 src/ndarray/iterator/collapse_contiguous.rs | 9 ++++++++-
 src/ndarray/slice.rs                        | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..9c14fcf 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,8 +81,15 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
+    let mut leading_size = 1;  // number of elements along all axes before axis i
+
     for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
+        leading_size *= shape[i - 1];
+
+        // a zero stride repeats elements unless all axes so far have length 1
+        let is_padding = stride[i - 1] == 0 && leading_size == 1;
+
+        if !is_padding && stride[i - 1] != shape[i] * stride[i] {
             return None;
         }
     }
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..c681c86 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // elements with a stride of 0 are only contiguous if there is just one of them
+            if stride == 1 || (stride == 0 && shape.iter().product::<usize>() == 1) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From 4d59f5ff537b68bb3aabfd7718cf0d08a93e74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:08 +0000
Subject: [PATCH 02/24] fix: reshaping a scalar to a shape of ones no longer
 underflows

---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From f3a4dbdc1eab59b9562619b09321025986b52b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 03/24] fix: consuming reshape keeps the capacity of the owned
 buffer

---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 4fbba404ac2df3999eaf6c72196c93130707af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:27 +0000
Subject: [PATCH 04/24] fix: nditer carries to the next axis after the last
 index of an axis

---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..4d09200 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 < self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From fdefbea9281b272cd14756e1cedb56fc5235f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 05/24] fix: [] checks the index along every axis against its
 length

---
 src/ndarray/index_impl.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..9a9f601 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -2,30 +2,39 @@ use crate::dtype::RawDataType;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Returns the buffer offset of the element at the multi-dimensional `index`.
+    ///
+    /// # Panics
+    /// - If the index along any axis is not less than the length of that axis.
+    fn offset_of_index(&self, index: &[usize]) -> usize {
+        let mut offset = 0;
+
+        for axis in 0..index.len() {
+            assert!(index[axis] < self.shape[axis], "[] index out of bounds!");
+            offset += index[axis] * self.stride[axis];
+        }
+
+        offset
+    }
+}
+
 impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
     type Output = T;
 
     fn index(&self, index: [usize; D]) -> &Self::Output {
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
-        let i: usize = index.iter().zip(self.stride.iter())
-            .map(|(idx, stride)| idx * stride)
-            .sum();
-
-        assert!(i < self.len, "[] index out of bounds!");
+        let i = self.offset_of_index(&index);
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
-
-        let i: usize = index.iter().zip(self.stride.iter())
-                            .map(|(idx, stride)| idx * stride)
-                            .sum();
+        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
-        assert!(i < self.len, "[] index out of bounds!");
+        let i = self.offset_of_index(&index);
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From 0f570b3859c3c41842cfb36dbebd7bec7d791528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:20 +0000
Subject: [PATCH 06/24] fix: slicing panics when the selection reaches outside
 the array

---
 src/ndarray/slice.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index c681c86..1fd34c5 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -38,11 +38,22 @@ fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
          .sum::<usize>() + 1
 }
 
+/// Checks that the elements selected by `index` lie inside an axis of length `axis_length`.
+///
+/// # Panics
+/// - If any selected element is out of bounds
+fn check_index_bounds<S: Indexer>(index: &S, axis_length: usize) {
+    let first = index.index_of_first_element();
+
+    assert!(first <= axis_length && index.indexed_length(axis_length) <= axis_length - first,
+            "slice out of bounds for axis of length {axis_length}");
+}
 
 impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
     {
         let axis = axis.as_absolute(self.ndims());
+        check_index_bounds(&index, self.shape[axis]);
 
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
@@ -88,6 +99,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            check_index_bounds(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
                 let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
-- 
2.43.0


From 34264979ed6da1163790718180c37f0702a59b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:29 +0000
Subject: [PATCH 07/24] fix: reject nested data that is ragged below the first
 level

---
 src/util/homogenous.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From 682a8fd864af9f82f786e1d346fe832ca49a8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:40 +0000
Subject: [PATCH 08/24] fix: flatten arrays of vectors element by element
 instead of reinterpreting their headers

---
 src/util/flatten.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
-- 
2.43.0


From 29bfb1c2dd9f3a1f2da2780fbdd7a22fcc92f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:49 +0000
Subject: [PATCH 09/24] fix: vectors nested five or more levels deep can be
 converted to arrays

---
 src/util/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/nested.rs b/src/util/nested.rs
index fd2fc9e..fe03011 100644
--- a/src/util/nested.rs
+++ b/src/util/nested.rs
@@ -7,7 +7,7 @@ impl<T> Nested<2> for Vec<T> where T: Nested<1> {}
 impl<T> Nested<3> for Vec<T> where T: Nested<2> {}
 
 impl<T> Nested<4> for Vec<T> where T: Nested<3> {}
-impl<T> Nested<5> for Vec<T> where T: Nested<6> {}
+impl<T> Nested<5> for Vec<T> where T: Nested<4> {}
 
 impl<T> Nested<6> for Vec<T> where T: Nested<5> {}
 impl<T> Nested<7> for Vec<T> where T: Nested<6> {}
-- 
2.43.0


From 49807ff17e455309c87cb4bc0eedc96f564d0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 10/24] fix: in-place operators write through the strides of a
 non-contiguous target

---
 src/ndarray/assign_ops.rs | 43 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..d3c7502 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -7,11 +7,21 @@ use crate::ops::binary_ops::{BinaryOpBitAnd, BinaryOpBitOr, BinaryOpRem, BinaryO
 use crate::RawDataType;
 use crate::{NdArray, StridedMemory};
 use paste::paste;
+use std::ops::{Add, BitAnd, BitOr, Div, Mul, Rem, Shl, Shr, Sub};
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Copies the elements of an ndarray with the same shape into this (possibly strided) ndarray.
+    fn assign(&mut self, values: &NdArray<T>) {
+        for (dst, value) in self.flatiter_ptr().zip(values.flatiter()) {
+            unsafe { *dst = value; }
+        }
+    }
+}
+
 macro_rules! define_binary_iop {
-    ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
+    ( $binary_op_trait:ident, $op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
         paste! {
             impl<T: RawDataType + $binary_op_trait> $iop_trait<NdArray<'_, T>> for NdArray<'_, T> {
                 fn [<$method _assign>](&mut self, rhs: NdArray<'_, T>) {
@@ -25,6 +35,13 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
+                    // the operation writes its results contiguously
+                    if !self.is_contiguous() {
+                        let rhs = rhs.broadcast_to(&self.shape);
+                        let result = <&NdArray<T> as $op_trait<&NdArray<T>>>::$method(self, &rhs);
+                        return self.assign(&result);
+                    }
+
                     if rhs.shape() == self.shape() {
                         unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
@@ -52,6 +69,12 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
+                    // the operation writes its results contiguously
+                    if !self.is_contiguous() {
+                        let result = <&NdArray<T> as $op_trait<T>>::$method(self, rhs);
+                        return self.assign(&result);
+                    }
+
                     unsafe {
                         <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
                                                                      rhs, self.mut_ptr());
@@ -62,12 +85,12 @@ macro_rules! define_binary_iop {
     };
 }
 
-define_binary_iop!(BinaryOpAdd, AddAssign, +=, add);
-define_binary_iop!(BinaryOpSub, SubAssign, -=, sub);
-define_binary_iop!(BinaryOpMul, MulAssign, *=, mul);
-define_binary_iop!(BinaryOpDiv, DivAssign, /=, div);
-define_binary_iop!(BinaryOpRem, RemAssign, %=, rem);
-define_binary_iop!(BinaryOpBitAnd, BitAndAssign, &=, bitand);
-define_binary_iop!(BinaryOpBitOr, BitOrAssign, |=, bitor);
-define_binary_iop!(BinaryOpShl, ShlAssign, <<=, shl);
-define_binary_iop!(BinaryOpShr, ShrAssign, >>=, shr);
+define_binary_iop!(BinaryOpAdd, Add, AddAssign, +=, add);
+define_binary_iop!(BinaryOpSub, Sub, SubAssign, -=, sub);
+define_binary_iop!(BinaryOpMul, Mul, MulAssign, *=, mul);
+define_binary_iop!(BinaryOpDiv, Div, DivAssign, /=, div);
+define_binary_iop!(BinaryOpRem, Rem, RemAssign, %=, rem);
+define_binary_iop!(BinaryOpBitAnd, BitAnd, BitAndAssign, &=, bitand);
+define_binary_iop!(BinaryOpBitOr, BitOr, BitOrAssign, |=, bitor);
+define_binary_iop!(BinaryOpShl, Shl, ShlAssign, <<=, shl);
+define_binary_iop!(BinaryOpShr, Shr, ShrAssign, >>=, shr);
-- 
2.43.0


From 00a771dbb936964871ca2508dd31afe01370c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 11/24] fix: convert integers to floats without losing range
 elements to f32 rounding

---
 src/util/dtype.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..f014a32 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -50,7 +50,7 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     type AsFloatType: FloatDataType;
 
     fn to_float(&self) -> Self::AsFloatType {
-        self.to_f32().unwrap().into()
+        NumCast::from(*self).unwrap()
     }
 
     fn ceil(&self) -> Self {
@@ -71,7 +71,7 @@ impl NumericDataType for u16 {
 }
 
 impl NumericDataType for u32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for u64 {
@@ -95,7 +95,7 @@ impl NumericDataType for i16 {
 }
 
 impl NumericDataType for i32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for i64 {
-- 
2.43.0


From f030c679eff1013536052434e47e6e33e85045f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 12/24] fix: linspace returns exactly the requested number of
 points

---
 src/common/constructors.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..7b6e398 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -5,6 +5,16 @@ use crate::util::to_vec::ToVec;
 use crate::{FloatDataType, NumericDataType, RawDataType, StridedMemory};
 use num::NumCast;
 
+/// Returns the `n` values `start`, `start + step`, `start + 2 * step`, ...
+fn evenly_spaced<T: NumericDataType>(start: T, step: T, n: usize) -> Vec<T> {
+    let mut data: Vec<T> = vec![T::default(); n];
+    for (i, item) in data.iter_mut().enumerate() {
+        *item = <T as NumCast>::from(i).unwrap() * step + start;
+    }
+
+    data
+}
+
 pub trait Constructors<T: RawDataType>: StridedMemory {
     /// Constructs a new ndarray from the given data buffer and shape assuming a contiguous layout
     ///
@@ -182,12 +192,7 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         let n = ((stop - start).to_float() / step.to_float()).ceil();
         let n = NumCast::from(n).unwrap();
 
-        let mut data: Vec<T> = vec![T::default(); n];
-        for (i, item) in data.iter_mut().enumerate() {
-            *item = <T as NumCast>::from(i).unwrap() * step + start;
-        }
-
-        unsafe { Self::from_contiguous_owned_buffer(vec![data.len()], data) }
+        unsafe { Self::from_contiguous_owned_buffer(vec![n], evenly_spaced(start, step, n)) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -221,9 +226,7 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
-
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], evenly_spaced(start, step, num)) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -257,6 +260,6 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], evenly_spaced(start, step, num)) }
     }
 }
-- 
2.43.0


From 83e9f34ebb992fffbae506fc74db10c8d385b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:19 +0000
Subject: [PATCH 13/24] fix: randint never returns its exclusive upper bound

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..7924acd 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -107,7 +107,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| <T as NumCast>::from(Float::floor(uniform.sample(&mut rng))).unwrap())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From 1a0ffb6517cfb4e01d969f96b35be156005ee44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:29 +0000
Subject: [PATCH 14/24] fix: rand samples in the element type so that it never
 rounds up to 1

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 7924acd..6e22d21 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -51,7 +51,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(0.0, 1.0);
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
             .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
             .collect();
-- 
2.43.0


From bc5d8a66aa007c1bd6bfd088cdbdc343eab54bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:39 +0000
Subject: [PATCH 15/24] fix: reshape propagates gradients with a non-uniform
 stride

---
 src/autograd/reshape_backwards.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..fdc4da8 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -1,6 +1,6 @@
 use crate::gradient_function::{GradientFuncTrait, GradientFunction};
 use crate::util::to_vec::ToVec;
-use crate::{call_next_backward, FloatDataType, NdArray, Reshape, Tensor};
+use crate::{call_next_backward, FloatDataType, NdArray, Reshape, StridedMemory, Tensor};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -11,8 +11,13 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
-                            self.next_function);
+        if grad.is_uniformly_strided() {
+            call_next_backward!(grad.reshape(&self.shape),
+                                self.next_function);
+        } else { // the gradient has to be copied before it can be reshaped
+            call_next_backward!(grad.clone().reshape(&self.shape),
+                                self.next_function);
+        }
     }
 }
 
-- 
2.43.0


From 94e5fedd999efe9078bd998954cbe072efcb433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:08 +0000
Subject: [PATCH 16/24] fix: min, max and min_magnitude of infinite values are
 infinite

---
 src/ndarray/reduce.rs           |  6 +++---
 src/ops/reduce_max.rs           | 17 +++++++++++++++--
 src/ops/reduce_min.rs           | 17 +++++++++++++++--
 src/ops/reduce_min_magnitude.rs | 17 +++++++++++++++--
 4 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index 5a5decf..ed2c512 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -165,7 +165,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min, axes, T::max_value())
+        self.reduce_along(partial_min, axes, T::min_identity())
     }
 
     /// Computes the maximum of all elements in the array.
@@ -184,7 +184,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn max_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_max, axes, T::min_value())
+        self.reduce_along(partial_max, axes, T::max_identity())
     }
 
     /// Computes the minimum absolute value of all elements in the array.
@@ -203,7 +203,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_magnitude_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min_magnitude, axes, T::max_value())
+        self.reduce_along(partial_min_magnitude, axes, T::min_magnitude_identity())
     }
 
     /// Computes the maximum absolute value of all elements in the array.
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index c4147b0..2af2a87 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_max;
 
 pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
+    /// The identity of this reduction: every value is at least it.
+    fn max_identity() -> Self {
+        Self::min_value()
+    }
+
     /// Computes the max of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn max_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_max(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMax for T {}
 
 impl ReduceMax for f32 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMax for f32 {
 }
 
 impl ReduceMax for f64 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index c30cdb4..1dbd528 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_min;
 
 pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
+    /// The identity of this reduction: every value is at most it.
+    fn min_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMin for T {}
 
 impl ReduceMin for f32 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMin for f32 {
 }
 
 impl ReduceMin for f64 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index 340069a..7cd7e88 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -6,6 +6,11 @@ use crate::iterator::collapse_contiguous::has_uniform_stride;
 use crate::util::partial_ord::{partial_min_magnitude};
 
 pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
+    /// The identity of this reduction: every value is at most it.
+    fn min_magnitude_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min magnitude of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -19,7 +24,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_magnitude_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
@@ -48,7 +53,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min_magnitude(*ptr.add(index), output);
         }
@@ -59,6 +64,10 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
 impl<T: IntegerDataType> ReduceMinMagnitude for T {}
 
 impl ReduceMinMagnitude for f32 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
@@ -71,6 +80,10 @@ impl ReduceMinMagnitude for f32 {
 }
 
 impl ReduceMinMagnitude for f64 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
-- 
2.43.0


From 195456a701b73f1e2b61a5226083e28ee9ca7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:53 +0000
Subject: [PATCH 17/24] fix: readonly broadcast views cannot be written with
 fill or []

---
 src/ndarray/fill.rs       | 5 +++++
 src/ndarray/index_impl.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..467453f 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -16,6 +17,10 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        if !self.flags.contains(NdArrayFlags::Writeable) {
+            panic!("tensor is readonly.");
+        }
+
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 9a9f601..2cb0137 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -32,6 +33,10 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
+        if !self.flags.contains(NdArrayFlags::Writeable) {
+            panic!("tensor is readonly.");
+        }
+
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
         let i = self.offset_of_index(&index);
-- 
2.43.0


From 5541d58ec26be16d8e465afce7815f7d5fe8c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:51 +0000
Subject: [PATCH 18/24] fix: einsum requires exactly one subscripts string per
 operand

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..b61a617 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires one subscripts string per operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From d19d50faeb5178b2b4e41c2bd98c75a08c718e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:02 +0000
Subject: [PATCH 19/24] fix: einsum of scalar operands no longer panics

---
 src/linalg/einsum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index b61a617..a62ec7b 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -394,6 +394,12 @@ where
     tmp_strides[n_operands][0..output_dims].copy_from_slice(&stride_from_shape(output_shape));
     *strides = transpose_2d_array(tmp_strides);
 
+    // with scalar operands only, there is a single product to evaluate
+    if *iter_ndims == 0 {
+        iter_shape.push(1);
+        *iter_ndims = 1;
+    }
+
     if let Some(best_axis_ordering) = MultiFlatIndexGenerator::find_best_axis_ordering(n_operands + 1, *iter_ndims, strides) {
         permute_array(&mut strides[0..*iter_ndims], &best_axis_ordering);
         permute_array(iter_shape, &best_axis_ordering);
-- 
2.43.0


From 3fede86f6699916ea8e55acacf58e497bde2e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 20/24] fix: consuming reshape of a view keeps the lifetime of
 the borrowed memory

---
 src/ndarray/reshape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index b41ebc7..1c0aff6 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From 9663299633e85e1f15d789ae838b32acbfa5b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 21/24] fix: arrays taken out of view or shared tensors own
 their data and keep their elements

---
 src/tensor/methods.rs | 10 ++++++++++
 src/tensor/reshape.rs |  8 +++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..ad4493c 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -33,12 +33,22 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
     }
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
+    ///
+    /// If the tensor is a view, its data is copied since the pointer may outlive the viewed tensor.
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        if self.array.is_view() {
+            return Rc::new(self.detach());
+        }
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
+    ///
+    /// If the tensor is a view, its data is copied since the result may outlive the viewed tensor.
     pub fn into_ndarray(self) -> NdArray<'static, T> {
+        if self.array.is_view() {
+            return self.detach();
+        }
         match Rc::try_unwrap(self.array) {
             Ok(result) => { result }
             Err(rc) => { (*rc).clone() }
diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..03223cd 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -1,3 +1,4 @@
+use std::rc::Rc;
 use crate::none_backwards::NoneBackwards;
 use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
@@ -100,7 +101,12 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        // `stride` describes the current data which into_ndarray() copies to another layout if it is shared
+        let result = if self.array.is_view() || Rc::strong_count(&self.array) > 1 {
+            self.array.as_ref().reshaped_view(shape, stride).clone()
+        } else {
+            self.into_ndarray().reshaped_view(shape, stride)
+        };
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From 07857134cf9d867cc67f1a06165c92251c10cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 22/24] fix: randint draws in the element type so that large
 bounds are exact

---
 src/common/random.rs | 6 +++---
 src/util/dtype.rs    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 6e22d21..039569e 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,6 +1,6 @@
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -105,9 +105,9 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low.to_float(), high.to_float());
+        let uniform = Uniform::new(low.ceil(), high.ceil());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(Float::floor(uniform.sample(&mut rng))).unwrap())
+            .map(|_| uniform.sample(&mut rng).floor())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index f014a32..9cd74fb 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -45,7 +45,7 @@ impl RawDataType for bool {}
 pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
 + Sum + Product + SubAssign + Sub<Output=Self> + Div<Output=Self> + MulAdd<Output=Self> + DotProduct
 + ReduceSum + ReduceProduct + ReduceMin + ReduceMax + ReduceMinMagnitude + ReduceMaxMagnitude
-+ BinaryOpAdd + BinaryOpSub + BinaryOpMul
++ BinaryOpAdd + BinaryOpSub + BinaryOpMul + SampleUniform
 {
     type AsFloatType: FloatDataType;
 
-- 
2.43.0


From dddd70bc817b26d3e90830fa3ba12ddfd4b2da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:53 +0000
Subject: [PATCH 23/24] fix: einsum_view rejects output subscripts with a blank
 instead of returning an axis of length zero

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index a62ec7b..2a0a659 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -166,6 +166,10 @@ fn reshape_shape_and_stride_for_einsum<A: StridedMemory>(operand: &A,
                                                          labels: &[i8; MAX_DIMS],
                                                          output_dims: usize,
                                                          output_labels: &[i8]) -> Option<(Vec<usize>, Vec<usize>)> {
+    if output_labels.iter().any(|&label| label == 0) {
+        panic!("broadcasting in einsum is currently unsupported");
+    }
+
     let mut new_stride = vec![0; output_dims];
     let mut new_shape = vec![0; output_dims];
 
-- 
2.43.0


From 2f3480ec535e79e7f310daa57176d8ee4b0e6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:02 +0000
Subject: [PATCH 24/24] fix: backward_with copies a cotangent that is a view,
 which may share its data with a gradient that changes during the pass

---
 src/tensor/autograd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd.rs b/src/tensor/autograd.rs
index 06ac769..ba942c8 100644
--- a/src/tensor/autograd.rs
+++ b/src/tensor/autograd.rs
@@ -153,7 +153,12 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
         let gradient = gradient.as_ref();
         assert_eq!(gradient.shape(), self.shape());
 
-        self.grad_fn.borrow_mut().backward(gradient);
+        // a view may share its data with a gradient that changes during the backward pass
+        if gradient.is_view() {
+            self.grad_fn.borrow_mut().backward(&gradient.clone());
+        } else {
+            self.grad_fn.borrow_mut().backward(gradient);
+        }
     }
 
     /// Computes the gradient of the `self` with respect to its leaf tensors.
-- 
2.43.0

