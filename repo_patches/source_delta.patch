From 1fb1d8470738b5c8b1eaa32856b2c94b1a99dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:10 +0000
Subject: [PATCH 01/11] fix: do not iterate over elements of empty strided
 expressions

An expression with outer dimensions (strided views, FromFn, lanes etc.) and
a zero-sized dimension yielded elements outside of the array, and evaluating
it wrote past the reserved memory.
---
 src/expr/iter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..7ff6178 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,15 +20,22 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let mut inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
 
         let mut outer_index = Default::default();
-        let mut outer_limit = Default::default();
+        let mut outer_limit = <E::Shape as Shape>::Dims::<usize>::default();
 
         if outer_rank > 0 {
             outer_index = Dims::new(expr.rank());
             outer_limit =
                 expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+
+            // If any dimension is empty there are no elements, also if the inner dimensions
+            // are non-empty.
+            if outer_limit.as_ref().contains(&0) {
+                outer_limit.as_mut().fill(0);
+                inner_limit = 0;
+            }
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From e2614f95d0f8989e4c390394ce8aa4bbff7a08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:31 +0000
Subject: [PATCH 02/11] fix: keep iterators over strided expressions fused

After the last element, a further call to next() restarted from the second
outer index and size_hint() was wrong or overflowed.
---
 src/expr/iter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 7ff6178..a4e8786 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -64,7 +64,12 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        // Ensure that following calls return false, and that no elements remain.
+        self.outer_index.as_mut().fill(0);
+        self.outer_limit.as_mut().fill(0);
+
+        self.inner_index = 0;
+        self.inner_limit = 0;
 
         false
     }
-- 
2.43.0


From b01d48f65986c08b37c4bfbaee2d600ccd5b30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:31 +0000
Subject: [PATCH 03/11] fix: include the outer offset in lanes expressions

For rank 3 and above, rows(), cols() and lanes() repeated the lanes of the
first outer index, and the mutable versions gave aliasing views.
---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From 01c2eef280114705316a1e765670c3e3ab369199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:31 +0000
Subject: [PATCH 04/11] fix: allocate the index of from_fn expressions with
 dynamic rank

from_fn with a dynamic rank shape panicked on the first element, since the
default index is empty.
---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..30ab88a 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From d6dba8bcbb3e69563aaa914c4e7adab7f567cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 05/11] fix: drop the last written element if the zipped
 expression panics

When the other expression panics between two elements, the last element that
was written back was leaked.
---
 src/tensor.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 2f28ced..6cf848f 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -431,34 +431,35 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
         struct DropGuard<T, S: Shape, A: Allocator> {
             tensor: ManuallyDrop<Tensor<T, S, A>>,
             index: usize,
+            in_use: bool,
         }
 
         impl<T, S: Shape, A: Allocator> Drop for DropGuard<T, S, A> {
             fn drop(&mut self) {
                 let ptr = self.tensor.as_mut_ptr();
+                let head = self.index - self.in_use as usize;
                 let tail = self.tensor.len() - self.index;
 
-                // Drop all elements except the current one, which is read but not written back.
+                // Drop all elements except the current one if read but not written back.
                 unsafe {
                     let mut vec = ManuallyDrop::take(&mut self.tensor).into_vec();
 
                     vec.set_len(0);
 
-                    if self.index > 1 {
-                        ptr::slice_from_raw_parts_mut(ptr, self.index - 1).drop_in_place();
-                    }
-
+                    ptr::slice_from_raw_parts_mut(ptr, head).drop_in_place();
                     ptr::slice_from_raw_parts_mut(ptr.add(self.index), tail).drop_in_place();
                 }
             }
         }
 
-        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0 };
+        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0, in_use: false };
         let expr = guard.tensor.expr_mut().zip(expr);
 
         expr.for_each(|(x, y)| unsafe {
             guard.index += 1;
+            guard.in_use = true;
             ptr::write(x, f((ptr::read(x), y)));
+            guard.in_use = false;
         });
 
         let tensor = unsafe { ManuallyDrop::take(&mut guard.tensor) };
-- 
2.43.0


From 204f2056df03a6a877c192436dbb3876e4185b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 06/11] fix: reject resizing of constant-sized dimensions
 before modifying the array

The mismatch was detected after elements were created or dropped, which cleared
the array, or aborted the process if all dimensions are constant-sized.
---
 src/raw_tensor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/raw_tensor.rs b/src/raw_tensor.rs
index 9e279d1..3e9c996 100644
--- a/src/raw_tensor.rs
+++ b/src/raw_tensor.rs
@@ -118,6 +118,11 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
             let new_len = new_dims.iter().try_fold(1usize, |acc, &x| acc.checked_mul(x));
             let new_len = new_len.expect("invalid length");
 
+            // Ensure that constant-sized dimensions match, before elements are modified.
+            if S::RANK.is_some() {
+                _ = S::from_dims(new_dims);
+            }
+
             unsafe {
                 self.with_mut_parts(|vec, old_mapping| {
                     old_mapping.shape().with_dims(|old_dims| {
-- 
2.43.0


From bfa449b564e15c8495161e090b7394b720d3e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 07/11] fix: drop existing elements in clone_from for by-value
 expressions

The buffer elements are ManuallyDrop, so that the overwritten and truncated
elements were leaked.
---
 src/expr/into_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..6b0e1d3 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -51,7 +51,8 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     fn clone_from(&mut self, source: &Self) {
         assert!(self.index == 0 && source.index == 0, "expression in use");
 
-        self.buffer.clone_from(&source.buffer);
+        // Don't clone directly to the buffer, since it does not drop the existing elements.
+        *self = source.clone();
     }
 }
 
-- 
2.43.0


From 531508ba7d12ef8ed50a62878cd2cf1e7ddcbb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:22 +0000
Subject: [PATCH 08/11] fix: limit memory reserved from the size hint when
 deserializing

The size hint comes from the input and was trusted, so that an incorrect hint
resulted in arithmetic overflow, capacity overflow or allocation failure.
---
 src/serde.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index ef5e30d..10a3ada 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -2,6 +2,7 @@
 use std::alloc::Allocator;
 use std::fmt::{self, Formatter};
 use std::marker::PhantomData;
+use std::mem;
 
 use serde::de::{Error, SeqAccess, Visitor};
 use serde::ser::SerializeSeq;
@@ -36,10 +37,12 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
         let mut shape = S::default();
         let mut size = 0;
 
+        // The size hint may be incorrect, so limit the memory to reserve in advance.
+        let max_len = 1024 * 1024 / mem::size_of::<T>().max(1);
         let size_hint = seq.size_hint().unwrap_or(0);
 
         if S::RANK == Some(1) {
-            vec.reserve(size_hint);
+            vec.reserve(size_hint.min(max_len));
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
@@ -48,7 +51,7 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
         } else {
             while let Some(value) = seq.next_element::<Tensor<T, S::Tail>>()? {
                 if size == 0 {
-                    vec.reserve(value.len() * size_hint);
+                    vec.reserve(value.len().saturating_mul(size_hint).min(max_len));
                     shape.with_mut_dims(|dims| {
                         value.shape().with_dims(|src| dims[1..].copy_from_slice(src));
                     });
-- 
2.43.0


From 71426ce41e1b9cec4c235882b15218bce63f2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:15 +0000
Subject: [PATCH 09/11] fix: check shapes in append before elements are removed
 from the other array

---
 src/tensor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index 6cf848f..6a85333 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -61,6 +61,18 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
     /// Panics if the inner dimensions do not match, if the rank is not the same and
     /// at least 1, or if the first dimension is not dynamically-sized.
     pub fn append(&mut self, other: &mut Self) {
+        assert!(self.rank() > 0, "invalid rank");
+
+        // Ensure that the shapes match, before elements are removed from the other array.
+        if !self.is_empty() && !other.is_empty() {
+            self.shape().with_dims(|dims| {
+                other.shape().with_dims(|src| {
+                    assert!(src.len() == dims.len(), "invalid rank");
+                    assert!(src[1..] == dims[1..], "inner dimensions mismatch");
+                });
+            });
+        }
+
         self.expand(other.drain(..));
     }
 
-- 
2.43.0


From 0aaf5d1be4c1505fc4ca6eae9eec07596ab34f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:37 +0000
Subject: [PATCH 10/11] fix: create mappings for drain before the array is
 modified

---
 src/expr/buffer.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/expr/buffer.rs b/src/expr/buffer.rs
index 9b55c91..5c717bc 100644
--- a/src/expr/buffer.rs
+++ b/src/expr/buffer.rs
@@ -8,7 +8,7 @@ use crate::alloc::{Allocator, Global};
 use crate::array::Array;
 use crate::dim::Const;
 use crate::index::Axis;
-use crate::mapping::Mapping;
+use crate::mapping::{DenseMapping, Mapping};
 use crate::shape::{ConstShape, Shape};
 use crate::slice::Slice;
 use crate::tensor::Tensor;
@@ -33,7 +33,7 @@ pub trait Buffer {
 pub struct Drain<'a, T, S: Shape, A: Allocator = Global> {
     tensor: &'a mut Tensor<T, S, A>,
     view: ViewMut<'a, ManuallyDrop<T>, S>,
-    new_size: usize,
+    new_mapping: ManuallyDrop<DenseMapping<S>>,
     tail: usize,
 }
 
@@ -44,17 +44,20 @@ impl<'a, T, S: Shape, A: Allocator> Drain<'a, T, S, A> {
         let new_size = tensor.dim(0) - (end - start);
         let tail = Axis::resize(Const::<0>, tensor.mapping(), new_size - start).len();
 
+        // Create all mappings before the array is modified, since allocation can fail.
+        let start_mapping = Mapping::resize_dim(tensor.mapping(), 0, start);
+        let view_mapping = Mapping::resize_dim(tensor.mapping(), 0, end - start);
+        let new_mapping = Mapping::resize_dim(tensor.mapping(), 0, new_size);
+
         // Shrink the array, to be safe in case Drain is leaked.
         unsafe {
-            tensor.set_mapping(Mapping::resize_dim(tensor.mapping(), 0, start));
+            tensor.set_mapping(start_mapping);
         }
 
         let ptr = unsafe { tensor.as_mut_ptr().add(tensor.len()) as *mut ManuallyDrop<T> };
-        let mapping = Mapping::resize_dim(tensor.mapping(), 0, end - start);
-
-        let view = unsafe { ViewMut::new_unchecked(ptr, mapping) };
+        let view = unsafe { ViewMut::new_unchecked(ptr, view_mapping) };
 
-        Self { tensor, view, new_size, tail }
+        Self { tensor, view, new_mapping: ManuallyDrop::new(new_mapping), tail }
     }
 }
 
@@ -73,11 +76,9 @@ impl<T, S: Shape, A: Allocator> Buffer for Drain<'_, T, S, A> {
 
 impl<T, S: Shape, A: Allocator> Drop for Drain<'_, T, S, A> {
     fn drop(&mut self) {
-        let mapping = Mapping::resize_dim(self.tensor.mapping(), 0, self.new_size);
-
         unsafe {
             ptr::copy(self.view.as_ptr().add(self.view.len()), self.view.as_mut_ptr(), self.tail);
-            self.tensor.set_mapping(mapping);
+            self.tensor.set_mapping(ManuallyDrop::take(&mut self.new_mapping));
         }
     }
 }
-- 
2.43.0


From ee4d3b2f4b38236009e8f4a81aa2859f68c17176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:12 +0000
Subject: [PATCH 11/11] fix: do not format moved elements of exhausted by-value
 iterators

The inner index was reset to zero at the end of an iteration, so that an
exhausted iterator no longer counted as being in use.
---
 src/expr/iter.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index a4e8786..d65515d 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -66,10 +66,7 @@ impl<E: Expression> Iter<E> {
 
         // Ensure that following calls return false, and that no elements remain.
         self.outer_index.as_mut().fill(0);
-        self.outer_limit.as_mut().fill(0);
-
-        self.inner_index = 0;
-        self.inner_limit = 0;
+        self.outer_limit.as_mut().fill(1);
 
         false
     }
-- 
2.43.0

