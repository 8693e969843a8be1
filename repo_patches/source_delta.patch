From e2b09524058acee352d142ac59923f6b03dc8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 1/6] fix: swapping a row or column with itself must be a no-op

`swap_major_axis_vectors(n, n)` passed the same range twice to
`ptr::swap_nonoverlapping`, which is undefined behavior (and aborts
with debug assertions on).
---
 src/swap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..bdac984 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,10 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        if m == n {
+            // `ptr::swap_nonoverlapping` must not be given a vector twice
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From e9ea3c38e14cc6ac952d780616716f99f99bb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 2/6] fix: a panic in `T::default` must not leave `resize` half
 done

The new shape was assigned before the new elements were created, so a
panicking `Default` left a shape larger than the element store, and
safe indexing could read out of bounds afterwards.
---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..ff57f49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,18 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
-        self.shape = shape;
-        self.data.resize_with(size, T::default);
+        let len = self.data.len();
+        if size <= len {
+            self.shape = shape;
+            self.data.truncate(size);
+        } else {
+            // `T::default` may panic, so nothing of `self` is changed until
+            // all the new elements exist
+            let mut tail = Vec::with_capacity(size - len);
+            tail.resize_with(size - len, T::default);
+            self.data.append(&mut tail);
+            self.shape = shape;
+        }
         Ok(self)
     }
 
-- 
2.43.0


From 24a534896f671cd8d9e79bca4ab19366ea39c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 3/6] fix: mutable row and column iterators must not overflow
 on zero-sized elements

Positions of zero-sized elements are counted with addresses that started
from the dangling, hence possibly over-aligned, buffer pointer. With up
to usize::MAX elements the sum could exceed usize::MAX, which panicked
or wrapped around to a null `NonNull`.
---
 src/iter/iter_mut.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..f3a4b80 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -124,9 +124,12 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let mut lower = buffer;
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
+            // addresses only count positions here, so they start from the
+            // lowest non-null one in order not to overflow
+            lower = unsafe { NonNull::new_unchecked(without_provenance_mut(1)) };
             let addr = lower.addr().get() + offset;
             let ptr = without_provenance_mut(addr);
             unsafe { NonNull::new_unchecked(ptr) }
@@ -328,9 +331,16 @@ impl<'a, T> IterNthVectorMut<'a, T> {
     /// This returns a detached iterator whose lifetime is not bound to
     /// any matrix. The returned iterator is valid only if the matrix
     /// remains in scope.
-    unsafe fn assemble(lower: NonNull<T>, stride: NonZero<usize>, length: NonZero<usize>) -> Self {
+    unsafe fn assemble(
+        mut lower: NonNull<T>,
+        stride: NonZero<usize>,
+        length: NonZero<usize>,
+    ) -> Self {
         let offset = (length.get() - 1) * stride.get();
         let upper = if size_of::<T>() == 0 {
+            // addresses only count positions here, so they start from the
+            // lowest non-null one in order not to overflow
+            lower = unsafe { NonNull::new_unchecked(without_provenance_mut(1)) };
             let addr = lower.addr().get() + offset;
             let ptr = without_provenance_mut(addr);
             unsafe { NonNull::new_unchecked(ptr) }
-- 
2.43.0


From b07aa31fd2c0d323c964002e695b38fce3cdc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 4/6] fix: mutable row and column iterators must yield the
 empty vectors of an empty matrix

`iter_rows` yields 3 (empty) rows for a 3x0 matrix, `iter_rows_mut`
yielded none, and likewise for columns.
---
 src/iter/iter_mut.rs | 57 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index f3a4b80..382e41a 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -28,7 +28,15 @@ pub(crate) struct IterVectorsMut<'a, T> {
 struct Layout {
     axis_stride: NonZero<usize>,
     vector_stride: NonZero<usize>,
-    vector_length: NonZero<usize>,
+    /// `None` if the vectors are empty, in which case (as for zero-sized
+    /// elements) `lower` and `upper` are addresses that only count vectors.
+    vector_length: Option<NonZero<usize>>,
+}
+
+impl Layout {
+    fn is_counting<T>(&self) -> bool {
+        size_of::<T>() == 0 || self.vector_length.is_none()
+    }
 }
 
 unsafe impl<T: Send> Send for IterVectorsMut<'_, T> {}
@@ -37,7 +45,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.major());
         }
 
         unsafe {
@@ -59,7 +67,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.minor());
         }
 
         unsafe {
@@ -92,6 +100,27 @@ impl<'a, T> IterVectorsMut<'a, T> {
         }
     }
 
+    /// An empty matrix may still have any number of (empty) vectors along
+    /// one of its axes.
+    fn over_empty_vectors(axis_length: usize) -> Self {
+        if axis_length == 0 {
+            return Self::empty();
+        }
+
+        let layout = Some(Layout {
+            axis_stride: NonZero::<usize>::MIN,
+            vector_stride: NonZero::<usize>::MIN,
+            vector_length: None,
+        });
+
+        Self {
+            lower: unsafe { NonNull::new_unchecked(without_provenance_mut(1)) },
+            upper: unsafe { NonNull::new_unchecked(without_provenance_mut(axis_length)) },
+            layout,
+            marker: PhantomData,
+        }
+    }
+
     /// This is a helper function that abstracts some repetitive code,
     /// while exposing certain `unsafe` operations that were perviously
     /// well-encapsulated.
@@ -139,7 +168,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
         let layout = Some(Layout {
             axis_stride,
             vector_stride,
-            vector_length,
+            vector_length: Some(vector_length),
         });
 
         Self {
@@ -157,15 +186,18 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
+        let result = match layout.vector_length {
+            None => IterNthVectorMut::empty(),
+            Some(vector_length) => unsafe {
+                IterNthVectorMut::assemble(self.lower, layout.vector_stride, vector_length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.lower = if size_of::<T>() == 0 {
+            self.lower = if layout.is_counting::<T>() {
                 let addr = self.lower.addr().get() + stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
@@ -184,7 +216,7 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
                 let stride = strides.axis_stride.get();
                 let elem_size = size_of::<T>();
                 1 + (self.upper.addr().get() - self.lower.addr().get())
-                    / (stride * if elem_size == 0 { 1 } else { elem_size })
+                    / (stride * if strides.is_counting::<T>() { 1 } else { elem_size })
             }
         };
         (len, Some(len))
@@ -201,15 +233,18 @@ impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let layout = self.layout?;
 
-        let result = unsafe {
-            IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
+        let result = match layout.vector_length {
+            None => IterNthVectorMut::empty(),
+            Some(vector_length) => unsafe {
+                IterNthVectorMut::assemble(self.upper, layout.vector_stride, vector_length)
+            },
         };
 
         if self.lower == self.upper {
             self.layout = None;
         } else {
             let stride = layout.axis_stride.get();
-            self.upper = if size_of::<T>() == 0 {
+            self.upper = if layout.is_counting::<T>() {
                 let addr = self.upper.addr().get() - stride;
                 let ptr = without_provenance_mut(addr);
                 unsafe { NonNull::new_unchecked(ptr) }
-- 
2.43.0


From 3b9d415fc73bb45590a7fb8ee0a6ff08b3bc110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 5/6] fix: swapping rows or columns must not overflow on huge
 matrices of zero-sized elements

The running offsets were advanced past the last vector, which may exceed
usize::MAX and panic when the element count is close to it.
---
 src/swap.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swap.rs b/src/swap.rs
index bdac984..01cf09d 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -118,16 +118,16 @@ impl<T> Matrix<T> {
             return Err(Error::IndexOutOfBounds);
         }
         let base = self.data.as_mut_ptr();
-        let mut index = m * self.minor_stride();
-        let mut jndex = n * self.minor_stride();
-        for _ in 0..self.major() {
+        let index = m * self.minor_stride();
+        let jndex = n * self.minor_stride();
+        for k in 0..self.major() {
+            // recomputed, as stepping past the last vector may overflow
+            let offset = k * self.major_stride();
             unsafe {
-                let x = base.add(index);
-                let y = base.add(jndex);
+                let x = base.add(offset + index);
+                let y = base.add(offset + jndex);
                 ptr::swap(x, y);
             }
-            index += self.major_stride();
-            jndex += self.major_stride();
         }
         Ok(self)
     }
-- 
2.43.0


From 6255b0d2390573a4b080fdca3cbd2cebde36f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 6/6] fix: formatting must not panic on elements wider than
 u16::MAX

The width parameter of the formatting macros is limited to u16::MAX and
panics beyond it, so the padding is written explicitly.
---
 src/fmt.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..7da45c2 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write_padded(f, SPACE, element_width)?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,13 @@ where
     }
 }
 
+/// Writes `text`, padded with trailing spaces to `width` characters. Unlike
+/// the width parameter of the formatting macros, `width` has no upper limit.
+fn write_padded(f: &mut fmt::Formatter<'_>, text: &str, width: usize) -> fmt::Result {
+    let padding = width.saturating_sub(text.chars().count());
+    write!(f, "{text}{}", SPACE.repeat(padding))
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0

