From a64cb4e60b0ec4637442356191fe7bf373180b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 01/13] fix: Chunk::from_front/from_back must refuse a count
 beyond the source in every build

The bounds check was a debug_assert!, so release builds copied uninitialised
slots and underflowed the source's bounds.
---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..9556663 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From 1abc625c568881c2d08116994346f5bc22dd9472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 02/13] fix: insert_from must not let the capacity check wrap
 around

`len + insert_size` wraps in release builds for iterators that report a length
close to usize::MAX, which then passed the check.
---
 src/ring_buffer/mod.rs | 2 +-
 src/sized_chunk/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..8f96c80 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -652,7 +652,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 9556663..e32b315 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -599,7 +599,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From d3460583107488d1ea26c1aeb244fc289e06e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 03/13] fix: Chunk::insert_from must use one length for the
 hole and for filling it

ExactSizeIterator::len was called a second time after the hole had been made;
an iterator reporting something else the second time left slots of the hole
uninitialised, or overwrote live elements.
---
 src/sized_chunk/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index e32b315..0cdb6cd 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -286,7 +286,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, len: usize, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -615,14 +614,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right += insert_size;
         } else {
@@ -630,7 +629,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 1e16d676cdcb3018ed9147c4ff9c5b6752c3a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 04/13] fix: Chunk must not keep items it is discarding when a
 destructor panics

drop_left, drop_right and clear dropped the items before excluding them, so a
panicking destructor led to a second drop when the chunk itself was dropped.
---
 src/sized_chunk/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 0cdb6cd..7a043c7 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -405,8 +405,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            let discarded: *mut [A] = &mut self[..index];
+            // Give the items up first: a destructor may panic.
             self.left += index;
+            unsafe { ptr::drop_in_place(discarded) }
         }
     }
 
@@ -417,8 +419,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            let discarded: *mut [A] = &mut self[index..];
+            // Give the items up first: a destructor may panic.
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(discarded) }
         }
     }
 
@@ -672,9 +676,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        let discarded: *mut [A] = self.as_mut_slice();
+        // Give the items up first: a destructor may panic.
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(discarded) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From 7df4d1eefa166140c513c92e57225eef172c73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 05/13] fix: RingBuffer must not keep items it is discarding
 when a destructor panics

drop_left, drop_right and clear dropped the items before excluding them, so a
panicking destructor led to a second drop when the buffer itself was dropped.
---
 src/ring_buffer/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 8f96c80..f55d858 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            let range = self.range();
+            // Give the items up first: a destructor may panic.
             self.origin += index;
             self.length -= index;
+            for i in range.take(index) {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +489,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        let range = self.range();
+        // Give the items up first: a destructor may panic.
+        self.length = index;
+        for i in range.skip(index) {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +754,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        let range = self.range();
+        // Give the items up first: a destructor may panic.
         self.origin = 0.into();
         self.length = 0;
+        for i in range {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
-- 
2.43.0


From 61fff8be805a57e6e941b60f82b599795e469087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 06/13] fix: InlineArray::clear must not keep items when a
 destructor panics

---
 src/inline_array/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..df9f84f 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -395,8 +395,10 @@ impl<A, T> InlineArray<A, T> {
     /// Time: O(n)
     pub fn clear(&mut self) {
         unsafe {
-            self.drop_contents();
+            let contents: *mut [A] = &mut **self;
+            // Give the items up first: a destructor may panic.
             *self.len_mut() = 0;
+            ptr::drop_in_place(contents);
         }
     }
 
-- 
2.43.0


From da03e7b7033da10002d8860d9e62b5a47939e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 07/13] fix: writing bytes across the end of a RingBuffer's
 storage must not panic

copy_from_slice handles the wrap-around itself; the debug assertion refused
exactly that case.
---
 src/ring_buffer/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index f55d858..99b077a 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,6 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 90184d47b14a1b168ef35a57f0162adc497c9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 08/13] fix: ..=usize::MAX must not become an empty ring buffer
 slice

The exclusive end wrapped around to the start in release builds.
---
 src/ring_buffer/mod.rs   |  4 +++-
 src/ring_buffer/slice.rs | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 99b077a..fe8b38a 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -350,7 +350,9 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index
+                    .checked_add(1)
+                    .expect("Slice::parse_range: index out of bounds"),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..bd32997 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -81,7 +81,12 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
+                Bound::Included(index) => {
+                    self.range.start
+                        + index
+                            .checked_add(1)
+                            .expect("Slice::slice: index out of bounds")
+                }
                 Bound::Excluded(index) => self.range.start + index,
             },
         };
@@ -362,7 +367,12 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
+                Bound::Included(index) => {
+                    self.range.start
+                        + index
+                            .checked_add(1)
+                            .expect("Slice::slice: index out of bounds")
+                }
                 Bound::Excluded(index) => self.range.start + index,
             },
         };
-- 
2.43.0


From eb2e5324593ddd301cd98e852d28575cc51cd7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 09/13] fix: indexing a ring buffer slice must not reach
 outside the slice

Index and IndexMut only checked against the whole buffer.
---
 src/ring_buffer/slice.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index bd32997..e9d6702 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -169,6 +169,9 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!("Slice::index: index out of bounds {} >= {}", index, self.len());
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -452,6 +455,9 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!("Slice::index: index out of bounds {} >= {}", index, self.len());
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -460,6 +466,9 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!("Slice::index_mut: index out of bounds {} >= {}", index, self.len());
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From 4c74725454221f1642b0069703e5409db91e75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 10/13] fix: Chunk and InlineArray must hash like the slice
 they borrow as

Borrow<[A]> requires equal hashes; the length prefix of slices was missing, so
looking up a slice in a map keyed by chunks failed.
---
 src/inline_array/mod.rs | 4 +---
 src/sized_chunk/mod.rs  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index df9f84f..1113db7 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,7 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        (**self).hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 7a043c7..44dfc2b 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -747,9 +747,7 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From e855321ea73226243149a1a237d0fd561a98b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 11/13] fix: mutable SparseChunk iterators must not invalidate
 items they already yielded

Each step made a reference to the whole array of values (and moving the
iterator one to the whole chunk), invalidating the references handed out
before.
---
 src/sparse_chunk/iter.rs | 61 +++++++++++++++++++++++++++++++---------
 src/sparse_chunk/mod.rs  | 10 ++-----
 2 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/sparse_chunk/iter.rs b/src/sparse_chunk/iter.rs
index a9cb392..22df9a9 100644
--- a/src/sparse_chunk/iter.rs
+++ b/src/sparse_chunk/iter.rs
@@ -1,3 +1,5 @@
+use core::marker::PhantomData;
+
 use bitmaps::{Bitmap, Bits, BitsImpl, Iter as BitmapIter};
 
 use super::SparseChunk;
@@ -31,8 +33,27 @@ pub struct IterMut<'a, A, const N: usize>
 where
     BitsImpl<N>: Bits,
 {
-    pub(crate) bitmap: Bitmap<N>,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    bitmap: Bitmap<N>,
+    // A pointer, not a reference to the chunk: using or moving the latter would
+    // invalidate the references to its items already handed out.
+    values: *mut A,
+    phantom: PhantomData<&'a mut A>,
+}
+
+unsafe impl<'a, A: Send, const N: usize> Send for IterMut<'a, A, N> where BitsImpl<N>: Bits {}
+unsafe impl<'a, A: Sync, const N: usize> Sync for IterMut<'a, A, N> where BitsImpl<N>: Bits {}
+
+impl<'a, A, const N: usize> IterMut<'a, A, N>
+where
+    BitsImpl<N>: Bits,
+{
+    pub(crate) fn new(chunk: &'a mut SparseChunk<A, N>) -> Self {
+        Self {
+            bitmap: chunk.map,
+            values: chunk.data.as_mut_ptr().cast(),
+            phantom: PhantomData,
+        }
+    }
 }
 
 impl<'a, A, const N: usize> Iterator for IterMut<'a, A, N>
@@ -44,10 +65,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(index) = self.bitmap.first_index() {
             self.bitmap.set(index, false);
-            unsafe {
-                let p: *mut A = &mut self.chunk.values_mut()[index];
-                Some(&mut *p)
-            }
+            Some(unsafe { &mut *self.values.add(index) })
         } else {
             None
         }
@@ -129,8 +147,28 @@ pub struct OptionIterMut<'a, A, const N: usize>
 where
     BitsImpl<N>: Bits,
 {
-    pub(crate) index: usize,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    index: usize,
+    bitmap: Bitmap<N>,
+    // A pointer, not a reference to the chunk: see `IterMut`.
+    values: *mut A,
+    phantom: PhantomData<&'a mut A>,
+}
+
+unsafe impl<'a, A: Send, const N: usize> Send for OptionIterMut<'a, A, N> where BitsImpl<N>: Bits {}
+unsafe impl<'a, A: Sync, const N: usize> Sync for OptionIterMut<'a, A, N> where BitsImpl<N>: Bits {}
+
+impl<'a, A, const N: usize> OptionIterMut<'a, A, N>
+where
+    BitsImpl<N>: Bits,
+{
+    pub(crate) fn new(chunk: &'a mut SparseChunk<A, N>) -> Self {
+        Self {
+            index: 0,
+            bitmap: chunk.map,
+            values: chunk.data.as_mut_ptr().cast(),
+            phantom: PhantomData,
+        }
+    }
 }
 
 impl<'a, A, const N: usize> Iterator for OptionIterMut<'a, A, N>
@@ -141,11 +179,8 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.index < N {
-            let result = if self.chunk.map.get(self.index) {
-                unsafe {
-                    let p: *mut A = &mut self.chunk.values_mut()[self.index];
-                    Some(Some(&mut *p))
-                }
+            let result = if self.bitmap.get(self.index) {
+                Some(Some(unsafe { &mut *self.values.add(self.index) }))
             } else {
                 Some(None)
             };
diff --git a/src/sparse_chunk/mod.rs b/src/sparse_chunk/mod.rs
index b0ac43b..e913586 100644
--- a/src/sparse_chunk/mod.rs
+++ b/src/sparse_chunk/mod.rs
@@ -254,10 +254,7 @@ where
     /// Make an iterator of mutable references to the values contained in the
     /// array.
     pub fn iter_mut(&mut self) -> IterMut<'_, A, N> {
-        IterMut {
-            bitmap: self.map,
-            chunk: self,
-        }
+        IterMut::new(self)
     }
 
     /// Turn the chunk into an iterator over the values contained within it.
@@ -287,10 +284,7 @@ where
     /// Iterates over every index in the `SparseChunk`, from zero to its full capacity,
     /// returning an `Option<&mut A>` for each index.
     pub fn option_iter_mut(&mut self) -> OptionIterMut<'_, A, N> {
-        OptionIterMut {
-            chunk: self,
-            index: 0,
-        }
+        OptionIterMut::new(self)
     }
 
     /// Make a draining iterator of `Option's of the values contained in the array.
-- 
2.43.0


From fff0c277d73cec61308137f9386875502b8b812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 12/13] fix: Arbitrary size hints were too small and could
 overflow

An element takes one byte more than its own size (the byte that says
whether there is another element), and upper * CAPACITY overflowed for
InlineArray with zero-sized elements that report an upper bound.
---
 src/arbitrary.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..505fcf2 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -11,6 +11,13 @@ use crate::{Chunk, InlineArray, SparseChunk};
 #[cfg(feature = "ringbuffer")]
 use crate::RingBuffer;
 
+/// The most bytes it can take to build `capacity` elements which each take up
+/// to `upper` bytes: one byte is read before each element to decide whether
+/// there is one.
+fn upper_bound(upper: Option<usize>, capacity: usize) -> Option<usize> {
+    upper?.checked_add(1)?.checked_mul(capacity)
+}
+
 impl<'a, A, const N: usize> Arbitrary<'a> for Chunk<A, N>
 where
     A: Arbitrary<'a>,
@@ -27,7 +34,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -49,7 +56,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -71,7 +78,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -92,7 +99,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
-- 
2.43.0


From b7520b59ed622376e44ad5dc5faa6b8e1abb9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 13/13] fix: a RingBuffer without capacity must be usable as an
 empty buffer

Constructing one panicked in debug builds; in release builds iterating,
cloning or dropping one never ended.
---
 src/ring_buffer/index.rs | 7 ++++---
 src/ring_buffer/mod.rs   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..8c452fa 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,8 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        // Without any capacity, zero is the only index there is.
+        debug_assert!(index < N || (N == 0 && index == 0));
         RawIndex(index)
     }
 }
@@ -76,7 +77,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while N > 0 && result >= N {
             result -= N;
         }
         result.into()
@@ -87,7 +88,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while N > 0 && self.0 >= N {
             self.0 -= N;
         }
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index fe8b38a..15562f8 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -203,7 +203,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
                 self.mut_ptr(0.into()),
                 last_slice.len(),
             );
-        } else {
+        } else if count > 0 {
             core::ptr::copy_nonoverlapping(source.as_ptr(), self.mut_ptr(to), count)
         }
     }
-- 
2.43.0

