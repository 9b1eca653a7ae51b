From 1caf4823837d3d8e06f70c9397ebc250c6b7f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 1/8] fix: Owned::leak dropped the value it returned a
 reference to

---
 varlen/src/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..2cf2f2b 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,7 +162,9 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
+        let mut ptr = self.0;
+        // The value now belongs to the returned reference; don't drop it here.
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From cc00858352e72e4334b8cf635e085a69415dedbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 2/8] fix: moving out of an Owned copied size() headers instead
 of size() bytes

---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 2cf2f2b..dc4c0dc 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -219,7 +219,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr() as *const u8,
+            dst.as_ptr() as *mut u8,
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From d42596c4b53b42e6905674f6f150740275fce44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 3/8] fix: Seq::take_elems left the offsets of the taken
 elements marked as valid

---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From 25a7ce02d672ac647dd3d1d42e7cdd681cc54bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 4/8] fix: Seq::push left the offset marked as valid when the
 initializer panicked

---
 varlen/src/seq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..73d11ba 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,8 +687,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
+            // Mark the offset only once the element exists: the initializer might panic.
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 5f26d70cb3c676f28dd71adbf863206d925a4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 5/8] fix: Seq of zero-size elements wrote its index out of
 bounds and never dropped the elements

---
 varlen/src/seq.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 73d11ba..114826a 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -481,9 +481,12 @@ unsafe fn add_bytes_fast<T: VarLen>(ptr: NonNull<T>, bytes: usize) -> NonNull<T>
     NonNull::new_unchecked((ptr.as_ptr() as *mut u8).wrapping_add(bytes) as *mut T)
 }
 
+/// Distance in bytes between an element of this size and the next one.
+///
+/// Zero-size elements occupy one offset, so that distinct elements have distinct offsets.
 #[inline(always)]
 fn round_up_fast(size: usize, align: usize) -> usize {
-    size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)
+    core::cmp::max(size, 1).wrapping_add(align - 1) & 0usize.wrapping_sub(align)
 }
 
 #[inline]
@@ -670,7 +673,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     fn try_push(&mut self, init: impl Initializer<T>) -> Result<(), OverflowError> {
         let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;
         let align = T::ALIGN;
-        let size_offsets = layout.size().checked_add(align - 1).ok_or(OverflowError)? / align;
+        // Must agree with `round_up_fast`.
+        let size = core::cmp::max(layout.size(), 1);
+        let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;
         let occupied_plus = self
             .occupied_offsets
             .checked_add(size_offsets)
-- 
2.43.0


From 8fe282045c35170a7f25dafcf7f711ac236dc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 6/8] fix: VBox::new wrote through null when the allocation
 failed

---
 varlen/src/vbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..4bcdec4 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -59,6 +59,9 @@ impl<T: VarLen> VBox<T> {
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
             let p = alloc::alloc(alloc_layout) as *mut T;
+            if p.is_null() {
+                alloc::handle_alloc_error(alloc_layout);
+            }
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
-- 
2.43.0


From e85736b51afc3e23cf4733e85ef667aecb0d7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 7/8] fix: VBox requested and freed zero-size allocations

---
 varlen/src/vbox.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index 4bcdec4..256ad88 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -58,7 +58,12 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = if alloc_layout.size() == 0 {
+                // The allocator must not be asked for zero-size storage.
+                T::ALIGN as *mut T
+            } else {
+                alloc::alloc(alloc_layout) as *mut T
+            };
             if p.is_null() {
                 alloc::handle_alloc_error(alloc_layout);
             }
@@ -153,7 +158,9 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            if alloc_layout.size() != 0 {
+                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            }
         }
     }
 }
@@ -191,7 +198,9 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        if size != 0 {
+            alloc::dealloc(ptr, layout);
+        }
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 19ff15e95908db7b193307b47e201cf24bdef4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 8/8] fix: generic define_varlen structs without default
 parameters compile

The header size was taken of the struct with its default type parameters,
which do not always exist.
---
 varlen_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..b7d0596 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -399,7 +399,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<#tyname>();
+                let size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
                 #(
                     let (#varlen_ident, #varlen_layout_ident, size) = #varlen_cat_field_cautious?;
                 )*
-- 
2.43.0

