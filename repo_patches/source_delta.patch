From 5a4e1ee8e63e28782e5ad73190ae8f7d3f6daaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 01/17] fix: DenseTree<_, 1>::remove read past the end of an
 empty branch

The only node of one-level tree is root, which get_branch() does not return.
---
 src/dense_tree.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..372637d 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -232,7 +232,12 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            let terminal_node = if DEPTH == 1 {
+                // `branch` does not contain root.
+                self.root
+            } else {
+                *branch.as_ref().last().unwrap_unchecked()
+            };
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -241,7 +246,8 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                if DEPTH != 1 /*don't touch root*/ 
+                && terminal_node.header().len() == 1 /* TODO: unlikely */ {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From 6f1b58ff7bd1e54cbdb42cc350d6a18a2c3c4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/17] fix: materialize of an empty non-exact tree unwrapped
 None

Root node must be created even without children.
---
 src/dense_tree/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..5818352 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -128,7 +128,7 @@ where
         Continue(())
     });
     
-    if childs.is_empty(){
+    if N::VALUE != 0 /*root must always exist*/ && childs.is_empty(){
         None
     } else {
         let empty_child = empty_node(n.inc(), L::LevelCount::default());
-- 
2.43.0


From 0b584c883b3334c74f93a15449d318d498455fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 03/17] fix: materialize of a non-exact tree kept empty
 terminal nodes

DenseTree claims EXACT_HIERARCHY, so it must not have bits for empty nodes.
---
 src/dense_tree/from.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 5818352..8f2a91d 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -110,6 +110,10 @@ where
     let mask = other_cursor.select_level_node_unchecked(other, n, index);
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
+        if N::VALUE != 0 /*root must always exist*/ && mask.is_zero() {
+            return None;
+        }
+        
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
-- 
2.43.0


From 8e37f27760e2f850a548acca6d596781297587cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 04/17] fix: NodePtr::from_parts did not count empty_child in
 node len

Later insert into/remove from such node lost its empty_child.
---
 src/dense_tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..a7d020e 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,7 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        addr_of_mut!((*node).len).write(cap); // childs + empty_child
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From 790e25d956b896efd4dc4e4bced8f9b13bb7059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 05/17] fix: MultiUnion cursor returned Some(empty iterator)
 for absent element

When terminal node was not empty, but had no element at requested index.
---
 src/ops/_multi_union.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..c4fbf90 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -134,6 +134,8 @@ where
         <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
     >,
     
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
+    
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -164,6 +166,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -218,6 +221,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
@@ -229,12 +236,13 @@ where
             todo!("TODO: compile-time special case for 1-level SparseHierarchy");
         }
         
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        if !self.terminal_node_mask.get_bit(level_index){
             return None;
         }
         
+        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
+                                   .last().unwrap_unchecked();
+        
         Some(CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
             cursors: &self.cursors,
-- 
2.43.0


From 5b9362184e929a5fb6cbad574a7200ae68a01d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 06/17] fix: iteration of MultiUnion of one-level trees hit
 todo!()

---
 src/ops/_multi_union.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index c4fbf90..a6c0742 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -118,6 +118,18 @@ where
 
 const N: usize = 32;
 type CursorIndex = u8;
+
+/// 0..N
+static ALL_STATES: [CursorIndex; N] = {
+    let mut states = [0; N];
+    let mut i = 0;
+    while i < N {
+        states[i] = i as CursorIndex;
+        i += 1;
+    }
+    states
+};
+
 type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, Iter>
@@ -183,13 +195,16 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask: <Self::Src as HibitTree>::LevelMask = BitBlock::zero();
         
         if N::VALUE == 0 {
             for (array, array_cursor) in self.cursors.iter_mut() {
                 let mask = array_cursor.select_level_node(array, level_n, level_index);
                 acc_mask |= mask;
             }            
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                self.terminal_node_mask = acc_mask.clone(); 
+            }
             return acc_mask;
         }
         
@@ -232,16 +247,16 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
         if !self.terminal_node_mask.get_bit(level_index){
             return None;
         }
         
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
+        let lvl_non_empty_states: &[CursorIndex] = if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+            // We don't store root states - use all.
+            &ALL_STATES[..self.cursors.len()]
+        } else {
+            self.lvls_non_empty_states.as_ref().last().unwrap_unchecked()
+        };
         
         Some(CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
-- 
2.43.0


From 8a1bcea4aee43fb60054493fda58b59487297a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 07/17] fix: MultiIntersection of zero trees reported every
 element as present

---
 src/ops/_multi_intersection.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..645e836 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -111,6 +111,9 @@ where
                     return None;
                 }
             }
+            if datas.is_empty() {
+                return None;
+            }
             
             Some(datas.into_iter())
         }
-- 
2.43.0


From d6f8f95548404841b1f370c1c652ac72d7472dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 08/17] fix: MultiIntersection cursor data() after
 select_level_node_unchecked

terminal_node_mask was updated only by the checked select.
---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 645e836..83ccd37 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -427,6 +427,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From 13603d98a49a3560c38d9666745b9f453b506606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 09/17] fix: width_256 SparseTree lost elements of full nodes

Indices are 1-based, so 256 children do not fit u8, and 256^2 do not fit u16.
---
 src/config.rs      | 4 +++-
 src/sparse_tree.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..926e120 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,9 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // Index 0 is reserved for the empty block/element, so to address all 256 children of root,
+    // and all 256^2 children of the first level, we need the next integer sizes.
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9394e78..ce6f17f 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -23,7 +23,8 @@ use crate::hibit_tree::{HibitTree, HibitTreeCursor};
 /// This means that array size equals to maximum children count (bitmask width).
 /// 
 /// To save memory, instead of traditional pointers, integer indices
-/// are used. Root level use u8 for indices, first level - u16, everything below - u32.
+/// are used. Root level use u8 for indices, first level - u16, everything below - u32
+/// (256-bit wide nodes: u16, u32 and u32 respectively).
 /// 
 /// It is slightly faster than [DenseTree], and can have wider nodes with 
 /// SIMD-accelerated bitmasks.
-- 
2.43.0


From a870f3982955634ff3a1ee131f17607afe3a0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 10/17] fix: index_range() overflowed for 256-bit 8-level trees

Saturate, as Index does.
---
 src/hibit_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..4652089 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,7 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From af3788a24d8aef5c70bf8580da6282bb6047e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 11/17] fix: panic in value's drop led to double drop on
 container drop

---
 src/dense_tree.rs  | 12 +++++++-----
 src/sparse_tree.rs |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 372637d..aac37b9 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -316,16 +316,18 @@ where
     
     #[inline]
     unsafe fn drop_impl(&mut self){
+        // drop node hierarchy
+        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>();
+        
         // drop values
+        let len = self.data.len();
+        // `data` must not drop anything by itself, even if value drop panics. 
+        self.data.set_len(0);
         let slice = ptr::slice_from_raw_parts_mut(
             self.data.as_mut_ptr().add(1), 
-            self.data.len() - 1
+            len - 1
         ); 
         ptr::drop_in_place(slice);
-        self.data.set_len(0);
-        
-        // drop node hierarchy
-        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>()         
     }
 }
 
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index ce6f17f..b571451 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -523,12 +523,14 @@ where
     unsafe fn drop_impl(&mut self){
         // Manually drop values, skipping first non-existent element, if necessary.
         let skip_first = !R::REQUIRED; 
+        let len = self.values.len();
+        // `values` must not drop anything by itself, even if value drop panics.
+        self.values.set_len(0);
         let slice = ptr::slice_from_raw_parts_mut(
             self.values.as_mut_ptr().add(skip_first as usize), 
-            self.values.len() - skip_first as usize
+            len - skip_first as usize
         ); 
         ptr::drop_in_place(slice);
-        self.values.set_len(0);
     }
 }
 
-- 
2.43.0


From ff2e60ae8f490f216c9f1d520211b60797d767d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 12/17] fix: panic in Data::default() dropped uninitialized
 value in SparseTree::default()

---
 src/sparse_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index b571451..004c34a 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -76,11 +76,11 @@ where
     #[inline]
     fn default() -> Self {
         let mut values: Vec<Data> = Vec::with_capacity(1);
-        unsafe{ values.set_len(1); }
         unsafe{
             <DefaultInitFor<Data, R> as DefaultInit>
             ::init_default(values.as_mut_ptr().cast());
         }
+        unsafe{ values.set_len(1); }
         
         Self{
             levels: Levels::default(),
-- 
2.43.0


From 4d1801bc903f207a87fe0fa20a47f950fcb6f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 13/17] fix: panic during materialize dropped uninitialized
 value

---
 src/dense_tree/from.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 8f2a91d..3d859a9 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -1,4 +1,5 @@
 use arrayvec::ArrayVec;
+use std::mem::ManuallyDrop;
 use std::ops::ControlFlow::Continue;
 
 use crate::const_utils::{ConstInteger, ConstUsize};
@@ -155,7 +156,8 @@ where
 {
     fn from_sparse_hierarchy(other: From) -> Self {
         let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);        
-        let mut data: Vec<T> = Vec::with_capacity(1);
+        // First item is uninitialized. Should not be dropped, if `other` panics.
+        let mut data: ManuallyDrop<Vec<T>> = ManuallyDrop::new(Vec::with_capacity(1));
         unsafe{ data.set_len(1); }
         
         let mut keys = vec![usize::MAX];
@@ -178,6 +180,6 @@ where
                 ).unwrap_unchecked()
             }
         };
-        Self{ root, data, keys }
+        Self{ root, data: ManuallyDrop::into_inner(data), keys }
     }
 }
\ No newline at end of file
-- 
2.43.0


From d331b55659c8b86a7cfe43d1262a51cd7cbe4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 14/17] fix: const_for/const_for_rev visited indices outside of
 from..to

---
 src/const_utils/const_int.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 1aff1bb..a531438 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -35,13 +35,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = self.dec().iterate_as_range(from, visitor);
         if ctrl.is_continue() {
-            if self.value() == from.value() {
-                Continue(())
-            } else {            
-                visitor.visit(self.dec())
-            }
+            visitor.visit(self.dec())
         } else {
             ctrl
         }
@@ -54,13 +53,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = visitor.visit(self.dec());
         if ctrl.is_continue(){
-            if self.value() == from.value() {
-                Continue(())
-            } else {
-                self.dec().iterate_as_range_rev(from, visitor)
-            }
+            self.dec().iterate_as_range_rev(from, visitor)
         } else {
             ctrl
         }
-- 
2.43.0


From be276be8ff1fbb47200c0ea66c4b84e293a7150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 15/17] fix: ConstInteger::sat_dec() was not saturating

---
 src/const_utils/const_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index a531438..383a01b 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -82,8 +82,8 @@ pub trait ConstInteger: ConstIntegerPrivate + Default + Copy + Eq + Debug + 'sta
     type SatDec: ConstInteger;
     /// Saturating decrement
     #[inline]
-    fn sat_dec(self) -> Self::Dec {
-        Self::Dec::default()
+    fn sat_dec(self) -> Self::SatDec {
+        Self::SatDec::default()
     }
     
     type Dec: ConstInteger;
-- 
2.43.0


From ccace19329226535eeb5928f2ce7c57a7f4014a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 16/17] fix: multi_intersection's unchecked data is exact-sized
 only if its source iterator is

---
 src/ops/_multi_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 83ccd37..85138a4 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -314,7 +314,7 @@ where
 
 impl<'item, Iter, T> ExactSizeIterator for DataUnchecked<Iter>
 where
-    Iter: Iterator<Item = &'item T> + Clone,
+    Iter: ExactSizeIterator<Item = &'item T> + Clone,
     T: HibitTree + 'item,
 {}
 
-- 
2.43.0


From 25e0d2e1345f494efc2a43f21ab80840d39433e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 17/17] fix: DenseTree did not compile with feature may_dangle

---
 src/dense_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index aac37b9..71f11dc 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -332,7 +332,10 @@ where
 }
 
 #[cfg(feature = "may_dangle")]
-unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH> {
+unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH>
+where
+    ConstUsize<DEPTH>: ConstInteger
+{
     #[inline]
     fn drop(&mut self) {
         unsafe{ self.drop_impl(); }
-- 
2.43.0

