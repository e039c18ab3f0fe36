From f99dfe1a366b3d004fb997a3b5017fb05de324ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 1/2] fix: keep the stored maximum when a new minimum is
 inserted

Inserting a key below the minimum of a tree with two or more entries moved
the old minimum into the max slot and pushed the real maximum into the
subtrees (comparison arms swapped), so maximum, neighbour and lookup
answers were wrong afterwards.
---
 src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..e038286 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -525,8 +525,8 @@ where
                 let (k, v) = replace(&mut self.min, (k, v));
                 let (k, v) = match data.max.0.cmp(&k) {
                     Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
-                    Ordering::Greater => replace(&mut data.max, (k, v)),
-                    Ordering::Less => (k, v),
+                    Ordering::Less => replace(&mut data.max, (k, v)),
+                    Ordering::Greater => (k, v),
                 };
 
                 (k, v, data)
-- 
2.43.0


From 32aa83a36d01a90a8bf94a869963c516615a5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 2/2] fix: index non-negative signed keys inside the declared
 cardinality

The biased difference was computed in the signed type and sign-extended to
usize, so every non-negative i8, i16 or i32 got a huge index and
array-backed collections panicked.
---
 src/key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..c32ffe3 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0

