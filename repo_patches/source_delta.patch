From 84b2076218ea6a2ffe6b63448666c72df410ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 01/20] fix: oversized consume and slice requests no longer
 overflow the bounds test

---
 src/internal/offset.rs | 2 +-
 src/parse/buffer.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..e0aec4c 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = self.0 <= lim && n <= lim - self.0;
         if is_valid {
             self.0 += n;
         }
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..a56ea78 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
-- 
2.43.0


From fffe758787ce001d80ba5919e230efa1649febd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 02/20] fix: an oversized window request is reported instead of
 overflowing

---
 src/internal/offset.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index e0aec4c..c9b1195 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -291,15 +291,15 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
+        let bytes_left = self.abs - cur;
+        if winsize > bytes_left {
             let request = winsize;
             Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
                 request,
             }))
         } else {
+            let new_tgt: usize = cur + winsize;
             self.frames.push_frame(new_tgt)
         }
     }
-- 
2.43.0


From e13291c11b193dc0478e4be9f73624638f715a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 03/20] fix: a window that cannot be closed yet stays open

---
 src/internal/offset.rs | 7 +++++--
 src/parse/mod.rs       | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index c9b1195..294a303 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -353,10 +353,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    let _ = self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..0f3ac25 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -804,10 +804,12 @@ pub mod byteparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
@@ -995,10 +997,12 @@ pub mod memoparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 2b469763a1ac34f31b8bf2f9219ad12bfb96515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 04/20] fix: SliceParser no longer treats its whole buffer as
 an open window

---
 src/internal/view.rs |  9 +++++++++
 src/parse/mod.rs     | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..c896ef0 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,15 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl ViewStack<'_> {
+    /// Number of views on the stack, of which the bottom-most one is the buffer
+    /// itself and every other one a window opened over it.
+    #[inline]
+    pub(crate) fn depth(&self) -> usize {
+        self.0.len()
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 0f3ac25..04b60bc 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1171,22 +1171,24 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
+            match self.view_stack.peek() {
+                Some(t) if self.view_stack.depth() > 1 => Ok(t.is_empty()),
+                _ => Ok(false),
             }
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
+            match self.view_stack.peek() {
+                Some(_frame) if self.view_stack.depth() > 1 => match _frame.len() {
+                    0 => {
+                        let _ = self.view_stack.pop();
+                        Ok(())
+                    }
                     residual => Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual,
                     })),
                 },
+                _ => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             }
         }
 
-- 
2.43.0


From 70fcaa6f25fbf0026fed5c13ab43aa8256e463c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 05/20] fix: VecBuffer::get_byte rejects the index one past the
 end

---
 src/parse/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a56ea78..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 4fff037743b1aa6ef1633c1953fda91661a7c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 06/20] fix: MemoParser::skip_exactly records the bytes it
 skips

---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 04b60bc..badbd8a 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1027,6 +1027,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From aefc987d8e6434ba54eb3ee420a0ce3a8dd58679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 07/20] fix: an out-of-range u30 length prefix is a parse error
 rather than a panic

---
 src/dynamic.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..7ce9213 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
             let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let _ = crate::int::u30::try_from_i32(raw)?;
+            Ok(raw as usize)
         }
     }
 }
-- 
2.43.0


From 89281b06e9c3293659c97b670dc6539dce3f2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 08/20] fix: LeftoverState::append moves the bytes out of its
 argument in every case

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index badbd8a..0e5aec5 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
-- 
2.43.0


From 4623cb4e8a695dcd3512cdf055c717d0a47b2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 09/20] fix: leftover windows without bytes count as empty

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 0e5aec5..f34a510 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From 8839b637ef5b874f48f368a3d357f22dd16f0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 10/20] fix: RangedInt::try_from_i32 reports values far below a
 positive MIN instead of overflowing

---
 src/int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..6ff3df8 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,7 +268,7 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
+        let underlying: i64 = x as i64 - if MIN <= 0 { 0 } else { MIN as i64 };
         match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
-- 
2.43.0


From 03ddf7fc1d431a19817f7d9f25994a445c039f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 11/20] fix: RangedInt conversions from primitives measure the
 offset from a positive MIN

---
 src/int.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 6ff3df8..264c7e1 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -460,10 +460,10 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
-                        Err(e) => Err(e)
-                    }
+                    // only the offset from a positive MIN is stored
+                    let underlying = i128::try_from(val)? - i128::from(MIN.max(0));
+                    let underlying = BoundsError::restrict(underlying, MIN, MAX)?;
+                    Ok(Self(<$backer>::try_from(underlying)?))
                 }
             }
             )+
-- 
2.43.0


From 84bebdcac8bb2f8b7dc45258fe3205172d92d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 12/20] fix: default, least and greatest RangedInt store the
 offset from a positive MIN

---
 src/int.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 264c7e1..ab997d3 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -378,7 +378,9 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN > 0 {
+                        return Self(0);
+                    }
                     Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
                 }
             }
@@ -404,14 +406,18 @@ pub mod ranged_int_impls {
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN_I32 > 0 {
+                        return Self(0);
+                    }
                     Self(Self::MIN)
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                    if MIN_I32 > 0 {
+                        return Self((MAX_I32 - MIN_I32) as $t);
+                    }
                     Self(Self::MAX)
                 }
             }
-- 
2.43.0


From d41655f5492f42f56f181420d4e53f6db67fba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 13/20] fix: collecting or extending a bounded sequence keeps
 every element

---
 src/seq/fix.rs | 10 ++++------
 src/seq/lim.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..a0aaa71 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -165,11 +165,10 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -185,11 +184,10 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..9030d07 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -199,11 +199,10 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -219,11 +218,10 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From 1add08728733b650e7c4a9f566efcd05a6fe3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 14/20] fix: encoding a bounded sequence enforces its length

---
 src/seq/fix.rs | 1 +
 src/seq/lim.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index a0aaa71..7f43669 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -267,6 +267,7 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert_eq!(self.len(), N, "cannot encode FixSeq of the wrong length");
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 9030d07..107dc13 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -287,6 +287,7 @@ impl<T: Estimable, const N: usize> Estimable for LimSeq<T, N> {
 
 impl<T: Encode, const N: usize> Encode for LimSeq<T, N> {
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(self.len() <= N, "cannot encode oversaturated LimSeq");
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From 7c027fcc5278df5f62677512edc3abafaf356c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 15/20] fix: deriving FixedLength for a tuple struct produces
 valid code

---
 estimable_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimable_derive/src/lib.rs b/estimable_derive/src/lib.rs
index 872e68f..710302d 100644
--- a/estimable_derive/src/lib.rs
+++ b/estimable_derive/src/lib.rs
@@ -38,8 +38,8 @@ fn impl_fixedlength(ast: &syn::DeriveInput) -> TokenStream {
                     quote! {
                     impl #fixed_len_trait for #name {
                         const LEN : usize =
-                            #( <#ty as #fixed_len_trait>::LEN )+*
-                        };
+                            #( <#ty as #fixed_len_trait>::LEN )+*;
+                        }
                     }
                 }
             },
-- 
2.43.0


From c256c8eaca8fa4f0b9d9dfe6042b5e585a48cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 16/20] fix: hex decoding accepts only hexadecimal digits and
 never splits a character

---
 src/hexstring.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..66238fa 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,15 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Value of the byte spelled by two characters, given as bytes of a string,
+    /// provided that both are (case-insensitive) hexadecimal digits.
+    #[inline]
+    fn byte_of_hex(hi: u8, lo: u8) -> Option<u8> {
+        let hi = char::from(hi).to_digit(16)?;
+        let lo = char::from(lo).to_digit(16)?;
+        Some((hi * 16 + lo) as u8)
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -139,11 +148,12 @@ pub(crate) mod util {
         let bytes_len: usize = ascii_len / 2;
 
         let mut dst = Vec::with_capacity(bytes_len);
+        let digits = src.as_bytes();
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+            match byte_of_hex(digits[ix * 2], digits[ix * 2 + 1]) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -170,9 +180,11 @@ pub(crate) mod util {
             return false;
         }
 
+        let digits = src.as_bytes();
+
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
+            match byte_of_hex(digits[ix * 2], digits[ix * 2 + 1]) {
+                Some(byte) if byte == tgt[ix] => continue,
                 _ => return false,
             }
         }
-- 
2.43.0


From 7be03bd0e5901c95d848a9674b62c4a4a58f3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 17/20] fix: length estimate of the zarith natural zero is the
 one byte it is encoded as

---
 src/zarith.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..950f56a 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -106,7 +106,8 @@ pub mod n {
 
         fn unknown(&self) -> usize {
             let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            // zero has no significant bits, but is still encoded as one byte
+            Integer::div_ceil(&n, &7).max(1)
         }
     }
 
-- 
2.43.0


From 0a33625dead52fd58fd207927eb4c711e010a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 18/20] fix: a virtually padded value with too little input is
 a parse error rather than a panic

---
 src/dynamic.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 7ce9213..53da70c 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,7 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
-use crate::parse::{ParseResult, Parser};
+use crate::parse::{error::WindowError, ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
 use std::fmt::{Debug, Display};
@@ -466,16 +466,16 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
     where
         Self: Sized,
     {
-        let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
-        p.set_fit(_rem - N)?;
+        let rem = p.remainder();
+        if rem < N {
+            return Err(WindowError::ConsumeWouldExceedLimit {
+                offset: p.offset(),
+                requested: N,
+                limit: p.view_len(),
+            }
+            .into());
+        }
+        p.set_fit(rem - N)?;
         let ret = T::parse(p)?;
         p.enforce_target()?;
         Ok(Self(ret))
-- 
2.43.0


From cf59316e13c4f3eebe8a99e5de3576b3532519a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:58 +0000
Subject: [PATCH 19/20] fix: make the crate compile with the expose_internal
 feature

'pub use crate::internal' clashed with the private module of the same name
(E0255, E0365); declare the module public under the feature instead.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a311c8..3229811 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,7 +68,10 @@ pub mod fixed;
 pub mod float;
 pub mod hexstring;
 pub mod int;
+#[cfg(not(feature = "expose_internal"))]
 mod internal;
+#[cfg(feature = "expose_internal")]
+pub mod internal;
 pub mod parse;
 pub mod prelude;
 pub mod prim;
@@ -76,9 +79,6 @@ pub mod schema;
 pub mod seq;
 pub mod zarith;
 
-#[cfg(feature = "expose_internal")]
-pub use crate::internal;
-
 pub use crate::autobox::AutoBox;
 pub use crate::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
 pub use crate::conv::{
-- 
2.43.0


From 8308bca1ccabbe4fed607d4364f76ff054dc0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 20/20] fix: show a MemoBuffer grouped by span, as the
 MemoBuilder it came from

---
 src/builder/memo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder/memo.rs b/src/builder/memo.rs
index 0860090..423d493 100644
--- a/src/builder/memo.rs
+++ b/src/builder/memo.rs
@@ -117,8 +117,9 @@ impl std::fmt::Display for MemoBuffer {
         let mut ix: usize = 0;
         for l in self.lens.iter() {
             for &byte in &buf[ix..ix + l] {
-                write!(f, "{byte:02x}|")?
+                write!(f, "{byte:02x}")?
             }
+            write!(f, "|")?;
             ix += l;
         }
         write!(f, "]")
-- 
2.43.0

