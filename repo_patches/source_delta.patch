From c9dc61477cc4bce6a810bdf1b358fc1dc974e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 1/6] fix: validate the position when inserting or replacing
 with nothing

try_insert_str, insert_str_truncate and replace_range skipped every check when
the range and the replacement were both empty, returning Ok for an index
inside a character or outside the string. In particular insert_str_truncate
on a full string accepted any in-bounds index instead of reporting Utf8.
---
 src/arraystring.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..77d9f60 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,9 +861,6 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
-- 
2.43.0


From 217fb5449d2983f893921ec848003b0c05ef59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 2/6] fix: honor width, fill, alignment and precision in
 Display

Display rebuilt the formatting arguments with a plain {}, dropping the
caller's format specification, so {:>10} did not pad as it does for str.
---
 src/implementations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations.rs b/src/implementations.rs
index 04f3daf..2502c49 100644
--- a/src/implementations.rs
+++ b/src/implementations.rs
@@ -227,7 +227,7 @@ where
     #[inline]
     #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{}", self.as_str())
+        Display::fmt(self.as_str(), f)
     }
 }
 
-- 
2.43.0


From a9eae6dd0aaf97631bdf6161a9ffd527d2ef2733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 3/6] fix: make SmallString the same size as String, as
 documented

A string occupies capacity + 1 bytes, so a capacity of 3 * size_of::<usize>()
made SmallString 25 bytes (13 on 32 bits) instead of the documented 24 (12).
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2750339..f2687ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ pub use crate::error::Error;
 /// 24 bytes in 64 bits architecture
 ///
 /// 12 bytes in 32 bits architecture
-pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 }>;
+pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 - 1 }>;
 
 /// Biggest `ArrayString<N>` supported (255 bytes of text)
 pub type MaxString = ArrayString<255>;
-- 
2.43.0


From c7caa0d4b09560ecfc6818c01b2a3d4ab7a276c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 4/6] fix: deserialize from any string input, not only borrowed
 text

Deserialize went through &str, which only accepts text the deserializer can
lend: JSON strings with escapes, readers and serde_json::Value all failed, so
serializing and deserializing a string with a quote or newline was an error.
---
 src/integration.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..6231f81 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -80,6 +80,8 @@ mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use core::fmt;
+    use serde::de::{self, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
     impl<const N: usize> Serialize for ArrayString<N>
@@ -100,7 +102,35 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(StrVisitor)
+        }
+    }
+
+    /// Accepts text the same way `String` does: borrowed, transient or owned, or as utf-8 bytes
+    struct StrVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for StrVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        #[inline]
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        #[inline]
+        fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(v))
+        }
+
+        #[inline]
+        fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(v) {
+                Ok(s) => self.visit_str(s),
+                Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From 3d70d01df47f31e68dfe9479456c678b476b77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 5/6] fix: index by an inclusive range that was iterated to its
 end as str does

---
 src/implementations.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/implementations.rs b/src/implementations.rs
index 2502c49..3f72dc2 100644
--- a/src/implementations.rs
+++ b/src/implementations.rs
@@ -305,6 +305,17 @@ where
     }
 }
 
+/// Widens the positions of a range, one that was iterated to its end stays used up (and empty)
+#[inline]
+fn widen(index: RangeInclusive<u8>) -> RangeInclusive<usize> {
+    let (start, end) = (*index.start() as usize, *index.end() as usize);
+    let mut range = RangeInclusive::new(start, end);
+    if start <= end && index.is_empty() {
+        let _ = range.nth(end - start);
+    }
+    range
+}
+
 impl<const N: usize> IndexMut<RangeFrom<u8>> for ArrayString<N>
 where
     Self: ValidCapacity,
@@ -367,9 +378,7 @@ where
 {
     #[inline]
     fn index_mut(&mut self, index: RangeInclusive<u8>) -> &mut str {
-        let (start, end) = (*index.start() as usize, *index.end() as usize);
-        let range = RangeInclusive::new(start, end);
-        self.as_mut_str().index_mut(range)
+        self.as_mut_str().index_mut(widen(index))
     }
 }
 
@@ -445,8 +454,6 @@ where
 
     #[inline]
     fn index(&self, index: RangeInclusive<u8>) -> &Self::Output {
-        let (start, end) = (*index.start() as usize, *index.end() as usize);
-        let range = RangeInclusive::new(start, end);
-        self.as_str().index(range)
+        self.as_str().index(widen(index))
     }
 }
-- 
2.43.0


From e286be8c04dbd5c91efd88188ed696e20e49fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 6/6] fix: do not read through a dangling pointer when loading
 from a database

---
 src/integration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/integration.rs b/src/integration.rs
index 6231f81..52b40b0 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -11,6 +11,9 @@ mod diesel_impl {
     #[cfg(feature = "std")]
     pub use std::io::Write;
 
+    extern crate alloc;
+    use alloc::string::String;
+
     pub use diesel::serialize::{self, Output, ToSql};
 
     pub use diesel::backend::Backend;
@@ -24,16 +27,15 @@ mod diesel_impl {
     impl<const N: usize, ST, DB> FromSql<ST, DB> for ArrayString<N>
     where
         DB: Backend,
-        *const str: FromSql<ST, DB>,
+        String: FromSql<ST, DB>,
         Self: ValidCapacity,
     {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn from_sql(bytes: RawValue<'_, DB>) -> deserialize::Result<Self> {
-            let ptr = <*const str as FromSql<ST, DB>>::from_sql(bytes)?;
-            // Safety: We know that the pointer impl will never return null. We copied diesel's implementation for String
-            debug_assert!(!ptr.is_null());
-            Ok(Self::from_str_truncate(unsafe { &*ptr }))
+            // `*const str` may dangle here: it is only valid while the consumed `bytes` live
+            let text = <String as FromSql<ST, DB>>::from_sql(bytes)?;
+            Ok(Self::from_str_truncate(&text))
         }
     }
     impl<const N: usize, DB> ToSql<Text, DB> for ArrayString<N>
@@ -52,7 +54,7 @@ mod diesel_impl {
     impl<ST, DB> FromSql<ST, DB> for CacheString
     where
         DB: Backend,
-        *const str: FromSql<ST, DB>,
+        String: FromSql<ST, DB>,
     {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
-- 
2.43.0

