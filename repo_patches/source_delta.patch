From 8b9b256203a95a5d6b2171b41faca495774edd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 01/34] fix: keep the type tag of inline strings and data in
 narrow collections

Clearing bit 6 of the first byte turned 0- and 1-byte strings (and keys) into shorts and data into ints.
---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..3381822 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -608,7 +608,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From 015fc3f17c5cd67c78f72c72e153b69f1dcc3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 02/34] fix: encode signed integers outside of the short range

The range check was always true, so every i64 was truncated to 16 bits (or recursed forever), and
the size was computed from the wrong end of the integer.
---
 src/encoder/encodable.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 3381822..aaaf711 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,20 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
+        // One bit is needed for the sign, and all of the leading bits which repeat it can be dropped.
+        let sign_bits = if *self >= 0 {
+            self.leading_zeros()
         } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+            self.leading_ones()
+        };
+        1 + (64 - sign_bits as usize) / 8 + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From 4d5f80f7264223f3b6345dd42dded18229c1da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 03/34] fix: compute the size of unsigned integers from their
 leading zeros

The bytes are little-endian, so dropping as many bytes as there are trailing zeros loses the high bytes.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index aaaf711..ed8b9e7 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -90,8 +90,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let leading_zeros = self.leading_zeros() / 8;
+            8 - leading_zeros as usize + 1
         }
     }
 
-- 
2.43.0


From 921cb4df797ba21b79a54f0cfea715c2c9ed278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 04/34] fix: report the real size of 16-bit integers which do
 not fit a short

The encoder reserved 2 bytes for them and then panicked.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ed8b9e7..1050fe5 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -245,7 +245,7 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        u64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
@@ -272,7 +272,7 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        i64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
-- 
2.43.0


From 2aba21dee364559905b814c42c9179bb921d14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 05/34] fix: sign-extend signed integers stored in fewer than 8
 bytes

---
 src/value/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..f2e5611 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -274,6 +274,10 @@ impl Value {
                         count,
                     );
                 }
+                // Signed integers are stored without the bytes which only repeat the sign.
+                if self.value_type() == ValueType::Int && buf[count - 1] & 0x80 != 0 {
+                    buf[count..].fill(0xFF);
+                }
                 i64::from_le_bytes(buf)
             }
             ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i64,
-- 
2.43.0


From 82eefd066a5297b89bea16dbc089c6a87a5b16a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 06/34] fix: convert unsigned integers to double without going
 through i64

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index f2e5611..2b10dcd 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -305,6 +305,7 @@ impl Value {
                 buf.copy_from_slice(&self.bytes[2..10]);
                 f64::from_le_bytes(buf)
             }
+            ValueType::UnsignedInt => self.to_unsigned_int() as f64,
             _ => self.to_int() as f64,
         }
     }
-- 
2.43.0


From d3f068f518cd47a8989e65deaa0e566aa8bc5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 07/34] fix: to_bool of unsigned zero and of fractions between
 -1 and 1

---
 src/value/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 2b10dcd..4a8b533 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -209,9 +209,10 @@ impl Value {
             ValueType::False => false,
             ValueType::Short
             | ValueType::Int
+            | ValueType::UnsignedInt
             | ValueType::Float
             | ValueType::Double32
-            | ValueType::Double64 => self.to_int() != 0,
+            | ValueType::Double64 => self.to_double() != 0.0,
             _ => true,
         }
     }
-- 
2.43.0


From 11c318943bb8fc7a2275a60ed4c05b6184630c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 08/34] fix: Array::get must return None for index == len

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From af223ebc4eb73a83460d282aa4a6ec6650c65593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/34] fix: decide the width of a collection from the
 distances its pointers will really have

The distances were measured from the start of the collection instead of from each element (and, for
dict keys, from the start of the output), so a pointer which no longer fits in 2 bytes could be
written as 4 bytes into a narrow collection, corrupting every element after it.
---
 src/encoder/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..9a460c8 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,14 @@ impl Encoder {
             unreachable!()
         };
 
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -423,28 +423,30 @@ impl Encoder {
     }
 
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let mut len = self._elements_start(array);
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            len += 2;
         }
         false
     }
 
     // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut len = self._elements_start(dict);
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if len - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
@@ -453,6 +455,11 @@ impl Encoder {
         false
     }
 
+    /// The position of the first element of a collection, if its header were written now.
+    fn _elements_start<T: Encodable>(&self, collection: &T) -> usize {
+        (self.out.len() + collection.fleece_size()).next_multiple_of(2)
+    }
+
     fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) {
         #[allow(clippy::cast_possible_truncation)]
         let mut len = self.out.len() as u32;
-- 
2.43.0


From e70834194cdc9f0eb3cde116a28ec82f5f76b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 10/34] fix: a rejected end_array must not discard the open
 dict

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 9a460c8..3175932 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,8 +196,12 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
-        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+        // Can only end an array if the top collection is an array
+        if !matches!(self.collection_stack.top(), Some(Collection::Array(_))) {
             return Err(EncodeError::ArrayNotOpen);
+        }
+        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+            unreachable!()
         };
         let is_wide = self._array_should_be_wide(&array);
 
-- 
2.43.0


From f5e13576137b43f1353fbb012db649e91ea543cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 11/34] fix: a rejected write_key must not write to the output

After the top-level collection is closed, the bytes of the rejected key followed the root pointer
and made the finished data undecodable.
---
 src/encoder/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 3175932..01117bc 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -383,9 +383,16 @@ impl Encoder {
 
     fn _write_key_pointer(&mut self, key: &str) -> Result<()> {
         // If we don't have shared keys, write the key to the output buffer and add a pointer to it in the Dict
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_some() => {
+                return Err(EncodeError::DictWaitingForValue)
+            }
+            Some(Collection::Dict(_)) => (),
+            _ => return Err(EncodeError::DictNotOpen),
+        }
         let offset = self._write(key, false, false);
         let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
-            return Err(EncodeError::DictNotOpen);
+            unreachable!()
         };
         dict.push_key(DictKey::Pointer(key.into(), offset))
             .ok_or(EncodeError::DictWaitingForValue)
-- 
2.43.0


From 22260b6d8b2e6c5090a9f5396a0a01d419b89ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 12/34] fix: a key must not be mistaken for the shared key it
 is an extension of

Keys were silently truncated to 15 bytes, both when inserted and when looked up.
---
 src/shared_keys.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..830119d 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,8 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// A `zstr<N>` holds at most N - 1 bytes, so this has to be one more than `MAX_KEY_LEN`.
+pub struct SharedKeys(folklore::HashMap<zstr<17>, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -30,6 +31,10 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        // `zstr` truncates longer keys and stops at NUL, so those would be mistaken for another key.
+        if string_key.len() > Self::MAX_KEY_LEN as usize || string_key.contains('\0') {
+            return None;
+        }
         self.0.get(&zstr::make(string_key))
     }
 
@@ -133,7 +138,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, zstr<17>, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From 11d0d99ccd294d3ba4802f0d6f7065563f087b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 13/34] fix: keep encoding the existing shared keys when the
 table is full

The key was written as a string instead, but a lookup encodes it to its shared key, so it was not found.
---
 src/shared_keys.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 830119d..2e562b4 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -41,13 +41,13 @@ impl SharedKeys {
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
         let key = zstr::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
         if !self.0.insert(key, index) {
             return None;
-- 
2.43.0


From 56fdd6604fbb3573cdf8e1780c805fe8ed0473e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 14/34] fix: encode a 1-character key which is already in the
 shared keys

It was inlined as a string, but a lookup encodes it to its shared key, so it was not found.
---
 src/encoder/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 01117bc..58c318b 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -86,8 +86,12 @@ impl Encoder {
     /// - If the last item pushed to the Dict was a key (it is waiting for a value).
     /// - I/O errors related to writing to this Encoder's writer.
     pub fn write_key(&mut self, key: &str) -> Result<()> {
-        if let Some(val) = key.to_sized_value() {
-            // Keys which are small enough are inlined.
+        let is_shared = self
+            .shared_keys
+            .as_ref()
+            .is_some_and(|shared_keys| shared_keys.encode(key).is_some());
+        if let (Some(val), false) = (key.to_sized_value(), is_shared) {
+            // Keys which are small enough are inlined, unless a lookup will encode them.
             self._write_key_inline(val)
         } else {
             // Other keys are written either as a pointer or using SharedKeys, if available.
-- 
2.43.0


From 09df45eab5ae03b6ad213995a3ef7f39caecdcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 15/34] fix: reject a shared keys state which contains
 something else than strings

---
 src/shared_keys.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 2e562b4..622e4c8 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -85,7 +85,9 @@ impl SharedKeys {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
         for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
+            if val.value_type() != ValueType::String {
+                return None;
+            }
             let borrowed_key = val.to_str();
             shared_keys.encode_and_insert(borrowed_key)?;
         }
-- 
2.43.0


From 4067ddac20a85f3fba4bde9bbe5d2f881b6bb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 16/34] fix: a Scope over empty data must not poison the global
 scope map

---
 src/scope.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..94546fc 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -65,7 +65,7 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             scope_map.remove(range);
         }
     }
@@ -91,7 +91,10 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // Empty data can't contain any value, and a `RangeMap` panics on empty ranges.
+        if start < end {
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From 7ad467230946840e966d442ef96701fc79086911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 17/34] fix: reading a varint longer than 64 bits must fail
 instead of overflowing the shift

---
 src/value/varint.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..0f86a85 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,18 +12,18 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
             res |= u64::from(*byte & 0x7F) << shift;
             shift += 7;
         } else {
-            res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // Make sure the varint fits in 64 bits, only the lowest bit of the last byte does
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
+            res |= u64::from(*byte) << shift;
             return (i + 2, res);
         }
     }
-- 
2.43.0


From 064739675f35b0dbd15f7f19c84333497d40a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 18/34] fix: reject external pointers in validation instead of
 panicking

---
 src/value/pointer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..3c31f3b 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -39,7 +39,12 @@ impl Pointer {
         // Is this pointer external to the source data?
         if self.value.bytes[0] & 0x40 != 0 {
             // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
+            // External pointers are not supported, there is no data for them to point to.
+            return Err(DecodeError::PointerTargetOutOfBounds {
+                data_start: data_start as usize,
+                target: target_ptr as usize,
+                offset,
+            });
             // If the pointer isn't external, it should fit within the source data
         } else if target_ptr < data_start {
             return Err(DecodeError::PointerTargetOutOfBounds {
-- 
2.43.0


From 5cb6213cd7baa24d6fd1d3d1119e9af5803eecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 19/34] fix: check that a pointer target is in bounds before
 computing it

Computing a pointer outside of the allocation is undefined behaviour, and may wrap around.
---
 src/value/pointer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 3c31f3b..7c52c00 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -32,9 +32,9 @@ impl Pointer {
             return Err(DecodeError::PointerOffsetZero);
         }
 
-        // First get the pointer given by offset, so we can validate before de-referencing
-        #[allow(clippy::cast_possible_wrap)]
-        let target_ptr = unsafe { self.offset(-(offset as isize)) };
+        // First get the address given by offset, so we can validate before de-referencing
+        let address = self.value.bytes.as_ptr() as usize;
+        let target_address = address.wrapping_sub(offset as usize);
 
         // Is this pointer external to the source data?
         if self.value.bytes[0] & 0x40 != 0 {
@@ -42,18 +42,20 @@ impl Pointer {
             // External pointers are not supported, there is no data for them to point to.
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
-                target: target_ptr as usize,
+                target: target_address,
                 offset,
             });
             // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        } else if offset as usize > address - data_start as usize {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
-                target: target_ptr as usize,
+                target: target_address,
                 offset,
             });
         }
 
+        #[allow(clippy::cast_possible_wrap)]
+        let target_ptr = unsafe { self.offset(-(offset as isize)) };
         let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
 
         if target.value_type() == ValueType::Pointer {
-- 
2.43.0


From 774a4596a021ec58646c24b19aad10d5a275929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 20/34] fix: strings larger than the data must be rejected in
 validation

The size was taken by slicing the string out of the data, which panics if it does not fit, or overflows.
---
 src/value/mod.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 4a8b533..463db28 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -393,15 +393,14 @@ impl Value {
             _ => {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
-                if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
-                {
+                let available_size = data_end as usize - self.bytes.as_ptr() as usize;
+                if IS_ARR_ELEM || self.required_size() <= available_size {
                     Ok(())
                 } else {
                     Err(DecodeError::ValueOutOfBounds {
                         value_type: self.value_type(),
                         required_size: self.required_size(),
-                        available_size: data_end as usize - self.bytes.as_ptr() as usize,
+                        available_size,
                     })
                 }
             }
@@ -422,14 +421,16 @@ impl Value {
             ValueType::UnsignedInt | ValueType::Int => 2 + (self.bytes[0] & 0x07) as usize,
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
-            ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
-                }
-            }
+            // This may not be validated yet, so the size in the header can't be trusted.
+            ValueType::String | ValueType::Data => match self.bytes[0] & 0x0F {
+                0x0F => match varint::read(&self.bytes[1..]) {
+                    (0, _) => 2,
+                    (read, size) => {
+                        (1 + read).saturating_add(usize::try_from(size).unwrap_or(usize::MAX))
+                    }
+                },
+                inline_size => 2.max(1 + inline_size as usize),
+            },
             // TODO: This is not correct for MutableArray / MutableDict
             ValueType::Array | ValueType::Dict => 2,
             // Pointers are 2 or 4 bytes, depending on context
-- 
2.43.0


From 469a4e27310fe81f75846febd75e76841452005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 21/34] fix: validate values against the end of the slice they
 are read from

A value which overlaps the pointer to it was accepted, but panicked when it was read.
---
 src/value/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 463db28..c2f9a99 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -139,7 +139,8 @@ impl Value {
     pub fn from_bytes(data: &[u8]) -> Result<&Self> {
         let root = Self::_find_root(data)?;
         let data_start = data.as_ptr();
-        let data_end = unsafe { data_start.add(data.len()) };
+        // The root value ends where the pointer to it begins.
+        let data_end = root.bytes.as_ptr_range().end;
         // wide parameter doesn't matter here, as it's only used for pointers, and find_root will
         // never return a pointer.
         root._validate::<false>(false, data_start, data_end)?;
@@ -388,7 +389,8 @@ impl Value {
             }
             ValueType::Pointer => {
                 let target = Pointer::from_value(self).deref_checked(is_wide, data_start)?;
-                target._validate::<false>(is_wide, data_start, self.bytes.as_ptr())
+                // The target ends where the (last) pointer to it begins.
+                target._validate::<false>(is_wide, data_start, target.bytes.as_ptr_range().end)
             }
             _ => {
                 // We don't need to validate that array elements fit within the data, as
-- 
2.43.0


From c96e58be9d509fc83b5f217d397f270f346ad429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 22/34] fix: an element count which overflows must be rejected
 in validation

---
 src/value/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..68ac60c 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -182,8 +182,8 @@ impl Array {
         let elem_count = self.len();
 
         let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let available_size = (data_end as usize).saturating_sub(first as usize);
+        if elem_count > available_size / width {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
-- 
2.43.0


From 36ec5bfb558e0c693e10d9bd4da147a9283bbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 23/34] fix: looking up a key must not panic on a dict with
 keys which are not strings

---
 src/value/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index c2f9a99..48c103c 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -441,10 +441,6 @@ impl Value {
     }
 
     pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
         let value_type2 = value2.value_type();
         match (value1, value_type2) {
             // Inline strings
@@ -464,7 +460,9 @@ impl Value {
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
             (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            // Validation doesn't look at the types of keys. Other types are not equal to any string,
+            // and are treated as an empty one.
+            (dict::Key::String(key), _) => (*key).cmp("").then(Ordering::Greater),
         }
     }
 
-- 
2.43.0


From f757f6c0f49ef2d18c4e29461c5a610e1efb0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 24/34] fix: deserialize newtype structs

They are serialized as their inner value, but were not accepted back for most inner types.
---
 src/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..6188237 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,6 +205,13 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         self.deserialize_map(visitor)
     }
 
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -229,7 +236,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 8adb48d292cd44ecaae727d7e300e240aec13017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 25/34] fix: deserialize unit structs

They are serialized as Null, which was only accepted back as an Option.
---
 src/de.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6188237..b72a212 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,6 +205,24 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         self.deserialize_map(visitor)
     }
 
+    // The unit is serialized as Undefined, and unit structs as Null.
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        match self.value.value_type() {
+            ValueType::Null | ValueType::Undefined => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_unit(visitor)
+    }
+
     fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -236,7 +254,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct str tuple_struct identifier ignored_any
+        str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 5d542f5d85f6e3f38633761c235213de170c7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 26/34] fix: the size_hint of a partially consumed MutableArray
 iterator

---
 src/mutable/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..93139be 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,7 +196,7 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
+        let len = self.arr.len().saturating_sub(self.index);
         (len, Some(len))
     }
 }
-- 
2.43.0


From 834c6b0177da62eb4aa72ae9709b361c0b4696a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 27/34] fix: arrays nested in arrays in the fleece! macro

begin_array was called without its capacity, so they did not compile.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd412e6..f4ac2f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ macro_rules! fleece {
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
-        unsafe { $encoder.begin_array().unwrap_unchecked() };
+        unsafe { $encoder.begin_array(10).unwrap_unchecked() };
         $(fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
-- 
2.43.0


From 13e8b3f552f4ef791a01d4d80c35c392a61d4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 28/34] fix: a long chain of pointers must not overflow the
 stack

---
 src/value/pointer.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 7c52c00..1ea2527 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -20,6 +20,15 @@ impl Pointer {
     }
 
     pub(crate) fn deref_checked(&self, wide: bool, data_start: *const u8) -> Result<&Value> {
+        let mut target = self.deref_once_checked(wide, data_start)?;
+        // Not recursive, because the length of a chain of pointers is only limited by the data
+        while target.value_type() == ValueType::Pointer {
+            target = Pointer::from_value(target).deref_once_checked(true, data_start)?;
+        }
+        Ok(target)
+    }
+
+    fn deref_once_checked(&self, wide: bool, data_start: *const u8) -> Result<&Value> {
         if (wide && self.value.bytes.len() < 4) || self.value.bytes.len() < 2 {
             return Err(DecodeError::PointerTooSmall {
                 actual: self.value.bytes.len(),
@@ -56,30 +65,28 @@ impl Pointer {
 
         #[allow(clippy::cast_possible_wrap)]
         let target_ptr = unsafe { self.offset(-(offset as isize)) };
-        let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
-
-        if target.value_type() == ValueType::Pointer {
-            return Pointer::from_value(target).deref_checked(true, data_start);
-        }
-        Ok(target)
+        Ok(unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) })
     }
 
     /// Dereferences the pointer, returning the value it points to.
     /// # Safety
     /// The data should be validated before calling this function.
     pub(crate) unsafe fn deref_unchecked(&self, wide: bool) -> &Value {
+        let mut target = self.deref_once_unchecked(wide);
+        while target.value_type() == ValueType::Pointer {
+            target = Pointer::from_value(target).deref_once_unchecked(true);
+        }
+        target
+    }
+
+    unsafe fn deref_once_unchecked(&self, wide: bool) -> &Value {
         let offset = unsafe { self.get_offset(wide) };
         debug_assert_ne!(offset, 0);
 
         #[allow(clippy::cast_possible_wrap)]
         let target_ptr = self.offset(-(offset as isize));
 
-        let target = Value::_from_raw_unchecked(target_ptr, offset as usize);
-
-        if target.value_type() == ValueType::Pointer {
-            return Pointer::from_value(target).deref_unchecked(true);
-        }
-        target
+        Value::_from_raw_unchecked(target_ptr, offset as usize)
     }
 
     #[inline]
-- 
2.43.0


From c03c76972d3c4e17e1af9b7bc291459a55c96760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 29/34] fix: look up an inlined key which has entered the
 shared keys since

The encoder inlines keys of up to 1 byte which are not in the shared keys. Once such a key was
added to the table, lookups only tried its shared key, and did not find it in older documents.
---
 src/value/dict.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..1e5664a 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,10 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
+        let key = key.borrow();
 
-        self._get(&key)
+        self._get(&self.encode_key(key, None))
+            .or_else(|| self._get_inline(key))
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +102,20 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        let key = key.borrow();
 
-        self._get(&key)
+        self._get(&self.encode_key(key, Some(shared_keys)))
+            .or_else(|| self._get_inline(key))
+    }
+
+    /// The encoder inlines small keys which are not in the [`SharedKeys`] yet, so such a key can
+    /// still be a string in this Dict when it has been added to the [`SharedKeys`] since.
+    fn _get_inline(&self, key: &str) -> Option<&Value> {
+        if key.len() < 2 {
+            self._get(&Key::String(key))
+        } else {
+            None
+        }
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From bc3cc419d06ebe40a58474fade3dad2d65f055bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 30/34] fix: refuse documents which are out of reach of
 pointers

---
 src/encoder/mod.rs | 73 ++++++++++++++++++++--------------------------
 src/value/sized.rs |  5 ++--
 2 files changed, 34 insertions(+), 44 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 58c318b..bc5959b 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -120,9 +120,7 @@ impl Encoder {
         } else {
             // Otherwise, write it to output and push a pointer to it onto the current collection
             let offset = self._write(value, false, false);
-            let Some(pointer) = SizedValue::new_pointer(offset) else {
-                return Err(EncodeError::PointerTooLarge);
-            };
+            let pointer = Encoder::_new_pointer(offset)?;
             self._push(pointer)
         }
     }
@@ -212,7 +210,7 @@ impl Encoder {
         // Write the Array header via `Encodable` trait
         let offset = self._write(&array, is_wide, true);
 
-        self._fix_array_pointers(&mut array, is_wide);
+        self._fix_array_pointers(&mut array, is_wide)?;
 
         for v in &array.values {
             self._write(v, is_wide, false);
@@ -261,7 +259,7 @@ impl Encoder {
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        self._fix_dict_pointers(&mut dict, is_wide);
+        self._fix_dict_pointers(&mut dict, is_wide)?;
 
         for elem in &dict.values {
             match &elem.key {
@@ -282,7 +280,6 @@ impl Encoder {
             self._write(&elem.val, is_wide, false);
         }
 
-        #[allow(clippy::cast_possible_truncation)]
         self._finished_collection(offset)?;
 
         Ok(())
@@ -335,7 +332,7 @@ impl Encoder {
         value: &T,
         is_wide: bool,
         is_collection: bool,
-    ) -> u32 {
+    ) -> usize {
         let offset = self.out.len();
         let size_required = if is_wide && !is_collection {
             value.fleece_size().max(4)
@@ -354,10 +351,7 @@ impl Encoder {
             self.out.push(0);
         }
 
-        #[allow(clippy::cast_possible_truncation)]
-        {
-            offset as u32
-        }
+        offset
     }
 
     fn _write_key_inline(&mut self, val: SizedValue) -> Result<()> {
@@ -395,6 +389,7 @@ impl Encoder {
             _ => return Err(EncodeError::DictNotOpen),
         }
         let offset = self._write(key, false, false);
+        let offset = u32::try_from(offset).map_err(|_| EncodeError::PointerTooLarge)?;
         let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
             unreachable!()
         };
@@ -432,16 +427,18 @@ impl Encoder {
         }
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn _actual_pointer_offset(&self, offset_from_start: u32) -> u32 {
-        self.out.len() as u32 - offset_from_start
+    fn _new_pointer(offset: usize) -> Result<SizedValue> {
+        u32::try_from(offset)
+            .ok()
+            .and_then(SizedValue::new_pointer)
+            .ok_or(EncodeError::PointerTooLarge)
     }
 
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
         let mut len = self._elements_start(array);
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > pointer::MAX_NARROW as usize
             {
                 return true;
             }
@@ -461,7 +458,7 @@ impl Encoder {
             }
             len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > pointer::MAX_NARROW as usize
             {
                 return true;
             }
@@ -475,43 +472,40 @@ impl Encoder {
         (self.out.len() + collection.fleece_size()).next_multiple_of(2)
     }
 
-    fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) {
-        #[allow(clippy::cast_possible_truncation)]
-        let mut len = self.out.len() as u32;
+    fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) -> Result<()> {
+        let mut len = self.out.len();
         for elem in &mut array.values {
             if elem.value_type() == ValueType::Pointer {
-                *elem = Encoder::_fix_pointer(*elem, len);
+                *elem = Encoder::_fix_pointer(*elem, len)?;
             }
             len += if is_wide { 4 } else { 2 };
         }
+        Ok(())
     }
 
-    fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) {
-        #[allow(clippy::cast_possible_truncation)]
-        let mut len = self.out.len() as u32;
+    fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) -> Result<()> {
+        let mut len = self.out.len();
         for elem in &mut dict.values {
             if let DictKey::Pointer(_, offset) = &mut elem.key {
-                *offset = len - *offset;
+                *offset = u32::try_from(len - *offset as usize)
+                    .map_err(|_| EncodeError::PointerTooLarge)?;
             }
             len += if is_wide { 4 } else { 2 };
             if elem.val.value_type() == ValueType::Pointer {
-                elem.val = Encoder::_fix_pointer(elem.val, len);
+                elem.val = Encoder::_fix_pointer(elem.val, len)?;
             }
             len += if is_wide { 4 } else { 2 };
         }
+        Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn _fix_pointer(pointer: SizedValue, len: u32) -> SizedValue {
-        let offset = pointer.actual_pointer_offset(len as usize);
-        SizedValue::new_pointer(offset).expect("Pointer unexpectedly large")
+    fn _fix_pointer(pointer: SizedValue, len: usize) -> Result<SizedValue> {
+        Encoder::_new_pointer(pointer.actual_pointer_offset(len))
     }
 
-    fn _finished_collection(&mut self, offset_from_start: u32) -> Result<()> {
+    fn _finished_collection(&mut self, offset_from_start: usize) -> Result<()> {
         if let Some(collection) = self.collection_stack.top_mut() {
-            let Some(pointer) = SizedValue::new_pointer(offset_from_start) else {
-                return Err(EncodeError::PointerTooLarge);
-            };
+            let pointer = Encoder::_new_pointer(offset_from_start)?;
             match collection {
                 Collection::Dict(dict) => {
                     dict.push_value(pointer);
@@ -523,17 +517,14 @@ impl Encoder {
         } else {
             // The last collection is finished, write the root value at the end.
             // This root value points to the outermost collection.
-            let offset = self._actual_pointer_offset(offset_from_start);
-            #[allow(clippy::cast_possible_truncation)]
-            let root = if offset <= u32::from(pointer::MAX_NARROW) {
-                SizedValue::new_pointer(offset).unwrap()
+            let offset = self.out.len() - offset_from_start;
+            let pointer = Encoder::_new_pointer(offset)?;
+            let root = if offset <= pointer::MAX_NARROW as usize {
+                pointer
             } else {
                 // The root value must be 2 bytes, so if the pointer to the top-level collection
                 // is 4 bytes wide, we need to write that, then write another 2-byte pointer to that
-                let Some(inner_root) = SizedValue::new_pointer(offset) else {
-                    return Err(EncodeError::PointerTooLarge);
-                };
-                self._write(&inner_root, true, false);
+                self._write(&pointer, true, false);
                 SizedValue::new_pointer(4).unwrap()
             };
             self._write(&root, false, false);
diff --git a/src/value/sized.rs b/src/value/sized.rs
index 3955106..0816764 100644
--- a/src/value/sized.rs
+++ b/src/value/sized.rs
@@ -43,9 +43,8 @@ impl SizedValue {
     }
 
     #[inline]
-    #[allow(clippy::cast_possible_truncation)]
-    pub(crate) fn actual_pointer_offset(self, out_len: usize) -> u32 {
-        (out_len - self.pointer_offset() as usize) as u32
+    pub(crate) fn actual_pointer_offset(self, out_len: usize) -> usize {
+        out_len - self.pointer_offset() as usize
     }
 
     #[inline]
-- 
2.43.0


From eabdbfbcf97fdb03f1cbf58f6b79156342f7b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 31/34] fix: align the values which are written after other
 data

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index bc5959b..3cbb31f 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -71,7 +71,11 @@ impl Encoder {
     }
 
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        // Values must be at even positions, as `_write` does for each following one.
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From cc41fb96120a69f8d751b8340ae5a76309de7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 32/34] fix: do not trust the capacity given for an array

---
 src/encoder/value_stack.rs | 5 ++++-
 src/ser.rs                 | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/encoder/value_stack.rs b/src/encoder/value_stack.rs
index 7cc3b8b..4fd7347 100644
--- a/src/encoder/value_stack.rs
+++ b/src/encoder/value_stack.rs
@@ -88,9 +88,12 @@ impl CollectionStack {
 }
 
 impl Array {
+    // The capacity is only a hint, which comes from the caller, so it can't be trusted.
+    const MAX_RESERVED: usize = 0x10000;
+
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            values: Vec::with_capacity(capacity),
+            values: Vec::with_capacity(capacity.min(Self::MAX_RESERVED)),
         }
     }
 
diff --git a/src/ser.rs b/src/ser.rs
index 039c14c..fd2ce59 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -265,9 +265,9 @@ impl<'ser> serde::Serializer for &'ser mut Serializer {
         _name: &'static str,
         _variant_index: u32,
         variant: &'static str,
-        len: usize,
+        _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
-        self.encoder.begin_array(len + 2).map_err(Error::Encode)?;
+        self.encoder.begin_array(2).map_err(Error::Encode)?;
         self.encoder.write_value(variant).map_err(Error::Encode)?;
         self.encoder.begin_dict().map_err(Error::Encode)?;
         Ok(self)
-- 
2.43.0


From 15e281fb938b37a2262deb70bc21677bdd47e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 33/34] fix: let the type decide which fields of a struct
 variant must be there

---
 src/de.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index b72a212..48cb621 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -440,7 +440,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         )))
     }
 
-    fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value>
+    fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
@@ -451,23 +451,12 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
                 .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
                     format!("{:?}", self.array),
                 )))?;
-        if let Some(dict) = inner.as_dict() {
-            if dict.len() == fields.len() {
-                let correct_keys = if let Some(sk) = self.shared_keys.shared_keys() {
-                    fields
-                        .iter()
-                        .all(|field| dict.contains_key_with_shared_keys(field, sk))
-                } else {
-                    fields.iter().all(|field| dict.contains_key(field))
-                };
-
-                if correct_keys {
-                    return de::Deserializer::deserialize_map(
-                        &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
-                        visitor,
-                    );
-                }
-            }
+        if inner.as_dict().is_some() {
+            // The visitor decides which fields may be missing, unknown or have another name.
+            return de::Deserializer::deserialize_map(
+                &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
+                visitor,
+            );
         }
         Err(Error::Deserialize(DeserializeError::InvalidEnumLayout(
             format!("{:?}", self.array),
-- 
2.43.0


From 6d91806b4d2dcac197928c5bc5e9acec548dbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 34/34] fix: deserializer reports the number of remaining
 elements and entries as the size hint, not the total

---
 src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 48cb621..eca2a98 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -292,7 +292,7 @@ impl<'iter, 'de, 'sk> de::SeqAccess<'de> for ArrayAccess<'iter, 'sk> {
     }
 
     fn size_hint(&self) -> Option<usize> {
-        Some(self.iter.len())
+        self.iter.size_hint().1
     }
 }
 
@@ -344,7 +344,7 @@ impl<'iter, 'de, 'sk> de::MapAccess<'de> for DictAccess<'iter, 'sk> {
     }
 
     fn size_hint(&self) -> Option<usize> {
-        Some(self.iter.len() / 2)
+        self.iter.size_hint().1.map(|n| n / 2)
     }
 }
 
-- 
2.43.0

