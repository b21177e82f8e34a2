From bd7d9cf69dfff1c72082735d4feba4dbe5dc4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 01/25] fix: comparing a shared Str with a static Str never
 returned

---
 src/types/mod.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..3cdedd4 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -139,16 +139,8 @@ impl borrow::Borrow<str> for Str {
 
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
-        match self {
-            Str::ByteStr(s) => match other {
-                Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
-            },
-            Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
-                Str::Static(o) => s == o,
-            },
-        }
+        // `string::String == str` recurses endlessly, compare the texts instead
+        self.as_str() == other.as_str()
     }
 }
 
-- 
2.43.0


From 62fd9b81e80e3b0aff7b34baf0ad10ebe0294a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:08 +0000
Subject: [PATCH 02/25] fix: a List was encoded with the array format codes

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From e0ba55c308bdab4fd932303d47b8d2d62125486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 03/25] fix: descriptor 0 written as ulong0 was rejected

---
 src/codec/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..cbbba2c 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -443,7 +443,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG_0 => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
             codec::FORMATCODE_ULONG => {
-- 
2.43.0


From 2e5a9e298dc824e8402830fc5c70566c7013c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 04/25] fix: an array with 254 bytes of content was written
 with size 0

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From 8925406f353d2c0f0f7c30454bb4c0e4a6217b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 05/25] fix: a compound smaller than its own count field
 panicked the decoder

---
 src/codec/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index cbbba2c..d99f759 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,6 +531,9 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
+    if input[0] < 1 {
+        return Err(AmqpParseError::InvalidSize);
+    }
     let size = input[0] - 1; // -1 for 1 byte count
     let count = input[1];
     Ok((
@@ -544,7 +547,11 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = BigEndian::read_u32(input);
+    if size < 4 {
+        return Err(AmqpParseError::InvalidSize);
+    }
+    let size = size - 4; // -4 for 4 byte count
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From 9a0d09d6a353781682ee34f2d66e3cb46c677923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 06/25] fix: a map longer than its input panicked the decoder

---
 src/codec/decode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index d99f759..d204422 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,6 +253,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
@@ -286,6 +287,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
-- 
2.43.0


From 81670985748453912b8bdb7f409fe40841baa66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 07/25] fix: an array read past, or stopped short of, its
 declared size

---
 src/codec/decode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index d204422..33162a8 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -272,15 +272,16 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
-        let item_fmt = input[0]; // todo: support descriptor
-        let mut input = &input[1..];
+        decode_check_len!(input, header.size as usize);
+        let (input, remainder) = input.split_at(header.size as usize);
+        let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, result))
+        Ok((remainder, result))
     }
 }
 
-- 
2.43.0


From a3d066f266a80111fbec4c592c7a937d339ae2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 08/25] fix: a list read past, or stopped short of, its
 declared size

---
 src/codec/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 33162a8..8b7ab36 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -320,14 +320,16 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let (mut input, remainder) = input.split_at(header.size as usize);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, List(result)))
+        Ok((remainder, List(result)))
     }
 }
 
-- 
2.43.0


From 75f5911e7246dea19d0a0ffd3ceaf85e6742d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 09/25] fix: decoders allocated whatever item count the input
 announced

---
 src/codec/decode.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 8b7ab36..a8ab95e 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -50,6 +50,12 @@ fn read_bytes_u32(input: &[u8]) -> Result<(&[u8], &[u8]), AmqpParseError> {
     Ok((input, bytes))
 }
 
+/// Number of items to reserve room for up front: the announced count comes from the peer and may
+/// bear no relation to the amount of data that follows.
+fn prealloc(count: u32) -> usize {
+    std::cmp::min(count as usize, 16)
+}
+
 #[macro_export]
 macro_rules! validate_code {
     ($fmt:ident, $code:expr) => {
@@ -257,7 +263,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(prealloc(count), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -275,7 +281,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, header.size as usize);
         let (input, remainder) = input.split_at(header.size as usize);
         let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(prealloc(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
@@ -291,7 +297,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(prealloc(count));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -323,7 +329,7 @@ impl DecodeFormatted for List {
         let (input, header) = decode_list_header(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let (mut input, remainder) = input.split_at(header.size as usize);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(prealloc(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
-- 
2.43.0


From b26b1c191e8db5002ef484ec04d57018bff853ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 10/25] fix: the order of Str values disagreed with their
 equality

---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 3cdedd4..2598b6e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -157,6 +157,18 @@ impl PartialEq<str> for Str {
     }
 }
 
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
+impl PartialOrd for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl fmt::Debug for Str {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
-- 
2.43.0


From aa6502ba5ed8e35b82a22cf23b2ee531be0dd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 11/25] fix: hashing a map value panicked, so a map used as a
 map key crashed the decoder

---
 src/types/variant.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..1cc51a3 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -1,4 +1,5 @@
 use hashbrown::HashMap;
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 
 use bytes::Bytes;
@@ -136,8 +137,15 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps may iterate in different orders, combine entries independently of it
+        let entries = self.map.iter().fold(0u64, |sum, entry| {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            sum.wrapping_add(hasher.finish())
+        });
+        state.write_usize(self.map.len());
+        state.write_u64(entries);
     }
 }
 
-- 
2.43.0


From 0438e63d920e7b1e967accc37ad0623e93d7323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 12/25] fix: timestamps before 1970 were read wrong and
 timestamps out of range panicked

---
 src/codec/decode.rs | 20 +++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index a8ab95e..66a8607 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -176,7 +176,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (i, o) = result?;
+        Ok((i, datetime_from_millis(o)?))
     }
 }
 
@@ -567,18 +569,10 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    Utc.timestamp_millis_opt(millis)
+        .single()
+        .ok_or(AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..738590c 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp out of range: {} ms", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From fe18ca5106c5fad8fb43170f0e82921ecf98dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 13/25] fix: the size of a message counted the header
 descriptor twice

---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..f5dfd52 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -216,7 +216,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..e9f80ac 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -208,7 +208,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From 6243bd6da8608f369987bf4349fd0fa35f08c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 14/25] fix: setting the body value left the cached message
 size stale

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index f5dfd52..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index e9f80ac..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From 114da696b3e5d3bc064952c6f34a08a6664ff5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 15/25] fix: decoding a message returned its last section as
 the unread remainder

---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..e3f2be7 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -191,10 +191,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..4d3a43e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -183,10 +183,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From 0689d94a25b16a56fdeecfef1dd3f7c8197f2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 16/25] fix: asking a message for its size changed what it is
 equal to

---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index e3f2be7..b866228 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -154,6 +154,20 @@ impl InMessage {
     }
 }
 
+impl PartialEq for InMessage {
+    // every field but the cached size
+    fn eq(&self, other: &InMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl Decode for InMessage {
     fn decode(mut input: &[u8]) -> Result<(&[u8], InMessage), AmqpParseError> {
         let mut message = InMessage::default();
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4d3a43e..04082b3 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -146,6 +146,20 @@ impl OutMessage {
     }
 }
 
+impl PartialEq for OutMessage {
+    // every field but the cached size
+    fn eq(&self, other: &OutMessage) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl Decode for OutMessage {
     fn decode(mut input: &[u8]) -> Result<(&[u8], OutMessage), AmqpParseError> {
         let mut message = OutMessage::default();
-- 
2.43.0


From d31c37ad3f503c5c4db0c58675d750bb57666ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 17/25] fix: setting an application property twice wrote a map
 with duplicate keys

---
 src/message/outmessage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 04082b3..806392a 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -79,7 +79,12 @@ impl OutMessage {
     /// Add application property
     pub fn set_app_property<K: Into<Str>, V: Into<Variant>>(mut self, key: K, value: V) -> Self {
         if let Some(ref mut props) = self.application_properties {
-            props.push((key.into(), value.into()));
+            let (key, value) = (key.into(), value.into());
+            if let Some(pos) = props.iter().position(|item| item.0 == key) {
+                props[pos].1 = value;
+            } else {
+                props.push((key, value));
+            }
         } else {
             let mut props = VecVariantMap::default();
             props.push((key.into(), value.into()));
-- 
2.43.0


From 8abc4f587c5aabf5e1371868890a927a7f9891fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 18/25] fix: a frame shorter than its own header panicked the
 stream decoder

---
 src/io.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..c8a5cc7 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -50,6 +50,10 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
+                    if size < HEADER_LEN {
+                        src.split_to(4);
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
 
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
-- 
2.43.0


From 89633f67464eae72e236c54a22ee504e07eb76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 19/25] fix: a malformed frame corrupted the decoding of the
 frames after it

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index c8a5cc7..2205df7 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -73,12 +73,12 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
 
                     let frame_buf = src.split_to(size);
+                    self.state = DecodeState::FrameHeader;
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From d2c5391d50e7ff42369a63f5225bcb25dc443af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 20/25] fix: deeply nested input overflowed the stack

---
 src/codec/decode.rs | 27 +++++++++++++++++++++++++++
 src/errors.rs       |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 66a8607..3bf1e8f 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::hash::{BuildHasher, Hash};
 use std::{char, str, u8};
 
@@ -341,8 +342,34 @@ impl DecodeFormatted for List {
     }
 }
 
+/// How deep values may nest; deeper input is rejected before it exhausts the stack.
+const MAX_NESTING: usize = 128;
+
+thread_local!(static NESTING: Cell<usize> = Cell::new(0));
+
+struct Nesting;
+
+impl Nesting {
+    fn enter() -> Result<Nesting, AmqpParseError> {
+        NESTING.with(|depth| {
+            if depth.get() >= MAX_NESTING {
+                return Err(AmqpParseError::NestingTooDeep);
+            }
+            depth.set(depth.get() + 1);
+            Ok(Nesting)
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
+        let _nesting = Nesting::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok((input, Variant::Null)),
             codec::FORMATCODE_BOOLEAN => {
diff --git a/src/errors.rs b/src/errors.rs
index 738590c..269108d 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -7,6 +7,8 @@ use crate::types::Descriptor;
 pub enum AmqpParseError {
     #[display(fmt = "Loaded item size is invalid")]
     InvalidSize,
+    #[display(fmt = "Values are nested too deep")]
+    NestingTooDeep,
     #[display(fmt = "More data required during frame parsing: '{:?}'", "_0")]
     Incomplete(Option<usize>),
     #[display(fmt = "Unexpected format code: '{}'", "_0")]
-- 
2.43.0


From 74eb970826836ad8209c2e5994c0042ad51b1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 21/25] fix: the code generator HTML-escaped symbols in the
 code it writes

---
 codegen/definitions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegen/definitions.rs b/codegen/definitions.rs
index 505d8f9..4658ecc 100644
--- a/codegen/definitions.rs
+++ b/codegen/definitions.rs
@@ -152,7 +152,7 @@ impl DecodeFormatted for {{provide.name}} {
             Descriptor::Ulong({{option.descriptor.code}}) => decode_{{snake option.ty}}_inner(input).map(|(i, r)| (i, {{provide.name}}::{{option.ty}}(r))),
             {{/each}}
             {{#each provide.options as |option|}}
-            Descriptor::Symbol(ref a) if a.as_str() == "{{option.descriptor.name}}" => decode_{{snake option.ty}}_inner(input).map(|(i, r)| (i, {{provide.name}}::{{option.ty}}(r))),
+            Descriptor::Symbol(ref a) if a.as_str() == "{{{option.descriptor.name}}}" => decode_{{snake option.ty}}_inner(input).map(|(i, r)| (i, {{provide.name}}::{{option.ty}}(r))),
             {{/each}}
             _ => Err(AmqpParseError::InvalidDescriptor(descriptor))
         }
@@ -194,7 +194,7 @@ impl {{enum.name}} {
     pub fn try_from(v: &Symbol) -> Result<Self, AmqpParseError> {
         match v.as_str() {
             {{#each enum.items as |item|}}
-            "{{item.value}}" => Ok({{enum.name}}::{{item.name}}),
+            "{{{item.value}}}" => Ok({{enum.name}}::{{item.name}}),
             {{/each}}
             _ => Err(AmqpParseError::UnknownEnumOption("{{enum.name}}"))
         }
@@ -217,7 +217,7 @@ impl Encode for {{enum.name}} {
     fn encode(&self, buf: &mut BytesMut) {
         match *self {
             {{#each enum.items as |item|}}
-            {{enum.name}}::{{item.name}} => StaticSymbol("{{item.value}}").encode(buf),
+            {{enum.name}}::{{item.name}} => StaticSymbol("{{{item.value}}}").encode(buf),
             {{/each}}
         }
     }
@@ -441,7 +441,7 @@ impl DecodeFormatted for {{list.name}} {
         let (input, descriptor) = Descriptor::decode(input)?;
         let is_match = match descriptor {
             Descriptor::Ulong(val) => val == {{list.descriptor.code}},
-            Descriptor::Symbol(ref sym) => sym.as_bytes() == b"{{list.descriptor.name}}",
+            Descriptor::Symbol(ref sym) => sym.as_bytes() == b"{{{list.descriptor.name}}}",
         };
         if !is_match {
             Err(AmqpParseError::InvalidDescriptor(descriptor))
-- 
2.43.0


From 08922d8cbc3eca65c187c529c45e58d39a5fdbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 22/25] fix: the code generator dropped the domain of
 descriptor codes

---
 codegen/definitions.rs |  4 ++--
 codegen/mod.rs         | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/codegen/definitions.rs b/codegen/definitions.rs
index 4658ecc..5808b75 100644
--- a/codegen/definitions.rs
+++ b/codegen/definitions.rs
@@ -271,7 +271,7 @@ fn decode_{{snake dr.name}}_inner(input: &[u8]) -> Result<(&[u8], {{dr.name}}),
 }
 fn encoded_size_{{snake dr.name}}_inner(dr: &{{dr.name}}) -> usize {
     // descriptor size + actual size
-    3 + dr.encoded_size()
+    {{dr.descriptor.len}} + dr.encoded_size()
 }
 fn encode_{{snake dr.name}}_inner(dr: &{{dr.name}}, buf: &mut BytesMut) {
     Descriptor::Ulong({{dr.descriptor.code}}).encode(buf);
@@ -404,7 +404,7 @@ fn encoded_size_{{snake list.name}}_inner(list: &{{list.name}}) -> usize {
     #[allow(clippy::identity_op)]
     let content_size = 0 {{#each list.fields as |field|}} + list.{{field.name}}.encoded_size(){{/each}};
     // header: 0x00 0x53 <descriptor code> format_code size count
-    (if content_size + 1 > u8::MAX as usize { 12 } else { 6 })
+    (if content_size + 1 > u8::MAX as usize { {{list.descriptor.list32_len}} } else { {{list.descriptor.list8_len}} })
         + content_size
 
     {{#if list.transfer}}
diff --git a/codegen/mod.rs b/codegen/mod.rs
index e22caf1..0e83690 100644
--- a/codegen/mod.rs
+++ b/codegen/mod.rs
@@ -180,7 +180,11 @@ pub struct Described {
 pub struct Descriptor {
     name: String,
     domain: u32,
-    code: u32,
+    code: u64,
+    // encoded sizes: descriptor, descriptor with 8-bit list header, with 32-bit list header
+    len: usize,
+    list8_len: usize,
+    list32_len: usize,
 }
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
@@ -280,6 +284,9 @@ impl Definitions {
                         name: String::new(),
                         domain: 0,
                         code: 0,
+                        len: 0,
+                        list8_len: 0,
+                        list32_len: 0,
                     }),
                 });
         }
@@ -352,10 +359,20 @@ impl Descriptor {
                 u32::from_str_radix(&p[2..], 16).expect("malformed descriptor code")
             })
             .collect();
+        // the descriptor on the wire is the whole 64-bit number, domain included
+        let code = (u64::from(code_parts[0]) << 32) | u64::from(code_parts[1]);
+        let len = match code {
+            0 => 2,
+            1..=0xff => 3,
+            _ => 10,
+        };
         Descriptor {
             name: d.name,
             domain: code_parts[0],
-            code: code_parts[1],
+            code,
+            len,
+            list8_len: len + 3,
+            list32_len: len + 9,
         }
     }
 }
-- 
2.43.0


From e958dfa91c27dc839664642e4ea1eba820eb3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:42 +0000
Subject: [PATCH 23/25] fix: generated size of symbols longer than 255 bytes

---
 codegen/definitions.rs | 2 +-
 codegen/mod.rs         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/codegen/definitions.rs b/codegen/definitions.rs
index 5808b75..9e3a6f3 100644
--- a/codegen/definitions.rs
+++ b/codegen/definitions.rs
@@ -210,7 +210,7 @@ impl Encode for {{enum.name}} {
     fn encoded_size(&self) -> usize {
         match *self {
             {{#each enum.items as |item|}}
-            {{enum.name}}::{{item.name}} => {{item.value_len}} + 2,
+            {{enum.name}}::{{item.name}} => {{item.value_len}} + {{item.header_len}},
             {{/each}}
         }
     }
diff --git a/codegen/mod.rs b/codegen/mod.rs
index 0e83690..766440f 100644
--- a/codegen/mod.rs
+++ b/codegen/mod.rs
@@ -133,6 +133,9 @@ pub struct EnumItem {
     value: String,
     #[serde(default)]
     value_len: usize,
+    // format code and size of an encoded symbol
+    #[serde(default)]
+    header_len: usize,
 }
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
@@ -318,6 +321,7 @@ impl Enum {
                 .map(|c| EnumItem {
                     name: camel_case(&*c.name),
                     value_len: c.value.len(),
+                    header_len: if c.value.len() > 255 { 5 } else { 2 },
                     value: c.value,
                 })
                 .collect(),
-- 
2.43.0


From 69eb29e77ff40b48e92a01e09843187c4bb15fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 24/25] fix: text accessors of static symbol values returned
 nothing

---
 src/types/variant.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 1cc51a3..4e69262 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -102,6 +102,7 @@ impl PartialEq<str> for Variant {
         match self {
             Variant::String(s) => s == other,
             Variant::Symbol(s) => s == other,
+            Variant::StaticSymbol(s) => s.0 == other,
             _ => false,
         }
     }
@@ -112,6 +113,7 @@ impl Variant {
         match self {
             Variant::String(s) => Some(s.as_str()),
             Variant::Symbol(s) => Some(s.as_str()),
+            Variant::StaticSymbol(s) => Some(s.0),
             _ => None,
         }
     }
@@ -120,6 +122,7 @@ impl Variant {
         match self {
             Variant::String(s) => Some(s.as_bytes_str()),
             Variant::Symbol(s) => Some(s.as_bytes_str()),
+            Variant::StaticSymbol(s) => Some(Str::Static(s.0).as_bytes_str()),
             _ => None,
         }
     }
-- 
2.43.0


From 349427659a960e8796103f8ce8447e51c61ca6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 25/25] fix: maps with many regular numeric keys decode in
 quadratic time

hashbrown 0.1's default hasher does not spread the bits of regular keys (whole
doubles, ulongs that are multiples of 2^32, counted uuids or binaries): nearly
all of them land in the same bucket. Variant mixes its value before it hands it
to the hasher.
---
 src/types/variant.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 4e69262..8c91241 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -1,6 +1,7 @@
 use hashbrown::HashMap;
 use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
+use std::mem;
 
 use bytes::Bytes;
 use chrono::{DateTime, Utc};
@@ -10,7 +11,7 @@ use uuid::Uuid;
 use crate::types::{ByteStr, Descriptor, List, StaticSymbol, Str, Symbol};
 
 /// Represents an AMQP type for use in polymorphic collections
-#[derive(Debug, Eq, PartialEq, Hash, Clone, From)]
+#[derive(Debug, Eq, PartialEq, Clone, From)]
 pub enum Variant {
     /// Indicates an empty value.
     Null,
@@ -85,6 +86,40 @@ pub enum Variant {
     Described((Descriptor, Box<Variant>)),
 }
 
+impl Hash for Variant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // the default hasher of `hashbrown` maps hardly spreads regular numbers (whole doubles,
+        // counted uuids), and a map with many such keys takes quadratic time: mix them first
+        let mut hasher = DefaultHasher::new();
+        mem::discriminant(self).hash(&mut hasher);
+        match self {
+            Variant::Null => (),
+            Variant::Boolean(v) => v.hash(&mut hasher),
+            Variant::Ubyte(v) => v.hash(&mut hasher),
+            Variant::Ushort(v) => v.hash(&mut hasher),
+            Variant::Uint(v) => v.hash(&mut hasher),
+            Variant::Ulong(v) => v.hash(&mut hasher),
+            Variant::Byte(v) => v.hash(&mut hasher),
+            Variant::Short(v) => v.hash(&mut hasher),
+            Variant::Int(v) => v.hash(&mut hasher),
+            Variant::Long(v) => v.hash(&mut hasher),
+            Variant::Float(v) => v.hash(&mut hasher),
+            Variant::Double(v) => v.hash(&mut hasher),
+            Variant::Char(v) => v.hash(&mut hasher),
+            Variant::Timestamp(v) => v.hash(&mut hasher),
+            Variant::Uuid(v) => v.hash(&mut hasher),
+            Variant::Binary(v) => v.hash(&mut hasher),
+            Variant::String(v) => v.hash(&mut hasher),
+            Variant::Symbol(v) => v.hash(&mut hasher),
+            Variant::StaticSymbol(v) => v.hash(&mut hasher),
+            Variant::List(v) => v.hash(&mut hasher),
+            Variant::Map(v) => v.hash(&mut hasher),
+            Variant::Described(v) => v.hash(&mut hasher),
+        }
+        state.write_u64(hasher.finish());
+    }
+}
+
 impl From<ByteStr> for Variant {
     fn from(s: ByteStr) -> Self {
         Str::from(s).into()
-- 
2.43.0

