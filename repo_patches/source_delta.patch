From c90b02a9d312152acbd00a4228f6a81a3c42da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:29 +0000
Subject: [PATCH 01/12] fix: return an error instead of panicking when decoding
 truncated clarity values and payloads

---
 stacks/src/clarity/impl.rs        | 63 ++++++++++++++++++++++++++++++-
 stacks/src/clarity/mod.rs         | 14 +++++++
 stacks/src/transaction/payload.rs | 11 ++++++
 3 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..05d6359 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -10,6 +10,7 @@ use std::fmt::Debug;
 use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
+use crate::clarity::ensure_len;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -46,10 +47,14 @@ impl Codec for Int {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(i128::from_be_bytes(buff)))
@@ -99,10 +104,14 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(u128::from_be_bytes(buff)))
@@ -153,13 +162,19 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let mut offset = 5;
 
+        ensure_len(bytes, offset + len as usize)?;
+
         let mut buff = vec![];
 
         for _ in 0..len {
@@ -225,6 +240,8 @@ impl Codec for True {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -262,6 +279,8 @@ impl Codec for False {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -302,10 +321,14 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 22)?;
+
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         Ok(Self::new(addr))
     }
@@ -361,10 +384,15 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 23)?;
+        ensure_len(bytes, 23 + bytes[22] as usize)?;
+
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
@@ -412,6 +440,8 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -450,6 +480,8 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -488,6 +520,8 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -524,6 +558,8 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -568,10 +604,14 @@ impl Codec for List {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
@@ -701,17 +741,23 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
         let mut values = vec![];
 
         for _ in 0..len {
+            ensure_len(bytes, offset + 1)?;
             let k_len = bytes[offset] as usize;
+            ensure_len(bytes, offset + 1 + k_len)?;
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
@@ -782,11 +828,17 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        ensure_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        ensure_len(bytes, 5 + len as usize)?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -823,7 +875,11 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        ensure_len(bytes, 5 + len as usize)?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -865,6 +921,9 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+        ensure_len(bytes, 1 + bytes[0] as usize)?;
+
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
@@ -917,10 +976,12 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 4)?;
+
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = vec![];
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..670a6a3 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// The encoded bytes end before the value does.
+    #[error("Unexpected end of input - expected at least {0} bytes, received: {1}")]
+    UnexpectedEnd(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,8 +173,19 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Checks that at least `len` bytes are left to decode.
+pub(crate) fn ensure_len(bytes: &[u8], len: usize) -> Result<(), Error> {
+    if bytes.len() < len {
+        return Err(Error::UnexpectedEnd(len, bytes.len()));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    ensure_len(bytes, 1)?;
+
     let tag = bytes[0];
 
     match tag {
diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..723e5fa 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -13,6 +13,7 @@ use dyn_clone::DynClone;
 
 use crate::clarity;
 use crate::clarity::decode_clarity_type;
+use crate::clarity::ensure_len;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
@@ -38,6 +39,8 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         match bytes[0] {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
@@ -102,6 +105,8 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
@@ -113,6 +118,8 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
+        ensure_len(bytes, offset + 8 + 34)?;
+
         let amount_bytes = &bytes[offset..offset + 8];
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
@@ -175,12 +182,16 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
 
         let mut offset = 1;
 
+        ensure_len(bytes, offset + 1 + 20)?;
+
         let version = bytes[offset];
         offset += 1;
 
-- 
2.43.0


From 30dbecf037eb5427f70213dbb484d1fd9662aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 02/12] fix: reject a wrong type identifier when decoding a
 utf-8 string

---
 stacks/src/clarity/impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 05d6359..c2e3c15 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -875,6 +875,12 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        ensure_len(bytes, 1)?;
+
+        if bytes[0] != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         ensure_len(bytes, 5)?;
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-- 
2.43.0


From 26a03696b77e1735e29b3d53f379388d14597831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:36 +0000
Subject: [PATCH 03/12] fix: reject non-ascii content when decoding an ascii
 string

---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index c2e3c15..1fb2250 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -840,6 +840,11 @@ impl Codec for StringAscii {
         ensure_len(bytes, 5 + len as usize)?;
 
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
-- 
2.43.0


From d42495a968cda1ebaa31f8a543997cb8f6fec3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:11 +0000
Subject: [PATCH 04/12] fix: reject names over 128 bytes when decoding, as
 encoding does

---
 stacks/src/clarity/impl.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 1fb2250..444956a 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -391,6 +391,7 @@ impl Codec for PrincipalContract {
         }
 
         ensure_len(bytes, 23)?;
+        ensure_name_len(bytes[22] as usize)?;
         ensure_len(bytes, 23 + bytes[22] as usize)?;
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
@@ -757,6 +758,7 @@ impl Codec for Tuple {
         for _ in 0..len {
             ensure_len(bytes, offset + 1)?;
             let k_len = bytes[offset] as usize;
+            ensure_name_len(k_len)?;
             ensure_len(bytes, offset + 1 + k_len)?;
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
@@ -914,6 +916,15 @@ impl Clone for StringUtf8 {
     }
 }
 
+/// Checks that a decoded name is within the limit enforced when encoding.
+fn ensure_name_len(len: usize) -> Result<(), Error> {
+    if len > 128 {
+        return Err(Error::BadStringLength(len, 128));
+    }
+
+    Ok(())
+}
+
 impl Codec for LengthPrefixedStr {
     fn encode(&self) -> Result<Vec<u8>, Error> {
         let mut buff = vec![];
@@ -933,6 +944,7 @@ impl Codec for LengthPrefixedStr {
         Self: Sized,
     {
         ensure_len(bytes, 1)?;
+        ensure_name_len(bytes[0] as usize)?;
         ensure_len(bytes, 1 + bytes[0] as usize)?;
 
         Ok(Self::new(String::from_utf8(
-- 
2.43.0


From c7ce6ea9cc238207fc40d7fa6dd6df317f5d8f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:14 +0000
Subject: [PATCH 05/12] fix: reject characters outside latin-1 when decoding
 base58 instead of panicking

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..54cddf7 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -116,7 +116,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = *B58_BYTE_MAP.get(c as usize).unwrap_or(&-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
-- 
2.43.0


From a9ea3947225cef33ae43c605ec6e3c0bf3e98705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:18 +0000
Subject: [PATCH 06/12] fix: encode all-zero input to base58 without an extra
 leading digit

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index 54cddf7..83107d8 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -70,7 +70,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
-- 
2.43.0


From a9a7fa945268a8bc3fa8ef88e473d24847efb35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:22 +0000
Subject: [PATCH 07/12] fix: return an error for base58check input too short to
 hold a checksum

---
 stacks/src/crypto/b58.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index 83107d8..4e1fd7a 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -36,6 +36,9 @@ pub enum Error {
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
+    /// The decoded data is too short to hold a version byte and a checksum.
+    #[error("Bad input length, expected at least 5 bytes - received: {0}")]
+    BadLength(usize),
     /// Received an unknown bitcoin version byte.
     #[error("Unknown address version, received: {0}")]
     UnknownAddressVersion(u8),
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From cf7ca0d3fea1ff8e63affa19c9000ba49034e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:25 +0000
Subject: [PATCH 08/12] fix: return errors for an empty c32check string and an
 unencodable c32check version

---
 stacks/src/crypto/c32.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..86b5a95 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -216,6 +216,10 @@ where
 {
     let hash = hash.as_ref();
 
+    if version as usize >= C32_ALPHABET.len() {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
     let mut check = vec![version];
     check.extend_from_slice(hash);
     let checksum = DSha256Hash::from_slice(&check).checksum();
@@ -236,7 +240,7 @@ where
 {
     let str: String = str.into();
 
-    if !str.is_ascii() {
+    if !str.is_ascii() || str.is_empty() {
         return Err(Error::BadInput);
     }
 
-- 
2.43.0


From 9bcedaaa8cc557218f3f8cc6a49a590c7794d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:29 +0000
Subject: [PATCH 09/12] fix: reject c32 addresses with an unknown version or a
 hash that is not 20 bytes

---
 stacks/src/crypto/c32.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 86b5a95..9c9fef7 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -8,6 +8,7 @@
 
 use secp256k1::PublicKey;
 
+use crate::crypto::hash::HASH160_ENCODED_SIZE;
 use crate::crypto::DSha256Hash;
 use crate::crypto::Hash160;
 use crate::crypto::Sha256Hash;
@@ -295,7 +296,17 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (hash, version) = c32check_decode(&str[1..])?;
+
+    if ![22, 26, 20, 21].contains(&version) {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
+    if hash.len() != HASH160_ENCODED_SIZE {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((hash, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From 1cbbcf7626735aef0d5f50239b88b2954af424fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:32 +0000
Subject: [PATCH 10/12] fix: verify the origin signature of standard
 authorizations

---
 stacks/src/transaction/auth.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..80d5824 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -89,10 +89,11 @@ impl Auth {
     where
         T: Into<SignatureHash>,
     {
-        if let Self::Sponsored(origin, sponsor) = self {
-            let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
+        let next = self.verify_origin(hash)?;
+
+        if let Self::Sponsored(_, sponsor) = self {
             let auth_type = AUTH_TYPE_SPONSORED;
-            sponsor.verify(origin, auth_type)?;
+            sponsor.verify(next, auth_type)?;
         }
 
         Ok(())
-- 
2.43.0


From 7bfb7a277ebb1677bfbadd31394ec88518d077ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:36 +0000
Subject: [PATCH 11/12] fix: replace the value when inserting an existing tuple
 key

---
 stacks/src/clarity/impl.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 444956a..d122a37 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -693,11 +693,17 @@ impl Tuple {
     }
 
     /// Inserts a key-value pair into the tuple.
+    ///
+    /// If the key is already present, its value is replaced.
     pub fn insert<T>(&mut self, key: String, value: T)
     where
         T: Clarity,
     {
-        self.__value.push((key, Box::new(value)));
+        if let Some(existing) = self.get_mut(&key) {
+            *existing = Box::new(value);
+        } else {
+            self.__value.push((key, Box::new(value)));
+        }
     }
 
     /// Removes a key-value pair from the tuple.
-- 
2.43.0


From 06a054f112e4b7bc5ceff86fba437b80744bab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:03 +0000
Subject: [PATCH 12/12] fix: compare clarity values by their encoding, not by
 their rendering

---
 stacks/src/clarity/macro.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..7076ab1 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -69,7 +69,12 @@ macro_rules! impl_clarity_primitive {
         }
         impl ::std::cmp::PartialEq for $name {
             fn eq(&self, other: &Self) -> bool {
-                self.to_string() == other.to_string()
+                use $crate::clarity::Codec;
+                match (self.encode(), other.encode()) {
+                    (Ok(a), Ok(b)) => a == b,
+                    (Err(_), Err(_)) => self.to_string() == other.to_string(),
+                    _ => false,
+                }
             }
         }
         impl ::std::cmp::Eq for $name {}
-- 
2.43.0

