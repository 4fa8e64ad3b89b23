From 97428afe324a610018c028d68b44983991d7b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 01/21] fix: do not preallocate vectors by an untrusted length
 prefix

---
 sia/src/encoding/v1.rs | 3 ++-
 sia/src/encoding/v2.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..d2386c2 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -116,7 +116,8 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // len is not trusted: the reader may hold far fewer elements
+        let mut vec = Vec::with_capacity(len.min(1024));
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..9b2a358 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -162,7 +162,8 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // len is not trusted: the reader may hold far fewer elements
+        let mut vec = Vec::with_capacity(len.min(1024));
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From cb6ae8ed8ec2c2415589a7830c3eb0ba4a3b8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:12 +0000
Subject: [PATCH 02/21] fix: return an error for out of range timestamps
 instead of panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 9b2a358..4673479 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From 0a2b49f96566be947d30d76c4e02e06ce7a79762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:41 +0000
Subject: [PATCH 03/21] fix: child height of the pre-genesis state is 0

---
 sia/src/types/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..4f2792a 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,8 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        // the pre-genesis state has height u64::MAX
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From f0c35d282e0097d3515224179a07b8870dd38b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:44 +0000
Subject: [PATCH 04/21] fix: reject integers that do not fit the decoded type

---
 sia/src/encoding/v1.rs | 7 ++++++-
 sia/src/encoding/v2.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index d2386c2..d405566 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -88,7 +88,12 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    let n = v as Self;
+                    if n as u64 != v {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(n)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 4673479..3073967 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -134,7 +134,12 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    let n = v as Self;
+                    if n as u64 != v {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(n)
                 }
             }
         )*
-- 
2.43.0


From 0aa8ecd9a694db44ac7dfdfa62b92c2755ecc225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:48 +0000
Subject: [PATCH 05/21] fix: reject durations that do not fit their encoding
 instead of wrapping them

---
 sia/src/encoding/v2.rs | 5 ++++-
 sia/src/types/utils.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 3073967..877e5c3 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -73,7 +73,10 @@ impl SiaDecodable for OffsetDateTime {
 
 impl SiaEncodable for Duration {
     fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
-        (self.whole_nanoseconds() as u64).encode(w)
+        let ns = i64::try_from(self.whole_nanoseconds()).map_err(|_| Error::InvalidValue)?;
+        u64::try_from(ns)
+            .map_err(|_| Error::InvalidValue)?
+            .encode(w)
     }
 }
 
diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index 39e1c83..aa2cbee 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -108,11 +108,13 @@ pub(crate) mod nano_second_duration {
     use time::Duration;
 
     pub fn serialize<S: Serializer>(v: &Duration, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_u64(v.whole_nanoseconds() as u64)
+        let nanos = i64::try_from(v.whole_nanoseconds()).map_err(serde::ser::Error::custom)?;
+        s.serialize_u64(u64::try_from(nanos).map_err(serde::ser::Error::custom)?)
     }
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
         let nanos = u64::deserialize(d)?;
-        Ok(Duration::nanoseconds(nanos as i64))
+        let nanos = i64::try_from(nanos).map_err(serde::de::Error::custom)?;
+        Ok(Duration::nanoseconds(nanos))
     }
 }
-- 
2.43.0


From dba22d010ddd5e5782c7c52c16641ad13582ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:51 +0000
Subject: [PATCH 06/21] fix: return write errors from the state encoder instead
 of panicking

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..f195f38 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -383,7 +383,7 @@ impl SiaEncodable for State {
         self.prev_timestamps
             .iter()
             .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+            .try_for_each(|ts| ts.encode(w))?;
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From 9be27e7c6199316405216fba78e6aa61d48e9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:54 +0000
Subject: [PATCH 07/21] fix: refuse to encode threshold policies whose
 sub-policy count does not fit a byte

---
 sia/src/types/spendpolicy.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..6d027a4 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -154,13 +154,11 @@ impl SpendPolicy {
         state.update("sia/address|".as_bytes());
 
         if let SpendPolicy::Threshold(n, of) = self {
-            let mut opaque = Vec::with_capacity(of.len());
+            state.update(&[1, POLICY_THRESHOLD_PREFIX, *n, of.len() as u8]);
             for policy in of {
-                opaque.push(SpendPolicy::Opaque(policy.address()))
+                state.update(&[POLICY_OPAQUE_PREFIX]);
+                state.update(policy.address().as_ref());
             }
-            SpendPolicy::Threshold(*n, opaque)
-                .encode(&mut state)
-                .unwrap();
         } else {
             self.encode(&mut state).unwrap();
         }
@@ -327,7 +325,9 @@ impl SiaEncodable for SpendPolicy {
                 SpendPolicy::Hash(hash) => hash.encode(w),
                 SpendPolicy::Threshold(of, policies) => {
                     of.encode(w)?;
-                    (policies.len() as u8).encode(w)?;
+                    u8::try_from(policies.len())
+                        .map_err(|_| encoding::Error::InvalidLength)?
+                        .encode(w)?;
                     for policy in policies {
                         encode_policy(policy, w)?;
                     }
-- 
2.43.0


From c3bd0426495cf82a55eb2956ba9280cda6bcadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:58 +0000
Subject: [PATCH 08/21] fix: bound the complexity of decoded policies instead
 of overflowing the stack

---
 sia/src/types/spendpolicy.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 6d027a4..4ee6e10 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,10 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+/// Maximum number of sub-policies in an encoded policy, as in the reference
+/// implementation. Limits recursion when decoding untrusted data.
+const MAX_SUB_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -346,7 +350,10 @@ impl SiaEncodable for SpendPolicy {
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            sub_policies: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -363,9 +370,13 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *sub_policies += n as usize;
+                    if *sub_policies > MAX_SUB_POLICIES {
+                        return Err(encoding::Error::Custom("policy is too complex".to_string()));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, sub_policies)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -383,7 +394,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 0)
     }
 }
 
-- 
2.43.0


From 04aa8a6b297a25af22319eafb54f82a073a23ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:47 +0000
Subject: [PATCH 09/21] fix: return an error for currency strings that overflow
 or are finer than a hasting

---
 sia/src/types/currency.rs | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..53c7115 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -191,20 +191,38 @@ impl Currency {
         let integer_part = parts[0]
             .parse::<u128>()
             .map_err(|_| CurrencyParseError::InvalidFormat("invalid integer part".to_string()))?;
-        let fraction_part = if parts.len() == 2 {
-            parts[1].parse::<u128>().map_err(|_| {
-                CurrencyParseError::InvalidFormat("invalid integer part".to_string())
-            })?
-        } else {
+        // trailing zeros do not change the value
+        let fraction_digits = match parts.get(1) {
+            Some(frac) if frac.is_empty() => {
+                return Err(CurrencyParseError::InvalidFormat(
+                    "invalid fraction part".to_string(),
+                ))
+            }
+            Some(frac) => frac.trim_end_matches('0'),
+            None => "",
+        };
+        let fraction_part = if fraction_digits.is_empty() {
             0
+        } else {
+            fraction_digits.parse::<u128>().map_err(|_| {
+                CurrencyParseError::InvalidFormat("invalid fraction part".to_string())
+            })?
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
-
-        Ok(Currency::new(integer + fraction))
+        // scaling factors are at least -12, so the precision is always positive
+        let precision = (SIACOIN_PRECISION_I32 + scaling_factor) as usize;
+        let fraction_precision = precision.checked_sub(fraction_digits.len()).ok_or(
+            CurrencyParseError::InvalidFormat("too many decimal places".to_string()),
+        )?;
+        // neither power can overflow, the precision is at most 36
+        integer_part
+            .checked_mul(10u128.pow(precision as u32))
+            .zip(fraction_part.checked_mul(10u128.pow(fraction_precision as u32)))
+            .and_then(|(integer, fraction)| integer.checked_add(fraction))
+            .map(Currency::new)
+            .ok_or(CurrencyParseError::InvalidFormat(
+                "value too large".to_string(),
+            ))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 8627cfcb907cfcb37e04c3f9ec26530d68667ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 10/21] fix: parse unlock keys whose algorithm contains a colon
 and reject overlong algorithms

---
 sia/src/types/v1.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..f133bc7 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -15,7 +15,7 @@ use crate::encoding::{
 };
 use crate::merkle::{Accumulator, LEAF_HASH_PREFIX};
 use crate::signing::PublicKey;
-use crate::types::{specifier, Specifier};
+use crate::types::{specifier, Specifier, SPECIFIER_SIZE};
 
 use super::currency::Currency;
 use super::{
@@ -66,7 +66,11 @@ impl UnlockKey {
     /// Parses an UnlockKey from a string
     /// The string should be in the format "algorithm:public_key"
     pub fn parse_string(s: &str) -> Result<Self, HexParseError> {
-        let (prefix, key_str) = s.split_once(':').ok_or(HexParseError::MissingPrefix)?;
+        // the key is hex encoded, so only the algorithm can contain a colon
+        let (prefix, key_str) = s.rsplit_once(':').ok_or(HexParseError::MissingPrefix)?;
+        if prefix.len() > SPECIFIER_SIZE {
+            return Err(HexParseError::InvalidLength);
+        }
         Ok(UnlockKey {
             algorithm: Specifier::from(prefix),
             key: hex::decode(key_str).map_err(HexParseError::HexError)?,
-- 
2.43.0


From 719482b59f24562a372cb811a5220efea0c70fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 11/21] fix: return an error for unlock keys with a non-text
 algorithm instead of panicking

---
 sia/src/types/specifier.rs | 5 ++---
 sia/src/types/v1.rs        | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/specifier.rs b/sia/src/types/specifier.rs
index e80f69b..b79d990 100644
--- a/sia/src/types/specifier.rs
+++ b/sia/src/types/specifier.rs
@@ -2,7 +2,7 @@ use crate::encoding::{
     SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable,
     V1SiaEncode,
 };
-use core::{fmt, str};
+use core::fmt;
 use serde::{Deserialize, Serialize};
 
 pub const SPECIFIER_SIZE: usize = 16;
@@ -51,8 +51,7 @@ impl fmt::Display for Specifier {
             .rev()
             .position(|&x| x != 0)
             .map_or(0, |pos| SPECIFIER_SIZE - pos);
-        let str = str::from_utf8(&self.0[..index]).map_err(|_| fmt::Error)?;
-        write!(f, "{}", str)
+        write!(f, "{}", String::from_utf8_lossy(&self.0[..index]))
     }
 }
 
diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index f133bc7..883b471 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -37,6 +37,11 @@ pub struct UnlockKey {
 
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        if core::str::from_utf8(self.algorithm.as_bytes()).is_err() {
+            return Err(serde::ser::Error::custom(
+                "unlock key algorithm is not valid UTF-8",
+            ));
+        }
         String::serialize(&self.to_string(), serializer)
     }
 }
-- 
2.43.0


From 2e52d098d0e563c6c93692e860157e349a95832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 12/21] fix: make the serde forms of ids, unlock keys and
 policies symmetric in binary formats

---
 sia/src/macros.rs            | 9 +++++++--
 sia/src/types/spendpolicy.rs | 3 ++-
 sia/src/types/v1.rs          | 9 ++-------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/sia/src/macros.rs b/sia/src/macros.rs
index 0f86d3e..9451ca7 100644
--- a/sia/src/macros.rs
+++ b/sia/src/macros.rs
@@ -29,8 +29,13 @@ macro_rules! impl_hash_id {
             where
                 D: serde::Deserializer<'de>,
             {
-                let s = String::deserialize(deserializer)?;
-                $name::parse_string(&s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))
+                if deserializer.is_human_readable() {
+                    let s = String::deserialize(deserializer)?;
+                    $name::parse_string(&s)
+                        .map_err(|e| serde::de::Error::custom(format!("{:?}", e)))
+                } else {
+                    <[u8; 32]>::deserialize(deserializer).map($name)
+                }
             }
         }
 
diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 4ee6e10..f97fe27 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -291,7 +291,8 @@ impl Serialize for SpendPolicy {
                 state.serialize_field("policy", &pk)?;
             }
             SpendPolicy::Hash(hash) => {
-                state.serialize_field("policy", &hash)?;
+                // the deserializer expects the text form in every format
+                state.serialize_field("policy", &hash.to_string())?;
             }
             SpendPolicy::Threshold(n, policies) => {
                 state.serialize_field(
diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index 883b471..689b09a 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -51,13 +51,8 @@ impl<'de> Deserialize<'de> for UnlockKey {
     where
         D: serde::Deserializer<'de>,
     {
-        if deserializer.is_human_readable() {
-            let s = String::deserialize(deserializer)?;
-            UnlockKey::parse_string(&s).map_err(|e| Error::custom(format!("{:?}", e)))
-        } else {
-            let (algorithm, key) = <(Specifier, Vec<u8>)>::deserialize(deserializer)?;
-            Ok(Self { algorithm, key })
-        }
+        let s = String::deserialize(deserializer)?;
+        UnlockKey::parse_string(&s).map_err(|e| Error::custom(format!("{:?}", e)))
     }
 }
 
-- 
2.43.0


From 04a911550408cc5cb1454e86fb8863eec6868337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:00 +0000
Subject: [PATCH 13/21] fix: return the error of a sub-policy that cannot be
 serialized instead of panicking

---
 sia/src/types/spendpolicy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index f97fe27..c07f492 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -299,7 +299,7 @@ impl Serialize for SpendPolicy {
                     "policy",
                     &json!({
                         "n": n,
-                        "of": policies,
+                        "of": serde_json::to_value(policies).map_err(serde::ser::Error::custom)?,
                     }),
                 )?;
             }
-- 
2.43.0


From bc065e88933049a6a59d421a41990b598613209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 14/21] fix: carry the combined node up when adding a leaf to
 the Merkle accumulator

---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From 1e3d492380fb35a660e2439fe2383f1c37bddb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:42 +0000
Subject: [PATCH 15/21] fix: hash each segment of a sector once, in order, for
 its root

---
 sia/src/rhp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..dec7ef3 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,9 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                input[1..].copy_from_slice(
+                    &sector[SEGMENT_SIZE * (i * 4 + j)..SEGMENT_SIZE * (i * 4 + j + 1)],
+                );
             }
 
             // hash them
-- 
2.43.0


From daf5d672e2e8743b3e28dcc46b3026b48389fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 16/21] fix: derive v2 contract output and renewal ids under
 their sia/...| tags

---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 4f2792a..1ca1033 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From 5da85a60baaf71bafd53dd37a8cec7ae4da30abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:24 +0000
Subject: [PATCH 17/21] fix: reject signatures under a public key that is not a
 curve point instead of panicking

---
 sia/src/signing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..2da053e 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,10 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        // not every 32 bytes encode a point on the curve
+        let Ok(pk) = VerifyingKey::from_bytes(&self.0) else {
+            return false;
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From 2cb8790ee50731adc3d4944bbcc6e1e505db268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:05 +0000
Subject: [PATCH 18/21] fix: wipe seeds and private keys on drop with stores
 the optimizer keeps

---
 sia/src/seed.rs    | 7 +++++--
 sia/src/signing.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index e61e948..e30fbae 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -2,6 +2,7 @@ use crate::signing::PrivateKey;
 use crate::types::Hash256;
 use bip39::{Error as MnemonicError, Language, Mnemonic};
 use blake2b_simd::Params;
+use core::sync::atomic::{compiler_fence, Ordering};
 
 pub struct Seed([u8; 16]);
 
@@ -64,10 +65,12 @@ impl Seed {
 
 impl Drop for Seed {
     fn drop(&mut self) {
-        // Zero out the private key
+        // Zero out the seed. Plain stores to memory about to be freed are
+        // removed by the optimizer, volatile ones are not.
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        compiler_fence(Ordering::SeqCst);
     }
 }
 
diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 2da053e..a9685b0 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use core::sync::atomic::{compiler_fence, Ordering};
 
 use crate::encoding::{SiaDecodable, SiaDecode, SiaEncodable, SiaEncode};
 use crate::types::{Hash256, HexParseError};
@@ -106,10 +107,12 @@ impl From<Hash256> for PrivateKey {
 
 impl Drop for PrivateKey {
     fn drop(&mut self) {
-        // Zero out the private key
+        // Zero out the private key. Plain stores to memory about to be freed are
+        // removed by the optimizer, volatile ones are not.
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        compiler_fence(Ordering::SeqCst);
     }
 }
 
-- 
2.43.0


From 19523dee87351d5558968fe965d4d7c9717d6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:54 +0000
Subject: [PATCH 19/21] fix: refuse currency operations that overflow in
 release builds instead of wrapping

---
 sia/src/types/currency.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index 53c7115..f57b497 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -239,7 +239,10 @@ impl Currency {
     ///
     /// Returns a `Currency` instance representing the specified amount of Siacoins.
     pub const fn siacoins(n: u64) -> Self {
-        Currency::new((n as u128) * 10u128.pow(SIACOIN_PRECISION_U32))
+        match (n as u128).checked_mul(10u128.pow(SIACOIN_PRECISION_U32)) {
+            Some(value) => Currency::new(value),
+            None => panic!("siacoin value too large"),
+        }
     }
 
     pub fn checked_add(self, other: Currency) -> Option<Self> {
@@ -267,7 +270,7 @@ impl Add for Currency {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        self.checked_add(other).expect("currency addition overflow")
     }
 }
 
@@ -275,7 +278,8 @@ impl Sub for Currency {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        Self(self.0 - other.0)
+        self.checked_sub(other)
+            .expect("currency subtraction underflow")
     }
 }
 
@@ -283,7 +287,8 @@ impl Mul for Currency {
     type Output = Self;
 
     fn mul(self, other: Self) -> Self {
-        Self(self.0 * other.0)
+        self.checked_mul(other)
+            .expect("currency multiplication overflow")
     }
 }
 
-- 
2.43.0


From ac5a892bd1c260d59ea6d6fbb7dfd45524f47a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:57 +0000
Subject: [PATCH 20/21] fix: pay the minimum block reward at heights whose
 reduction overflows a currency

---
 sia/src/consensus.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index f195f38..34bdaf3 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -450,10 +450,10 @@ impl ChainState {
 
     /// block_reward returns the reward for mining a child block
     pub fn block_reward(&self) -> Currency {
-        let reward = self
-            .network
-            .initial_coinbase
-            .checked_sub(Currency::siacoins(self.child_height()));
+        // the reduction does not fit a currency at every height
+        let reward = Currency::siacoins(1)
+            .checked_mul(Currency::new(self.child_height() as u128))
+            .and_then(|reduction| self.network.initial_coinbase.checked_sub(reduction));
 
         match reward {
             Some(reward) if reward >= self.network.minimum_coinbase => reward,
-- 
2.43.0


From d4358c9ce742d8ea4a663e125a7059af43ef0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:01 +0000
Subject: [PATCH 21/21] fix: pay the Foundation subsidy for every block of the
 period to the recorded address

---
 sia/src/consensus.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 34bdaf3..2963d7e 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -483,6 +483,12 @@ impl ChainState {
             / self.network.block_interval.whole_nanoseconds()) as u64
     }
 
+    // blocks_per_year estimates the number of blocks expected in a calendar year
+    fn blocks_per_year(&self) -> u64 {
+        (Duration::days(365).whole_nanoseconds() / self.network.block_interval.whole_nanoseconds())
+            as u64
+    }
+
     /// foundation_subsidy returns the Foundation subsidy output for the child block.
     /// If no subsidy is due, returns None.
     pub fn foundation_subsidy(&self) -> Option<SiacoinOutput> {
@@ -495,13 +501,15 @@ impl ChainState {
         }
 
         let subsidy_per_block = Currency::siacoins(30000);
+        let blocks = if self.child_height() == self.network.hardfork_foundation.height {
+            // the initial subsidy covers a full year
+            self.blocks_per_year()
+        } else {
+            blocks_per_month
+        };
         Some(SiacoinOutput {
-            value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
-            } else {
-                subsidy_per_block
-            },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            value: subsidy_per_block * Currency::new(blocks as u128),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0

