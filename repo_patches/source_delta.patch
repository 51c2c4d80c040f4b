From 094bd949b06b2076dd83bba3092114e483fb5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 01/58] fix: quotes in an allowed signer's trailing comment no
 longer make the line invalid

---
 src/ssh/allowed_signer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..ac7d288 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -309,12 +309,21 @@ impl AllowedSignerSplitter {
     fn new(s: &str) -> Self {
         let mut buffer = Vec::new();
         let mut last = 0;
+        let mut in_quotes = false;
 
         for (index, matched) in s.match_indices([' ', '"', '#']) {
             // Push the new text before the delimiter
             if last != index {
                 buffer.push(s[last..index].to_owned());
             }
+            // An unquoted pound starts a comment, nothing in it is part of the entry
+            if matched == "#" && !in_quotes {
+                last = s.len();
+                break;
+            }
+            if matched == "\"" {
+                in_quotes = !in_quotes;
+            }
             // Push the delimiter
             buffer.push(matched.to_owned());
             last = index + matched.len();
-- 
2.43.0


From f7d16d726b82a0df7cc75e861acd48e68267d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 02/58] fix: reject quotes in the middle of an allowed signer's
 principals

---
 src/ssh/allowed_signer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index ac7d288..1b68d38 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -102,6 +102,9 @@ impl AllowedSigner {
         let principals = tokenizer.next(true)?
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingPrincipals))?;
         let principals = principals.trim_matches('"');
+        if principals.contains('"') {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
+        }
         let principals: Vec<String> = principals.split(',')
             .map(|s| s.to_string())
             .collect();
-- 
2.43.0


From 0a8eec2d5d2d6c148e5a3289a61131b75b64fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 03/58] fix: cert-authority takes no value, do not read
 cert-authority=no as set

---
 src/ssh/allowed_signer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 1b68d38..178883a 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -131,7 +131,15 @@ impl AllowedSigner {
             }
 
             match option_key.to_lowercase().as_str() {
-                "cert-authority" => cert_authority = true,
+                "cert-authority" => {
+                    // This is a flag, a value (e.g. "=no") must not be mistaken for setting it
+                    if option.contains('=') {
+                        return Err(
+                            Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidOption("cert-authority".to_string()))
+                        );
+                    }
+                    cert_authority = true
+                },
                 "namespaces" => {
                     if namespaces.is_some() {
                         return Err(
-- 
2.43.0


From fd9627962a702cf5619a0eb9a4fdf46aea5c5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 04/58] fix: do not panic on local timestamps that daylight
 saving skips or repeats

---
 src/ssh/allowed_signer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 178883a..f974759 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -481,7 +481,9 @@ fn parse_timestamp(s: &str) -> Result<i64> {
             .timestamp()
     } else {
         datetime.and_local_timezone(Local)
-            .unwrap()
+            // A daylight saving change can make a local time ambiguous or skip it entirely
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From 28ad1fd7b21dfcc2ca9d7c24d1d64ea329b0b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:55 +0000
Subject: [PATCH 05/58] fix: reject allowed signer timestamps with anything but
 digits and one Z

---
 src/ssh/allowed_signer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index f974759..df32f72 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -457,7 +457,11 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     if is_utc {
-        s = s.trim_end_matches('Z');
+        s = &s[..s.len() - 1];
+    }
+    // chrono would otherwise also accept signs and padding within the fields
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     let datetime = match s.len() {
         8 => {
-- 
2.43.0


From 8cb267e306fc6b18f0d96063afc7456f8a3c1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:03 +0000
Subject: [PATCH 06/58] fix: print allowed signers in the format they are
 parsed from

---
 src/ssh/allowed_signer.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index df32f72..e69dc73 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -4,7 +4,7 @@ use std::io::Read;
 use std::path::Path;
 
 use chrono::prelude::Local;
-use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
 
 use super::pubkey::PublicKey;
 use crate::{error::Error, Result};
@@ -220,22 +220,22 @@ impl fmt::Display for AllowedSigner {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut output = String::new();
 
-        output.push_str(&self.principals.join(","));
+        output.push_str(&quote_if_needed(&self.principals.join(",")));
         
         if self.cert_authority {
             output.push_str(" cert-authority");
         }
 
         if let Some(ref namespaces) = self.namespaces {
-            output.push_str(&format!(" namespaces={}", namespaces.join(",")));
+            output.push_str(&format!(" namespaces={}", quote_if_needed(&namespaces.join(","))));
         }
 
         if let Some(ref valid_after) = self.valid_after {
-            output.push_str(&format!(" valid-after={}", valid_after));
+            output.push_str(&format!(" valid-after={}", format_timestamp(*valid_after)));
         }
 
         if let Some(ref valid_before) = self.valid_before {
-            output.push_str(&format!(" valid-before={}", valid_before));
+            output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
         output.push_str(&format!(" {}", self.key));
@@ -447,6 +447,23 @@ impl AllowedSignerSplitter {
     }
 }
 
+/// Enclose a value in double quotes if it would otherwise not be read back as one token.
+fn quote_if_needed(s: &str) -> String {
+    if s.contains([' ', '#']) {
+        format!("\"{}\"", s)
+    } else {
+        s.to_string()
+    }
+}
+
+/// Format a timestamp such that `parse_timestamp` reads back the same instant.
+fn format_timestamp(timestamp: i64) -> String {
+    match DateTime::from_timestamp(timestamp, 0) {
+        Some(datetime) => datetime.format("%Y%m%d%H%M%SZ").to_string(),
+        None => timestamp.to_string(),
+    }
+}
+
 /// Parse a string into a u64 representing a timestamp.
 /// The timestamp has format YYYYMMDD[HHMM[SS]][Z]
 /// The timestamp can be enclosed by quotation marks.
-- 
2.43.0


From 8fd784b6b74da12db186eb24f74f833a450f0635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 07/58] fix: certificate text must state exactly the type the
 certificate encodes

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 385b566..23cac18 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -157,7 +157,7 @@ impl Certificate {
         let mut cert = Certificate::from_bytes(&decoded)?;
         cert.comment = comment;
 
-        if cert.key_type.kind != outer_kt.kind {
+        if cert.key_type != outer_kt {
             return Err(Error::KeyTypeMismatch);
         }
         Ok(cert)
-- 
2.43.0


From ed9c7c81e5e8fda80cb75a3e5b429d4b979fdd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 08/58] fix: do not read certificates as public keys

---
 src/ssh/pubkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 592b08f..5e8bb37 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -256,6 +256,11 @@ impl PublicKey {
     pub(crate) fn from_reader(kt_name: &str, reader: &mut Reader<'_>) -> Result<PublicKey> {
         let kt = KeyType::from_name(kt_name)?;
 
+        // A certificate starts with a nonce, so its fields can't be read as a public key
+        if kt.is_cert {
+            return Err(Error::KeyTypeMismatch);
+        }
+
         let kind = match kt.kind {
             KeyTypeKind::Rsa | KeyTypeKind::RsaCert => {
                 let k = RsaPublicKey {
-- 
2.43.0


From 717f1c963883821c9023592fea661349d3b94aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 09/58] fix: an ECDSA key's curve must be the one its type
 names

---
 src/ssh/keytype.rs | 8 ++++++++
 src/ssh/privkey.rs | 3 +++
 src/ssh/pubkey.rs  | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/src/ssh/keytype.rs b/src/ssh/keytype.rs
index 74962ec..9cd4020 100644
--- a/src/ssh/keytype.rs
+++ b/src/ssh/keytype.rs
@@ -247,6 +247,14 @@ impl KeyType {
         Ok(kt)
     }
 
+    /// Whether keys of this type are on the given curve.
+    pub(crate) fn has_curve(&self, curve: &Curve) -> bool {
+        match self.plain {
+            "sk-ecdsa-sha2-nistp256@openssh.com" => curve.kind == CurveKind::Nistp256,
+            plain => plain.strip_prefix("ecdsa-sha2-") == Some(curve.identifier),
+        }
+    }
+
     /// The SK types change the convention of plain vs name. So this provides
     /// an easy way to convert a name into the certificate version of it.
     pub fn as_cert_name(&self) -> String {
diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..4ae3547 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -349,6 +349,9 @@ impl PrivateKey {
             KeyTypeKind::Ecdsa => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                if !kt.has_curve(&curve) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let pubkey = reader.read_bytes()?;
 
                 let (private_key, sk_application) = match kt.is_sk {
diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 5e8bb37..cb87a0c 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -273,6 +273,9 @@ impl PublicKey {
             KeyTypeKind::Ecdsa | KeyTypeKind::EcdsaCert => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                if !kt.has_curve(&curve) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let key = reader.read_bytes()?;
                 let sk_application = match kt.is_sk {
                     true => Some(reader.read_string()?),
-- 
2.43.0


From 2048607b2b2a7ee5404e4532a64252a9e86d97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:01 +0000
Subject: [PATCH 10/58] fix: write certificate options in lexical order as the
 specification requires

---
 src/ssh/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..504adf6 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -196,7 +196,11 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // Options must be in lexical order of their names, not in the map's arbitrary one
+        let mut entries: Vec<_> = map.iter().collect();
+        entries.sort();
+
+        for (k, v) in entries {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From 78db6c17e0801d5ee596cad1d799140524d45902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 11/58] fix: reject certificates with the same option twice

---
 src/ssh/cert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 23cac18..436f6a1 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -495,7 +495,10 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
             "".to_string()
         };
 
-        options.insert(name, value);
+        // Names may only appear once, silently picking one of the values is not safe
+        if options.insert(name, value).is_some() {
+            return Err(Error::InvalidFormat);
+        }
     }
 
     Ok(options)
-- 
2.43.0


From 8462926ef4613f2b3fba8c37249d1a1310468a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:17 +0000
Subject: [PATCH 12/58] fix: reject certificates followed by unsigned data

---
 src/ssh/cert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 436f6a1..3fb1b8f 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -202,6 +202,11 @@ impl Certificate {
         let signed_len = reader.get_offset();
         let signature = reader.read_bytes()?;
 
+        // Nothing authenticates data after the signature
+        if reader.get_offset() != data.len() {
+            return Err(Error::InvalidFormat);
+        }
+
         reader.set_offset(0)?;
         let signed_bytes = reader.read_raw_bytes(signed_len)?;
 
-- 
2.43.0


From 1ff5ba572939c15adc1eff14fe1b4852beccc4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:26 +0000
Subject: [PATCH 13/58] fix: do not panic when signing with a too short private
 key

---
 src/ssh/privkey.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 4ae3547..945dfeb 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -253,7 +253,7 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
+                let key = if key.key.first() == Some(&0x0_u8) {
                     &key.key[1..]
                 } else {
                     &key.key
@@ -273,8 +273,9 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
+                let seed = key.key.get(..32)?;
                 let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
+                    match Ed25519KeyPair::from_seed_and_public_key(seed, public_key) {
                         Ok(kp) => kp,
                         Err(_) => return None,
                     };
-- 
2.43.0


From d86c11bc5a1237520b092b81f86846caf10e0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:07 +0000
Subject: [PATCH 14/58] fix: sign with ECDSA keys whose scalar has leading zero
 bytes

---
 src/ssh/privkey.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 945dfeb..1caa41c 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use ring::signature::Ed25519KeyPair;
 use ring::{rand, signature, signature::KeyPair};
 
-use zeroize::Zeroize;
+use zeroize::{Zeroize, Zeroizing};
 
 use crate::{
     error::Error,
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -258,8 +258,12 @@ impl super::SSHCertificateSigner for PrivateKey {
                 } else {
                     &key.key
                 };
+                // The scalar is stored as an mpint so it may be shorter than the curve's size
+                let mut padded_key = Zeroizing::new(vec![0; len]);
+                let start = len.checked_sub(key.len())?;
+                padded_key[start..].copy_from_slice(key);
                 let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
+                    alg, &padded_key, pubkey, &rng,
                 ) {
                     Ok(kp) => kp,
                     Err(_) => return None,
-- 
2.43.0


From ff4f61d8c9f8ce98054cca04dc030a285933b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 15/58] fix: do not panic on RSA private keys with factors of
 zero or one

---
 src/ssh/privkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 1caa41c..5e1e709 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -309,6 +309,11 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // Anything smaller is not a prime, and p - 1 is not a usable modulus below
+                if [&p, &q].iter().any(|f| f.is_empty() || f.as_slice() == [1]) {
+                    return Err(Error::InvalidFormat);
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From 399ca9720de4b99f05cb64d54d404bd3488c8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 16/58] fix: generate Ed25519 keys in the form OpenSSH can read

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 5e1e709..1876114 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -465,7 +465,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the public key together with the seed
+                let key = Ed25519PrivateKey {
+                    key: [seed.as_slice(), public_key_bytes.as_slice()].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From aea256444f4a5bd899f2791aad4fa3ed424679fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 17/58] fix: return an error instead of panicking when key
 generation gets no randomness

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 1876114..80c1c35 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -458,8 +458,8 @@ impl PrivateKey {
                 // Ring does not expose access to the private key without
                 // PKCS#8 wrapping. So we either need to do this, or write/pull
                 // in code to parse it.
-                let seed: [u8; 32] = rand::generate(&rng).unwrap().expose();
-                let magic: [u8; 4] = rand::generate(&rng).unwrap().expose();
+                let seed: [u8; 32] = rand::generate(&rng).map_err(|_| Error::UnexpectedEof)?.expose();
+                let magic: [u8; 4] = rand::generate(&rng).map_err(|_| Error::UnexpectedEof)?.expose();
                 let public_key_bytes = Ed25519KeyPair::from_seed_unchecked(&seed)
                     .unwrap()
                     .public_key()
-- 
2.43.0


From a27f64c58ed648695306ee0729542863fed58942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:41 +0000
Subject: [PATCH 18/58] fix: keep the reserved field of hardware backed keys
 when writing them

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 80c1c35..a394d2b 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -693,7 +693,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -703,7 +703,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From 21d62ee0a0188bffb84424678d19ff02cf333e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 19/58] fix: ignore the comment of the expected key when
 verifying an SSHSIG signature

---
 src/ssh/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8dd3c18..4ab9e77 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -210,7 +210,8 @@ impl VerifiedSshSignature {
         // public key before verification. This is useful when you have a signature but additionally
         // need to check the signature is from it.
         if let Some(pub_key) = pub_key {
-            if ssh_signature.pubkey != pub_key {
+            // The comment is not part of the key
+            if ssh_signature.pubkey.encode() != pub_key.encode() {
                 return Err(Error::InvalidSignature);
             }
         }
-- 
2.43.0


From 29f1fb2e0a95ed6e656a1860a6d82037cc80f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:15 +0000
Subject: [PATCH 20/58] fix: ignore the SSHSIG reserved field also if it is not
 UTF-8

---
 src/ssh/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 4ab9e77..5f4ddf9 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -155,7 +155,7 @@ impl SshSignature {
 
         // Reserved space for future expansion. According to the specification, this should be
         // ignored even if it is not empty.
-        let _reserved = reader.read_string()?;
+        let _reserved = reader.read_bytes()?;
 
         // The hash algorithm used to sign the data. This must be one of sha256 or sha512.
         let hash_algorithm = match reader.read_string()?.as_str() {
-- 
2.43.0


From 37ca26cc8670464af4cf28d4c01db1ea30a726f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 21/58] fix: refuse to create SSHSIG signatures with an empty
 namespace

---
 src/ssh/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 5f4ddf9..ccd93ef 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -245,6 +245,11 @@ impl VerifiedSshSignature {
     ) -> Result<Self> {
         let hash_algorithm = hash_algorithm.unwrap_or(HashAlgorithm::Sha512);
 
+        // A signature without a namespace can't be parsed again, by us or anyone else
+        if namespace.is_empty() {
+            return Err(Error::InvalidFormat);
+        }
+
         let mut ssh_signature = SshSignature {
             pubkey: private_key.pubkey.clone(),
             namespace: namespace.to_string(),
-- 
2.43.0


From 730633bf89810bcf57d51f56bf2fab81aedb1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 22/58] fix: a security key signature label is only valid for
 security keys and vice versa

---
 src/ssh/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index ccd93ef..1b08119 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -291,7 +291,7 @@ pub(crate) fn verify_signature(
 
     // If these types don't match we can't continue verification as it's unclear
     // what the correct type even is.
-    if public_key.key_type.kind != sig_type.kind {
+    if public_key.key_type.kind != sig_type.kind || public_key.key_type.is_sk != sig_type.is_sk {
         return Err(Error::KeyTypeMismatch);
     }
 
-- 
2.43.0


From 99731585c2219d0181f13d8fa5a797e3f730f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 23/58] fix: an unusable PIV attestation root is an error, not
 a panic

---
 src/yubikey/verification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..d37e9ea 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -114,8 +114,8 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From bc402f4abd958ccbe83a72fc2fcbf113d7d03bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:08 +0000
Subject: [PATCH 24/58] fix: do not panic on a short PIV policy extension

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index d37e9ea..93506e3 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() != 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From 9b04ac282f58f89326b440a56c042611b6845cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:16 +0000
Subject: [PATCH 25/58] fix: report the internal USB transport of FIDO
 attestations

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..097eac0 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..5 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From 601b7f701178abceabea58cff3567891b1157673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 26/58] fix: remove stray letter in FIDO error messages

---
 src/fido/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/mod.rs b/src/fido/mod.rs
index ffb3d30..86ec891 100644
--- a/src/fido/mod.rs
+++ b/src/fido/mod.rs
@@ -35,7 +35,7 @@ impl std::fmt::Display for Error {
             Self::CborFormat(s) => s.to_string(),
             Self::Unknown(s) => s.to_string(),
         };
-        write!(f, "s{}", msg)
+        write!(f, "{}", msg)
     }
 }
 
-- 
2.43.0


From eadf8afd556033a7889d691756b5d7a2447e059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 27/58] fix: keep both coordinates of elliptic curve FIDO
 credentials

---
 src/fido/parsing.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..2d3006e 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let mut y_coordinate = vec![];
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -175,12 +176,22 @@ impl AuthData {
                             ))
                         })?
                     }
-                    -2 | -3 => {
+                    -2 => {
                         parsed_key.key = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
-                                    "Could not bytes for key -2|-3 (key)".to_owned(),
+                                    "Could not bytes for key -2 (key)".to_owned(),
+                                ))
+                            })?
+                            .to_vec()
+                    }
+                    -3 => {
+                        y_coordinate = decoder
+                            .bytes()
+                            .map_err(|_| {
+                                Error::FidoError(super::Error::CborFormat(
+                                    "Could not bytes for key -3 (y coordinate)".to_owned(),
                                 ))
                             })?
                             .to_vec()
@@ -193,6 +204,13 @@ impl AuthData {
                 };
                 idx += 2;
             }
+
+            // The public key of an elliptic curve key (EC2) consists of both coordinates, SSH
+            // wants them as an uncompressed point.
+            if parsed_key.key_type == 2 {
+                parsed_key.key.insert(0, 0x04);
+                parsed_key.key.append(&mut y_coordinate);
+            }
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From 533033647fd1e1df0771b9c8abd889ca467a658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:17 +0000
Subject: [PATCH 28/58] fix: do not wait forever when FIDO key generation fails
 without a PIN error

---
 src/fido/generate/mozilla.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f17642d..4724765 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -82,7 +82,7 @@ pub fn generate_new_ssh_key(
         let _ = register_tx.send(rv);
     }));
 
-    if let Err(e) = manager.register(15_000, ctap_args, status_tx.clone(), callback) {
+    if let Err(e) = manager.register(15_000, ctap_args, status_tx, callback) {
         return Err(Error::FidoError(FidoError::Unknown(e.to_string())));
     };
 
-- 
2.43.0


From 1a3509ae689fd46ecc7ff73dbeaa7a2f9d840e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:24 +0000
Subject: [PATCH 29/58] fix: FIDO signing reports failure instead of panicking
 when the device can't be used

---
 src/fido/signing/mozilla.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..7d7fdc5 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -66,17 +66,15 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
     }));
 
     let (status_tx, _status_rx) = channel::<StatusUpdate>();
-    if let Err(e) = manager.sign(
-        15_000,
-        ctap_args.clone().into(),
-        status_tx.clone(),
-        callback,
-    ) {
-        panic!("Couldn't sign: {:?}", e);
-    }
-    let sign_result = sign_rx
-        .recv()
-        .expect("Problem receiving, unable to continue");
+    manager
+        .sign(
+            15_000,
+            ctap_args.clone().into(),
+            status_tx.clone(),
+            callback,
+        )
+        .ok()?;
+    let sign_result = sign_rx.recv().ok()?;
 
     let assertion = match sign_result {
         Ok(assertion_object) => assertion_object.assertion,
-- 
2.43.0


From 26367dfbfd8cd5f33bab8e94c47b0f2f0d32536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 30/58] hooks: let a verification harness supply the FIDO
 transport (feature verif-hooks)

---
 Cargo.toml                   |  3 +++
 src/fido/generate/mozilla.rs |  3 +++
 src/fido/mod.rs              |  4 ++++
 src/fido/signing/mozilla.rs  |  3 +++
 src/fido/verif_hooks.rs      | 22 ++++++++++++++++++++++
 5 files changed, 35 insertions(+)
 create mode 100644 src/fido/verif_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index 6cc0653..f2eabad 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -50,6 +50,9 @@ x509-support = ["der-parser", "x509", "x509-parser"]
 yubikey-support = ["rcgen", "yubikey", "yubikey-lite"]
 yubikey-lite = ["x509-support"]
 
+# Only for verification harnesses: lets them stand in for a FIDO device
+verif-hooks = []
+
 [dependencies]
 base64 = "0.13"
 chrono = "0.4"
diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 4724765..851d154 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -45,7 +45,10 @@ pub fn generate_new_ssh_key(
         Ok(m) => m,
         Err(e) => return Err(Error::FidoError(FidoError::Unknown(e.to_string()))),
     };
+    #[cfg(not(feature = "verif-hooks"))]
     manager.add_u2f_usb_hid_platform_transports();
+    #[cfg(feature = "verif-hooks")]
+    crate::fido::verif_hooks::add_transports(&mut manager);
 
     let mut chall_bytes = [0u8; 32];
     SystemRandom::new().fill(&mut chall_bytes).unwrap();
diff --git a/src/fido/mod.rs b/src/fido/mod.rs
index 86ec891..af703a6 100644
--- a/src/fido/mod.rs
+++ b/src/fido/mod.rs
@@ -75,3 +75,7 @@ pub mod verification;
 
 #[cfg(any(feature = "fido-support", feature = "fido-support-mozilla"))]
 pub use generate::FIDOSSHKey;
+
+/// Lets a verification harness supply the transports FIDO operations use
+#[cfg(all(feature = "verif-hooks", feature = "fido-support-mozilla"))]
+pub mod verif_hooks;
diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 7d7fdc5..c0676c1 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -58,7 +58,10 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         Ok(m) => m,
         Err(_) => return None,
     };
+    #[cfg(not(feature = "verif-hooks"))]
     manager.add_u2f_usb_hid_platform_transports();
+    #[cfg(feature = "verif-hooks")]
+    crate::fido::verif_hooks::add_transports(&mut manager);
 
     let (sign_tx, sign_rx) = channel();
     let callback = StateCallback::new(Box::new(move |rv| {
diff --git a/src/fido/verif_hooks.rs b/src/fido/verif_hooks.rs
new file mode 100644
index 0000000..f6dc811
--- /dev/null
+++ b/src/fido/verif_hooks.rs
@@ -0,0 +1,22 @@
+use authenticator::authenticatorservice::{AuthenticatorService, AuthenticatorTransport};
+use std::cell::RefCell;
+
+/// Makes the transport that the next FIDO operation of this thread uses
+pub type TransportFactory = Box<dyn Fn() -> Box<dyn AuthenticatorTransport + Send>>;
+
+thread_local! {
+    static FACTORY: RefCell<Option<TransportFactory>> = RefCell::new(None);
+}
+
+/// Set the transport factory for FIDO operations started by the current thread
+pub fn set_transport_factory(factory: Option<TransportFactory>) {
+    FACTORY.with(|f| *f.borrow_mut() = factory);
+}
+
+pub(crate) fn add_transports(manager: &mut AuthenticatorService) {
+    FACTORY.with(|f| {
+        if let Some(factory) = f.borrow().as_ref() {
+            manager.add_transport(factory());
+        }
+    });
+}
-- 
2.43.0


From 32ea81511ea8568df2bf9f779fcdaccb47f994fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:39 +0000
Subject: [PATCH 31/58] fix: only convert well formed DER ECDSA signatures to
 SSH format

---
 src/utils.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index b83dc81..ad8c930 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -6,6 +6,9 @@ pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
     if buf.len() < 4 || buf[0] != 0x30  || buf[2] != 0x2 {
         return None;
     }
+    if buf[1] as usize != buf.len() - 2 {
+        return None;
+    }
     let buf = &buf[3..];
     let r_length = buf[0] as usize;
     if buf.len() < r_length + 2 {
@@ -30,9 +33,22 @@ pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
         return None;
     }
 
+    // Other encodings are no DER, and would not be valid SSH mpints either
+    if !is_positive_der_integer(r) || !is_positive_der_integer(s) {
+        return None;
+    }
+
     Some((r, s))
 }
 
+fn is_positive_der_integer(integer: &[u8]) -> bool {
+    match integer {
+        [] | [0] => false,
+        [0, next, ..] => next & 0x80 != 0,
+        [first, ..] => first & 0x80 == 0,
+    }
+}
+
 /// Most signature systems generate ECDSA signatures encoded in ASN1 format.
 /// This function will take an ASN1 encoded ECDSA signature and return
 /// an SSH Signature blob
-- 
2.43.0


From aa73de52bc9a1f0573ee582cd6f1f590c7261ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 32/58] fix: read NUL terminated strings as the UTF-8 they are
 written in

---
 src/ssh/reader.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/ssh/reader.rs b/src/ssh/reader.rs
index 8350f44..347a6e2 100644
--- a/src/ssh/reader.rs
+++ b/src/ssh/reader.rs
@@ -211,22 +211,14 @@ impl Reader<'_> {
     /// In the event the buffer runs out before a null byte, the offset will be
     /// reset and an error returned.
     pub fn read_cstring(&mut self) -> Result<String> {
-        let original_offset = self.offset;
-        let mut s = String::new();
-
-        while self.offset < self.inner.len() {
-            let chr = self.inner[self.offset];
-            if chr == 0x0 {
-                // Count the final null byte as read
-                self.offset += 1;
-                return Ok(s);
-            }
-
-            s.push(chr as char);
-            self.offset += 1;
-        }
-        self.offset = original_offset;
-        Err(Error::UnexpectedEof)
+        let slice = self.inner.get(self.offset..).unwrap_or_default();
+        let length = slice.iter().position(|b| *b == 0x0).ok_or(Error::UnexpectedEof)?;
+        let result = String::from_utf8(slice[..length].to_vec())?;
+
+        // Count the final null byte as read
+        self.offset += length + 1;
+
+        Ok(result)
     }
 
     /// Reads an `u32` value from the wrapped byte sequence and returns it.
-- 
2.43.0


From 9aba2ce7bd42a81149380c0b079def29bd342f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:01 +0000
Subject: [PATCH 33/58] fix: reject cut off principals and options instead of
 dropping them

---
 src/ssh/cert.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 3fb1b8f..7194eff 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -482,14 +482,8 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
 
     // Use a `Reader` and loop until EOF is reached, so that we can
     // read all options from the provided byte slice.
-    loop {
-        let name = match reader.read_string() {
-            Ok(v) => v,
-            Err(e) => match e {
-                Error::UnexpectedEof => break,
-                _ => return Err(e),
-            },
-        };
+    while reader.get_offset() < buf.len() {
+        let name = reader.read_string()?;
 
         // If we have a `string` option extract the value from the buffer,
         // otherwise we have a `flag` option which is the `empty` string.
@@ -518,14 +512,8 @@ fn read_principals(buf: &[u8]) -> Result<Vec<String>> {
     let mut reader = Reader::new(&buf);
     let mut items = Vec::new();
 
-    loop {
-        let principal = match reader.read_string() {
-            Ok(v) => v,
-            Err(e) => match e {
-                Error::UnexpectedEof => break,
-                _ => return Err(e),
-            },
-        };
+    while reader.get_offset() < buf.len() {
+        let principal = reader.read_string()?;
         items.push(principal);
     }
     Ok(items)
-- 
2.43.0


From 8bf32751cc0ad68edc5cf69868b80e246c0fd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:20 +0000
Subject: [PATCH 34/58] fix: reject certificate options with data after their
 value

---
 src/ssh/cert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 7194eff..9b743dd 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -489,7 +489,12 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
         // otherwise we have a `flag` option which is the `empty` string.
         let value_buf = reader.read_bytes()?;
         let value = if !value_buf.is_empty() {
-            Reader::new(&value_buf).read_string()?
+            let mut value_reader = Reader::new(&value_buf);
+            let value = value_reader.read_string()?;
+            if value_reader.get_offset() != value_buf.len() {
+                return Err(Error::InvalidFormat);
+            }
+            value
         } else {
             "".to_string()
         };
-- 
2.43.0


From 79bbd3f4c94de32057b93926461feb293d38e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:28 +0000
Subject: [PATCH 35/58] fix: reject public keys with data after the key

---
 src/ssh/pubkey.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index cb87a0c..0c2f1b7 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -215,6 +215,9 @@ impl PublicKey {
 
         // Construct a new `PublicKey` value and preserve the `comment` value.
         let k = PublicKey::from_reader(kt_name, &mut reader)?;
+        if reader.get_offset() != decoded.len() {
+            return Err(Error::InvalidFormat);
+        }
         let key = PublicKey {
             key_type,
             kind: k.kind,
@@ -247,7 +250,14 @@ impl PublicKey {
     pub fn from_bytes<T: ?Sized + AsRef<[u8]>>(data: &T) -> Result<PublicKey> {
         let mut reader = Reader::new(&data);
         let kt_name = reader.read_string()?;
-        PublicKey::from_reader(&kt_name, &mut reader)
+        let key = PublicKey::from_reader(&kt_name, &mut reader)?;
+
+        // The key has to be all there is, encoding it again would drop the rest
+        if reader.get_offset() != data.as_ref().len() {
+            return Err(Error::InvalidFormat);
+        }
+
+        Ok(key)
     }
 
     /// This function is used for extracting a public key from an existing reader, e.g.
-- 
2.43.0


From 388317506c7ad1b4e36187ec921598e9c1e9e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:45 +0000
Subject: [PATCH 36/58] fix: a new certificate's reserved field is the empty
 one that gets signed

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 9b743dd..cc8f11e 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -313,7 +313,7 @@ impl Certificate {
             valid_before: 0,
             critical_options: HashMap::new(),
             extensions: HashMap::new(),
-            reserved: vec![0, 0, 0, 0, 0, 0, 0, 0],
+            reserved: vec![],
             signature_key: signing_key.clone(),
             signature: vec![],
             comment: None,
-- 
2.43.0


From 707de758394535df02796ce0c1aec298e869d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:10 +0000
Subject: [PATCH 37/58] fix: do not sign with an RSA key that is not the one of
 the public key

---
 src/ssh/privkey.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index a394d2b..b6b97de 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -221,6 +221,12 @@ impl super::SSHCertificateSigner for PrivateKey {
         match &self.kind {
             #[cfg(feature = "rsa-signing")]
             PrivateKeyKind::Rsa(key) => {
+                // The other kinds have this checked when their key pair is put together
+                match &self.pubkey.kind {
+                    PublicKeyKind::Rsa(pubkey) if pubkey.n == key.n && pubkey.e == key.e => (),
+                    _ => return None,
+                }
+
                 let asn_privkey = match simple_asn1::der_encode(key) {
                     Ok(apk) => apk,
                     Err(_) => return None,
-- 
2.43.0


From 47fcff6408faa187ed9ebb5de9679300efd7d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:26 +0000
Subject: [PATCH 38/58] fix: signing with an RSA key that lacks a CRT exponent
 fails instead of panicking

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index b6b97de..ab109a8 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -197,11 +197,11 @@ impl ToASN1 for RsaPrivateKey {
                 )],
                 vec![ASN1Block::Integer(
                     0,
-                    BigInt::from_bytes_be(Sign::Plus, self.exp.as_ref().unwrap()),
+                    BigInt::from_bytes_be(Sign::Plus, self.exp.as_ref().ok_or(Error::InvalidFormat)?),
                 )],
                 vec![ASN1Block::Integer(
                     0,
-                    BigInt::from_bytes_be(Sign::Plus, self.exq.as_ref().unwrap()),
+                    BigInt::from_bytes_be(Sign::Plus, self.exq.as_ref().ok_or(Error::InvalidFormat)?),
                 )],
                 vec![ASN1Block::Integer(
                     0,
-- 
2.43.0


From d9fa6fd6dc6c764205a1b0e348d856e3053ae53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:36 +0000
Subject: [PATCH 39/58] fix: convert P-521 signatures and refuse malformed DER
 lengths

---
 src/utils.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index ad8c930..b092646 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,15 +3,18 @@ use crate::ssh::{PublicKey, PublicKeyKind, Writer};
 /// Takes an ASN1 encoded ECDSA signature and attempts to
 /// parse it into it's R and S constituent parts
 pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
-    if buf.len() < 4 || buf[0] != 0x30  || buf[2] != 0x2 {
-        return None;
-    }
-    if buf[1] as usize != buf.len() - 2 {
+    // Signatures of the P-521 curve need the long form of the length
+    let (length, buf) = match buf {
+        [0x30, 0x81, length, buf @ ..] if *length >= 0x80 => (*length, buf),
+        [0x30, length, buf @ ..] if *length < 0x80 => (*length, buf),
+        _ => return None,
+    };
+    if buf.len() != length as usize || buf.len() < 2 || buf[0] != 0x2 {
         return None;
     }
-    let buf = &buf[3..];
+    let buf = &buf[1..];
     let r_length = buf[0] as usize;
-    if buf.len() < r_length + 2 {
+    if r_length >= 0x80 || buf.len() < r_length + 2 {
         return None;
     }
     let buf = &buf[1..];
@@ -29,7 +32,7 @@ pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
     let s_length = buf[1] as usize;
     let s = &buf[2..];
 
-    if s.len() != s_length {
+    if s_length >= 0x80 || s.len() != s_length {
         return None;
     }
 
-- 
2.43.0


From 5b4b029195dbbd8c8d5c405fe211dd4194499c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:19 +0000
Subject: [PATCH 40/58] fix: stray quotes at the end of principals and option
 values are an error

---
 src/ssh/allowed_signer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index e69dc73..08b7936 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -101,7 +101,7 @@ impl AllowedSigner {
 
         let principals = tokenizer.next(true)?
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingPrincipals))?;
-        let principals = principals.trim_matches('"');
+        let principals = unquote(&principals);
         if principals.contains('"') {
             return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
         }
@@ -125,7 +125,7 @@ impl AllowedSigner {
                 Some(v) => v,
                 None => (option.as_str(), ""),
             };
-            let option_value = option_value.trim_matches('"');
+            let option_value = unquote(option_value);
             if option_value.contains("\"") {
                 return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
             }
@@ -447,6 +447,13 @@ impl AllowedSignerSplitter {
     }
 }
 
+/// Remove the double quotes that enclose a value, any other quote is left in place.
+fn unquote(s: &str) -> &str {
+    s.strip_prefix('"')
+        .and_then(|s| s.strip_suffix('"'))
+        .unwrap_or(s)
+}
+
 /// Enclose a value in double quotes if it would otherwise not be read back as one token.
 fn quote_if_needed(s: &str) -> String {
     if s.contains([' ', '#']) {
@@ -468,7 +475,7 @@ fn format_timestamp(timestamp: i64) -> String {
 /// The timestamp has format YYYYMMDD[HHMM[SS]][Z]
 /// The timestamp can be enclosed by quotation marks.
 fn parse_timestamp(s: &str) -> Result<i64> {
-    let mut s = s.trim_matches('"');
+    let mut s = unquote(s);
     let is_utc = s.ends_with('Z');
     if s.len() % 2 == 1 && !is_utc {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
-- 
2.43.0


From 67d1a64c869c1dc11a57ffee803710f66d4efa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:43 +0000
Subject: [PATCH 41/58] fix: reject X.509 points that are not uncompressed
 points of their curve

---
 src/x509/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/x509/mod.rs b/src/x509/mod.rs
index 9eaaab2..4b69e16 100644
--- a/src/x509/mod.rs
+++ b/src/x509/mod.rs
@@ -1,7 +1,7 @@
 use x509_parser::prelude::FromDer;
 
 use crate::error::Error;
-use crate::ssh::{Curve, EcdsaPublicKey, KeyType, PublicKey, PublicKeyKind};
+use crate::ssh::{Curve, CurveKind, EcdsaPublicKey, KeyType, PublicKey, PublicKeyKind};
 
 use der_parser::der::parse_der_sequence;
 use der_parser::error::BerError;
@@ -59,6 +59,9 @@ pub fn der_encoding_to_ssh_public_key(key: &[u8]) -> Result<PublicKey, Error> {
         }
         _ => return Err(Error::KeyTypeMismatch),
     };
+    if !is_uncompressed_point(&curve, data) {
+        return Err(Error::ParsingError);
+    }
 
     let kind = EcdsaPublicKey {
         curve,
@@ -73,6 +76,16 @@ pub fn der_encoding_to_ssh_public_key(key: &[u8]) -> Result<PublicKey, Error> {
     })
 }
 
+/// SSH only knows uncompressed points, anything else is not a usable key on the curve
+fn is_uncompressed_point(curve: &Curve, point: &[u8]) -> bool {
+    let coordinate_length = match curve.kind {
+        CurveKind::Nistp256 => 32,
+        CurveKind::Nistp384 => 48,
+        CurveKind::Nistp521 => 66,
+    };
+    point.len() == 1 + 2 * coordinate_length && point[0] == 0x04
+}
+
 /// This function is used to extract an SSH public key from an x509
 /// certificate
 pub fn extract_ssh_pubkey_from_x509_certificate(cert: &[u8]) -> Result<PublicKey, Error> {
@@ -117,6 +130,9 @@ fn convert_x509_pki_to_pubkey(
                 OID_NIST_P256 => {
                     let key_type = KeyType::from_name("ecdsa-sha2-nistp256").unwrap();
                     let curve = Curve::from_identifier("nistp256").unwrap();
+                    if !is_uncompressed_point(&curve, key_bytes) {
+                        return Err(Error::ParsingError);
+                    }
                     let kind = EcdsaPublicKey {
                         curve,
                         key: key_bytes.to_vec(),
@@ -132,6 +148,9 @@ fn convert_x509_pki_to_pubkey(
                 OID_NIST_P384 => {
                     let key_type = KeyType::from_name("ecdsa-sha2-nistp384").unwrap();
                     let curve = Curve::from_identifier("nistp384").unwrap();
+                    if !is_uncompressed_point(&curve, key_bytes) {
+                        return Err(Error::ParsingError);
+                    }
                     let kind = EcdsaPublicKey {
                         curve,
                         key: key_bytes.to_vec(),
-- 
2.43.0


From e69decda20b6bd2894ce00425842dffaa5184da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:23 +0000
Subject: [PATCH 42/58] fix: reject a negative serial number in a PIV
 attestation

---
 src/yubikey/verification.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 93506e3..66c7863 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -71,6 +71,10 @@ fn extract_certificate_extension_data(
                     if s.len() > 8 {
                         continue;
                     }
+                    // A negative number is not a serial number
+                    if s.first().map_or(true, |b| b & 0x80 != 0) {
+                        return Err(Error::ParsingError);
+                    }
 
                     let mut padded_serial = vec![0; 8 - s.len()];
                     padded_serial.extend_from_slice(s);
-- 
2.43.0


From f093d7c2a9497b1bfcc6ec50f8661e034a9cb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:56 +0000
Subject: [PATCH 43/58] fix: do not derive an SSH key from a FIDO credential of
 another kind

---
 src/fido/parsing.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index 2d3006e..405af53 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -208,6 +208,11 @@ impl AuthData {
             // The public key of an elliptic curve key (EC2) consists of both coordinates, SSH
             // wants them as an uncompressed point.
             if parsed_key.key_type == 2 {
+                if parsed_key.key.len() != y_coordinate.len() {
+                    return Err(Error::FidoError(super::Error::CborFormat(
+                        "Coordinates of different lengths".to_owned(),
+                    )));
+                }
                 parsed_key.key.insert(0, 0x04);
                 parsed_key.key.append(&mut y_coordinate);
             }
@@ -231,6 +236,19 @@ impl AuthData {
     /// Get an SSH formatted public key for the given auth data. The plaintext application
     /// is needed to ensure the fingerprint is properly computed.
     pub fn ssh_public_key(&self, app: &str) -> Result<PublicKey, Error> {
+        // The algorithm says nothing about the key itself, which must be one SSH can use with it:
+        // an uncompressed point on NIST P-256 (EC2, curve 1) or an Ed25519 key (OKP, curve 6)
+        let curve = self.cose_key.parameters.get(&-1).map(|c| c.as_str());
+        match (
+            self.cose_key.algorithm,
+            self.cose_key.key_type,
+            curve,
+            self.cose_key.key.len(),
+        ) {
+            (-7, 2, Some("1"), 65) | (-8, 1, Some("6"), 32) => (),
+            _ => return Err(Error::ParsingError),
+        };
+
         let (kind, key_type) = match self.cose_key.algorithm {
             // ECDSA
             -7 => {
-- 
2.43.0


From 5eaf13bc1c9b7870617b4f3554d5991e6909d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:18 +0000
Subject: [PATCH 44/58] fix: erase the old PIN from memory when set_pin
 replaces it

---
 src/ssh/privkey.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index ab109a8..2d1459d 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -644,9 +644,11 @@ impl PrivateKey {
     pub fn set_pin(&mut self, pin: &str) {
         match &mut self.kind {
             PrivateKeyKind::EcdsaSk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             PrivateKeyKind::Ed25519Sk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             _ => (),
-- 
2.43.0


From 7bc74ad0d50dab6735e1e66c0439d384da415d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:10 +0000
Subject: [PATCH 45/58] verif: let a harness choose the root an enrolment's
 attestation chains to (guarded)

---
 src/fido/generate/mod.rs |  9 ++++++++-
 src/fido/verif_hooks.rs  | 10 ++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mod.rs b/src/fido/generate/mod.rs
index 48cca49..f693b8e 100644
--- a/src/fido/generate/mod.rs
+++ b/src/fido/generate/mod.rs
@@ -40,13 +40,20 @@ pub struct FIDOSSHKey {
 impl U2FAttestation {
     /// Verify the attestation data, signature, and chain are valid
     pub fn verify(&self) -> Result<ValidAttestation, crate::error::Error> {
+        #[cfg(not(all(feature = "verif-hooks", feature = "fido-support-mozilla")))]
+        let root = None;
+        #[cfg(all(feature = "verif-hooks", feature = "fido-support-mozilla"))]
+        let root = crate::fido::verif_hooks::root();
+        #[cfg(all(feature = "verif-hooks", feature = "fido-support-mozilla"))]
+        let root = root.as_deref();
+
         verify_auth_data(
             &self.auth_data,
             &self.auth_data_sig,
             &self.challenge,
             self.alg,
             &self.intermediate,
-            None,
+            root,
         )
     }
 }
diff --git a/src/fido/verif_hooks.rs b/src/fido/verif_hooks.rs
index f6dc811..be48c0c 100644
--- a/src/fido/verif_hooks.rs
+++ b/src/fido/verif_hooks.rs
@@ -6,6 +6,7 @@ pub type TransportFactory = Box<dyn Fn() -> Box<dyn AuthenticatorTransport + Sen
 
 thread_local! {
     static FACTORY: RefCell<Option<TransportFactory>> = RefCell::new(None);
+    static ROOT: RefCell<Option<String>> = RefCell::new(None);
 }
 
 /// Set the transport factory for FIDO operations started by the current thread
@@ -13,6 +14,15 @@ pub fn set_transport_factory(factory: Option<TransportFactory>) {
     FACTORY.with(|f| *f.borrow_mut() = factory);
 }
 
+/// Set the root that attestations verified by the current thread chain to; None is the default root
+pub fn set_root(root: Option<String>) {
+    ROOT.with(|r| *r.borrow_mut() = root);
+}
+
+pub(crate) fn root() -> Option<String> {
+    ROOT.with(|r| r.borrow().clone())
+}
+
 pub(crate) fn add_transports(manager: &mut AuthenticatorService) {
     FACTORY.with(|f| {
         if let Some(factory) = f.borrow().as_ref() {
-- 
2.43.0


From dd7b51bfb898d9bd269350cd99753d27e46331c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:39 +0000
Subject: [PATCH 46/58] fix: do not panic in the FIDO driver when a signature
 arrives after the call gave up

---
 src/fido/signing/mozilla.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index c0676c1..99c45a7 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -65,7 +65,7 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let (sign_tx, sign_rx) = channel();
     let callback = StateCallback::new(Box::new(move |rv| {
-        sign_tx.send(rv).unwrap();
+        let _ = sign_tx.send(rv);
     }));
 
     let (status_tx, _status_rx) = channel::<StatusUpdate>();
-- 
2.43.0


From af292ca0bb4a3cec8b13aaafbad2e4f6849ea632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:47 +0000
Subject: [PATCH 47/58] fix: do not panic when signing with an SK private key
 whose public key has no application

---
 src/fido/signing/mozilla.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 99c45a7..cb91095 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -24,11 +24,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let pin: Option<Pin> = pin.map(|x| Pin::new(x));
 
-    // It should be safe to unwrap here because we've already determined
-    // the PrivateKey is of SK type
     let sk_application = match &private_key.pubkey.kind {
-        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref().unwrap(),
-        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref().unwrap(),
+        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref()?,
+        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref()?,
         _ => return None,
     };
 
-- 
2.43.0


From a281955240446e1844fbec5d6739700fafcf27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 48/58] fix: do not hang when a security key asks for a PIN
 while signing

---
 src/fido/signing/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index cb91095..7704be7 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -66,7 +66,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         let _ = sign_tx.send(rv);
     }));
 
-    let (status_tx, _status_rx) = channel::<StatusUpdate>();
+    // Nobody answers status updates here. Dropping the receiver ends the operation
+    // when the device asks for a PIN, rather than leaving it waiting for one.
+    let (status_tx, _) = channel::<StatusUpdate>();
     manager
         .sign(
             15_000,
-- 
2.43.0


From 9add2a6e8678e18b185308c7ad1df132ae2dbd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:09 +0000
Subject: [PATCH 49/58] fix: enrol an ECDSA credential as an ECDSA security key

---
 src/fido/generate/mozilla.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 851d154..f6a0263 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -4,7 +4,7 @@ use crate::{
         generate::{FIDOSSHKey, U2FAttestation},
         AuthData,
     },
-    ssh::{Ed25519SkPrivateKey, KeyType, PrivateKeyKind},
+    ssh::{EcdsaSkPrivateKey, Ed25519SkPrivateKey, PrivateKeyKind, PublicKeyKind},
     PrivateKey,
 };
 
@@ -133,19 +133,29 @@ pub fn generate_new_ssh_key(
 
     let auth_data = AuthData::parse(&raw_auth_data)?;
 
-    let key_type = KeyType::from_name("sk-ssh-ed25519@openssh.com")?;
-    let kind = PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
-        flags: auth_data.flags,
-        handle: auth_data.credential_id.clone(),
-        reserved: vec![],
-        pin,
-        device_path: None,
-    });
+    let pubkey = auth_data.ssh_public_key(application)?;
+    let kind = match &pubkey.kind {
+        PublicKeyKind::Ed25519(_) => PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
+            flags: auth_data.flags,
+            handle: auth_data.credential_id.clone(),
+            reserved: vec![],
+            pin,
+            device_path: None,
+        }),
+        PublicKeyKind::Ecdsa(_) => PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey {
+            flags: auth_data.flags,
+            handle: auth_data.credential_id.clone(),
+            reserved: vec![],
+            pin,
+            device_path: None,
+        }),
+        _ => return Err(Error::InvalidFormat),
+    };
 
     let private_key = PrivateKey {
-        key_type,
+        key_type: pubkey.key_type.clone(),
         kind,
-        pubkey: auth_data.ssh_public_key(application)?,
+        pubkey,
         magic: 0x0,
         comment: comment.to_string(),
     };
-- 
2.43.0


From 37df95fb3a43b4c11b0c1067a10e13070afe1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:24 +0000
Subject: [PATCH 50/58] fix: report a failing random source instead of
 panicking when enrolling a FIDO key

---
 src/fido/generate/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f6a0263..cadf270 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -51,7 +51,9 @@ pub fn generate_new_ssh_key(
     crate::fido::verif_hooks::add_transports(&mut manager);
 
     let mut chall_bytes = [0u8; 32];
-    SystemRandom::new().fill(&mut chall_bytes).unwrap();
+    SystemRandom::new()
+        .fill(&mut chall_bytes)
+        .map_err(|_| Error::FidoError(FidoError::Unknown("Random source failed".to_owned())))?;
 
     let origin = application.to_string();
     let ctap_args = RegisterArgs {
-- 
2.43.0


From ffe6939a4340979c264acb7f5f539b6c260f7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:32 +0000
Subject: [PATCH 51/58] fix: return an error instead of panicking when a CSR
 cannot be made

---
 src/yubikey/piv/management.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 686cb22..c049a2c 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -23,22 +23,28 @@ pub struct CSRSigner {
 
 impl CSRSigner {
     /// Create a new certificate signer based on a Yubikey serial
-    /// and slot
+    /// and slot. Panics if that fails, see `open`.
     pub fn new(serial: u32, slot: SlotId) -> Self {
-        let mut yk = super::Yubikey::open(serial).unwrap();
-        let pki = yk.configured(&slot).unwrap();
+        Self::open(serial, slot).unwrap()
+    }
+
+    /// Create a new certificate signer based on a Yubikey serial
+    /// and slot
+    pub fn open(serial: u32, slot: SlotId) -> Result<Self> {
+        let mut yk = super::Yubikey::open(serial)?;
+        let pki = yk.configured(&slot)?;
         let (public_key, algorithm) = match pki {
-            PublicKeyInfo::Rsa { pubkey: _, .. } => panic!("RSA keys not supported"),
+            PublicKeyInfo::Rsa { pubkey: _, .. } => return Err(Error::Unsupported),
             PublicKeyInfo::EcP256(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP256),
             PublicKeyInfo::EcP384(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP384),
         };
 
-        Self {
+        Ok(Self {
             slot,
             serial,
             public_key,
             algorithm,
-        }
+        })
     }
 }
 
@@ -151,7 +157,7 @@ impl super::Yubikey {
             .distinguished_name
             .push(rcgen::DnType::CommonName, common_name.to_string());
 
-        let csr_signer = CSRSigner::new(self.yk.serial().into(), *slot);
+        let csr_signer = CSRSigner::open(self.yk.serial().into(), *slot)?;
         params.key_pair = Some(rcgen::KeyPair::from_remote(Box::new(csr_signer)).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?);
 
         let csr = rcgen::Certificate::from_params(params).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?;
-- 
2.43.0


From fdc39eee36825a34b57954e8eb5a9faef1274217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:58 +0000
Subject: [PATCH 52/58] fix: name ECDSA security key certificates ECDSA-SK-CERT

---
 src/ssh/keytype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/keytype.rs b/src/ssh/keytype.rs
index 9cd4020..d7183d6 100644
--- a/src/ssh/keytype.rs
+++ b/src/ssh/keytype.rs
@@ -237,7 +237,7 @@ impl KeyType {
             "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com" => KeyType {
                 name: "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
                 plain: "sk-ecdsa-sha2-nistp256@openssh.com",
-                short_name: "ECDSA-SK",
+                short_name: "ECDSA-SK-CERT",
                 is_cert: true,
                 is_sk: true,
                 kind: KeyTypeKind::Ecdsa,
-- 
2.43.0


From b75c6f2465761c8755ab346b4fcb7e1ea49a2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 53/58] verif: make the attestation root hook available with
 fido-support (guarded)

---
 src/fido/generate/mod.rs | 6 +++---
 src/fido/mod.rs          | 5 ++++-
 src/fido/verif_hooks.rs  | 5 +++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fido/generate/mod.rs b/src/fido/generate/mod.rs
index f693b8e..76c1614 100644
--- a/src/fido/generate/mod.rs
+++ b/src/fido/generate/mod.rs
@@ -40,11 +40,11 @@ pub struct FIDOSSHKey {
 impl U2FAttestation {
     /// Verify the attestation data, signature, and chain are valid
     pub fn verify(&self) -> Result<ValidAttestation, crate::error::Error> {
-        #[cfg(not(all(feature = "verif-hooks", feature = "fido-support-mozilla")))]
+        #[cfg(not(feature = "verif-hooks"))]
         let root = None;
-        #[cfg(all(feature = "verif-hooks", feature = "fido-support-mozilla"))]
+        #[cfg(feature = "verif-hooks")]
         let root = crate::fido::verif_hooks::root();
-        #[cfg(all(feature = "verif-hooks", feature = "fido-support-mozilla"))]
+        #[cfg(feature = "verif-hooks")]
         let root = root.as_deref();
 
         verify_auth_data(
diff --git a/src/fido/mod.rs b/src/fido/mod.rs
index af703a6..561a493 100644
--- a/src/fido/mod.rs
+++ b/src/fido/mod.rs
@@ -77,5 +77,8 @@ pub mod verification;
 pub use generate::FIDOSSHKey;
 
 /// Lets a verification harness supply the transports FIDO operations use
-#[cfg(all(feature = "verif-hooks", feature = "fido-support-mozilla"))]
+#[cfg(all(
+    feature = "verif-hooks",
+    any(feature = "fido-support", feature = "fido-support-mozilla")
+))]
 pub mod verif_hooks;
diff --git a/src/fido/verif_hooks.rs b/src/fido/verif_hooks.rs
index be48c0c..1823947 100644
--- a/src/fido/verif_hooks.rs
+++ b/src/fido/verif_hooks.rs
@@ -1,15 +1,19 @@
+#[cfg(feature = "fido-support-mozilla")]
 use authenticator::authenticatorservice::{AuthenticatorService, AuthenticatorTransport};
 use std::cell::RefCell;
 
 /// Makes the transport that the next FIDO operation of this thread uses
+#[cfg(feature = "fido-support-mozilla")]
 pub type TransportFactory = Box<dyn Fn() -> Box<dyn AuthenticatorTransport + Send>>;
 
 thread_local! {
+    #[cfg(feature = "fido-support-mozilla")]
     static FACTORY: RefCell<Option<TransportFactory>> = RefCell::new(None);
     static ROOT: RefCell<Option<String>> = RefCell::new(None);
 }
 
 /// Set the transport factory for FIDO operations started by the current thread
+#[cfg(feature = "fido-support-mozilla")]
 pub fn set_transport_factory(factory: Option<TransportFactory>) {
     FACTORY.with(|f| *f.borrow_mut() = factory);
 }
@@ -23,6 +27,7 @@ pub(crate) fn root() -> Option<String> {
     ROOT.with(|r| r.borrow().clone())
 }
 
+#[cfg(feature = "fido-support-mozilla")]
 pub(crate) fn add_transports(manager: &mut AuthenticatorService) {
     FACTORY.with(|f| {
         if let Some(factory) = f.borrow().as_ref() {
-- 
2.43.0


From 257699ca1928e36dd345a2032db3d732a80464da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:53 +0000
Subject: [PATCH 54/58] fix: put the device's own flag byte in signatures of
 HID security keys

---
 src/fido/signing/ctap2_hid.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/ctap2_hid.rs b/src/fido/signing/ctap2_hid.rs
index 68e4b62..5a455dd 100644
--- a/src/fido/signing/ctap2_hid.rs
+++ b/src/fido/signing/ctap2_hid.rs
@@ -59,7 +59,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let signature = &assert.signature;
     let mut format = format_signature_for_ssh(&private_key.pubkey, &signature)?;
-    format.push(assert.flags.as_u8());
+    // The flags follow the 32 byte RPID hash. They are signed as they are,
+    // including bits the parsed flags have no name for
+    format.push(*assert.auth_data.get(32)?);
     format.extend_from_slice(&assert.sign_count.to_be_bytes());
 
     Some(format)
-- 
2.43.0


From 044cb8702bc5bb4a787e70a25ed44fec44835f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:00 +0000
Subject: [PATCH 55/58] fix: report a failing random source instead of
 panicking when enrolling over HID

---
 src/fido/generate/ctap2_hid.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fido/generate/ctap2_hid.rs b/src/fido/generate/ctap2_hid.rs
index 4b90d40..51813a5 100644
--- a/src/fido/generate/ctap2_hid.rs
+++ b/src/fido/generate/ctap2_hid.rs
@@ -1,8 +1,9 @@
 use ctap_hid_fido2::{
     fidokey::make_credential::{CredentialSupportedKeyType, MakeCredentialArgsBuilder},
-    verifier, Cfg, FidoKeyHid, HidParam,
+    Cfg, FidoKeyHid, HidParam,
 };
 use ring::digest;
+use ring::rand::{SecureRandom, SystemRandom};
 
 use crate::{
     error::Error,
@@ -33,7 +34,10 @@ pub fn generate_new_ssh_key(
         FidoKeyHid::new(&fido_devices, &Cfg::init())
     };
 
-    let challenge = verifier::create_challenge();
+    let mut challenge = [0u8; 32];
+    SystemRandom::new()
+        .fill(&mut challenge)
+        .map_err(|_| Error::FidoError(FidoError::Unknown("Random source failed".to_owned())))?;
     let args = MakeCredentialArgsBuilder::new(&application, &challenge)
         .key_type(CredentialSupportedKeyType::Ed25519);
 
-- 
2.43.0


From 7e90bb0c508b50210638aadad5d95b6d0cad7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:06 +0000
Subject: [PATCH 56/58] fix: keep all flags of the device in keys enrolled over
 HID

---
 src/fido/generate/ctap2_hid.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/fido/generate/ctap2_hid.rs b/src/fido/generate/ctap2_hid.rs
index 51813a5..b6ed753 100644
--- a/src/fido/generate/ctap2_hid.rs
+++ b/src/fido/generate/ctap2_hid.rs
@@ -52,31 +52,17 @@ pub fn generate_new_ssh_key(
         .make_credential_with_args(&args.build())
         .map_err(|e| Error::FidoError(FidoError::Unknown(e.to_string())))?;
 
-    let mut ret = 0x0;
-    if att.flags_user_present_result {
-        ret = ret | 0x01;
-    }
-    if att.flags_user_verified_result {
-        ret = ret | 0x04;
-    }
-    if att.flags_attested_credential_data_included {
-        ret = ret | 0x40;
-    }
-    if att.flags_extension_data_included {
-        ret = ret | 0x80;
-    }
+    let auth_data = AuthData::parse(&att.auth_data)?;
 
     let key_type = KeyType::from_name("sk-ssh-ed25519@openssh.com")?;
     let kind = PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
-        flags: ret,
+        flags: auth_data.flags,
         handle: att.credential_descriptor.id.clone(),
         reserved: vec![],
         pin,
         device_path,
     });
 
-    let auth_data = AuthData::parse(&att.auth_data)?;
-
     let private_key = PrivateKey {
         key_type,
         kind,
-- 
2.43.0


From b292002493d3a3e34dc3d906746bc4746b802e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:13 +0000
Subject: [PATCH 57/58] fix: enrol the kind of key the HID device made

---
 src/fido/generate/ctap2_hid.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/fido/generate/ctap2_hid.rs b/src/fido/generate/ctap2_hid.rs
index b6ed753..a709975 100644
--- a/src/fido/generate/ctap2_hid.rs
+++ b/src/fido/generate/ctap2_hid.rs
@@ -11,7 +11,7 @@ use crate::{
         generate::{FIDOSSHKey, U2FAttestation},
         AuthData,
     },
-    ssh::{Ed25519SkPrivateKey, KeyType, PrivateKeyKind},
+    ssh::{EcdsaSkPrivateKey, Ed25519SkPrivateKey, PrivateKeyKind, PublicKeyKind},
     PrivateKey,
 };
 
@@ -54,19 +54,29 @@ pub fn generate_new_ssh_key(
 
     let auth_data = AuthData::parse(&att.auth_data)?;
 
-    let key_type = KeyType::from_name("sk-ssh-ed25519@openssh.com")?;
-    let kind = PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
-        flags: auth_data.flags,
-        handle: att.credential_descriptor.id.clone(),
-        reserved: vec![],
-        pin,
-        device_path,
-    });
+    let pubkey = auth_data.ssh_public_key(application)?;
+    let kind = match &pubkey.kind {
+        PublicKeyKind::Ed25519(_) => PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
+            flags: auth_data.flags,
+            handle: att.credential_descriptor.id.clone(),
+            reserved: vec![],
+            pin,
+            device_path,
+        }),
+        PublicKeyKind::Ecdsa(_) => PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey {
+            flags: auth_data.flags,
+            handle: att.credential_descriptor.id.clone(),
+            reserved: vec![],
+            pin,
+            device_path,
+        }),
+        _ => return Err(Error::InvalidFormat),
+    };
 
     let private_key = PrivateKey {
-        key_type,
+        key_type: pubkey.key_type.clone(),
         kind,
-        pubkey: auth_data.ssh_public_key(application)?,
+        pubkey,
         magic: 0x0,
         comment: comment.to_string(),
     };
-- 
2.43.0


From 5f0dfe4c82a952ee00c8e3b9468118220b817974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:41 +0000
Subject: [PATCH 58/58] fix: return an error instead of panicking when
 provisioning with a common name over 64 bytes

---
 src/yubikey/piv/management.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index c049a2c..5cae300 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -176,6 +176,11 @@ impl super::Yubikey {
         touch_policy: TouchPolicy,
         pin_policy: PinPolicy,
     ) -> Result<PublicKey> {
+        // X.520 allows no longer ones, and the certificate could not be made
+        if common_name.len() > 64 {
+            return Err(Error::InternalYubiKeyError("Common name is longer than 64 bytes".to_owned()));
+        }
+
         let key_info = yubikey::piv::generate(&mut self.yk, *slot, alg, pin_policy, touch_policy)?;
         let extensions: &[x509::Extension<'_, &[u64]>] = &[];
         // Generate a self-signed certificate for the new key.
-- 
2.43.0

