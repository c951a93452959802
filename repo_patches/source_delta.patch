From 44106259a14adba1de64e82b996c5aba7a0a1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:04 +0000
Subject: [PATCH 01/28] fix: write certificate options in lexical order instead
 of hash order

---
 src/ssh/writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..db34687 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -196,7 +196,12 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // Options must be written in lexical order (PROTOCOL.certkeys), which also
+        // keeps the encoding independent of the map's hash seed.
+        let mut entries: Vec<(&String, &String)> = map.iter().collect();
+        entries.sort();
+
+        for (k, v) in entries {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From 9304073eb4e6b00fe98a168ca25b602586e8588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:04 +0000
Subject: [PATCH 02/28] fix: compare keys, not comments, when checking who made
 an SSH signature

---
 src/ssh/signature.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8dd3c18..526ed35 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -210,7 +210,11 @@ impl VerifiedSshSignature {
         // public key before verification. This is useful when you have a signature but additionally
         // need to check the signature is from it.
         if let Some(pub_key) = pub_key {
-            if ssh_signature.pubkey != pub_key {
+            // The comment is not part of the key: a key read from a .pub file usually has one
+            // while the key embedded in a signature never does.
+            if ssh_signature.pubkey.key_type != pub_key.key_type
+                || ssh_signature.pubkey.kind != pub_key.kind
+            {
                 return Err(Error::InvalidSignature);
             }
         }
-- 
2.43.0


From 5f342ee5cade7859afa7e3e56c2218e02a02b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:04 +0000
Subject: [PATCH 03/28] fix: reject signatures whose label says FIDO when the
 key is not (and vice versa)

---
 src/ssh/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 526ed35..8a9255f 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -289,7 +289,7 @@ pub(crate) fn verify_signature(
 
     // If these types don't match we can't continue verification as it's unclear
     // what the correct type even is.
-    if public_key.key_type.kind != sig_type.kind {
+    if public_key.key_type.kind != sig_type.kind || public_key.key_type.is_sk != sig_type.is_sk {
         return Err(Error::KeyTypeMismatch);
     }
 
-- 
2.43.0


From 70702880520d7d380dd8ee866d51b776bf3db833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:04 +0000
Subject: [PATCH 04/28] fix: return an error when the random source fails in
 PrivateKey::new

---
 src/ssh/privkey.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..d319e8f 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -445,8 +445,12 @@ impl PrivateKey {
                 // Ring does not expose access to the private key without
                 // PKCS#8 wrapping. So we either need to do this, or write/pull
                 // in code to parse it.
-                let seed: [u8; 32] = rand::generate(&rng).unwrap().expose();
-                let magic: [u8; 4] = rand::generate(&rng).unwrap().expose();
+                let seed: [u8; 32] = rand::generate(&rng)
+                    .map_err(|_| Error::UnexpectedEof)?
+                    .expose();
+                let magic: [u8; 4] = rand::generate(&rng)
+                    .map_err(|_| Error::UnexpectedEof)?
+                    .expose();
                 let public_key_bytes = Ed25519KeyPair::from_seed_unchecked(&seed)
                     .unwrap()
                     .public_key()
-- 
2.43.0


From 9572b0a4ad64833938a4f7ce9fa92b1c921ade7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 05/28] fix: sign with short or oddly encoded private keys
 instead of failing or panicking

---
 src/ssh/privkey.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index d319e8f..6c79abd 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use ring::signature::Ed25519KeyPair;
 use ring::{rand, signature, signature::KeyPair};
 
-use zeroize::Zeroize;
+use zeroize::{Zeroize, Zeroizing};
 
 use crate::{
     error::Error,
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -253,13 +253,18 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
-                    &key.key[1..]
-                } else {
-                    &key.key
-                };
+                // The scalar is stored as an mpint, so it may carry a leading zero byte or be
+                // shorter than the curve's field. Ring needs it at exactly the field length.
+                let first = key.key.iter().position(|b| *b != 0)?;
+                let scalar = &key.key[first..];
+                if scalar.len() > len {
+                    return None;
+                }
+                let mut key = Zeroizing::new(vec![0; len]);
+                key[len - scalar.len()..].copy_from_slice(scalar);
+
                 let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
+                    alg, &key, pubkey, &rng,
                 ) {
                     Ok(kp) => kp,
                     Err(_) => return None,
@@ -274,7 +279,7 @@ impl super::SSHCertificateSigner for PrivateKey {
                 };
 
                 let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
+                    match Ed25519KeyPair::from_seed_and_public_key(key.key.get(..32)?, public_key) {
                         Ok(kp) => kp,
                         Err(_) => return None,
                     };
-- 
2.43.0


From d5a7acc5ed65454a33fbb5ec31ec0bb06e596f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 06/28] fix: reject RSA private keys with impossible primes
 instead of panicking

---
 src/ssh/privkey.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 6c79abd..a5943ad 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -309,6 +309,14 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // p - 1 and q - 1 are used as moduli below
+                #[cfg(feature = "rsa-signing")]
+                for prime in [&p, &q] {
+                    if BigUint::from_bytes_be(prime) <= BigUint::from_slice(&[0x1]) {
+                        return Err(Error::InvalidFormat);
+                    }
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From 52e359a672d0a08e81a7116fd18a15834ab0ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 07/28] fix: keep the reserved field when writing FIDO private
 keys

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index a5943ad..99f2197 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -694,7 +694,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -704,7 +704,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From 62acfcaf6fd86f13c9f356d65d25a03175a3f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 08/28] fix: do not panic on local timestamps that fall into a
 time zone change

---
 src/ssh/allowed_signer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..0b98494 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -460,8 +460,10 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         datetime.and_utc()
             .timestamp()
     } else {
+        // A wall-clock time can be ambiguous or not exist at all around zone changes
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From cb23e20ec0cf8c0ccad76e92d1ec3815ef313cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 09/28] fix: reject allowed-signers timestamps with blanks,
 signs or repeated Z

---
 src/ssh/allowed_signer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 0b98494..d7fd88f 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -433,11 +433,12 @@ impl AllowedSignerSplitter {
 fn parse_timestamp(s: &str) -> Result<i64> {
     let mut s = s.trim_matches('"');
     let is_utc = s.ends_with('Z');
-    if s.len() % 2 == 1 && !is_utc {
-        return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
+    if let Some(stripped) = s.strip_suffix('Z') {
+        s = stripped;
     }
-    if is_utc {
-        s = s.trim_end_matches('Z');
+    // The date parser tolerates signs and whitespace, the format does not
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     let datetime = match s.len() {
         8 => {
-- 
2.43.0


From 89f6d2992c5257da39d4d0ac033d8cb541d9ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 10/28] fix: do not reject allowed-signers lines because their
 comment ends in a quote

---
 src/ssh/allowed_signer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index d7fd88f..8b4eb49 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -343,14 +343,13 @@ impl AllowedSignerSplitter {
             return Ok(None);
         }
 
-        // If the next token starts with a double quote, then the closing double quote is also
-        // the end of the token
-        if self.buffer[0] == "\"" {
-            if opening_quotes_allowed {
-                return self.split_quote().map(|v| Some(v));
-            } else {
-                return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
-            }
+        // A quoted token that must not be one, up to the end of the line. The buffer is in reverse
+        // order, so the next token starts at the end of the buffer.
+        if !opening_quotes_allowed
+            && self.buffer.last().map(String::as_str) == Some("\"")
+            && self.buffer[0] == "\""
+        {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
         }
 
         // If the next token doesn't start with a double quote, the token can represent an option.
-- 
2.43.0


From bfa26f108015da34aea1dceacae5347c3c71d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 11/28] fix: PIV attestation returns errors for a bad root or
 policy extension instead of panicking

---
 src/yubikey/verification.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..93506e3 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() != 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
@@ -114,8 +117,8 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From 181426f26fa09d3a85342f91f18521d4dd8364fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 12/28] fix: generate_csr returns an error when the Yubikey
 goes away instead of panicking

---
 src/yubikey/piv/management.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 686cb22..b1c803e 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -25,20 +25,24 @@ impl CSRSigner {
     /// Create a new certificate signer based on a Yubikey serial
     /// and slot
     pub fn new(serial: u32, slot: SlotId) -> Self {
-        let mut yk = super::Yubikey::open(serial).unwrap();
-        let pki = yk.configured(&slot).unwrap();
+        Self::try_new(serial, slot).expect("Yubikey slot cannot be used for signing CSRs")
+    }
+
+    fn try_new(serial: u32, slot: SlotId) -> Result<Self> {
+        let mut yk = super::Yubikey::open(serial)?;
+        let pki = yk.configured(&slot)?;
         let (public_key, algorithm) = match pki {
-            PublicKeyInfo::Rsa { pubkey: _, .. } => panic!("RSA keys not supported"),
+            PublicKeyInfo::Rsa { pubkey: _, .. } => return Err(Error::Unsupported),
             PublicKeyInfo::EcP256(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP256),
             PublicKeyInfo::EcP384(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP384),
         };
 
-        Self {
+        Ok(Self {
             slot,
             serial,
             public_key,
             algorithm,
-        }
+        })
     }
 }
 
@@ -151,7 +155,7 @@ impl super::Yubikey {
             .distinguished_name
             .push(rcgen::DnType::CommonName, common_name.to_string());
 
-        let csr_signer = CSRSigner::new(self.yk.serial().into(), *slot);
+        let csr_signer = CSRSigner::try_new(self.yk.serial().into(), *slot)?;
         params.key_pair = Some(rcgen::KeyPair::from_remote(Box::new(csr_signer)).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?);
 
         let csr = rcgen::Certificate::from_params(params).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?;
-- 
2.43.0


From db69ca9def691b798a2c0f5fe58d77c70b6a17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 13/28] fix: report the USB-internal transport of an attested
 FIDO key

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..18892d5 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..=4 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From f625adb64cf822562d34014d77dbd639b6f7b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 14/28] fix: keep both coordinates of an attested ES256 FIDO
 key

---
 src/fido/parsing.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..ebde347 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let (mut x, mut y) = (None, None);
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,23 +177,36 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let coordinate = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            x = Some(coordinate);
+                        } else {
+                            y = Some(coordinate);
+                        }
                     }
-                    x => decoder.undefined().map_err(|e| {
+                    other => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
-                            "We got something else {x} and threw error {e}"
+                            "We got something else {other} and threw error {e}"
                         )))
                     })?,
                 };
                 idx += 2;
             }
+
+            // Elliptic curve keys have two coordinates (uncompressed point), Ed25519 keys
+            // only one
+            parsed_key.key = match (x, y) {
+                (Some(x), Some(y)) => [vec![0x04], x, y].concat(),
+                (Some(k), None) | (None, Some(k)) => k,
+                (None, None) => vec![],
+            };
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From f1768f95b8d4e73055ae98784660518949994f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 15/28] fix: FIDO key generation returns an error when the
 random source fails

---
 src/fido/generate/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f17642d..694ae9d 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -48,7 +48,9 @@ pub fn generate_new_ssh_key(
     manager.add_u2f_usb_hid_platform_transports();
 
     let mut chall_bytes = [0u8; 32];
-    SystemRandom::new().fill(&mut chall_bytes).unwrap();
+    SystemRandom::new()
+        .fill(&mut chall_bytes)
+        .map_err(|_| Error::FidoError(FidoError::Unknown("No randomness available".to_owned())))?;
 
     let origin = application.to_string();
     let ctap_args = RegisterArgs {
-- 
2.43.0


From 09fb8e3f5fe36dad8fbd435466bc8423bf6b585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 16/28] fix: FIDO key generation no longer waits forever after
 a failure without PIN status

---
 src/fido/generate/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 694ae9d..389456d 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -84,7 +84,7 @@ pub fn generate_new_ssh_key(
         let _ = register_tx.send(rv);
     }));
 
-    if let Err(e) = manager.register(15_000, ctap_args, status_tx.clone(), callback) {
+    if let Err(e) = manager.register(15_000, ctap_args, status_tx, callback) {
         return Err(Error::FidoError(FidoError::Unknown(e.to_string())));
     };
 
@@ -120,6 +120,8 @@ pub fn generate_new_ssh_key(
     let attestation_object = match register_result {
         Ok(attestation) => attestation,
         Err(e) => {
+            // Ends all threads that can still report a status, so that the wait below ends too
+            drop(manager);
             if let Ok(error) = error_rx.recv() {
                 return Err(Error::FidoError(error));
             } else {
-- 
2.43.0


From cb1c406916b903ff3dbeecf5041aa684e6e58c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:12 +0000
Subject: [PATCH 17/28] fix: FIDO signing returns None on failures of the HID
 stack instead of panicking

---
 src/fido/signing/mozilla.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..6731e5d 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -24,11 +24,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let pin: Option<Pin> = pin.map(|x| Pin::new(x));
 
-    // It should be safe to unwrap here because we've already determined
-    // the PrivateKey is of SK type
     let sk_application = match &private_key.pubkey.kind {
-        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref().unwrap(),
-        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref().unwrap(),
+        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref()?,
+        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref()?,
         _ => return None,
     };
 
@@ -62,7 +60,7 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let (sign_tx, sign_rx) = channel();
     let callback = StateCallback::new(Box::new(move |rv| {
-        sign_tx.send(rv).unwrap();
+        let _ = sign_tx.send(rv);
     }));
 
     let (status_tx, _status_rx) = channel::<StatusUpdate>();
@@ -72,11 +70,10 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         status_tx.clone(),
         callback,
     ) {
-        panic!("Couldn't sign: {:?}", e);
+        println!("Couldn't sign: {:?}", e);
+        return None;
     }
-    let sign_result = sign_rx
-        .recv()
-        .expect("Problem receiving, unable to continue");
+    let sign_result = sign_rx.recv().ok()?;
 
     let assertion = match sign_result {
         Ok(assertion_object) => assertion_object.assertion,
-- 
2.43.0


From cd2afe94e8e66d0472cc39f804f992276abc3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:44 +0000
Subject: [PATCH 18/28] fix: refuse to make an SSH signature with an empty
 namespace

---
 src/ssh/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8a9255f..8ddc40e 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -246,6 +246,11 @@ impl VerifiedSshSignature {
         private_key: PrivateKey,
         hash_algorithm: Option<HashAlgorithm>,
     ) -> Result<Self> {
+        // The specification forbids empty namespaces and our own parser rejects them
+        if namespace.is_empty() {
+            return Err(Error::InvalidFormat);
+        }
+
         let hash_algorithm = hash_algorithm.unwrap_or(HashAlgorithm::Sha512);
 
         let mut ssh_signature = SshSignature {
-- 
2.43.0


From 8993b7c8e144b6853d758ad3daed44cec9708970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:21 +0000
Subject: [PATCH 19/28] fix: store generated Ed25519 keys in the form OpenSSH
 can load

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 99f2197..33f8e62 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -469,7 +469,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [seed.as_ref(), public_key_bytes.as_slice()].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 703e6a17f28d7e5e76843b6d0a239004a58aa700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:31 +0000
Subject: [PATCH 20/28] fix: wipe the previous PIN when set_pin replaces it

---
 src/ssh/privkey.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 33f8e62..b1f59c6 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -642,9 +642,11 @@ impl PrivateKey {
     pub fn set_pin(&mut self, pin: &str) {
         match &mut self.kind {
             PrivateKeyKind::EcdsaSk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             PrivateKeyKind::Ed25519Sk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             _ => (),
-- 
2.43.0


From 330c082c3a7553b3f8b0695c375d52deb2ac1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:25 +0000
Subject: [PATCH 21/28] fix: provision refuses an over-long common name instead
 of panicking after the slot's key was replaced

---
 src/yubikey/piv/management.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index b1c803e..9fbefd2 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -174,6 +174,13 @@ impl super::Yubikey {
         touch_policy: TouchPolicy,
         pin_policy: PinPolicy,
     ) -> Result<PublicKey> {
+        // X.520 limits common names to 64 bytes; check before the slot is touched
+        if common_name.len() > 64 {
+            return Err(Error::InternalYubiKeyError(
+                "common name is longer than 64 bytes".to_string(),
+            ));
+        }
+
         let key_info = yubikey::piv::generate(&mut self.yk, *slot, alg, pin_policy, touch_policy)?;
         let extensions: &[x509::Extension<'_, &[u64]>] = &[];
         // Generate a self-signed certificate for the new key.
-- 
2.43.0


From 4cd5ba4e8bce202b833130a04d0fa6ad40a7f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:47 +0000
Subject: [PATCH 22/28] fix: ssh_cert_signer labels the signature with the key
 it asked to sign, also when another process replaces the slot's key

---
 src/yubikey/piv/ssh.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/yubikey/piv/ssh.rs b/src/yubikey/piv/ssh.rs
index cb23632..a02ecfc 100644
--- a/src/yubikey/piv/ssh.rs
+++ b/src/yubikey/piv/ssh.rs
@@ -5,6 +5,18 @@ use crate::x509::extract_ssh_pubkey_from_x509_certificate;
 
 use super::{Error, Result};
 
+fn key_type(pubkey: &PublicKey) -> Result<AlgorithmId> {
+    match &pubkey.kind {
+        PublicKeyKind::Ecdsa(x) => match x.curve.kind {
+            CurveKind::Nistp256 => Ok(AlgorithmId::EccP256),
+            CurveKind::Nistp384 => Ok(AlgorithmId::EccP384),
+            CurveKind::Nistp521 => Err(Error::Unsupported),
+        },
+        PublicKeyKind::Rsa(_) => Err(Error::Unsupported),
+        PublicKeyKind::Ed25519(_) => Err(Error::Unsupported),
+    }
+}
+
 impl super::Yubikey {
     /// Pull the public key from the YubiKey and wrap it in a sshcerts
     /// PublicKey object.
@@ -21,28 +33,20 @@ impl super::Yubikey {
     /// slot. This could return RSA key types as they are valid but
     /// currently it only differentiates between no key, and ECCP256 and ECCP384
     pub fn get_ssh_key_type(&mut self, slot: &SlotId) -> Result<AlgorithmId> {
-        let pubkey = self.ssh_cert_fetch_pubkey(slot)?;
-
-        match pubkey.kind {
-            PublicKeyKind::Ecdsa(x) => match x.curve.kind {
-                CurveKind::Nistp256 => Ok(AlgorithmId::EccP256),
-                CurveKind::Nistp384 => Ok(AlgorithmId::EccP384),
-                CurveKind::Nistp521 => Err(Error::Unsupported),
-            },
-            PublicKeyKind::Rsa(_) => Err(Error::Unsupported),
-            PublicKeyKind::Ed25519(_) => Err(Error::Unsupported),
-        }
+        key_type(&self.ssh_cert_fetch_pubkey(slot)?)
     }
 
     /// Sign the provided buffer of data
     pub fn ssh_cert_signer(&mut self, buf: &[u8], slot: &SlotId) -> Result<Vec<u8>> {
-        let alg = match self.get_ssh_key_type(slot) {
+        // The slot is read once: if another process replaces its key meanwhile, the
+        // signature must not be labelled with the algorithm of a different key
+        let pub_key = match self.ssh_cert_fetch_pubkey(slot) {
             Ok(x) => x,
             _ => return Err(Error::Unsupported),
         };
+        let alg = key_type(&pub_key).map_err(|_| Error::Unsupported)?;
 
         let buf = self.sign_data(buf, alg, slot)?;
-        let pub_key = self.ssh_cert_fetch_pubkey(&slot)?;
 
         match crate::utils::format_signature_for_ssh(&pub_key, &buf) {
             Some(x) => Ok(x),
-- 
2.43.0


From de2d38ca079557d1fc8325202fb256a86769791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 23/28] fix: reconnect leaves a usable handle when it had to
 open the device anew

---
 src/yubikey/piv/management.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 9fbefd2..ce0c10a 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -92,8 +92,10 @@ impl super::Yubikey {
             Ok(()) => Ok(()),
             Err(_) => match YubiKey::open_by_serial(self.yk.serial()) {
                 Ok(yk) => {
+                    // Dropping the old handle can reset the card, and the new handle
+                    // is then unusable until it has been reconnected
                     self.yk = yk;
-                    Ok(())
+                    self.yk.reconnect().map_err(|_| Error::NoSuchYubikey)
                 }
                 Err(_) => Err(Error::NoSuchYubikey),
             },
-- 
2.43.0


From 60cb0c613f75059b6d1438f7e629dea0efe540b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:01 +0000
Subject: [PATCH 24/28] fix: sign with an sk key returns when the security key
 asks for a PIN or a choice nobody can answer

---
 src/fido/signing/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 6731e5d..e3d5d80 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -63,7 +63,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         let _ = sign_tx.send(rv);
     }));
 
-    let (status_tx, _status_rx) = channel::<StatusUpdate>();
+    // Nobody answers status updates (a PIN or a choice being asked for), so the receiver must not
+    // outlive this statement: a device thread would wait for the answer for ever.
+    let (status_tx, _) = channel::<StatusUpdate>();
     if let Err(e) = manager.sign(
         15_000,
         ctap_args.clone().into(),
-- 
2.43.0


From 91f9587a6d93d6378614ad4e6b270775b34b2edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:46 +0000
Subject: [PATCH 25/28] fix: generate_new_ssh_key refuses a credential for
 another application or of another key type

---
 src/fido/generate/ctap2_hid.rs |  4 ++--
 src/fido/generate/mod.rs       | 19 +++++++++++++++++++
 src/fido/generate/mozilla.rs   |  4 ++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/fido/generate/ctap2_hid.rs b/src/fido/generate/ctap2_hid.rs
index 4b90d40..6fd6f30 100644
--- a/src/fido/generate/ctap2_hid.rs
+++ b/src/fido/generate/ctap2_hid.rs
@@ -7,7 +7,7 @@ use ring::digest;
 use crate::{
     error::Error,
     fido::{
-        generate::{FIDOSSHKey, U2FAttestation},
+        generate::{requested_public_key, FIDOSSHKey, U2FAttestation},
         AuthData,
     },
     ssh::{Ed25519SkPrivateKey, KeyType, PrivateKeyKind},
@@ -76,7 +76,7 @@ pub fn generate_new_ssh_key(
     let private_key = PrivateKey {
         key_type,
         kind,
-        pubkey: auth_data.ssh_public_key(application)?,
+        pubkey: requested_public_key(&auth_data, application)?,
         magic: 0x0,
         comment: comment.to_string(),
     };
diff --git a/src/fido/generate/mod.rs b/src/fido/generate/mod.rs
index 48cca49..a7435de 100644
--- a/src/fido/generate/mod.rs
+++ b/src/fido/generate/mod.rs
@@ -11,6 +11,25 @@ mod mozilla;
 pub use mozilla::generate_new_ssh_key;
 
 use super::verification::{verify_auth_data, ValidAttestation};
+use super::{AuthData, Error as FidoError};
+use crate::ssh::PublicKeyKind;
+use crate::PublicKey;
+
+/// Get the public key of a new credential, refusing one that was made for another application or
+/// is of another type than the Ed25519 key that was asked for
+fn requested_public_key(
+    auth_data: &AuthData,
+    application: &str,
+) -> Result<PublicKey, crate::error::Error> {
+    let rpid_hash = ring::digest::digest(&ring::digest::SHA256, application.as_bytes());
+    let pubkey = auth_data.ssh_public_key(application)?;
+    match pubkey.kind {
+        PublicKeyKind::Ed25519(_) if auth_data.rpid_hash == rpid_hash.as_ref() => Ok(pubkey),
+        _ => Err(crate::error::Error::FidoError(FidoError::Unknown(
+            "Credential is not what was requested".to_owned(),
+        ))),
+    }
+}
 
 /// The attestation data, signature, and chain for a generated SSH key
 #[derive(Debug)]
diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 389456d..478a775 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -1,7 +1,7 @@
 use crate::{
     error::Error,
     fido::{
-        generate::{FIDOSSHKey, U2FAttestation},
+        generate::{requested_public_key, FIDOSSHKey, U2FAttestation},
         AuthData,
     },
     ssh::{Ed25519SkPrivateKey, KeyType, PrivateKeyKind},
@@ -146,7 +146,7 @@ pub fn generate_new_ssh_key(
     let private_key = PrivateKey {
         key_type,
         kind,
-        pubkey: auth_data.ssh_public_key(application)?,
+        pubkey: requested_public_key(&auth_data, application)?,
         magic: 0x0,
         comment: comment.to_string(),
     };
-- 
2.43.0


From b503df9f8e73ff2253ecc75747fd34e974c0407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:49 +0000
Subject: [PATCH 26/28] fix: generate_new_ssh_key reports an error when no
 thread can be created

---
 src/fido/generate/mozilla.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 478a775..95504d9 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -88,7 +88,7 @@ pub fn generate_new_ssh_key(
         return Err(Error::FidoError(FidoError::Unknown(e.to_string())));
     };
 
-    thread::spawn(move || loop {
+    let report_error = move || loop {
         let msg = status_rx.recv();
         match msg {
             Ok(StatusUpdate::PinUvError(StatusPinUv::PinRequired(_))) => {
@@ -112,7 +112,10 @@ pub fn generate_new_ssh_key(
                 return;
             }
         }
-    });
+    };
+    thread::Builder::new()
+        .spawn(report_error)
+        .map_err(|e| Error::FidoError(FidoError::Unknown(e.to_string())))?;
 
     let register_result = register_rx
         .recv()
-- 
2.43.0


From 91c6f43f1cf1a31d1cac1f657ad41c8f4ad53241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:06 +0000
Subject: [PATCH 27/28] fix: generate_new_ssh_key does not wait for ever for
 device threads left behind by a failed monitor

---
 src/fido/generate/mozilla.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 95504d9..c11be43 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -32,6 +32,7 @@ use authenticator::{crypto::COSEAlgorithm, StatusPinUv};
 use std::{
     sync::mpsc::{channel, RecvError},
     thread,
+    time::Duration,
 };
 
 /// Generate a new SSH key on a FIDO/U2F device
@@ -123,9 +124,10 @@ pub fn generate_new_ssh_key(
     let attestation_object = match register_result {
         Ok(attestation) => attestation,
         Err(e) => {
-            // Ends all threads that can still report a status, so that the wait below ends too
+            // Ends the threads that can still report a status, so that the wait below ends too. When
+            // watching for devices failed, some are left behind: do not wait for those for ever.
             drop(manager);
-            if let Ok(error) = error_rx.recv() {
+            if let Ok(error) = error_rx.recv_timeout(Duration::from_secs(5)) {
                 return Err(Error::FidoError(error));
             } else {
                 return Err(Error::FidoError(FidoError::Unknown(e.to_string())));
-- 
2.43.0


From c8781a17fc5376600e06b9e8876c699368a3b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:21 +0000
Subject: [PATCH 28/28] fix: sk signatures of the fido-support backend carry
 all the flags the security key signed

---
 src/fido/signing/ctap2_hid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/ctap2_hid.rs b/src/fido/signing/ctap2_hid.rs
index 68e4b62..e82ad76 100644
--- a/src/fido/signing/ctap2_hid.rs
+++ b/src/fido/signing/ctap2_hid.rs
@@ -59,7 +59,8 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let signature = &assert.signature;
     let mut format = format_signature_for_ssh(&private_key.pubkey, &signature)?;
-    format.push(assert.flags.as_u8());
+    // The signature covers all the flags, also the ones the library does not interpret
+    format.push(*assert.auth_data.get(32)?);
     format.extend_from_slice(&assert.sign_count.to_be_bytes());
 
     Some(format)
-- 
2.43.0

