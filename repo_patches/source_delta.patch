From 2dc227e2c30ed049ced72e6f3e52126a5535ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:14 +0000
Subject: [PATCH 01/18] fix: convert 64-bit-word digests back to words without
 panicking

bytes_to_u64s split the digest into 4-byte chunks, so turning a Hash384 or
Hash512 into words always panicked.
---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From 5d5eb83df986a37ec55c9736a149d6cc371f355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:15 +0000
Subject: [PATCH 02/18] fix: keep zero normalised when a BigUint is shifted
 left

Shifting zero left by whole bytes stored zero bytes, giving a zero that was
unequal to zero and made bits_used panic.
---
 src/big/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..15bca85 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
-- 
2.43.0


From 6ec79da75ff3071ae5825244afa5a8a31914a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:15 +0000
Subject: [PATCH 03/18] fix: shift a BigUint right past its length to zero

>>= with a shift of more whole bytes than the number has panicked.
---
 src/big/uint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 15bca85..676f84c 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -281,7 +281,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let steps_in_range = self.bytes.len().min(steps as usize);
+            self.bytes.splice(0..steps_in_range, []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From 46babb7b4d4b6e20bbe65a998bb8e69e2a4cfef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:15 +0000
Subject: [PATCH 04/18] fix: refuse BigUint subtraction with a negative result

Subtracting a larger number returned an arbitrary wrong value.
---
 src/big/uint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 676f84c..d9f6bef 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -196,6 +196,8 @@ impl PartialOrd for BigUint {
 
 impl SubAssign<&BigUint> for BigUint {
     fn sub_assign(&mut self, rhs: &BigUint) {
+        assert!(*self >= *rhs, "attempt to subtract with overflow");
+
         let curr_bits_used = self.bits_used();
 
         // ensure there is enough space for the upcoming addition
-- 
2.43.0


From 201d065157dd6b08ee095c1921cfccdb4ead5e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:16 +0000
Subject: [PATCH 05/18] fix: refuse BigUint remainder by zero

The remainder by zero returned the dividend instead of being refused.
---
 src/big/uint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index d9f6bef..6720be4 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -235,6 +235,11 @@ impl Sub<&BigUint> for BigUint {
 
 impl RemAssign<&BigUint> for BigUint {
     fn rem_assign(&mut self, rhs: &BigUint) {
+        assert!(
+            rhs.bits_used() != 0,
+            "attempt to calculate the remainder with a divisor of zero"
+        );
+
         if rhs.bits_used() > self.bits_used() {
             return;
         }
-- 
2.43.0


From 7f091f0aaf3746b24109ba4ab283c6267881c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:12 +0000
Subject: [PATCH 06/18] fix: make RSA ciphertexts as long as the modulus

encrypt_message dropped the leading zero bytes of the ciphertext and
decrypt_message used the length of the ciphertext as that of the modulus, so
about one in 256 messages could not be decrypted again.
---
 src/rsa/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..3cb7aea 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -119,17 +119,13 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let m = padding.encode(b"", plaintext, self.modulo_len());
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        self.to_fixed_len(self.encrypt(m))
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -137,11 +133,7 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
-        let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
-        let dec = d.to_be_bytes();
-        let start = m.len() - dec.len();
-        m[start..].copy_from_slice(&dec);
+        let m = self.to_fixed_len(self.decrypt(BigUint::from_be_bytes(ciphertext)));
 
         padding.decode(b"", &m, m.len()).unwrap()
     }
@@ -149,6 +141,20 @@ impl RsaEncryption {
     pub fn decrypt(&self, c: BigUint) -> BigUint {
         pow_mod(&c, &self.exponent, &self.modulo)
     }
+
+    /** The length of the modulus in bytes */
+    fn modulo_len(&self) -> usize {
+        (self.modulo.bits_used() - 1) as usize / 8 + 1
+    }
+
+    /** Encodes a number below the modulus with as many bytes as the modulus has */
+    fn to_fixed_len(&self, number: BigUint) -> Vec<u8> {
+        let bytes = number.to_be_bytes();
+        let mut output = vec![0; self.modulo_len()];
+        let start = output.len() - bytes.len();
+        output[start..].copy_from_slice(&bytes);
+        output
+    }
 }
 
 fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
-- 
2.43.0


From 364324d51291bf9bb4a17078bae8a04a86d23c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:13 +0000
Subject: [PATCH 07/18] fix: refuse RSA ciphertexts that are not in the range
 of the modulus

RFC 8017 (7.1.2 and 5.1.2) requires the ciphertext to be as long as the
modulus and to represent a number below it. Others decrypted to a message.
---
 src/rsa/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 3cb7aea..6db03f8 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -133,7 +133,17 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = self.to_fixed_len(self.decrypt(BigUint::from_be_bytes(ciphertext)));
+        assert_eq!(
+            ciphertext.len(),
+            self.modulo_len(),
+            "the ciphertext must be as long as the modulus"
+        );
+        let c = BigUint::from_be_bytes(ciphertext);
+        assert!(
+            c < self.modulo,
+            "the ciphertext must be smaller than the modulus"
+        );
+        let m = self.to_fixed_len(self.decrypt(c));
 
         padding.decode(b"", &m, m.len()).unwrap()
     }
-- 
2.43.0


From 041362e25554bf81d6678d2852f007381db50bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:13 +0000
Subject: [PATCH 08/18] fix: return an error when an OAEP block has the wrong
 length

Decoding a block that is too short, or whose length is not the given one,
panicked instead of returning an error.
---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..f1f696a 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("encoded message has the wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From 13ffa09524e0581eb1061a7115d153e4b2302c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:13 +0000
Subject: [PATCH 09/18] fix: return errors for malformed ASN.1 lengths and
 empty bit strings

Missing or more than 16 length bytes and empty bit strings panicked, lengths
above 64 bits were cut off, and the indefinite form was taken for length 0.
---
 src/pem/asn1.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..623c1c6 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,12 +16,21 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
-            let mut length = 0u128.to_be_bytes();
-            length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
-            (
-                &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
-            )
+            if length_bytes == 0 {
+                return Err(format!("tag ({tag}) had an indefinite length"));
+            }
+            if length_bytes > bytes.len() - 2 {
+                return Err(format!("tag ({tag}) had too few length bytes"));
+            }
+            let (encoded_length, rest) = bytes[2..].split_at(length_bytes);
+            let mut length = 0usize;
+            for &b in encoded_length {
+                if length > usize::MAX >> 8 {
+                    return Err(format!("tag ({tag}) had a too large length"));
+                }
+                length = length << 8 | b as usize;
+            }
+            (rest, length)
         } else {
             (&bytes[2..], bytes[1] as usize)
         };
@@ -36,6 +45,7 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string had no unused bits field".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
-- 
2.43.0


From 07d8eeec180d747b79f5cbcf42b0fe87a1a37191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 10/18] fix: limit how deep ASN.1 sequences can be nested

A few kilobytes of nested sequences overflowed the stack, which aborts the
whole process.
---
 src/pem/asn1.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 623c1c6..70dfdbf 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -8,8 +8,11 @@ pub enum Asn1 {
     Sequence(Vec<Asn1>),
 }
 
+/** How deep sequences can be nested (the parser is recursive) */
+const MAX_DEPTH: usize = 64;
+
 impl Asn1 {
-    fn parse_from_bytes(bytes: &[u8]) -> Result<(Asn1, &[u8]), String> {
+    fn parse_from_bytes(bytes: &[u8], depth: usize) -> Result<(Asn1, &[u8]), String> {
         if bytes.len() <= 1 {
             return Err("tag had no length".to_string());
         }
@@ -49,11 +52,12 @@ impl Asn1 {
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
+            0x30 if depth >= MAX_DEPTH => return Err("sequences are nested too deep".to_string()),
             0x30 => {
                 let mut left = &*rest[..length].to_owned();
                 let mut elements = Vec::new();
                 while !left.is_empty() {
-                    let (asn1, rest) = Asn1::parse_from_bytes(left).map_err(|e| format!("failed to parse sequence: {}", e))?;
+                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                     elements.push(asn1);
                     left = rest;
                 }
@@ -70,7 +74,7 @@ impl TryFrom<&[u8]> for Asn1 {
     type Error = String;
 
     fn try_from(bytes: &[u8]) -> Result<Self, Self::Error> {
-        let (asn1, left) = Asn1::parse_from_bytes(bytes)?;
+        let (asn1, left) = Asn1::parse_from_bytes(bytes, 0)?;
 
         if !left.is_empty() {
             return Err("extra bytes at the end".to_string());
-- 
2.43.0


From 979fedbda624a90dbc70f46a5281c5ff071ac3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 11/18] fix: support the empty key in RC5

RC5 allows keys of 0 to 255 bytes, but the empty key panicked (RFC 2040
expands it to one zero word).
---
 src/rc/rc5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..6df4d39 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,14 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1);
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        l.resize(c, 0); // the empty key has one zero word
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From 52289facc45be4e1bed4904b7fd9580fa29fac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 12/18] fix: refuse malformed PKCS#7 padding

unpad accepted a padding length of zero and did not look at the other padding
bytes, so blocks that padding never produces were unpadded.
---
 src/pad.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..3d6e57b 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -47,7 +47,11 @@ impl<const N: usize> PkcsPadding<N> {
         if amt as usize > N {
             panic!("padding byte is too big");
         }
-        N - amt as usize
+        let len = N - amt as usize;
+        if amt == 0 || block[len..].iter().any(|&b| b != amt) {
+            panic!("malformed padding");
+        }
+        len
     }
 }
 
-- 
2.43.0


From c05710942bc6bc99fef05b6973ab88b88fd21851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 13/18] fix: refuse bit padding with data after the marker

unpad skipped non-zero bytes after the last 0x80 byte and threw them away.
---
 src/pad.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 3d6e57b..8559d74 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -17,7 +17,8 @@ impl<const N: usize> BitPadding<N> {
     pub fn unpad(&self, last_block: Block<N>) -> (Block<N>, usize) {
         let len = last_block
             .iter()
-            .rposition(|&b| b == 0x80)
+            .rposition(|&b| b != 0)
+            .filter(|&i| last_block[i] == 0x80)
             .expect("missing marker byte (0x80)");
         let mut block = last_block;
         block[len..].fill(0);
-- 
2.43.0


From 3f9a60365a38e7e2c0833ff3e6821d7f43bbff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:15 +0000
Subject: [PATCH 14/18] fix: refuse to create RSA keys with an overflowing
 modulus

In release builds p * q wrapped around, giving keys for another modulus.
---
 src/rsa/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 6db03f8..9b62050 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -45,7 +45,9 @@ pub fn create_keys(p: BigUint, q: BigUint, e: BigUint) -> (PrivateKey, PublicKey
     let q: u128 = q.as_u128().unwrap();
     let e: u128 = e.as_u128().unwrap();
 
-    let n = p * q;
+    let n = p
+        .checked_mul(q)
+        .expect("the modulus does not fit in 128 bits");
 
     let l = lcm(p - 1, q - 1);
     let d = inverse(e, l).unwrap();
-- 
2.43.0


From b9f022bc41c98c25b46485091fae916d5fe4e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:15 +0000
Subject: [PATCH 15/18] fix: reject RSA private keys of other versions

Only the two-prime form (version 0) has exactly these nine fields.
---
 src/rsa/asn1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/asn1.rs b/src/rsa/asn1.rs
index cf518f2..25e9695 100644
--- a/src/rsa/asn1.rs
+++ b/src/rsa/asn1.rs
@@ -152,6 +152,9 @@ impl PrivateKey {
         if version.len() != 1 {
             return Err("version field must be one byte".to_string());
         }
+        if version[0] != 0 {
+            return Err("expected version to be zero (two primes)".to_string());
+        }
 
         Ok(Self {
             version: version[0],
-- 
2.43.0


From 7d3010b16df2c0b861c9abb413e37745845a4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:50 +0000
Subject: [PATCH 16/18] fix: reject ASN.1 nulls with content

The content was dropped: 05 01 aa was parsed as if it was 05 00.
---
 src/pem/asn1.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 70dfdbf..3a6c2e6 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -50,6 +50,7 @@ impl Asn1 {
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
             0x03 if length == 0 => return Err("bit string had no unused bits field".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
+            0x05 if length != 0 => return Err("null had content".to_string()),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 if depth >= MAX_DEPTH => return Err("sequences are nested too deep".to_string()),
-- 
2.43.0


From 1167168ede2cc5c2b9ec49902b2a7a2dfba05e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:01 +0000
Subject: [PATCH 17/18] fix: reject ASN.1 integers and object identifiers
 without content, and impossible unused bit counts

No encoding has them: an integer and an object identifier have at least one byte, and a bit string
has at most 7 unused bits (none when it is empty).
---
 src/pem/asn1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 3a6c2e6..2c10543 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -46,12 +46,15 @@ impl Asn1 {
         }
 
         let asn1 = match tag {
+            0x02 if length == 0 => return Err("integer had no content".to_string()),
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
             0x03 if length == 0 => return Err("bit string had no unused bits field".to_string()),
+            0x03 if rest[0] > 7 || (rest[0] != 0 && length == 1) => return Err("bit string had too many unused bits".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 if length != 0 => return Err("null had content".to_string()),
             0x05 => Asn1::Null,
+            0x06 if length == 0 => return Err("object identifier had no content".to_string()),
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 if depth >= MAX_DEPTH => return Err("sequences are nested too deep".to_string()),
             0x30 => {
-- 
2.43.0


From 17a9538234f974833eddbd282d9277a01c116c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:35 +0000
Subject: [PATCH 18/18] fix: reject RSA keys with negative numbers

They were imported as if the encoded numbers were unsigned, which gives another key.
---
 src/rsa/asn1.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rsa/asn1.rs b/src/rsa/asn1.rs
index 25e9695..78be46d 100644
--- a/src/rsa/asn1.rs
+++ b/src/rsa/asn1.rs
@@ -149,6 +149,10 @@ impl PrivateKey {
             return Err("expected integers".to_string());
         };
 
+        if seq.iter().any(is_negative) {
+            return Err("expected integers that are not negative".to_string());
+        }
+
         if version.len() != 1 {
             return Err("version field must be one byte".to_string());
         }
@@ -191,6 +195,10 @@ impl PublicKey {
             return Err("expected integers".to_string());
         };
 
+        if seq.iter().any(is_negative) {
+            return Err("expected integers that are not negative".to_string());
+        }
+
         Ok(Self {
             modulus: BigUint::from_be_bytes(modulus),
             public_exponent: BigUint::from_be_bytes(public_exponent),
@@ -198,6 +206,11 @@ impl PublicKey {
     }
 }
 
+/** Integers are in two's complement */
+fn is_negative(asn: &Asn1) -> bool {
+    matches!(asn, Asn1::Integer(bytes) if bytes.first().is_some_and(|b| b & 0x80 != 0))
+}
+
 impl TryFrom<Asn1> for PrivateKeyInfo {
     type Error = String;
 
-- 
2.43.0

