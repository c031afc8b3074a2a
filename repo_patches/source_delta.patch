From 333f22078904019c8960310c3722de9086f270f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/13] fix: saber: pack the low bit of the sixth 3-bit
 coefficient

read_bytes_3bit stored bit 2 of cs[5] where from_bytes_3bit (and the reference
implementation) expects bit 0, so LightSaber reconciliation hints were wrong and
decapsulation failed with probability ~3.5e-6.
---
 saber-rust/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saber-rust/src/poly.rs b/saber-rust/src/poly.rs
index 6543d00..54a3a97 100644
--- a/saber-rust/src/poly.rs
+++ b/saber-rust/src/poly.rs
@@ -294,7 +294,7 @@ impl Poly {
             bs[1] = U8::from((cs[2] >> 2) & 0x01.into())
                 | U8::from((cs[3] & 0x07.into()) << 1)
                 | U8::from((cs[4] & 0x07.into()) << 4)
-                | U8::from(((cs[5] >> 2) & 0x01.into()) << 7);
+                | U8::from((cs[5] & 0x01.into()) << 7);
             bs[2] = U8::from((cs[5] >> 1) & 0x03.into())
                 | U8::from((cs[6] & 0x07.into()) << 2)
                 | U8::from((cs[7] & 0x07.into()) << 5);
-- 
2.43.0


From 0cb5d72a52803ed7c80979fb902746a4da78c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 02/13] fix: latke: implement simulated execution of FgIbkeC

run_sim was todo!(), so an encrypted FgIbkeC session could not be unconditionally executed.
---
 latke/src/ibke/fg_ibke.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index d1e7b65..2f5fadc 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -279,7 +279,29 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn run_sim(&mut self) -> Option<usize> {
-        todo!()
+        let id_size = Id::default().len();
+        let out = match self.next_step {
+            // Sends id, X, eph_pk
+            0 => Some(id_size + 32 + 32),
+            // Sends id, X, eph_pk, mac1
+            1 => Some(id_size + 32 + 32 + 32),
+            2 => {
+                // Sends mac0
+                self.done = true;
+                Some(32)
+            }
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
+            _ => panic!("protocol already ended"),
+        };
+
+        // Initiator gets the even steps, responder gets the odd steps
+        self.next_step += 2;
+
+        out
     }
 
     fn is_done(&self) -> bool {
-- 
2.43.0


From b0cc63be3c7fa859321f1ccf9460cee3d5d87761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 03/13] fix: latke: simulated IdHmqvC reports completion

run_sim never set done, contrary to the trait's contract that is_done holds once the last
run or run_sim has executed.
---
 latke/src/ibke/id_hmqv_c.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 595de00..ba5ff91 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -177,9 +177,14 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             }
             2 => {
                 // Sends a MAC
+                self.done = true;
                 Some(32)
             }
-            3 => None,
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
             _ => {
                 panic!("protocol already finished")
             }
-- 
2.43.0


From ebe7341dbcfb94128677e7ee9b5b7b0312b17068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 04/13] fix: latke: simulated ID-SIGMA-R messages have the real
 length

run_sim left out the nonce of the authenticated encryption, so simulated messages were
12 bytes shorter than real ones.
---
 latke/src/auth_enc.rs        | 3 +++
 latke/src/ibke/id_sigma_r.rs | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 0b14d7b..9cae073 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -12,6 +12,9 @@ use rand_core::{CryptoRng, RngCore};
 
 type MyCipher = ChaCha20;
 
+/// The length of the nonce that is sent along with every ciphertext
+pub(crate) const NONCELEN: usize = 12;
+
 pub(crate) const TAGLEN: usize = <MyMac as OutputSizeUser>::OutputSize::USIZE;
 
 /// A key for authenticated encryption. This is a 256-bit encryption key followed by a 256-bit HMAC key.
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 4951f99..9d0878e 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -397,11 +397,12 @@ impl IdSigmaR {
                 Some(Nonce::default().len() + BYTES_CCA_DEC)
             }
             2 => {
-                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption tag
+                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption nonce and tag
                 Some(
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
@@ -412,6 +413,7 @@ impl IdSigmaR {
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
-- 
2.43.0


From bc4c39f1e14ab06b56d9c032a542b170c7326a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 05/13] fix: latke: unconditionally execute after a decryption
 failure

A leftover assertion made the EUE transform panic on the first undecryptable message
instead of switching to simulated execution. A simulated session must not hand out the key
its IBKE may already have derived, so finalize refuses to.
---
 latke/src/eue_transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index d1058c6..9038ef1 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -75,7 +75,6 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         // Decrypt the incoming ciphertext if there is any and we're in real mode
         let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-            assert!(pt.is_ok());
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
                 self.real_mode = false;
@@ -120,6 +119,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
     }
 
     pub fn finalize(&self) -> (Id, SessKey) {
+        // A session that was simulated at any point has no session key
+        assert!(self.real_mode, "a message failed to decrypt");
         self.sess.finalize()
     }
 }
-- 
2.43.0


From f6e9628d52d167f8680dba7f86fb3e44807bb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 06/13] fix: latke: auth_decrypt rejects ciphertexts that are
 too short

It panicked on inputs shorter than a nonce and a tag instead of returning an error.
---
 latke/src/auth_enc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 9cae073..cf5109b 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -58,6 +58,9 @@ pub(crate) fn auth_decrypt(key: AuthEncKey, sealed_msg: &[u8]) -> Result<Vec<u8>
     // Deserialize the key and split the MAC and IV from the ciphertext
     let (enc_key, mac_key) = key.split_at(32);
     let mac_size = <MyMac as OutputSizeUser>::output_size();
+    if sealed_msg.len() < NONCELEN + mac_size {
+        return Err(MacError);
+    }
     let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
     let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - 12);
 
-- 
2.43.0


From 33095f45b1f97835ed7f8bd0a747751b79ddf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 07/13] fix: latke: finalize panics unless the protocol has
 completed

KcSpake2, FgIbkeC, IdHmqvC and IdSigmaR returned a key (and an unauthenticated identity)
before key confirmation, and even after it had failed, contrary to the documentation of
finalize.
---
 latke/src/ibke/fg_ibke.rs    | 1 +
 latke/src/ibke/id_hmqv_c.rs  | 1 +
 latke/src/ibke/id_sigma_r.rs | 1 +
 latke/src/pake/kc_spake2.rs  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index 2f5fadc..75b470d 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -309,6 +309,7 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(self.sess_key.as_ref().unwrap());
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index ba5ff91..1154708 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -158,6 +158,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 9d0878e..bef7d08 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -381,6 +381,7 @@ impl IdSigmaR {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index c35c653..f11f316 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -155,6 +155,7 @@ impl Pake for KcSpake2 {
     }
 
     fn finalize(&self) -> SessKey {
+        assert!(self.done, "protocol has not completed");
         self.output_key.unwrap()
     }
 }
-- 
2.43.0


From 9b8d1c0357e6b0f7ae66275d236d91f8cec8042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 08/13] fix: latke: a pre-specified peer must be the
 authenticated one

A holder of any one password file could complete a session with a party that pre-specified
another peer: it only has to feed the specified identities to the PAKE and then authenticate
as itself in the IBKE. finalize now refuses to return a key for any other identity.
---
 latke/src/latke.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latke/src/latke.rs b/latke/src/latke.rs
index dcbaa39..3964d86 100644
--- a/latke/src/latke.rs
+++ b/latke/src/latke.rs
@@ -14,6 +14,7 @@ pub struct Latke<I: IdentityBasedKeyExchange, P: Pake> {
     ssid: Ssid,
     pwfile: LatkePwfile<I>,
     role: PartyRole,
+    peer: PeerModel,
 
     pake_state: P,
     ibke_state: Option<Eue<I>>,
@@ -88,6 +89,7 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
             ssid,
             pwfile,
             role,
+            peer,
             pake_state,
             ibke_state: None,
             running_transcript_hash: MyKdfExtract::new(Some(b"latke-tr-hash")),
@@ -169,6 +171,11 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
         // Finalize the IBKE
         let (id, ibke_sess_key) = self.ibke_state.as_ref().unwrap().finalize();
 
+        // If the peer was specified beforehand, then it must be the one that the IBKE authenticated
+        if let PeerModel::PreSpecified(peer_id) = self.peer {
+            assert!(id == peer_id, "authenticated peer is not the specified peer");
+        }
+
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(&ibke_sess_key);
-- 
2.43.0


From edac20dce7ca43b34c7d55d1ac9457bb2f7806a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 09/13] hook: expose the wide-block cipher under --cfg
 latke_verif

---
 latke/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/latke/src/lib.rs b/latke/src/lib.rs
index 382f578..c163447 100644
--- a/latke/src/lib.rs
+++ b/latke/src/lib.rs
@@ -115,3 +115,16 @@ pub trait IdentityBasedKeyExchange {
 pub trait AsBytes {
     fn as_bytes(&self) -> &[u8];
 }
+
+/// Access to the wide-block cipher for external verification. Only built with `--cfg latke_verif`.
+#[cfg(latke_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub fn wide_block_encrypt(key: &[u8], inout: &mut [u8]) {
+        crate::ideal_cipher::wide_block_encrypt(key, inout)
+    }
+
+    pub fn wide_block_decrypt(key: &[u8], inout: &mut [u8]) {
+        crate::ideal_cipher::wide_block_decrypt(key, inout)
+    }
+}
-- 
2.43.0


From a88a201a293947967a50a177f68ac474ae806b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 10/13] fix: latke: a message after completion leaves the
 result unchanged

---
 latke/src/eue_transform.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index 9038ef1..296ebcc 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -72,6 +72,9 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         mut rng: R,
         incoming_ciphertext: &[u8],
     ) -> Result<Option<Vec<u8>>, I::Error> {
+        // A finished session takes no more messages. In particular they don't change its result
+        assert!(!self.sess.is_done(), "protocol already finished");
+
         // Decrypt the incoming ciphertext if there is any and we're in real mode
         let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-- 
2.43.0


From 7d91fba2acb0d0ed1e64dc8bca22d5da3fbc68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 11/13] fix: pqcrypto: AVX2 Dilithium verification rejects
 responses that are too long

Verification must reject z with an infinity norm of GAMMA1 - BETA or more.
The clean implementation checks it, the AVX2 one did not.
---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c | 5 ++++-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
index 9c7a3ab..efa27b7 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/sign.c
@@ -306,9 +306,12 @@ int PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM2_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM2_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM2_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM2_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
index d09c4de..566189a 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/sign.c
@@ -316,9 +316,12 @@ int PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM3_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM3_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM3_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM3_AVX2_poly_ntt(&z.vec[i]);
     }
 
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
index 916dd22..3cb52ba 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/sign.c
@@ -326,9 +326,12 @@ int PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify(const uint8_t *sig, size_t siglen
     PQCLEAN_DILITHIUM5_AVX2_poly_challenge(&c, sig);
     PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&c);
 
-    /* Unpack z; shortness follows from unpacking */
+    /* Unpack z and check that it is short */
     for (i = 0; i < L; i++) {
         PQCLEAN_DILITHIUM5_AVX2_polyz_unpack(&z.vec[i], sig + CTILDEBYTES + i * POLYZ_PACKEDBYTES);
+        if (PQCLEAN_DILITHIUM5_AVX2_poly_chknorm(&z.vec[i], GAMMA1 - BETA)) {
+            return -1;
+        }
         PQCLEAN_DILITHIUM5_AVX2_poly_ntt(&z.vec[i]);
     }
 
-- 
2.43.0


From cdc49d7d6b9e6d72d8105d27481c497b2124ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 12/13] fix: pqcrypto: AVX2 Dilithium hints lower the high bits
 when the low bits are zero

UseHint adds one only if the low part is positive. The AVX2 code also did
so for zero, and rejected signatures the clean implementation accepts.
---
 pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c | 3 ++-
 pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c | 3 ++-
 pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
index 6a13031..68fbcca 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium2/avx2/rounding.c
@@ -145,7 +145,8 @@ void PQCLEAN_DILITHIUM2_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        f = _mm256_cmpgt_epi32(f, zero);
+        t = _mm256_blendv_epi32(h, zero, f);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
index bbe8ec4..fbc62b8 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium3/avx2/rounding.c
@@ -143,7 +143,8 @@ void PQCLEAN_DILITHIUM3_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        f = _mm256_cmpgt_epi32(f, zero);
+        t = _mm256_blendv_epi32(h, zero, f);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
diff --git a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
index 65392e3..32eb3a6 100644
--- a/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
+++ b/pqcrypto/pqclean/crypto_sign/dilithium5/avx2/rounding.c
@@ -143,7 +143,8 @@ void PQCLEAN_DILITHIUM5_AVX2_use_hint_avx(__m256i *b, const __m256i *a, const __
         f = _mm256_load_si256(&a0[i]);
         g = _mm256_load_si256(&b[i]);
         h = _mm256_load_si256(&hint[i]);
-        t = _mm256_blendv_epi32(zero, h, f);
+        f = _mm256_cmpgt_epi32(f, zero);
+        t = _mm256_blendv_epi32(h, zero, f);
         t = _mm256_slli_epi32(t, 1);
         h = _mm256_sub_epi32(h, t);
         g = _mm256_add_epi32(g, h);
-- 
2.43.0


From 1bebc83b2a15f2a00311c1b6b935dd73921c655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 13/13] fix: latke: Sig-DH session keys depend on both
 identities

---
 latke/src/ibke/id_sig_dh.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index 18abe4b..4bfaff0 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -235,7 +235,7 @@ impl IdentityBasedKeyExchange for IdSigDh {
                     .0
                     .sign(&[&[0x01], self.ssid.as_slice(), eph_pk.as_bytes()].concat());
 
-                // Calculate the DH shared secrets and extract the session key from all the shared secrets and the transcript
+                // Calculate the DH shared secrets and extract the session key from all the shared secrets, the identities, and the transcript
                 let z1 = self.usk.1.diffie_hellman(&other_upk.1);
                 let z2 = self.usk.1.diffie_hellman(&incoming_eph_pk);
                 let z3 = eph_sk.diffie_hellman(&other_upk.1);
@@ -248,6 +248,8 @@ impl IdentityBasedKeyExchange for IdSigDh {
                 hk.expand_multi_info(
                     &[
                         &self.ssid,
+                        &incoming_cert.id,
+                        &self.cert.id,
                         &incoming_eph_pk_bytes,
                         eph_pk.as_bytes().as_slice(),
                     ],
@@ -298,7 +300,7 @@ impl IdentityBasedKeyExchange for IdSigDh {
                     &incoming_sig,
                 )?;
 
-                // Calculate the DH shared secrets and extract the session key from all the shared secrets and the transcript
+                // Calculate the DH shared secrets and extract the session key from all the shared secrets, the identities, and the transcript
                 let z1 = self.usk.1.diffie_hellman(&other_upk.1);
                 let z2 = self.eph_sk.as_ref().unwrap().diffie_hellman(&other_upk.1);
                 let z3 = self.usk.1.diffie_hellman(&incoming_eph_pk);
@@ -315,6 +317,8 @@ impl IdentityBasedKeyExchange for IdSigDh {
                 hk.expand_multi_info(
                     &[
                         &self.ssid,
+                        &self.cert.id,
+                        &incoming_cert.id,
                         self.eph_pk.as_ref().unwrap().as_bytes().as_slice(),
                         &incoming_eph_pk_bytes,
                     ],
-- 
2.43.0

