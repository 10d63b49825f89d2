From 3a4f266089693dc7ca8aca7ef21ee794a1f58bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 01/15] fix: refuse lazily reduced coefficients outside
 precomputed multiplication

dot_product, substitute, scale, scalar multiplication and the conversions out
of Ntt accepted a polynomial whose coefficients are not reduced; the first
three dropped the mark, so that unreduced values reached ordinary arithmetic.
---
 crates/fhe-math/src/rq/mod.rs    | 3 +++
 crates/fhe-math/src/rq/ops.rs    | 5 +++++
 crates/fhe-math/src/rq/scaler.rs | 1 +
 3 files changed, 9 insertions(+)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index a80af39..acf56fd 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -358,6 +358,7 @@ impl<R: RepresentationTag> Poly<R> {
     /// multiple of 2 * degree. In Ntt and NttShoup representation, i can be any
     /// odd integer that is not a multiple of 2 * degree.
     pub fn substitute(&self, i: &SubstitutionExponent) -> Result<Poly<R>> {
+        assert!(!self.has_lazy_coefficients);
         let mut q = Poly::<R>::zero(&self.ctx);
         if self.allow_variable_time_computations {
             q.allow_variable_time_computations(fhe_traits::VariableTime::new(
@@ -588,6 +589,7 @@ impl Poly<Ntt> {
     /// Convert into PowerBasis representation.
     #[must_use]
     pub fn into_power_basis(mut self) -> Poly<PowerBasis> {
+        assert!(!self.has_lazy_coefficients);
         self.ntt_backward();
         Poly::from_parts(self)
     }
@@ -595,6 +597,7 @@ impl Poly<Ntt> {
     /// Convert into NttShoup representation.
     #[must_use]
     pub fn into_ntt_shoup(mut self) -> Poly<NttShoup> {
+        assert!(!self.has_lazy_coefficients);
         self.compute_coefficients_shoup();
         Poly::from_parts(self)
     }
diff --git a/crates/fhe-math/src/rq/ops.rs b/crates/fhe-math/src/rq/ops.rs
index 455a7aa..c39892a 100644
--- a/crates/fhe-math/src/rq/ops.rs
+++ b/crates/fhe-math/src/rq/ops.rs
@@ -296,6 +296,8 @@ impl Mul<&Poly<PowerBasis>> for &BigUint {
 
 impl MulAssign<&BigUint> for Poly<Ntt> {
     fn mul_assign(&mut self, p: &BigUint) {
+        assert!(!self.has_lazy_coefficients);
+
         // Project the scalar into its CRT representation (reduced modulo each prime)
         let scalar_crt = self.ctx.rns.project(p);
 
@@ -470,6 +472,9 @@ where
     {
         return Err(Error::PolynomialContextMismatch);
     }
+    assert!(p.clone().all(|poly| !poly.has_lazy_coefficients));
+    assert!(q.clone().all(|poly| !poly.has_lazy_coefficients));
+
     // A dot product may use variable-time reductions only when every input is
     // public. One constant-time operand conservatively downgrades the result.
     let allow_variable_time_computations =
diff --git a/crates/fhe-math/src/rq/scaler.rs b/crates/fhe-math/src/rq/scaler.rs
index 73ed6f5..490dfc2 100644
--- a/crates/fhe-math/src/rq/scaler.rs
+++ b/crates/fhe-math/src/rq/scaler.rs
@@ -56,6 +56,7 @@ impl Scaler {
         if p.ctx.as_ref() != self.from.as_ref() {
             Err(Error::PolynomialContextMismatch)
         } else {
+            assert!(!p.has_lazy_coefficients);
             let mut new_coefficients = Array2::<u64>::zeros((self.to.q.len(), self.to.degree));
 
             if self.number_common_moduli > 0 {
-- 
2.43.0


From 8767d3d1e0f0b2ab4a223b05733f2aaf5d5f425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 02/15] fix: discard the compression seed when a ciphertext's
 polynomials are mutably borrowed

---
 crates/fhe/src/bfv/ciphertext.rs      | 3 +++
 crates/fhe/src/bfv/keys/public_key.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ciphertext.rs b/crates/fhe/src/bfv/ciphertext.rs
index 3d59901..2f431eb 100644
--- a/crates/fhe/src/bfv/ciphertext.rs
+++ b/crates/fhe/src/bfv/ciphertext.rs
@@ -39,6 +39,9 @@ impl Deref for Ciphertext {
 
 impl DerefMut for Ciphertext {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The polynomials may be modified through the returned slice, and the
+        // seed would then no longer generate the last one.
+        self.seed = None;
         &mut self.c
     }
 }
diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5e68e1d..4e585b3 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -28,7 +28,7 @@ impl PublicKey {
         let mut c: Ciphertext = sk.try_encrypt(&zero, rng).unwrap();
         // The polynomials of a public key should not allow for variable time
         // computation.
-        c.iter_mut()
+        c.c.iter_mut()
             .for_each(|p| p.disallow_variable_time_computations());
         Self {
             par: sk.par.clone(),
@@ -132,7 +132,7 @@ impl DeserializeParametrized for PublicKey {
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-                c.iter_mut()
+                c.c.iter_mut()
                     .for_each(|p| p.disallow_variable_time_computations());
                 Ok(Self {
                     par: par.clone(),
-- 
2.43.0


From 69d9cfba25afecfc9de144a90f0f401790115914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 03/15] fix: reject ciphertexts with other than two polynomials
 in PublicKeySwitchShare::new

---
 crates/fhe/src/mbfv/public_key_switch.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 8ad7667..82e855d 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -48,6 +48,15 @@ impl PublicKeySwitchShare {
                 right: crate::ParameterSource::Ciphertext,
             });
         }
+        // Note: M-BFV implementation only supports ciphertext of length 2
+        if ct.len() != 2 {
+            return Err(crate::CiphertextError::InvalidPolynomialCount {
+                operation: crate::CiphertextOperation::MultipartyKeySwitch,
+                actual: ct.len(),
+                expected: 2,
+            }
+            .into());
+        }
         let par = sk_share.par.clone();
 
         // Get appropriate context / level for the following computations
-- 
2.43.0


From d44c626bf6e78cb58bffb111340910d61732217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 04/15] fix: reject serialized polynomials whose degree is not
 that of the context

---
 crates/fhe-math/src/rq/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 34b5057..6dc5c8d 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -63,7 +63,7 @@ fn parse_proto(
     };
 
     let degree = value.degree as usize;
-    if !degree.is_multiple_of(8) || degree < 8 {
+    if degree != ctx.degree {
         return Err(PolynomialSerializationError::InvalidDegree { degree }.into());
     }
 
-- 
2.43.0


From 5f66c3c84fdb0aec2fe14b6d27f2bf3e5319191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 05/15] fix: reject serialized coefficients that are not
 reduced modulo their modulus

---
 crates/fhe-math/src/errors.rs     |  4 ++++
 crates/fhe-math/src/rq/convert.rs | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/fhe-math/src/errors.rs b/crates/fhe-math/src/errors.rs
index 9066e64..7c9b9a5 100644
--- a/crates/fhe-math/src/errors.rs
+++ b/crates/fhe-math/src/errors.rs
@@ -144,6 +144,10 @@ pub enum PolynomialSerializationError {
     /// The serialized coefficient byte count is invalid.
     #[error("Invalid coefficient length: found {actual} bytes, expected {expected}.")]
     InvalidCoefficientCount { actual: usize, expected: usize },
+
+    /// A serialized coefficient is not smaller than its modulus.
+    #[error("Invalid coefficient: not smaller than the modulus {modulus}.")]
+    InvalidCoefficient { modulus: u64 },
 }
 
 #[cfg(test)]
diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 6dc5c8d..e403aaa 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -80,16 +80,16 @@ fn parse_proto(
     }
 
     let mut index = 0;
-    let power_basis_coefficients: Vec<u64> = ctx
-        .q
-        .iter()
-        .flat_map(|qi| {
-            let size = qi.serialization_length(degree);
-            let v = qi.deserialize_vec(&value.coefficients[index..index + size]);
-            index += size;
-            v
-        })
-        .collect();
+    let mut power_basis_coefficients: Vec<u64> = Vec::with_capacity(ctx.q.len() * degree);
+    for qi in ctx.q.iter() {
+        let size = qi.serialization_length(degree);
+        let v = qi.deserialize_vec(&value.coefficients[index..index + size]);
+        if v.iter().any(|c| *c >= **qi) {
+            return Err(PolynomialSerializationError::InvalidCoefficient { modulus: **qi }.into());
+        }
+        power_basis_coefficients.extend(v);
+        index += size;
+    }
 
     Ok((
         representation_from_proto,
-- 
2.43.0


From b129855e0d7aaba7194da3c445a36603f8ee9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 06/15] fix: reject serialized public keys that do not have two
 polynomials

---
 crates/fhe/src/bfv/keys/public_key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 4e585b3..9073699 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -129,6 +129,13 @@ impl DeserializeParametrized for PublicKey {
                         expected: 0,
                     },
                 ))
+            } else if c.c.len() != 2 {
+                Err(Error::SerializationError(
+                    SerializationError::InvalidCiphertextPolynomialCount {
+                        actual: proto_c.c.len(),
+                        seed_present: !proto_c.seed.is_empty(),
+                    },
+                ))
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-- 
2.43.0


From 9a852d2a5c2eb129d49dc32c30284462ba2b26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 07/15] fix: reject serialized key-switching keys with a
 decomposition base other than that of their modulus

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 14 ++++++++++++++
 crates/fhe/src/errors.rs                     |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 1f83458..e7df574 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -411,6 +411,20 @@ impl BfvTryConvertFrom<&KeySwitchingKeyProto> for KeySwitchingKey {
             c0_size = ctx_ciphertext.moduli().len();
         }
 
+        let expected_log_base = if ctx_ksk.moduli().len() == 1 {
+            ctx_ksk.moduli()[0].next_power_of_two().ilog2() as usize / 2
+        } else {
+            0
+        };
+        if log_base != expected_log_base {
+            return Err(Error::SerializationError(
+                SerializationError::InvalidKeySwitchingLogBase {
+                    actual: log_base,
+                    expected: expected_log_base,
+                },
+            ));
+        }
+
         if value.c0.len() != c0_size {
             return Err(Error::SerializationError(
                 SerializationError::WrongPolynomialCount {
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9521636..c2507ca 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -269,6 +269,11 @@ pub enum SerializationError {
         expected: usize,
     },
 
+    /// A serialized key-switching key has a decomposition base that its modulus
+    /// does not call for.
+    #[error("Serialized key-switching key has base logarithm {actual}; expected {expected}")]
+    InvalidKeySwitchingLogBase { actual: usize, expected: usize },
+
     /// A serialized key-switching seed has the wrong length.
     #[error("Serialized key-switching seed has {actual} bytes; expected {expected}")]
     InvalidKeySwitchingSeedLength { actual: usize, expected: usize },
-- 
2.43.0


From 040717233ad320cab16e65a9bce66ba77da76770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 08/15] fix: reject serialized evaluation keys whose key level
 exceeds the ciphertext level

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 728b1ed..a311d0b 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -505,6 +505,14 @@ impl From<&EvaluationKey> for EvaluationKeyProto {
 
 impl TryConvertFrom<&EvaluationKeyProto> for EvaluationKey {
     fn try_convert_from(value: &EvaluationKeyProto, par: &Arc<BfvParameters>) -> Result<Self> {
+        if value.evaluation_key_level > value.ciphertext_level {
+            return Err(Error::InvalidLevel {
+                level: value.evaluation_key_level as usize,
+                min_level: 0,
+                max_level: value.ciphertext_level as usize,
+            });
+        }
+
         let mut gk = HashMap::new();
         for gkp in &value.gk {
             let key = GaloisKey::try_convert_from(gkp, par)?;
-- 
2.43.0


From 5a5741ec9605bde88305e0650dc0f78be4300540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 09/15] fix: reject serialized relinearization keys with a
 single modulus, as the constructors do

---
 crates/fhe/src/bfv/keys/relinearization_key.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/relinearization_key.rs b/crates/fhe/src/bfv/keys/relinearization_key.rs
index ecbd030..c5bfcbf 100644
--- a/crates/fhe/src/bfv/keys/relinearization_key.rs
+++ b/crates/fhe/src/bfv/keys/relinearization_key.rs
@@ -121,9 +121,11 @@ impl From<&RelinearizationKey> for RelinearizationKeyProto {
 impl TryConvertFrom<&RelinearizationKeyProto> for RelinearizationKey {
     fn try_convert_from(value: &RelinearizationKeyProto, par: &Arc<BfvParameters>) -> Result<Self> {
         if let Some(ksk) = &value.ksk {
-            Ok(RelinearizationKey {
-                ksk: KeySwitchingKey::try_convert_from(ksk, par)?,
-            })
+            let ksk = KeySwitchingKey::try_convert_from(ksk, par)?;
+            if ksk.ctx_ksk.moduli().len() == 1 {
+                return Err(crate::EvaluationKeyError::KeySwitchingNotSupported.into());
+            }
+            Ok(RelinearizationKey { ksk })
         } else {
             Err(Error::SerializationError(
                 SerializationError::MissingField {
-- 
2.43.0


From 0d54f1f88cbacac2de7ecd249e8002d801e621f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 10/15] fix: check the sizes RnsScaler::scale relies on for
 unchecked accesses in release mode

---
 crates/fhe-math/src/rns/scaler.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 064a17b..8ef0120 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -231,8 +231,8 @@ impl RnsScaler {
     /// Output the RNS representation of the rests scaled by numerator *
     /// denominator, and either rounded or floored.
     ///
-    /// Aborts if the number of rests is different than the number of moduli in
-    /// debug mode, or if the size is not in [1, ..., rests.len()].
+    /// Aborts if the number of rests is different than the number of input
+    /// moduli, or if the size is larger than the number of output moduli.
     #[must_use]
     pub fn scale_new(&self, rests: ArrayView1<u64>, size: usize) -> Vec<u64> {
         let mut out = vec![0; size];
@@ -244,17 +244,19 @@ impl RnsScaler {
     /// denominator, and either rounded or floored, and store the result in
     /// `out`.
     ///
-    /// Aborts if the number of rests is different than the number of moduli in
-    /// debug mode, or if the size of out is not in [1, ..., rests.len()].
+    /// Aborts if the number of rests is different than the number of input
+    /// moduli, or if there are not `out.len()` output moduli from
+    /// `starting_index` on.
     pub fn scale(
         &self,
         rests: ArrayView1<u64>,
         mut out: ArrayViewMut1<u64>,
         starting_index: usize,
     ) {
-        debug_assert_eq!(rests.len(), self.from.moduli_u64.len());
+        let to_size = self.to.moduli_u64.len();
+        assert_eq!(rests.len(), self.from.moduli_u64.len());
         debug_assert!(!out.is_empty());
-        debug_assert!(starting_index + out.len() <= self.to.moduli_u64.len());
+        assert!(out.len() <= to_size && starting_index <= to_size - out.len());
 
         // First, let's compute the inner product of the rests with theta_omega.
         let mut sum_theta_garner = u256::ZERO;
-- 
2.43.0


From 7105814256e4d355852953448adc7e29e33c56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 11/15] fix: store polynomial coefficients in standard layout
 whatever the layout of the array converted

---
 crates/fhe-math/src/rq/convert.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index e403aaa..c2b1bab 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -240,6 +240,15 @@ impl TryConvertFrom<Vec<u64>> for Poly<NttShoup> {
     }
 }
 
+/// Rows of coefficients are accessed as slices, hence must be contiguous.
+fn standard_layout(a: Array2<u64>) -> Array2<u64> {
+    if a.is_standard_layout() {
+        a
+    } else {
+        a.as_standard_layout().into_owned()
+    }
+}
+
 impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
     fn try_convert_from(a: Array2<u64>, ctx: &Arc<Context>, variable_time: bool) -> Result<Self> {
         if a.shape() != [ctx.q.len(), ctx.degree] {
@@ -253,7 +262,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
             Ok(Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: standard_layout(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
@@ -275,7 +284,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<Ntt> {
             Ok(Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: standard_layout(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
@@ -297,7 +306,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<NttShoup> {
             let mut p = Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: standard_layout(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
-- 
2.43.0


From c11e5c1e871b8bb0abda635c978ff85bb1cb7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 12/15] fix: wipe the secret-dependent temporaries of
 key-switching key generation

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index e7df574..2f55392 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -173,7 +173,7 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
@@ -218,13 +218,14 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
 
                 let power = BigUint::from(1u64 << (i * log_base));
-                b += &(from * &power);
+                let power_from = Zeroizing::new(from * &power);
+                b += &power_from;
 
                 // It is now safe to enable variable time computations.
                 b.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From 51ab325747d87fc90a105238ed3a1e3b0dab52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:36 +0000
Subject: [PATCH 13/15] fix: wipe the decrypted coefficients held in
 temporaries

---
 crates/fhe/src/bfv/keys/secret_key.rs | 4 ++--
 crates/fhe/src/bfv/plaintext.rs       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index b339f6a..ebc35fd 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -226,9 +226,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
 
         let poly = match self.par.plaintext.small() {
             Some(plaintext_modulus) => {
-                let mut v = Vec::<u64>::try_from(d.as_ref())?;
+                let mut v = Zeroizing::new(Vec::<u64>::try_from(d.as_ref())?);
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
-                let mut w = v[..self.par.degree()].to_vec();
+                let mut w = Zeroizing::new(v[..self.par.degree()].to_vec());
 
                 let q = Modulus::new(self.par.moduli[0]).map_err(Error::MathError)?;
                 q.reduce_vec(&mut w);
diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index f5e863b..52299e7 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -111,7 +111,7 @@ impl Plaintext {
                     .first()
                     .is_some_and(|ciphertext_modulus| **modulus < *ciphertext_modulus) =>
             {
-                let coefficients = Vec::<u64>::try_from(poly.as_ref()).unwrap();
+                let coefficients = Zeroizing::new(Vec::<u64>::try_from(poly.as_ref()).unwrap());
                 let mut values = coefficients[..self.par.degree()].to_vec();
                 modulus.reduce_vec(&mut values);
                 PlaintextCoefficients::Small(values)
-- 
2.43.0


From 91dbee5986434ba03cfd82adb591126c6b7db7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 14/15] fix: wipe the coefficients of serialized and
 deserialized secret keys

---
 crates/fhe/src/bfv/keys/secret_key.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index ebc35fd..7a40f23 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -144,7 +144,10 @@ impl From<&SecretKey> for SecretKeyProto {
 
 impl Serialize for SecretKey {
     fn to_bytes(&self) -> Vec<u8> {
-        SecretKeyProto::from(self).encode_to_vec()
+        let mut proto = SecretKeyProto::from(self);
+        let bytes = proto.encode_to_vec();
+        proto.coeffs.zeroize();
+        bytes
     }
 }
 
@@ -158,10 +161,12 @@ impl DeserializeParametrized for SecretKey {
             })
         })?;
 
-        if proto.coeffs.len() != par.degree() {
+        let coeffs = Zeroizing::new(proto.coeffs);
+
+        if coeffs.len() != par.degree() {
             return Err(Error::SerializationError(
                 SerializationError::InvalidSecretKeyCoefficientCount {
-                    actual: proto.coeffs.len(),
+                    actual: coeffs.len(),
                     expected: par.degree(),
                 },
             ));
@@ -169,7 +174,7 @@ impl DeserializeParametrized for SecretKey {
 
         Ok(Self {
             par: par.clone(),
-            coeffs: proto.coeffs.into_boxed_slice(),
+            coeffs: coeffs.as_slice().into(),
         })
     }
 }
-- 
2.43.0


From 30478ca62b0131710eabc42393609e5e54c01811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:53 +0000
Subject: [PATCH 15/15] fix: wipe the residues held in temporaries of
 polynomial conversions

---
 crates/fhe-math/src/rq/convert.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index c2b1bab..d0a2771 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -182,9 +182,13 @@ impl TryConvertFrom<Vec<u64>> for Poly<PowerBasis> {
             }
             Ok(out)
         } else {
+            let actual = v.len();
+            if !variable_time {
+                v.zeroize();
+            }
             Err(Error::InvalidCoefficientCount {
                 representation: Representation::PowerBasis,
-                actual: v.len(),
+                actual,
                 degree: ctx.degree,
                 moduli: ctx.q.len(),
             })
@@ -379,7 +383,8 @@ impl<'a> TryConvertFrom<&'a [BigUint]> for Poly<PowerBasis> {
             let mut coefficients = Array2::zeros((ctx.q.len(), ctx.degree));
 
             izip!(coefficients.axis_iter_mut(Axis(1)), v).for_each(|(mut c, vi)| {
-                c.assign(&ArrayView::from(&ctx.rns.project(vi)));
+                let residues = Zeroizing::new(ctx.rns.project(vi));
+                c.assign(&ArrayView::from(residues.as_slice()));
             });
 
             Ok(Self {
-- 
2.43.0

