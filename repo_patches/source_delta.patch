From e8d67a6c7bcd8f04bab0691ebc9e8131ad18cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/16] fix: lexicographically_largest is false for (p - 1) / 2

(p - 1) / 2 is smaller than its negation (p + 1) / 2, but the comparison
treated both of them as the larger one.
---
 derive/src/field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 566fb9e..c203f5c 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -113,7 +113,7 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let modulus_limbs_32_ident = quote! {[#(#modulus_limbs_32,)*]};
 
     let to_token = |e: &BigUint| big_to_token(e, num_limbs);
-    let half_modulus = (&modulus - 1usize) >> 1;
+    let half_modulus = (&modulus + 1usize) >> 1;
     let half_modulus = to_token(&half_modulus);
 
     // binary modulus
-- 
2.43.0


From 0c809ee68f20710fce3def8cd5cb7c947c873cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 02/16] fix: square root of zero in quadratic extensions over q
 = 1 mod 4

Algorithm 10 recursed without end on zero and overflowed the stack.
---
 src/ff_ext/quadratic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff_ext/quadratic.rs b/src/ff_ext/quadratic.rs
index 59c779c..651f468 100644
--- a/src/ff_ext/quadratic.rs
+++ b/src/ff_ext/quadratic.rs
@@ -102,6 +102,10 @@ pub fn sqrt_algo10<F: ExtField, S: AsRef<[u64]>>(
 where
     QuadExtField<F>: QuadExtFieldArith<Base = F> + ExtField,
 {
+    if el.is_zero().into() {
+        return CtOption::new(QuadExtField::ZERO, Choice::from(1));
+    }
+
     let b = el.pow_vartime(q_minus_1_over_4);
 
     let b_2 = b.square();
-- 
2.43.0


From aa47213d1b424c13e31b58f06339fb942aca310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 03/16] fix: reject non-canonical quadratic extension encodings
 instead of panicking

from_bytes and from_repr unwrapped the coefficients before they looked
whether those were valid, so decoding malformed G2 points panicked.
---
 src/derive/field/tower.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 9f508fb..de55de5 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -41,13 +41,7 @@ macro_rules! impl_tower2 {
             pub fn from_bytes(bytes: &[u8; $base::SIZE * 2]) -> CtOption<$field> {
                 let c0 = $base::from_bytes(bytes[0..$base::SIZE].try_into().unwrap());
                 let c1 = $base::from_bytes(bytes[$base::SIZE..$base::SIZE * 2].try_into().unwrap());
-                CtOption::new(
-                    $field {
-                        c0: c0.unwrap(),
-                        c1: c1.unwrap(),
-                    },
-                    c0.is_some() & c1.is_some(),
-                )
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             /// Converts an element of `$base` into a byte representation in
@@ -132,7 +126,7 @@ macro_rules! impl_tower2 {
                 let c1: <$base as PrimeField>::Repr = c1.into();
                 let c1 = $base::from_repr(c1);
 
-                CtOption::new($field::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+                c0.and_then(|c0| c1.map(|c1| $field::new(c0, c1)))
             }
 
             fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From d40b1aa4a878647f07785d85d106e78e0183a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 04/16] fix: read_raw rejects points that are not on the curve

from_raw_bytes already did; read_raw accepted any pair of coordinates.
---
 src/derive/curve.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 84f4c56..49dce7f 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -645,7 +645,14 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "input is not a point on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -745,7 +752,14 @@ macro_rules! new_curve_impl {
             fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "input is not a point on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 22ce937803c6ae817d1d99b6493015aa44f785e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 05/16] fix: projective is_on_curve rejects z = 0 triples that
 are no point

Any (x, y, 0) was accepted, by is_on_curve and so by the checked raw
decoders, although only (0, y, 0) with y != 0 is the point at infinity.
---
 src/derive/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 49dce7f..2f94f97 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -433,7 +433,8 @@ macro_rules! new_curve_impl {
 
                     (self.z * self.y.square() - self.x.square() * self.x)
                         .ct_eq(&(self.z.square() * self.z * $constant_b))
-                        | self.z.is_zero()
+                        // (0, 0, 0) is not a projective point
+                        & !(self.y.is_zero() & self.z.is_zero())
                 } else {
                     // Check (Y/Z)^2 = (X/Z)^3 + a(X/Z) + b
                     // <=>    Z Y^2 - X^3 - a(X Z^2) = Z^3 b
@@ -441,7 +442,8 @@ macro_rules! new_curve_impl {
                     let z2 = self.z.square();
                     (self.z * self.y.square() - (self.x.square() + $constant_a * z2) * self.x)
                         .ct_eq(&(z2 * self.z * $constant_b))
-                        | self.z.is_zero()
+                        // (0, 0, 0) is not a projective point
+                        & !(self.y.is_zero() & self.z.is_zero())
                 }
             }
 
-- 
2.43.0


From 99d7f17f13c511d4ee9fff30dc2c0403c1320179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 06/16] fix: is_zero of cubic extensions looks at all three
 coefficients

---
 src/ff_ext/cubic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/cubic.rs b/src/ff_ext/cubic.rs
index 70af416..27a0a39 100644
--- a/src/ff_ext/cubic.rs
+++ b/src/ff_ext/cubic.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn is_zero(&self) -> subtle::Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 9299e8e017547e2bdd40f5d3a736951215b07344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 07/16] fix: remove a debugging println! from bn256 G2 cofactor
 operations

---
 src/bn256/curve.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index dadf31d..2138121 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -165,8 +165,6 @@ fn exp_by_x(g2: &G2) -> G2 {
     let x = super::BN_X;
 
     (0..62).rev().fold(g2.clone(), |mut acc, i| {
-        println!("{}", ((x >> i) & 1) == 1);
-
         acc = acc.double();
         (((x >> i) & 1) == 1).then(|| acc += g2);
         acc
-- 
2.43.0


From 32ebb9dd5e1bbae74fa547835035921df2227610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 08/16] fix: into_subgroup returns the point exactly if it is
 in the subgroup

On BLS12-381 it returned points outside of the subgroup too, on bn256 G2
it panicked, and on Pluto G2 it returned a different point.
---
 src/bls12381/g1.rs      | 2 +-
 src/bls12381/g2.rs      | 2 +-
 src/bn256/curve.rs      | 2 +-
 src/pluto_eris/curve.rs | 3 +--
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 451f1f0..7495269 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -51,7 +51,7 @@ impl group::cofactor::CofactorGroup for G1 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/bls12381/g2.rs b/src/bls12381/g2.rs
index df77bb5..a5829a2 100644
--- a/src/bls12381/g2.rs
+++ b/src/bls12381/g2.rs
@@ -123,7 +123,7 @@ impl group::cofactor::CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     /// Returns true if this point is free of an $h$-torsion component, and so it
diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index 2138121..4e7aeca 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -224,7 +224,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        unimplemented!();
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/pluto_eris/curve.rs b/src/pluto_eris/curve.rs
index e0452a9..2156099 100644
--- a/src/pluto_eris/curve.rs
+++ b/src/pluto_eris/curve.rs
@@ -202,8 +202,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        // TODO: Handle the case where the point is already in the subgroup.
-        CtOption::new(self.clear_cofactor(), 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
-- 
2.43.0


From 292e2694516fa6dccfca9d5386dd53e72811c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 09/16] fix: checked point decoders reject points outside of
 the subgroup

The unchecked decoders differ from the checked ones in leaving out this
check, says their documentation, but nothing performed it.
---
 src/derive/curve.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 2f94f97..679363e 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -108,7 +108,10 @@ macro_rules! new_curve_impl {
                 type Repr = [<$name:upper Compressed >];
 
                 fn from_bytes(bytes: &Self::Repr) -> CtOption<Self> {
-                    <Self::Repr as $crate::serde::Compressed<$name_affine>>::decode(bytes.clone())
+                    use $crate::group::cofactor::CofactorGroup;
+                    // Check that the point is in the prime order subgroup.
+                    Self::from_bytes_unchecked(bytes)
+                        .and_then(|p| CtOption::new(p, p.to_curve().is_torsion_free()))
                 }
 
                 fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self> {
@@ -124,7 +127,7 @@ macro_rules! new_curve_impl {
                 type Repr = [<$name:upper Compressed >];
 
                 fn from_bytes(bytes: &Self::Repr) -> CtOption<Self> {
-                    <Self::Repr as $crate::serde::Compressed<$name_affine>>::decode(bytes.clone()).map(Self::from)
+                    $name_affine::from_bytes(bytes).map(Self::from)
                 }
 
                 fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self> {
@@ -140,7 +143,11 @@ macro_rules! new_curve_impl {
                 type Uncompressed = [<$name Uncompressed >];
 
                 fn from_uncompressed(bytes: &Self::Uncompressed) -> CtOption<Self> {
-                    Self::from_uncompressed_unchecked(bytes).and_then(|p| CtOption::new(p, p.is_on_curve()))
+                    use $crate::group::cofactor::CofactorGroup;
+                    // Check that the point is on the curve and in the prime order subgroup.
+                    Self::from_uncompressed_unchecked(bytes).and_then(|p| {
+                        CtOption::new(p, p.is_on_curve() & p.to_curve().is_torsion_free())
+                    })
                 }
 
                 fn from_uncompressed_unchecked(bytes: &Self::Uncompressed) -> CtOption<Self> {
-- 
2.43.0


From a9f353656ce286acc1d296353552b1c691536adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 10/16] fix: decode compressed points with x = 0

secp256r1 has two points with x = 0. Their encodings were rejected, as if
x = 0 without the identity flag could only be a malformed identity.
---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1377993..66140b5 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -349,9 +349,9 @@ where
                     // * sign must not be set
 
                     // identity flag not set:
-                    // * x must not be zero
+                    // * x may be zero, if the curve has such a point
 
-                    let is_valid = (is_identity & is_zero & !sign) ^ (!is_identity & !is_zero);
+                    let is_valid = (is_identity & is_zero & !sign) ^ !is_identity;
 
                     (is_valid, is_identity)
                 }
-- 
2.43.0


From 7f346d240dacd716f029e440699300aaf55ed329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 11/16] fix: msm_best with the identity among the bases

The batched affine additions of large multiexponentiations took the
identity for the point (0, 0), and returned a wrong sum or panicked.
---
 src/msm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 615bcb5..97baa0d 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -149,6 +149,14 @@ struct Affine<C: CurveAffine> {
 
 impl<C: CurveAffine> Affine<C> {
     fn from(point: &C) -> Self {
+        if point.is_identity().into() {
+            // The identity has no coordinates, and is never scheduled.
+            return Self {
+                x: C::Base::ZERO,
+                y: C::Base::ZERO,
+            };
+        }
+
         let coords = point.coordinates().unwrap();
 
         Self {
@@ -495,7 +503,8 @@ pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
         for (base_idx, coeff) in coeffs.iter().enumerate() {
             let buck_idx = get_booth_index(w, c, coeff.as_ref());
 
-            if buck_idx != 0 {
+            // the schedule works on affine coordinates, which the identity lacks
+            if buck_idx != 0 && !bool::from(bases[base_idx].is_identity()) {
                 // parse bucket index
                 let sign = buck_idx.is_positive();
                 let buck_idx = buck_idx.unsigned_abs() as usize - 1;
-- 
2.43.0


From 2f64a3192066ea860cb32f1bd1a8849789f6ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 12/16] fix: msm_serial panics on inputs of different lengths,
 as documented

It ignored the excess coefficients or bases.
---
 src/msm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msm.rs b/src/msm.rs
index 97baa0d..aabb2a2 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -341,6 +341,8 @@ impl<C: CurveAffine> Schedule<C> {
 ///
 /// This function will panic if coeffs and bases have a different length.
 pub fn msm_serial<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C], acc: &mut C::Curve) {
+    assert_eq!(coeffs.len(), bases.len());
+
     let coeffs: Vec<_> = coeffs.iter().map(|a| a.to_repr()).collect();
 
     let c = if bases.len() < 4 {
-- 
2.43.0


From 31a0725b87f31dc2eedb36644d83a29b0215891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 13/16] hooks: expose the GLV decomposition under
 cfg(verif_hooks)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f5caae2..69f4876 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,5 +23,9 @@ pub use group;
 pub use pairing;
 pub use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
 
+// Access to an internal trait for external runtime monitors; off by default.
+#[cfg(verif_hooks)]
+pub use arithmetic::CurveEndo;
+
 #[cfg(test)]
 pub mod tests;
-- 
2.43.0


From a2586f5e5b6f2cfcdc7d06cf2b9de059e5d5b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 14/16] fix: msm_best doubles buckets on curves with a != 0

The affine bucket doubling left the curve coefficient a out of the slope, so
that on secp256r1 a repeated base met in a bucket gave a wrong sum or a panic
once the input was long enough for the batched algorithm (8104 terms).
---
 src/msm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index aabb2a2..fc6fb44 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -91,7 +91,7 @@ fn batch_add<C: CurveAffine>(
                 // Doubling
                 let x_squared = bases[*base_idx].x.square();
                 *z = buckets[*buck_idx].y() + buckets[*buck_idx].y(); // 2y
-                *t = acc * (x_squared + x_squared + x_squared); // acc * 3x^2
+                *t = acc * (x_squared + x_squared + x_squared + C::a()); // acc * (3x^2 + a)
                 acc *= *z;
                 continue;
             }
-- 
2.43.0


From 7138810f26930d5b8c7cf3279d12b92577283171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 15/16] fix: sign of quadratic extension elements with a zero
 first coefficient

The parity of the first coefficient alone is the same for y and -y when that
coefficient is zero, so P and -P had the same compressed encoding on the
degree-two curves with the standard sign. Use sgn0 of RFC 9380.
---
 src/derive/curve.rs       | 4 ++--
 src/derive/field/tower.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 679363e..dd071b2 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -69,11 +69,11 @@ macro_rules! new_curve_impl {
             impl $crate::serde::Compressed<$name_affine> for [<$name:upper Compressed >] {
                 const CONFIG: $crate::serde::CompressedFlagConfig = $flag_config;
                 fn sign(c: &$name_affine) -> subtle::Choice {
-                    Choice::from(c.y.to_repr()[0] as u8 & 1) & !c.is_identity()
+                    c.y.is_odd() & !c.is_identity()
                 }
                 fn resolve(x: $base, sign_set: Choice) -> CtOption<$name_affine> {
                     $name_affine::y2(x).sqrt().map(|y| {
-                        let y = $base::conditional_select(&y, &-y, sign_set ^ Choice::from(y.to_repr()[0] as u8 & 1));
+                        let y = $base::conditional_select(&y, &-y, sign_set ^ y.is_odd());
                         $name_affine { x, y }
                     })
                 }
diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index de55de5..924b90e 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -138,8 +138,10 @@ macro_rules! impl_tower2 {
                 res
             }
 
+            // sgn0 of RFC 9380 for an extension of degree two: the parity of the
+            // first coefficient, or of the second one where the first is zero.
             fn is_odd(&self) -> Choice {
-                Choice::from(self.to_repr().as_ref()[0] & 1)
+                self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
             }
         }
 
-- 
2.43.0


From 9342a87369783367ac35bead8e3de9e331fededb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:58 +0000
Subject: [PATCH 16/16] fix: compare all limbs in the constant-time equality of
 prime fields

ct_eq stopped at the first differing limb, and with it is_zero, the equality of
points and everything that selects by them.
---
 derive/src/field/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index c203f5c..d1e1fb3 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -230,12 +230,10 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
 
         impl ConstantTimeEq for #field {
             fn ct_eq(&self, other: &Self) -> Choice {
-                Choice::from(
-                    self.0
-                        .iter()
-                        .zip(other.0)
-                        .all(|(a, b)| bool::from(a.ct_eq(&b))) as u8,
-                )
+                self.0
+                    .iter()
+                    .zip(other.0.iter())
+                    .fold(Choice::from(1u8), |acc, (a, b)| acc & a.ct_eq(b))
             }
         }
 
-- 
2.43.0

