From ac7968be650ed47fc4440132f97e273e266a356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 1/6] Verification hooks: expose CurvePoint parts and UInt32
 under cfg(halo_verif)

---
 src/gadgets/ecc.rs | 13 +++++++++++++
 src/gadgets/mod.rs |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e7b3bb9..7103c47 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -21,6 +21,19 @@ pub struct CurvePoint<C: Curve> {
     is_identity: Boolean,
 }
 
+#[cfg(halo_verif)]
+impl<C: Curve> CurvePoint<C> {
+    /// Verification hook: the coordinates and identity flag of this point.
+    pub fn verif_parts(&self) -> (Num<C::Base>, Num<C::Base>, Boolean) {
+        (self.x, self.y, self.is_identity.clone())
+    }
+
+    /// Verification hook: builds a point from its parts.
+    pub fn verif_from_parts(x: Num<C::Base>, y: Num<C::Base>, is_identity: Boolean) -> Self {
+        CurvePoint { x, y, is_identity }
+    }
+}
+
 impl<C: Curve> CurvePoint<C> {
     /// Create a constant that is the identity.
     pub fn identity() -> Self {
diff --git a/src/gadgets/mod.rs b/src/gadgets/mod.rs
index 0586b5e..3c29494 100644
--- a/src/gadgets/mod.rs
+++ b/src/gadgets/mod.rs
@@ -11,3 +11,6 @@ pub use ecc::*;
 pub use num::*;
 pub use rescue::*;
 pub use uint64::*;
+
+#[cfg(halo_verif)]
+pub use uint32::UInt32;
-- 
2.43.0


From 273f1354d071e3a54933ebef8767b25658c41a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 2/6] fix: compare a curve point with the other operand's
 identity flag

---
 src/curves/ec0.rs | 2 +-
 src/curves/ec1.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 2dd161e..fbffee5 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec0 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index f7bffbf..da61392 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec1 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
-- 
2.43.0


From 4f520f75a5b1d8a71292c23b00ec496d26ece707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 3/6] fix: constrain the output coordinates of
 CurvePoint::add_incomplete

---
 src/gadgets/ecc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 7103c47..92065bc 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -357,6 +357,10 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(lambda) - h_var);
         let y_r_lc = LinearCombination::from(i_var) - &y_p_lc;
 
+        // The returned coordinates are the ones computed above.
+        cs.enforce_zero(x_r.lc() - &x_r_lc);
+        cs.enforce_zero(y_r.lc() - &y_r_lc);
+
         Ok(CurvePoint {
             x: x_r.into(),
             y: y_r.into(),
-- 
2.43.0


From b30b7a833aebde5f698ce611f259ffeb4381526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 4/6] fix: constrain the intermediate sum and the identity flag
 in CurvePoint::add

---
 src/gadgets/ecc.rs | 68 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 92065bc..e4c6a55 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -758,21 +758,55 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(v_var));
 
-        // // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
-        // let (w_var, _, x_var) = cs.multiply(|| {
-        //     let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
-
-        //     let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
-
-        //     let p3_is_identity: C::Base = p3_is_identity.into();
+        // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
+        let (w_var, _, x_var) = cs.multiply(
+            || "(y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)",
+            || {
+                let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let p3_is_identity: C::Base = p3_is_identity_val
+                    .ok_or(SynthesisError::AssignmentMissing)?
+                    .into();
+
+                // The "inverse" is zero when the right-hand side is.
+                let y1y2 = y1 + &y2;
+                let rhs = x_is_same - &p3_is_identity;
+                let inv = y1y2.invert();
+                let inv = if inv.is_some().into() {
+                    inv.unwrap() * &rhs
+                } else {
+                    C::Base::zero()
+                };
 
-        //     Ok((y1 + &y2, y1y2inv, x_is_same - &p3_is_identity))
-        // })?;
-        // cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
-        // cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+                Ok((y1y2, inv, rhs))
+            },
+        )?;
+        cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
+        cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+
+        // From here on the witness follows the constraints: if p1 or p2 is the
+        // identity, (x3, y3) are the values produced by the formulas above
+        // rather than the coordinates of p3, and they are discarded by the
+        // final selections.
+        let x3_val = x1_val.and_then(|x1| {
+            x2_val.and_then(|x2| lambda_sq_val.map(|lambda_sq| lambda_sq - &x1 - &x2))
+        });
+        let y3_val = x1_val.and_then(|x1| {
+            y1_val.and_then(|y1| {
+                x3_val.and_then(|x3| lambda_val.map(|lambda| (x1 - &x3) * &lambda - &y1))
+            })
+        });
+        let x4_val =
+            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
+        let y4_val =
+            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
+        let x5_val = x2_val.and_then(|x2| {
+            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
+        });
+        let y5_val = y2_val.and_then(|y2| {
+            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
+        });
 
         let (y_var, z_var, x4_var) = cs.multiply(
             || "x3 * (1 - p3_is_identity) = x4",
@@ -784,8 +818,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((x3, (!p3_is_identity).into(), x4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(x3_lc - y_var);
+        cs.enforce_zero(x3_lc - y_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - z_var);
 
         let (aa_var, bb_var, y4_var) = cs.multiply(
@@ -798,8 +831,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((y3, (!p3_is_identity).into(), y4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(y3_lc - aa_var);
+        cs.enforce_zero(y3_lc - aa_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - bb_var);
 
         let (cc_var, dd_var, ee_var) = cs.multiply(
-- 
2.43.0


From a95b3f9b60a206c593a0387424031b11ed1fd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 5/6] fix: force the witnessed identity to (0, 0) in
 CurvePoint::witness

---
 src/gadgets/ecc.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e4c6a55..5ab912c 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -93,10 +93,14 @@ impl<C: Curve> CurvePoint<C> {
         // h = x
         // i := x^3
         //
+        // i + B * (1 - is_identity) = c
+        //
         // j * k = l
-        // j = i + B - c
-        // k = (1 - is_identity)
+        // j = x
+        // k = is_identity
         // l = 0
+        //
+        // If is_identity is set then x = 0, and so y^2 = x^3 = 0 as well.
 
         let ysq = y_val.map(|y| y * &y);
         let xsq = x_val.map(|x| x * &x);
@@ -121,22 +125,18 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(f_var) - g_var);
         cs.enforce_zero(x.lc() - h_var);
 
-        let (j_var, k_var, l_var) = cs.multiply(
-            || "(x^3 + B - y^2) * (1 - is_identity) = 0",
-            || {
-                Ok((
-                    xcub? + &C::b() - &ysq?,
-                    (!is_identity_val?).into(),
-                    C::Base::zero(),
-                ))
-            },
-        )?;
-        cs.enforce_zero(
-            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE) - c_var - j_var,
-        );
         cs.enforce_zero(
-            LinearCombination::zero() + (Coeff::One, CS::ONE) - is_identity.get_variable() - k_var,
+            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE)
+                - (Coeff::Full(C::b()), is_identity.get_variable())
+                - c_var,
         );
+
+        let (j_var, k_var, l_var) = cs.multiply(
+            || "x * is_identity = 0",
+            || Ok((x_val?, is_identity_val?.into(), C::Base::zero())),
+        )?;
+        cs.enforce_zero(x.lc() - j_var);
+        cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - k_var);
         cs.enforce_zero(LinearCombination::from(l_var));
 
         Ok(CurvePoint {
-- 
2.43.0


From 3c9490d7041c619696877009241a0a8072423f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 6/6] fix: constrain the witnessed inverse multiple to lie on
 the curve

---
 src/gadgets/ecc.rs | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 5ab912c..e0fcbba 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -2009,36 +2009,11 @@ impl<C: Curve> CurvePoint<C> {
             }
         }
 
-        let inverted_val = p.map(|p| {
-            let inv = mulby.invert();
-            if inv.is_none().into() {
-                (C::Base::zero(), C::Base::zero(), true)
-            } else {
-                let inv = p * &inv.unwrap();
-                let coords = inv.get_xy();
-                if coords.is_some().into() {
-                    let (x, y) = coords.unwrap();
-                    (x, y, false)
-                } else {
-                    (C::Base::zero(), C::Base::zero(), true)
-                }
-            }
-        });
-
-        let x_inv_val = inverted_val.map(|(x, _, _)| x);
-        let y_inv_val = inverted_val.map(|(_, y, _)| y);
-        let is_identity_inv_val = inverted_val.map(|(_, _, b)| b);
-
-        let x_inv = AllocatedNum::alloc(cs.namespace(|| "x_inv"), || x_inv_val)?;
-        let y_inv = AllocatedNum::alloc(cs.namespace(|| "y_inv"), || y_inv_val)?;
-        let is_identity_inv =
-            AllocatedBit::alloc(cs.namespace(|| "inv_is_identity"), || is_identity_inv_val)?;
-
-        let inverted = CurvePoint {
-            x: x_inv.into(),
-            y: y_inv.into(),
-            is_identity: is_identity_inv.into(),
-        };
+        // The inverted point has to be constrained to lie on the curve, as the
+        // multiplication below assumes.
+        let inverted = Self::witness(cs.namespace(|| "inverted"), || {
+            p.map(|p| p * &mulby.invert().unwrap_or(C::Scalar::zero()))
+        })?;
 
         let calculated = mul_func(&mut cs, &inverted)?;
 
-- 
2.43.0

