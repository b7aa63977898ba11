From 3be159f7333e816148aa8c2930c66c72de4d453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 01/15] fix: compare the right operand's identity flag in point
 equality

---
 src/curves/ec0.rs | 2 +-
 src/curves/ec1.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 2dd161e..fbffee5 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec0 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index f7bffbf..da61392 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec1 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
-- 
2.43.0


From a301b29cef0eb4b74fb447f7ea8b7d10d3539cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 02/15] fix: constrain the outputs of
 CurvePoint::add_incomplete

---
 src/gadgets/ecc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e7b3bb9..9c30333 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -344,6 +344,10 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(lambda) - h_var);
         let y_r_lc = LinearCombination::from(i_var) - &y_p_lc;
 
+        // The returned coordinates must be the ones computed above.
+        cs.enforce_zero(x_r.lc() - &x_r_lc);
+        cs.enforce_zero(y_r.lc() - &y_r_lc);
+
         Ok(CurvePoint {
             x: x_r.into(),
             y: y_r.into(),
-- 
2.43.0


From 8858d0a8fe464419434e957df375b9151d20057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 03/15] fix: force (0, 0) coordinates for witnessed identity
 points

---
 src/gadgets/ecc.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 9c30333..31a934f 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -126,6 +126,17 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(l_var));
 
+        // The identity is represented by (0, 0).
+        for (name, coord, coord_val) in &[("x", x, x_val), ("y", y, y_val)] {
+            let (m_var, n_var, o_var) = cs.multiply(
+                || format!("{} * is_identity = 0", name),
+                || Ok(((*coord_val)?, is_identity_val?.into(), C::Base::zero())),
+            )?;
+            cs.enforce_zero(coord.lc() - m_var);
+            cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - n_var);
+            cs.enforce_zero(LinearCombination::from(o_var));
+        }
+
         Ok(CurvePoint {
             x: Num::from(x),
             y: Num::from(y),
-- 
2.43.0


From df675d8100f49e27a67fe4c103c3434dbe95e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 04/15] fix: constrain the sum computed by CurvePoint::add

---
 src/gadgets/ecc.rs | 101 ++++++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 38 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 31a934f..6f889f2 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -390,7 +390,7 @@ impl<C: Curve> CurvePoint<C> {
 
         // If get_xy returns None, then the sum is the identity, so represent
         // it internally as (0, 0).
-        let (x3_val, y3_val, p3_is_identity_val) = match p3_val {
+        let (x_sum_val, y_sum_val, p3_is_identity_val) = match p3_val {
             Some(p) => {
                 let coords = p.get_xy();
                 if coords.is_some().into() {
@@ -413,26 +413,18 @@ impl<C: Curve> CurvePoint<C> {
         let p1_is_identity_val = self.is_identity.get_value();
         let p2_is_identity_val = other.is_identity.get_value();
 
-        let x4_val =
-            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
-
-        let y4_val =
-            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
-
-        let x5_val = x2_val.and_then(|x2| {
-            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
-        });
-
-        let y5_val = y2_val.and_then(|y2| {
-            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
-        });
-
-        let x_out_val = x1_val.and_then(|x1| {
-            x5_val.and_then(|x5| p2_is_identity_val.map(|p2| if p2 { x1 } else { x5 }))
-        });
-        let y_out_val = y1_val.and_then(|y1| {
-            y5_val.and_then(|y5| p2_is_identity_val.map(|p2| if p2 { y1 } else { y5 }))
-        });
+        let x_out_val = match (p1_is_identity_val, p2_is_identity_val) {
+            (Some(_), Some(true)) => x1_val,
+            (Some(true), Some(false)) => x2_val,
+            (Some(false), Some(false)) => x_sum_val,
+            _ => None,
+        };
+        let y_out_val = match (p1_is_identity_val, p2_is_identity_val) {
+            (Some(_), Some(true)) => y1_val,
+            (Some(true), Some(false)) => y2_val,
+            (Some(false), Some(false)) => y_sum_val,
+            _ => None,
+        };
 
         let x_out = AllocatedNum::alloc(cs.namespace(|| "x_out"), || {
             x_out_val.ok_or(SynthesisError::AssignmentMissing)
@@ -692,6 +684,31 @@ impl<C: Curve> CurvePoint<C> {
         // the identity.
         let lambda_sq_val = lambda_val.map(|lambda| lambda * &lambda);
 
+        // These are the values of the chord-and-tangent formulas. If p1 or p2 is
+        // the identity they are not the coordinates of p3; the selections below
+        // then replace them.
+        let x3_val = lambda_sq_val
+            .and_then(|l_sq| x1_val.and_then(|x1| x2_val.map(|x2| l_sq - &x1 - &x2)));
+        let y3_val = lambda_val.and_then(|lambda| {
+            x3_val.and_then(|x3| {
+                x1_val.and_then(|x1| y1_val.map(|y1| (x1 - &x3) * &lambda - &y1))
+            })
+        });
+
+        let x4_val =
+            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
+
+        let y4_val =
+            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
+
+        let x5_val = x2_val.and_then(|x2| {
+            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
+        });
+
+        let y5_val = y2_val.and_then(|y2| {
+            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
+        });
+
         let (lambda_var, m_var, n_var) = cs.multiply(
             || "lambda * lambda = x1 + x2 + x3",
             || {
@@ -756,21 +773,31 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(v_var));
 
-        // // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
-        // let (w_var, _, x_var) = cs.multiply(|| {
-        //     let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
-
-        //     let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
+        // (y1 + y2) * inv = (x_is_same - p3_is_identity), where inv is
+        // (x_is_same - p3_is_identity) / (y1 + y2) unless y1 + y2 == 0
+        let (w_var, _, x_var) = cs.multiply(
+            || "(y1 + y2) * inv = (x_is_same - p3_is_identity)",
+            || {
+                let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
 
-        //     let p3_is_identity: C::Base = p3_is_identity.into();
+                let y1py2 = y1 + &y2;
+                let p3_is_identity: C::Base = p3_is_identity.into();
+                let diff = x_is_same - &p3_is_identity;
+                let inv = y1py2.invert();
+                let inv = if inv.is_some().into() {
+                    inv.unwrap() * &diff
+                } else {
+                    C::Base::zero()
+                };
 
-        //     Ok((y1 + &y2, y1y2inv, x_is_same - &p3_is_identity))
-        // })?;
-        // cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
-        // cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+                Ok((y1py2, inv, diff))
+            },
+        )?;
+        cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
+        cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
 
         let (y_var, z_var, x4_var) = cs.multiply(
             || "x3 * (1 - p3_is_identity) = x4",
@@ -782,8 +809,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((x3, (!p3_is_identity).into(), x4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(x3_lc - y_var);
+        cs.enforce_zero(x3_lc - y_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - z_var);
 
         let (aa_var, bb_var, y4_var) = cs.multiply(
@@ -796,8 +822,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((y3, (!p3_is_identity).into(), y4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(y3_lc - aa_var);
+        cs.enforce_zero(y3_lc - aa_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - bb_var);
 
         let (cc_var, dd_var, ee_var) = cs.multiply(
-- 
2.43.0


From e5742586adbe9c7463639e4cb3044002991eea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 05/15] fix: only accept canonical decompositions in unpack_fe

---
 src/gadgets/boolean.rs | 45 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/gadgets/boolean.rs b/src/gadgets/boolean.rs
index 9373576..ac3a339 100644
--- a/src/gadgets/boolean.rs
+++ b/src/gadgets/boolean.rs
@@ -317,6 +317,51 @@ pub fn unpack_fe<F: Field, CS: ConstraintSystem<F>>(
     let num_lc = num.lc(&mut cs);
     cs.enforce_zero(lc - &num_lc);
 
+    // The sum only determines the bits up to multiples of the modulus p, so
+    // check that they represent an integer that is at most p - 1.
+    let max = (-F::one()).to_bytes();
+
+    // Do all bits so far equal those of p - 1?
+    let mut equal: Option<AllocatedBit> = None;
+    // The bits since the last one bit of p - 1
+    let mut zeros = LinearCombination::zero();
+    let mut zeros_value = Some(F::zero());
+    for (i, b) in bools.iter().enumerate().rev() {
+        if (max[i / 8] >> (i % 8)) & 1 == 0 {
+            zeros = zeros + b.var;
+            zeros_value = zeros_value.and_then(|z| b.value.map(|b| z + F::from(b)));
+            if i == 0 || (max[(i - 1) / 8] >> ((i - 1) % 8)) & 1 == 1 {
+                // End of a run of zero bits: if the bits above are those of
+                // p - 1, then none of these can be set.
+                match &equal {
+                    Some(equal) => {
+                        let (equal_var, zeros_var, product_var) = cs.multiply(
+                            || format!("bits {} and up are in range", i),
+                            || {
+                                let equal = equal.value.ok_or(SynthesisError::AssignmentMissing)?;
+                                let zeros = zeros_value.ok_or(SynthesisError::AssignmentMissing)?;
+                                Ok((equal.into(), zeros, F::from(equal) * zeros))
+                            },
+                        )?;
+                        cs.enforce_zero(LinearCombination::from(equal_var) - equal.var);
+                        cs.enforce_zero(zeros - zeros_var);
+                        cs.enforce_zero(LinearCombination::from(product_var));
+                    }
+                    None => cs.enforce_zero(zeros),
+                }
+                zeros = LinearCombination::zero();
+                zeros_value = Some(F::zero());
+            }
+        } else {
+            equal = Some(match &equal {
+                Some(equal) => {
+                    AllocatedBit::and(cs.namespace(|| format!("bits {} and up", i)), equal, b)?
+                }
+                None => b.clone(),
+            });
+        }
+    }
+
     Ok(bools)
 }
 
-- 
2.43.0


From 5e4aa673dc71f05b829a36d68ac6404b01c5ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 06/15] fix: constrain the point returned by multiply_inv

---
 src/gadgets/ecc.rs | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 6f889f2..99fab34 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -2000,36 +2000,16 @@ impl<C: Curve> CurvePoint<C> {
             }
         }
 
-        let inverted_val = p.map(|p| {
-            let inv = mulby.invert();
-            if inv.is_none().into() {
-                (C::Base::zero(), C::Base::zero(), true)
-            } else {
-                let inv = p * &inv.unwrap();
-                let coords = inv.get_xy();
-                if coords.is_some().into() {
-                    let (x, y) = coords.unwrap();
-                    (x, y, false)
+        let inverted = CurvePoint::witness(cs.namespace(|| "inverse"), || {
+            p.map(|p| {
+                let inv = mulby.invert();
+                if inv.is_none().into() {
+                    C::zero()
                 } else {
-                    (C::Base::zero(), C::Base::zero(), true)
+                    p * &inv.unwrap()
                 }
-            }
-        });
-
-        let x_inv_val = inverted_val.map(|(x, _, _)| x);
-        let y_inv_val = inverted_val.map(|(_, y, _)| y);
-        let is_identity_inv_val = inverted_val.map(|(_, _, b)| b);
-
-        let x_inv = AllocatedNum::alloc(cs.namespace(|| "x_inv"), || x_inv_val)?;
-        let y_inv = AllocatedNum::alloc(cs.namespace(|| "y_inv"), || y_inv_val)?;
-        let is_identity_inv =
-            AllocatedBit::alloc(cs.namespace(|| "inv_is_identity"), || is_identity_inv_val)?;
-
-        let inverted = CurvePoint {
-            x: x_inv.into(),
-            y: y_inv.into(),
-            is_identity: is_identity_inv.into(),
-        };
+            })
+        })?;
 
         let calculated = mul_func(&mut cs, &inverted)?;
 
-- 
2.43.0


From d220f4898b041fe0dc6cb85c19190c468a6f6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:28 +0000
Subject: [PATCH 07/15] fix: multiply by the one-bit scalar in multiply_fast

---
 src/gadgets/ecc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 99fab34..5fdf953 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1824,6 +1824,12 @@ impl<C: Curve> CurvePoint<C> {
         if let Some(b) = other.last().unwrap().get_value() {
             assert_eq!(b, true);
         }
+
+        // The ladder below starts at [3] T, so it needs at least two bits.
+        if other.len() == 1 {
+            return Ok(self.clone());
+        }
+
         let mut acc = self.double(cs.namespace(|| "[2] Acc"))?;
         acc = acc.add_incomplete(cs.namespace(|| "[3] Acc"), self)?;
 
-- 
2.43.0


From 3255f0746af04bcb543c6ef4f5cd40c04a66fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 08/15] Export the 32-bit word gadget to the model checker (cfg
 halo_mc)

---
 src/gadgets/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gadgets/mod.rs b/src/gadgets/mod.rs
index 0586b5e..10973ac 100644
--- a/src/gadgets/mod.rs
+++ b/src/gadgets/mod.rs
@@ -11,3 +11,7 @@ pub use ecc::*;
 pub use num::*;
 pub use rescue::*;
 pub use uint64::*;
+
+// Lets the model checker drive the private word type directly.
+#[cfg(halo_mc)]
+pub use uint32::UInt32;
-- 
2.43.0


From 5a150ba7e9ebbb7be9abb56d7f1e08e234deb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:55 +0000
Subject: [PATCH 09/15] fix: make the default curve point the identity

---
 src/curves/ec0.rs | 8 +++++++-
 src/curves/ec1.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index fbffee5..d2de31d 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -2,13 +2,19 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec0 {
     x: Fq,
     y: Fq,
     z: Fq,
 }
 
+impl Default for Ec0 {
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec0 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index da61392..d7e7b75 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -2,13 +2,19 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec1 {
     x: Fp,
     y: Fp,
     z: Fp,
 }
 
+impl Default for Ec1 {
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec1 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
-- 
2.43.0


From ddb12ee6d6231f0ae7d27659c5e7f414ceabd943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 10/15] fix: determinism_check misses operations that only
 happen without a witness

The second synthesis was compared with the recorded events one by one, but
events left over at its end went unnoticed.
---
 src/dev.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dev.rs b/src/dev.rs
index ecbe828..c29b1f6 100644
--- a/src/dev.rs
+++ b/src/dev.rs
@@ -578,6 +578,9 @@ pub fn determinism_check<F: Field, C: Circuit<F>>(circuit: &C) -> Result<(), Syn
 
     circuit.synthesize(&mut enforce)?;
 
+    // Nothing that was recorded may be missing from this run
+    assert!(enforce.events.next().is_none());
+
     Ok(())
 }
 
-- 
2.43.0


From e9bcd8be658d9d9cb042812186da01b672220ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 11/15] fix: reject proofs whose inner product argument has the
 wrong shape

---
 src/proofs.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/proofs.rs b/src/proofs.rs
index b774842..dbd22a7 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -4,6 +4,9 @@ use crate::*;
 /// Packed challenge that happens to end up being valid on both curves
 const MAGIC: u64 = 12;
 
+/// Number of polynomial openings the inner product argument of a proof covers
+const NUM_OPENINGS: usize = 5;
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Leftovers<C: Curve> {
     // comes from circuit
@@ -817,6 +820,20 @@ impl<C: Curve> Proof<C> {
             }
         }
 
+        // Every round carries one element per opening; anything else is not a proof.
+        let inner_product = &self.inner_product;
+        if inner_product.rounds.len() != params.k
+            || inner_product.a.len() != NUM_OPENINGS
+            || inner_product.rounds.iter().any(|round| {
+                round.L.len() != NUM_OPENINGS
+                    || round.R.len() != NUM_OPENINGS
+                    || round.l.len() != NUM_OPENINGS
+                    || round.r.len() != NUM_OPENINGS
+            })
+        {
+            return Err(SynthesisError::Violation);
+        }
+
         let mut inputmap = InputMap { inputs: vec![] };
         S::synthesize(&mut inputmap, circuit)?;
         assert_eq!(inputs.len(), inputmap.inputs.len() - 1);
-- 
2.43.0


From e44318f3f2b82ab41b0f2fc3529de3b3ad2e2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 12/15] fix: refuse circuits that do not fit the parameters in
 compute_sx

---
 src/proofs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proofs.rs b/src/proofs.rs
index dbd22a7..261c703 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -1208,6 +1208,10 @@ impl<C: Curve> Params<C> {
         let mut sx = SxEval::new(y);
         S::synthesize(&mut sx, circuit)?;
         let (mut u, mut v, mut w) = sx.poly();
+        if u.len() > self.n {
+            // s(X, y) of this circuit does not fit these parameters
+            return Err(SynthesisError::Violation);
+        }
         u.resize(self.n, C::Scalar::zero());
         v.resize(self.n, C::Scalar::zero());
         w.resize(self.n, C::Scalar::zero());
-- 
2.43.0


From 705c75f6f21c3e1bc43cd01a03671c8918a8d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 13/15] fix: reject malformed challenges in leftovers and
 deferred data instead of panicking

---
 src/proofs.rs | 72 ++++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/proofs.rs b/src/proofs.rs
index 261c703..53dbd7a 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -7,6 +7,24 @@ const MAGIC: u64 = 12;
 /// Number of polynomial openings the inner product argument of a proof covers
 const NUM_OPENINGS: usize = 5;
 
+/// Obtains the challenges from their packed squares. Returns `None` unless there
+/// are `k` of them and each is the square of a nonzero element.
+fn unpack_challenges<F: Field>(challenges_sq_packed: &[F], k: usize) -> Option<Vec<F>> {
+    if challenges_sq_packed.len() != k {
+        return None;
+    }
+    challenges_sq_packed
+        .iter()
+        .map(|v| {
+            let challenge_sq: F = get_challenge_scalar(*v);
+            challenge_sq
+                .sqrt()
+                .to_option()
+                .filter(|challenge| *challenge != F::zero())
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Leftovers<C: Curve> {
     // comes from circuit
@@ -90,7 +108,10 @@ impl<C: Curve> Leftovers<C> {
     ) -> Result<bool, SynthesisError> {
         let sx = params.compute_sx::<_, S>(circuit, self.y_new)?;
         let s_new_commitment = params.commit(&sx, false);
-        assert_eq!(self.challenges_sq_packed_new.len(), params.k);
+        let challenges = match unpack_challenges(&self.challenges_sq_packed_new, params.k) {
+            Some(challenges) => challenges,
+            None => return Ok(false),
+        };
 
         let challenges_sq_new: Vec<C::Scalar> = self
             .challenges_sq_packed_new
@@ -99,8 +120,8 @@ impl<C: Curve> Leftovers<C> {
             .collect();
 
         let mut allinv = C::Scalar::one();
-        for c in &challenges_sq_new {
-            allinv = allinv * &(c.sqrt().unwrap()); // TODO
+        for c in &challenges {
+            allinv = allinv * c;
         }
         allinv = allinv.invert().unwrap();
         let g_new = compute_g_for_inner_product(&params.generators, &challenges_sq_new, allinv);
@@ -267,36 +288,25 @@ impl<F: Field> Deferred<F> {
     }
 
     pub fn verify(&self, k: usize) -> bool {
+        if self.x == F::zero() || self.y_cur == F::zero() {
+            return false;
+        }
+        let challenges_old = unpack_challenges(&self.challenges_sq_packed_old, k);
+        let challenges_new = unpack_challenges(&self.challenges_sq_packed_new, k);
+        let (challenges_old, challenges) = match (challenges_old, challenges_new) {
+            (Some(old), Some(new)) => (old, new),
+            _ => return false,
+        };
+
         let (lhs, rhs) = self.compute(k);
 
         let correct_gx_old_opening = {
-            let challenges_sq_old: Vec<F> = self
-                .challenges_sq_packed_old
-                .iter()
-                .map(|v| get_challenge_scalar(*v))
-                .collect();
-
-            let mut challenges = challenges_sq_old.clone();
-            for a in &mut challenges {
-                *a = a.sqrt().unwrap(); // TODO
-            }
-
+            let challenges = challenges_old;
             let mut challenges_inv = challenges.clone();
             F::batch_invert(&mut challenges_inv);
             compute_b(self.x, &challenges, &challenges_inv)
         };
 
-        // TODO: prover could have put a zero here
-        let challenges_sq_new: Vec<F> = self
-            .challenges_sq_packed_new
-            .iter()
-            .map(|v| get_challenge_scalar(*v))
-            .collect();
-
-        let mut challenges = challenges_sq_new.clone();
-        for a in &mut challenges {
-            *a = a.sqrt().unwrap(); // TODO
-        }
         let mut challenges_inv = challenges.clone();
         F::batch_invert(&mut challenges_inv);
         let b_x = compute_b(self.x, &challenges, &challenges_inv);
@@ -886,16 +896,8 @@ impl<C: Curve> Proof<C> {
         append_scalar::<C>(&mut transcript, &self.tx_negative_opening);
         append_scalar::<C>(&mut transcript, &self.sx_new_opening);
 
-        let challenges_sq_old: Vec<C::Scalar> = leftovers
-            .challenges_sq_packed_new
-            .iter()
-            .map(|v| get_challenge_scalar(*v))
-            .collect();
-
-        let mut challenges_old = challenges_sq_old.clone();
-        for c in &mut challenges_old {
-            *c = c.sqrt().unwrap(); // TODO
-        }
+        let challenges_old = unpack_challenges(&leftovers.challenges_sq_packed_new, params.k)
+            .ok_or(SynthesisError::Violation)?;
 
         let mut challenges_old_inv = challenges_old.clone();
         Field::batch_invert(&mut challenges_old_inv);
-- 
2.43.0


From 767fe523a334a4da8dd9059ed3080052f63b1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 14/15] Export openings, recursive proof parts and the
 verification circuit to the model checker (cfg halo_mc)

---
 src/proofs.rs    | 13 +++++++++
 src/recursion.rs | 71 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/src/proofs.rs b/src/proofs.rs
index 53dbd7a..0a597cf 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -1263,6 +1263,19 @@ pub struct PolynomialOpening<C: Curve> {
     right_edge: bool,
 }
 
+// Lets the model checker build openings directly.
+#[cfg(halo_mc)]
+impl<C: Curve> PolynomialOpening<C> {
+    pub fn mc_new(commitment: C, opening: C::Scalar, point: C::Scalar, right_edge: bool) -> Self {
+        PolynomialOpening {
+            commitment,
+            opening,
+            point,
+            right_edge,
+        }
+    }
+}
+
 #[derive(Clone)]
 pub struct MultiPolynomialOpening<C: Curve> {
     pub rounds: Vec<InnerProductRound<C>>,
diff --git a/src/recursion.rs b/src/recursion.rs
index ff28cc8..35f70aa 100644
--- a/src/recursion.rs
+++ b/src/recursion.rs
@@ -1718,3 +1718,74 @@ impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Sc
         )
     }
 }
+
+// Lets the model checker take recursive proofs apart, build them from parts
+// and run the verification circuit on its own.
+#[cfg(halo_mc)]
+pub mod mc {
+    use super::*;
+
+    pub struct Parts<E1: Curve, E2: Curve> {
+        pub proof: Proof<E1>,
+        pub oldproof1: Leftovers<E1>,
+        pub oldproof2: Leftovers<E2>,
+        pub deferred: Deferred<E2::Scalar>,
+        pub payload: Vec<u8>,
+    }
+
+    impl<E1: Curve, E2: Curve> RecursiveProof<E1, E2> {
+        pub fn mc_from(p: Parts<E1, E2>) -> Self {
+            RecursiveProof {
+                proof: p.proof,
+                oldproof1: p.oldproof1,
+                oldproof2: p.oldproof2,
+                deferred: p.deferred,
+                payload: p.payload,
+            }
+        }
+        pub fn mc_parts(&self) -> Parts<E1, E2> {
+            Parts {
+                proof: self.proof.clone(),
+                oldproof1: self.oldproof1.clone(),
+                oldproof2: self.oldproof2.clone(),
+                deferred: self.deferred.clone(),
+                payload: self.payload.clone(),
+            }
+        }
+    }
+
+    pub struct Verifier<'a, E1: Curve, E2: Curve, CS> {
+        pub params: &'a Params<E2>,
+        pub base_case: Option<bool>,
+        pub inner_circuit: &'a CS,
+        pub proof: Option<&'a RecursiveProof<E2, E1>>,
+        pub new_payload: &'a [u8],
+        pub forkvalues: Option<&'a [u8]>,
+        pub old_leftovers: Option<Leftovers<E1>>,
+        pub new_leftovers: Option<Leftovers<E2>>,
+        pub deferred: Option<Deferred<E2::Scalar>>,
+    }
+
+    impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Scalar>>
+        Circuit<E1::Scalar> for Verifier<'a, E1, E2, Inner>
+    {
+        fn synthesize<CS: ConstraintSystem<E1::Scalar>>(
+            &self,
+            cs: &mut CS,
+        ) -> Result<(), SynthesisError> {
+            VerificationCircuit::<E1, E2, Inner> {
+                _marker: PhantomData,
+                params: self.params,
+                base_case: self.base_case,
+                inner_circuit: self.inner_circuit,
+                proof: self.proof,
+                new_payload: self.new_payload,
+                forkvalues: self.forkvalues,
+                old_leftovers: self.old_leftovers.clone(),
+                new_leftovers: self.new_leftovers.clone(),
+                deferred: self.deferred.clone(),
+            }
+            .synthesize(cs)
+        }
+    }
+}
-- 
2.43.0


From 2c5cc0ce6df78265c59f0a1ab047202f8796f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:52 +0000
Subject: [PATCH 15/15] fix: the verification circuit accepted negated
 evaluations in deferred data

AllocatedNum::sqrt left the sign of the root to the prover, so that the
circuit accepted deferred data with b_x, b_xy, b_y_old, b_y_cur and b_y_new
(or gx_old_opening) negated, which Deferred::verify rejects. Field::sqrt now
returns the even root, and the gadget insists on it.
---
 src/fields/fp.rs   | 6 +++++-
 src/fields/fq.rs   | 6 +++++-
 src/fields/mod.rs  | 2 ++
 src/gadgets/num.rs | 8 +++++++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fields/fp.rs b/src/fields/fp.rs
index d45d623..674635f 100644
--- a/src/fields/fp.rs
+++ b/src/fields/fp.rs
@@ -443,7 +443,7 @@ impl Field for Fp {
         self.square()
     }
 
-    /// Computes the square root of this element, if it exists.
+    /// Computes the even square root of this element, if it exists.
     fn sqrt(&self) -> CtOption<Self> {
         // Tonelli-Shank's algorithm for p mod 16 = 1
         // https://eprint.iacr.org/2012/685.pdf (page 12, algorithm 5)
@@ -486,6 +486,10 @@ impl Field for Fp {
             v = k;
         }
 
+        // Of the two square roots, return the even one.
+        let x_is_odd = Choice::from(x.to_bytes()[0] & 1);
+        x = Fp::conditional_select(&x, &-x, x_is_odd);
+
         CtOption::new(
             x,
             (x * x).ct_eq(self), // Only return Some if it's the square root.
diff --git a/src/fields/fq.rs b/src/fields/fq.rs
index 8d9cc8e..d98b7bb 100644
--- a/src/fields/fq.rs
+++ b/src/fields/fq.rs
@@ -443,7 +443,7 @@ impl Field for Fq {
         self.square()
     }
 
-    /// Computes the square root of this element, if it exists.
+    /// Computes the even square root of this element, if it exists.
     fn sqrt(&self) -> CtOption<Self> {
         // Tonelli-Shank's algorithm for q mod 16 = 1
         // https://eprint.iacr.org/2012/685.pdf (page 12, algorithm 5)
@@ -486,6 +486,10 @@ impl Field for Fq {
             v = k;
         }
 
+        // Of the two square roots, return the even one.
+        let x_is_odd = Choice::from(x.to_bytes()[0] & 1);
+        x = Fq::conditional_select(&x, &-x, x_is_odd);
+
         CtOption::new(
             x,
             (x * x).ct_eq(self), // Only return Some if it's the square root.
diff --git a/src/fields/mod.rs b/src/fields/mod.rs
index c9b661b..0c433bb 100644
--- a/src/fields/mod.rs
+++ b/src/fields/mod.rs
@@ -55,6 +55,8 @@ pub trait Field:
 
     fn from_u64(v: u64) -> Self;
     fn from_u128(v: u128) -> Self;
+    /// Computes the square root of this element that is even (as an integer),
+    /// if it exists.
     fn sqrt(&self) -> CtOption<Self>;
     fn invert(&self) -> CtOption<Self>;
 
diff --git a/src/gadgets/num.rs b/src/gadgets/num.rs
index 15aff6d..2899051 100644
--- a/src/gadgets/num.rs
+++ b/src/gadgets/num.rs
@@ -1,4 +1,4 @@
-use crate::{fields::Field, Coeff, ConstraintSystem, LinearCombination, SynthesisError, Variable};
+use crate::{fields::Field, gadgets::unpack_fe, Coeff, ConstraintSystem, LinearCombination, SynthesisError, Variable};
 use std::ops::{Add, AddAssign, Neg, Sub};
 
 /// Constrain (x)^5 = (x^5), and return variables for x and (x^5).
@@ -287,6 +287,7 @@ impl<F: Field> AllocatedNum<F> {
         Ok(newnum)
     }
 
+    /// The even square root of this number, which must be a square.
     pub fn sqrt<CS>(&self, mut cs: CS) -> Result<AllocatedNum<F>, SynthesisError>
     where
         CS: ConstraintSystem<F>,
@@ -318,6 +319,11 @@ impl<F: Field> AllocatedNum<F> {
         cs.enforce_zero(LinearCombination::from(b) - newnum.get_variable());
         cs.enforce_zero(LinearCombination::from(c) - self.get_variable());
 
+        // The negative of the root satisfies the constraints so far as well:
+        // insist on the even one, which is the one that Field::sqrt returns.
+        let bits = unpack_fe(cs.namespace(|| "unpack"), &newnum.into())?;
+        cs.enforce_zero(LinearCombination::from(bits[0].get_variable()));
+
         Ok(newnum)
     }
 }
-- 
2.43.0

