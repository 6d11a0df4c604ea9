From 7591762a651245de353a52658715c7069b400045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 01/11] fix: scalar multiplication ignores n when nbitlen is 0

The correction for points of order two read bit 0 of n even when nbitlen
is 0, so [0]P was P for such points if the buffer held an odd value, and
an empty buffer panicked.
---
 src/eccore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf6c4f5..0961849 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -638,7 +638,8 @@ macro_rules! define_ec_core {
                 let z1inf = !order1 & !order2 & !z0z & z1z;
                 let p1mp = !order1 & !order2 & !z0z & !z1z & x1ex;
 
-                let n_odd = ((n[0] as u32) & 1).wrapping_neg();
+                // cc is the mask of bit n_0 (or 0 if nbitlen == 0)
+                let n_odd = cc;
                 P3.Z.set_cond(&Fq::ZERO, order1 | (order2 & !n_odd) | z0inf);
                 P3.set_cond(&P, z1inf | (order2 & n_odd));
                 P3.set_cond(&dP, p1mp);
-- 
2.43.0


From f5d72ec2fa641697c438518c58aca387d5deb7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:07 +0000
Subject: [PATCH 02/11] fix: store the E0 base point constants in Montgomery
 form

Fp::new takes Montgomery limbs, but P0x, P0y, Q0x and Q0y held the plain
integers, so the points they denote were not on E0.
---
 src/fields.rs | 168 +++++++++++++++++++++++++-------------------------
 1 file changed, 84 insertions(+), 84 deletions(-)

diff --git a/src/fields.rs b/src/fields.rs
index 0960478..43a281e 100644
--- a/src/fields.rs
+++ b/src/fields.rs
@@ -292,96 +292,96 @@ pub mod FpFESTAExt {
 
     /// Torsion basis of the elliptic curve E0 : y^2 = x^3 + 6 * x^2 + x
     pub const P0x: Fp = Fp::new([
-        0xB2DAFEECE8954A26,
-        0x7C30CFF9C9295BE9,
-        0x9BA18C569D14412C,
-        0xE0E3B63074BEC0AE,
-        0x398044D58E03B86D,
-        0xC8D0AAC8160AC9FF,
-        0xC91CC769AB73DA65,
-        0x7A4D84690DD347CC,
-        0x0E86C1850765979C,
-        0xD04F4C29371AB193,
-        0x57567A513DE96E94,
-        0x201F334E7B86DB61,
-        0xFA905410682435F3,
-        0xCF94E4C18F3CC5A3,
-        0xF871351240711D39,
-        0x1259D6CBBC4FF5F9,
-        0xFA608AA257D9E807,
-        0x0298E79660009EED,
-        0x1EADA2117D2996A5,
-        0xCF14C3787CD20B3E,
-        0x0000000000000B22,
+        0x610C5B431143FF2A,
+        0x7F5B5375684C1798,
+        0xDDEF8C604F5FE34A,
+        0x4F557B32D185036B,
+        0xBC297F567E182A92,
+        0x53EDF70FA9A7DA05,
+        0xD2764A4ABD75E7F5,
+        0xE837A0245390EAFB,
+        0x5D25EE38E13A7040,
+        0xB6EF0100D0048880,
+        0x92B57516D3BD582E,
+        0xE1AEB8D1BE4CD0B4,
+        0x59218D2547FB116A,
+        0xC73D43CD277A9371,
+        0x8B6AE67DD509DE7D,
+        0x3E1924131DEED8A8,
+        0x4022622E6A922BCF,
+        0xACAE9D4456AD6A99,
+        0x0DA2A973D93A0BDC,
+        0xA6603410D5662141,
+        0x00000000000006A1,
     ]);
     pub const P0y: Fp = Fp::new([
-        0xA926641D45B8A118,
-        0xDA4B2092E262BD3B,
-        0x33169DAA5116A1BE,
-        0xE5FBD874E2E731E2,
-        0x30E54C3ED0E8784D,
-        0x26DF07E9EDB68209,
-        0xCCCFB6B687006A44,
-        0x1EADD94C491708A5,
-        0x9A1D9825932BEC3F,
-        0x7C22FD699B440B45,
-        0x690DE842938D6D48,
-        0xAF6EFDB934F17EC4,
-        0x181A55AA14F763E2,
-        0x23D08570DDCAE0B5,
-        0x905F8561A4F79ACA,
-        0xFD89660855A08BDA,
-        0x2E5D73B8E567A03C,
-        0x8046C1FDD942F3F6,
-        0x090140DD8B71CD57,
-        0xF3C01B38A431D9B5,
-        0x0000000000000522,
+        0xAA73B66C80DD96B8,
+        0x1321C66149C1199A,
+        0x2D668F859748F89B,
+        0x7B79958075CC6F19,
+        0x24D2BC16F5E948B9,
+        0xCEE14403F0CAE565,
+        0xAA554C71B0C439B3,
+        0x2C721D066DE166BC,
+        0xEDB1AA9CB9220A3A,
+        0xFAE22365327B8544,
+        0x5BDAAA2A87CBAA0B,
+        0xFC6149241DF91776,
+        0x6D1D2AD8CA39BAAD,
+        0x5BF9101C6F2A10C3,
+        0x2FAFDA03C9328C87,
+        0x1B7D782A9BF29B77,
+        0xE92BEA781138E36D,
+        0xE5660274F7161FE3,
+        0xFAC3EB19D358CCFA,
+        0x7742CF76A482AD1E,
+        0x0000000000000598,
     ]);
     pub const Q0x: Fp = Fp::new([
-        0x54FCDF4057795A20,
-        0x9CE149FD474BB801,
-        0xCA9F07D54A0CD609,
-        0xEC42C1D4B79FE4E0,
-        0xF9EC70EC0214422E,
-        0xF58BECE0A9404F35,
-        0xB46EE18B995B528C,
-        0x09516EA0D30F9713,
-        0xCDCAA700A0ECA732,
-        0x31CCD53267606A86,
-        0x653751C72E982B44,
-        0xB3455F058CD7E1E1,
-        0x503C9CCE4755C2FC,
-        0x194E42014A0E15F2,
-        0xA54BA2F12BE6825A,
-        0xCC5CF225A610EB25,
-        0x60022E3792FA436B,
-        0xDFDA10165CC7A209,
-        0x42567069E2CA09ED,
-        0x8FF030C55A5C6DD6,
-        0x0000000000001123,
+        0xAAD4DA58088DFC0A,
+        0xF606EA65D7E99964,
+        0x9720DC5C0F68B61F,
+        0x577C380E02E6AB8E,
+        0x146ED979BD60CC5C,
+        0x0A7E8C7F358DDD9C,
+        0xD36EAB3211C4694B,
+        0x25A2F3FF6EEFBD0F,
+        0x556F2B194B6AA4C8,
+        0xE2D6459E548C242C,
+        0x17FD0F2D009E3468,
+        0xBA843297C96D1A92,
+        0x95DABE07BE059724,
+        0x3AE73A8E89FD9CBF,
+        0x3EAEA4CB7794C20F,
+        0xF3B3AF999AF6DC9B,
+        0x6F2461F9A3A7E3ED,
+        0x65B18BBCC9030475,
+        0x51A4F9BD404A380D,
+        0x0CAF956D9F8F73EA,
+        0x0000000000000E08,
     ]);
     pub const Q0y: Fp = Fp::new([
-        0x1CAE4655B7317ED4,
-        0x2CDA0F3338024BF0,
-        0x4009114682F7EFFE,
-        0xABF26A97D0B7307D,
-        0x5FC9EFAA795D975B,
-        0x069D2E0D2D3C5BF0,
-        0x16239137BE42D449,
-        0xC6E44780FA7EE4A7,
-        0x1995B5152D368056,
-        0x1E3D6B1970DB5F9D,
-        0xB34DC5908C4ABE6E,
-        0x8FA82803240603FE,
-        0x4A746A5A1FD93A43,
-        0xAE5D9F859CD30A11,
-        0xA49D4B643D8B6D87,
-        0xA611BAD0D873B395,
-        0x1EDD64CAE0736797,
-        0xE0D4298F428D2ED7,
-        0x8717FB8AEE0C371E,
-        0xDC3012D1E48DD904,
-        0x000000000000138F,
+        0x49711295CA774F2D,
+        0x5DD79A6697CEF031,
+        0x3709CEBB4FCA463E,
+        0x0022C9C77F81C68F,
+        0xD11E20AC17954E52,
+        0x2A73AAF131DF0261,
+        0xAB7922E3DA517A48,
+        0xCC4EAC20C1FADBE5,
+        0x7DE02086F80DE2A6,
+        0xEAEF8B9B261D0081,
+        0x6282606CCD95B640,
+        0xDE84D7311F68364A,
+        0x8812731FBAB02452,
+        0xF1DC4D905EDE4C18,
+        0xE5F7B2A073B55CFA,
+        0xFBFDE66B37F7998E,
+        0x079AFB3D9035D8E6,
+        0xF4BF0AD82F7183E0,
+        0x87FBAED3823F16EE,
+        0xF10FFCC8084AC1F0,
+        0x00000000000008F7,
     ]);
 
     /// Public parameters
-- 
2.43.0


From ea2619692e72962c3c1975a00fb3aa2d4a57363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:51 +0000
Subject: [PATCH 03/11] fix: use the MULX instruction only when the build
 enables BMI2

---
 src/finitefield/utils64.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/finitefield/utils64.rs b/src/finitefield/utils64.rs
index 461a217..872953f 100644
--- a/src/finitefield/utils64.rs
+++ b/src/finitefield/utils64.rs
@@ -45,7 +45,8 @@ pub(crate) const fn subborrow_u64(x: u64, y: u64, c: u8) -> (u64, u8) {
 // `umull_add2`, but the output performed worse than the current
 // impl!!
 // Compute x*y over 128 bits, returned as two 64-bit words (lo, hi)
-#[cfg(target_arch = "x86_64")]
+// MULX belongs to the BMI2 extension, which baseline x86_64 does not have.
+#[cfg(all(target_arch = "x86_64", target_feature = "bmi2"))]
 pub(crate) fn umull(x: u64, y: u64) -> (u64, u64) {
     use core::arch::x86_64::_mulx_u64;
     unsafe {
@@ -55,7 +56,7 @@ pub(crate) fn umull(x: u64, y: u64) -> (u64, u64) {
     }
 }
 
-#[cfg(not(target_arch = "x86_64"))]
+#[cfg(not(all(target_arch = "x86_64", target_feature = "bmi2")))]
 #[inline(always)]
 pub(crate) const fn umull(x: u64, y: u64) -> (u64, u64) {
     let z = (x as u128) * (y as u128);
-- 
2.43.0


From 993f2b6553e2a3331a83eedbe581c2239e5d333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 04/11] fix: splitting matrix for the (0,0) characteristic was
 singular

---
 src/theta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 719c22e..5b15014 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -891,9 +891,9 @@ macro_rules! define_theta_structure {
                 ],
                 [
                     Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::MINUS_ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::MINUS_ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
+                    Fq::ONE, Fq::MINUS_ZETA, Fq::MINUS_ONE, Fq::ZETA,
+                    Fq::ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::MINUS_ZETA,
+                    Fq::MINUS_ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::ZETA,
                 ],
             ];
 
-- 
2.43.0


From 86d168bd239250a6b669988f397b0dd41d419b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 05/11] fix: the Weil pairing of dependent points is one, also
 for odd orders

---
 src/pairing.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index bc47a42..9bb388d 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -34,10 +34,11 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     result
 }
 
-/// Evaluate Tate pairing using Miller's algorithm
-/// If two points P and Q are linearly dependent, it outputs zero.
+/// Evaluate Miller's algorithm
+/// The result is zero when one of the lines vanishes at Q, which only happens
+/// if the points P and Q are linearly dependent
 /// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
-pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+fn miller_loop(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let mut f = Fq::ONE;
     let mut V = P.clone();
 
@@ -64,6 +65,14 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
     debug_assert!(V.isinfinity() != 0, "pairing point is invalid");
 
+    f
+}
+
+/// Evaluate Tate pairing using Miller's algorithm
+/// If a line vanishes because P and Q are linearly dependent, it outputs one.
+pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+    let f = miller_loop(E, P, Q, order);
+
     if f.iszero() != 0 {
         return Fq::ONE;
     }
@@ -73,8 +82,13 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
 /// Computing Weil pairing of given two points using Tate pairing(Miller's algorithm).
 pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
-    let ePQ = tate_pairing(E, P, Q, order);
-    let eQP = tate_pairing(E, Q, P, order);
+    let ePQ = miller_loop(E, P, Q, order);
+    let eQP = miller_loop(E, Q, P, order);
+
+    // The pairing of linearly dependent points is trivial
+    if ePQ.iszero() | eQP.iszero() != 0 {
+        return Fq::ONE;
+    }
 
     if order.bit(0) {
         -ePQ / eQP
-- 
2.43.0


From 91940860641f482375a47dfbd8ca5dcd6695953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 06/11] fix: order predicates must require that the order
 divides the given integer

---
 src/supersingular.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4b9a9c8..9464c61 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -16,13 +16,20 @@ use rand::thread_rng;
 /// Given the factored order D as an input, check if the point has an order D
 pub fn point_has_factored_order(E: &Curve, P: &Point, factored_order: &[(u32, u32)]) -> bool {
     let mut D_top = BigUint::from(1u32);
+    let mut D = BigUint::from(1u32);
     let mut pis = Vec::new();
 
     for (l, e) in factored_order.iter() {
         D_top *= BigUint::from(*l).pow(e - 1);
+        D *= BigUint::from(*l).pow(*e);
         pis.push(BigUint::from(*l));
     }
 
+    // The order must divide D
+    if E.mul_big(P, &D).isinfinity() == 0 {
+        return false;
+    }
+
     let G_top = E.mul_big(P, &D_top);
     if G_top.equals(&Point::INFINITY) != 0 {
         return false;
@@ -79,13 +86,20 @@ pub fn point_has_factored_order(E: &Curve, P: &Point, factored_order: &[(u32, u3
 /// Given the factored order D as an input, check if the group element has an order D
 pub fn has_factored_order(v: Fq, factored_order: &[(u32, u32)]) -> bool {
     let mut D_top = BigUint::from(1u32);
+    let mut D = BigUint::from(1u32);
     let mut pis = Vec::new();
 
     for (l, e) in factored_order.iter() {
         D_top *= BigUint::from(*l).pow(e - 1);
+        D *= BigUint::from(*l).pow(*e);
         pis.push(BigUint::from(*l));
     }
 
+    // The order must divide D
+    if v.pow_big(&D).equals(&Fq::ONE) == 0 {
+        return false;
+    }
+
     let G_top = v.pow_big(&D_top);
     if G_top.equals(&Fq::ONE) != 0 {
         return false;
-- 
2.43.0


From 111214cc773f90522b50c487f6deac3497527085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 07/11] fix: Miller loop must handle multiples of the point
 reaching infinity before the end

---
 src/pairing.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index 9bb388d..80b16d1 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -13,9 +13,18 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     let (Qx, Qy) = Q.to_xy();
     let (Rx, Ry, Rz) = R.to_xyz();
     let a = E.get_constant();
-    // When P or Q is the point at infinity i.e. D(g) = 0,
-    // the dividing by this evaluation of the line must be ignored
-    debug_assert!(P.isinfinity() == 0 && Q.isinfinity() == 0);
+    // The line crossing the point at infinity is vertical, it is
+    // the line at infinity when P and Q are both at infinity
+    if P.isinfinity() != 0 {
+        return if Q.isinfinity() != 0 {
+            Rz
+        } else {
+            Rx + (-Qx) * Rz
+        };
+    }
+    if Q.isinfinity() != 0 {
+        return Rx + (-Px) * Rz;
+    }
 
     if P.equals(&Q) != 0 {
         if Py.iszero() != 0 {
@@ -86,7 +95,7 @@ pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let eQP = miller_loop(E, Q, P, order);
 
     // The pairing of linearly dependent points is trivial
-    if ePQ.iszero() | eQP.iszero() != 0 {
+    if ePQ.iszero() | eQP.iszero() | P.isinfinity() | Q.isinfinity() != 0 {
         return Fq::ONE;
     }
 
-- 
2.43.0


From 101ecc19df156d528db0f536310ba3e3bb29e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 08/11] fix: sqrt_floor overflowed for inputs above 65535^2

---
 src/discrete_log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discrete_log.rs b/src/discrete_log.rs
index 31e9b37..63e36fa 100644
--- a/src/discrete_log.rs
+++ b/src/discrete_log.rs
@@ -76,7 +76,7 @@ pub fn sqrt_floor(n: u32) -> u32 {
         }
     }
 
-    if b * b == n {
+    if (b as u64) * (b as u64) == n as u64 {
         return b;
     }
 
-- 
2.43.0


From 474dd7fd4a29bee6ae0b66dc069c0ea29defa57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 09/11] fix: isomorphism between curves whose coefficients
 agree up to sign was not one

---
 src/eccore.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index 0961849..514491f 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -808,9 +808,16 @@ macro_rules! define_ec_core {
                     "Given curves are not isomorphic!"
                 );
                 let (A2, A1) = (domain.get_constant(), codomain.get_constant());
-                let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
-                    / (A1 * (Fq::THREE - A2.square()));
-                let u = (Fq::THREE * v + A1) / A2;
+                // When the coefficients agree up to sign, the point (0, 0) is mapped to itself
+                let (u, v) = if A1.equals(&A2) != 0 {
+                    (Fq::ONE, Fq::ZERO)
+                } else if A1.equals(&-A2) != 0 {
+                    (-Fq::ONE, Fq::ZERO)
+                } else {
+                    let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
+                        / (A1 * (Fq::THREE - A2.square()));
+                    ((Fq::THREE * v + A1) / A2, v)
+                };
                 let w = (u * u.square()).sqrt().0;
                 CurveIsomorphism { u, v, w }
             }
-- 
2.43.0


From d623b2b3d41c6d4eec7986aa55e4402856e84846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 10/11] fix: curve isomorphisms must map the point at infinity
 to the point at infinity

---
 src/eccore.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eccore.rs b/src/eccore.rs
index 514491f..ff2235f 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -823,6 +823,9 @@ macro_rules! define_ec_core {
             }
 
             pub fn eval(&self, P: &Point) -> Point {
+                if P.isinfinity() != 0 {
+                    return Point::INFINITY;
+                }
                 let (Px, Py) = P.to_xy();
                 let imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
                 imP
-- 
2.43.0


From f792a58084f187a8a3aafb23101d4e0ae860f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:59 +0000
Subject: [PATCH 11/11] fix: reject malformed encodings of secret keys and
 trapdoor outputs in release builds

---
 src/festa.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/festa.rs b/src/festa.rs
index d7e75a8..fc80fad 100644
--- a/src/festa.rs
+++ b/src/festa.rs
@@ -102,12 +102,12 @@ impl SecretKey {
         let total_len = Fq::ENCODED_LENGTH * 9 + 82 * 2;
         let mut offset: usize = 0;
         let mut var = [Fq::ZERO; 9];
-        debug_assert_eq!(bytearray.len(), total_len);
+        assert_eq!(bytearray.len(), total_len, "Invalid secret key length");
 
         for i in 0..9 {
             let r: u32;
             (var[i], r) = Fq::decode(&bytearray[offset..offset + Fq::ENCODED_LENGTH]);
-            debug_assert_eq!(r, u32::MAX);
+            assert_eq!(r, u32::MAX, "Non-canonical field element");
             offset += Fq::ENCODED_LENGTH;
         }
         let a11 = BigUint::from_bytes_le(&bytearray[offset..offset + 82]);
@@ -177,12 +177,16 @@ impl TrapdoorOutput {
     pub fn decode(binary: &Vec<u8>) -> Self {
         let mut offset = 0;
         let mut var = [Fq::ZERO; 10];
-        debug_assert_eq!(binary.len(), Fq::ENCODED_LENGTH * 10);
+        assert_eq!(
+            binary.len(),
+            Fq::ENCODED_LENGTH * 10,
+            "Invalid trapdoor output length"
+        );
 
         for i in 0..10 {
             let r;
             (var[i], r) = Fq::decode(&binary[offset..offset + Fq::ENCODED_LENGTH]);
-            debug_assert_eq!(r, u32::MAX);
+            assert_eq!(r, u32::MAX, "Non-canonical field element");
             offset += Fq::ENCODED_LENGTH;
         }
 
-- 
2.43.0

