From 998c7a71addc48a6940ca990fec6aabb41ff74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 1/8] fix: += and -= between complex numbers updated the
 imaginary part from the real part

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..9e64c57 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From e0e2c4bee153400d657d0459dabd64425e3c5e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 2/8] fix: complex division used the divisor's real part in
 place of its imaginary part

---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 9e64c57..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From cc778b0b98bf843494ed57a38ab438db5375ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 3/8] fix: /= by a zero scalar divided by zero after saturating

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From e2164d6c13011dacfab7de562726c70e3535c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:24 +0000
Subject: [PATCH 4/8] fix: dividing by a scalar that rounds to zero in the
 component type panicked

---
 src/complex/cartesian_impl.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 2202c95..add7b5d 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -434,10 +434,12 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
     /// ```
     #[inline]
     fn div(self, rhs: T1) -> Self {
-        if rhs == T1::mixed_zero() {
+        // The divisor is compared after conversion, as a small non-zero scalar may round to zero.
+        let divisor = <T2 as MixedNumConversion<T1>>::mixed_from_num(rhs);
+        if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) {
             return Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());
         }
-        return Cartesian::new(self.re/T2::mixed_from_num(rhs), self.im/T2::mixed_from_num(rhs));
+        return Cartesian::new(self.re/divisor, self.im/divisor);
     }
 }
 
@@ -455,13 +457,15 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
     /// ```
     #[inline]
     fn div_assign(&mut self, rhs: T1) {
-        if rhs == T1::mixed_zero() {
+        // The divisor is compared after conversion, as a small non-zero scalar may round to zero.
+        let divisor = <T2 as MixedNumConversion<T1>>::mixed_from_num(rhs);
+        if divisor == <T2 as MixedNumConversion<i32>>::mixed_from_num(0) {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
             return;
         }
-        self.re = self.re/T2::mixed_from_num(rhs);
-        self.im = self.im/T2::mixed_from_num(rhs);
+        self.re = self.re/divisor;
+        self.im = self.im/divisor;
     }
 }
 
-- 
2.43.0


From 8223fd8ce680dbe08d7c8ef1939503f32b3d0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:24 +0000
Subject: [PATCH 5/8] fix: the NIIRF square root panicked for types that cannot
 represent four

---
 src/trigonometry/sqrt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..4ab4560 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -72,12 +72,13 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        // Scale by two twice, as four is not representable by every type.
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From f0085370b33e5b3331b25b2b4e666dd09bf806ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:50 +0000
Subject: [PATCH 6/8] fix: wrapping a phase panicked for signed types that
 cannot represent two pi

---
 src/trigonometry.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..ef0a130 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,17 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
  
     let mut temp_scalar = phi;
     
     while temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        // Add pi twice, as two pi is not representable by every type.
+        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
     }
     while mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
     }
     return temp_scalar;
 }
-- 
2.43.0


From 67b9f1293d3e0623d5c55bcff920b40e945b84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 7/8] fix: the NIIRF square root panicked for unsigned types
 when the estimate was too large

---
 src/trigonometry/sqrt.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 4ab4560..14a3a3b 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -141,7 +141,16 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        // Subtract the smaller from the larger, as the difference is not representable by an unsigned type otherwise.
+        let y_squared = y.mixed_powi(2);
+        if y_squared <= x_
+        {
+            y = y + beta(x_)*(x_-y_squared);
+        }
+        else
+        {
+            y = y - beta(x_)*(y_squared-x_);
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From 1052f99eacd33a5deca15a634b9d7540713c9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 8/8] fix: multiplying a polar by a Cartesian number required
 the component type to be a complex number

---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0

