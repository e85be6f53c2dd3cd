From 98816cf20e3b5b76e108b5cc6e3691db915a8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 01/65] fix: partials of log(Variable, Variable) were recorded
 against the wrong operands, and the graphs were not checked

---
 crates/RustQuant_autodiff/src/overload.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 24f36c6..2ad54fb 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1024,6 +1024,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
 
     #[inline]
     fn log(&self, base: Variable) -> Self::Output {
+        assert!(std::ptr::eq(self.graph, base.graph));
+
         Self::Output {
             graph: self.graph,
             value: f64::log(self.value, base.value),
@@ -1031,8 +1033,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
                 Arity::Binary,
                 &[self.index, base.index],
                 &[
-                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                     1.0 / (self.value * f64::ln(base.value)),
+                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                 ],
             ),
         }
-- 
2.43.0


From 6cfd9db362c57891c19570f2465a870a7b6a10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 02/65] fix: partial of f64.powf(Variable) and
 f64.powi(Variable) is self^x ln(self)

---
 crates/RustQuant_autodiff/src/overload.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 2ad54fb..532b140 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1415,7 +1415,7 @@ impl<'v> Powf<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
@@ -1483,7 +1483,7 @@ impl<'v> Powi<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
-- 
2.43.0


From bb341ff38b809a015648a6ac3af9394466eb7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 03/65] fix: partial of cbrt was NaN for negative arguments

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 532b140..d77da4d 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -501,7 +501,7 @@ impl<'v> Variable<'v> {
             index: self.graph.push(
                 Arity::Unary,
                 &[self.index],
-                &[((3.0 * self.value.powf(2.0 / 3.0)).recip())],
+                &[((3.0 * self.value.cbrt().powi(2)).recip())],
             ),
         }
     }
-- 
2.43.0


From 24302775e0912b733c7f4e397eb9413e2fabd78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 04/65] fix: joining graphs left the second graph's parent
 indices pointing into the first

---
 crates/RustQuant_autodiff/src/graph.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/graph.rs b/crates/RustQuant_autodiff/src/graph.rs
index b161f09..f3c759d 100644
--- a/crates/RustQuant_autodiff/src/graph.rs
+++ b/crates/RustQuant_autodiff/src/graph.rs
@@ -66,7 +66,14 @@ impl Graph {
     #[inline]
     pub fn join(&self, other: &Self) -> Self {
         let graph = self.clone();
-        let other = other.vertices.borrow_mut().clone();
+        let offset = graph.len();
+        let mut other = other.vertices.borrow().clone();
+
+        // The parents of the appended vertices are positions in `other`.
+        for vertex in &mut other {
+            vertex.parents = vertex.parents.map(|parent| parent + offset);
+        }
+
         graph.vertices.borrow_mut().extend(other);
         graph
     }
-- 
2.43.0


From d2b5cf9e82865c09819e3f859e7a11b337271364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 05/65] fix: charm had the opposite sign to the other time
 Greeks (it is -dDelta/dT, i.e. dTheta/dS)

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 4 ++--
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 9cf802d..4f86f23 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -223,11 +223,11 @@ impl BlackScholesMerton {
 
         match self.option_type {
             TypeFlag::Call => {
-                ((b - r) * T).exp()
+                -((b - r) * T).exp()
                     * (n.pdf(d1) * ((b / (v * T.sqrt())) - (d2 / (2.0 * T))) + (b - r) * n.cdf(d1))
             }
             TypeFlag::Put => {
-                ((b - r) * T).exp()
+                -((b - r) * T).exp()
                     * (n.pdf(d1) * ((b / (v * T.sqrt())) - (d2 / (2.0 * T))) - (b - r) * n.cdf(-d1))
             }
         }
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 391d541..cca3cb9 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -420,7 +420,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        ((b - r) * t).exp()
+        -((b - r) * t).exp()
             * (N.pdf(d1) * ((b / (v * t.sqrt())) - (d2 / (2.0 * t))) + (b - r) * N.cdf(d1))
     }
 
@@ -429,7 +429,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        ((b - r) * t).exp()
+        -((b - r) * t).exp()
             * (N.pdf(d1) * ((b / (v * t.sqrt())) - (d2 / (2.0 * t))) - (b - r) * N.cdf(-d1))
     }
 
-- 
2.43.0


From a7160735127a7a5bcb1a5eac4bd3dbf967c04703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 06/65] fix: ultima had the wrong sign on its d2/d1 term

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 2 +-
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 4f86f23..4b95d9b 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -326,7 +326,7 @@ impl BlackScholesMerton {
     pub fn ultima(&self) -> f64 {
         let (d1, d2) = self.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index cca3cb9..1065bd3 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -512,7 +512,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
     }
 
     #[inline]
@@ -520,7 +520,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
     }
 }
 
-- 
2.43.0


From 92eeff58644d3df71886440b10d26a85a10850ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 07/65] fix: rho of Black76 and Asay82 was computed as if the
 cost of carry moved with the rate

---
 .../src/options/option_models.rs              | 53 ++++++++++++++-----
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 1065bd3..73947bd 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -389,17 +389,36 @@ mod bsm {
     }
 
     #[inline]
-    pub(crate) fn call_rho(s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
-        let d2 = d2(s, k, t, b, v);
+    pub(crate) fn call_rho(
+        s: f64,
+        k: f64,
+        t: f64,
+        r: f64,
+        b: f64,
+        v: f64,
+        dr: f64,
+        db: f64,
+    ) -> f64 {
+        let d1 = d1(s, k, t, b, v);
 
-        k * t * (-r * t).exp() * N.cdf(d2)
+        // `dr` and `db` are the sensitivities of r and b to the model's interest rate.
+        -dr * t * call_price(s, k, t, r, b, v) + db * t * s * ((b - r) * t).exp() * N.cdf(d1)
     }
 
     #[inline]
-    pub(crate) fn put_rho(s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
-        let d2 = d2(s, k, t, b, v);
+    pub(crate) fn put_rho(
+        s: f64,
+        k: f64,
+        t: f64,
+        r: f64,
+        b: f64,
+        v: f64,
+        dr: f64,
+        db: f64,
+    ) -> f64 {
+        let d1 = d1(s, k, t, b, v);
 
-        -k * t * (-r * t).exp() * N.cdf(-d2)
+        -dr * t * put_price(s, k, t, r, b, v) - db * t * s * ((b - r) * t).exp() * N.cdf(-d1)
     }
 
     #[inline]
@@ -524,8 +543,10 @@ mod bsm {
     }
 }
 
+// $r and $b: how the discount rate and the cost of carry respond to the model's
+// interest rate (used by rho).
 macro_rules! impl_gbsm {
-    ($gbsm_variant:ident) => {
+    ($gbsm_variant:ident, $r:expr, $b:expr) => {
         impl GeneralisedBlackScholesMerton for $gbsm_variant {
             /// Price a European option.
             fn price(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
@@ -573,8 +594,12 @@ macro_rules! impl_gbsm {
 
             fn rho(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
                 match option_type {
-                    TypeFlag::Call => bsm::call_rho(self.s(), k, t, self.r(), self.b(), self.v),
-                    TypeFlag::Put => bsm::put_rho(self.s(), k, t, self.r(), self.b(), self.v),
+                    TypeFlag::Call => {
+                        bsm::call_rho(self.s(), k, t, self.r(), self.b(), self.v, $r, $b)
+                    }
+                    TypeFlag::Put => {
+                        bsm::put_rho(self.s(), k, t, self.r(), self.b(), self.v, $r, $b)
+                    }
                 }
             }
 
@@ -637,11 +662,11 @@ macro_rules! impl_gbsm {
     };
 }
 
-impl_gbsm!(BlackScholes73);
-impl_gbsm!(Merton73);
-impl_gbsm!(Black76);
-impl_gbsm!(Asay82);
-impl_gbsm!(GarmanKohlhagen83);
+impl_gbsm!(BlackScholes73, 1.0, 1.0);
+impl_gbsm!(Merton73, 1.0, 1.0);
+impl_gbsm!(Black76, 1.0, 0.0);
+impl_gbsm!(Asay82, 0.0, 0.0);
+impl_gbsm!(GarmanKohlhagen83, 1.0, 1.0);
 
 mod heston {
     use num::Complex;
-- 
2.43.0


From e32bb1364191024ffee8321b956fbcfd10273c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 08/65] fix: Bachelier Greeks ignored the discounting of the
 price they are derivatives of

---
 .../src/options/option_models.rs              | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 73947bd..325f08c 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1122,51 +1122,51 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn call_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d)
+        df(r, t) * N.cdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d) - 1.0
+        df(r, t) * (N.cdf(d) - 1.0)
     }
 
     #[inline]
-    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.pdf(d) / (v * t.sqrt())
+        df(r, t) * N.pdf(d) / (v * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_gamma(f, k, t, v)
+    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_gamma(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        t.sqrt() * N.pdf(d)
+        df(r, t) * t.sqrt() * N.pdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_vega(f, k, t, v)
+    pub(crate) fn put_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_vega(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * call_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * put_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 }
 
@@ -1200,32 +1200,32 @@ impl Bachelier {
     /// Delta of a European option using the Bachelier model.
     pub fn delta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Gamma of a European option using the Bachelier model.
     pub fn gamma(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Vega of a European option using the Bachelier model.
     pub fn vega(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Theta of a European option using the Bachelier model.
     pub fn theta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.r, self.v),
         }
     }
 }
-- 
2.43.0


From 9c85d58f40bc62cca09eae3d40d970eaf2a7a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 09/65] fix: barrier option payoff ignored the contract's
 rebate

---
 .../src/options/barrier.rs                    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/barrier.rs b/crates/RustQuant_instruments/src/options/barrier.rs
index 5ca052d..43bf30e 100644
--- a/crates/RustQuant_instruments/src/options/barrier.rs
+++ b/crates/RustQuant_instruments/src/options/barrier.rs
@@ -43,26 +43,29 @@ impl Payoff for BarrierOption {
         let above = s.iter().any(|&x| x >= b);
         let below = s.iter().any(|&x| x <= b);
 
+        // Paid when the option is knocked out, or never knocked in.
+        let rebate = self.rebate.unwrap_or(0.0);
+
         match self.contract.type_flag {
             TypeFlag::Call => {
                 let payoff = (terminal - k).max(0.0);
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
@@ -71,20 +74,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
-- 
2.43.0


From ddc5a76be0f5e2037d5e433ece493c94232f64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 10/65] fix: Bachelier implied volatility used the wrong powers
 in the denominator of the rational approximation

---
 crates/RustQuant_instruments/src/options/option_models.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 325f08c..26aa075 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1090,7 +1090,7 @@ mod bachelier {
 
         // for k in 0..B.len() {
         for (k, v) in B.iter().enumerate() {
-            sum2 += v * eta.powi(k as i32);
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
@@ -1112,8 +1112,8 @@ mod bachelier {
         }
 
         // for k in 1..=B.len() {
-        for (k, v) in B.iter().enumerate().skip(1) {
-            sum2 += v * eta.powi(k as i32);
+        for (k, v) in B.iter().enumerate() {
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
-- 
2.43.0


From b444a7e6647c8ddeb0973f1de8d5eb70f0adc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 11/65] fix: SABR volatility omitted nu/alpha in z and
 misplaced the 1-rho factor of chi(z); at the money it was NaN

---
 .../src/options/option_models.rs              | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 26aa075..ddd128d 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1242,12 +1242,19 @@ mod sabr {
         rho: f64,
         nu: f64,
     ) -> f64 {
-        coefficient(f, k, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
+        coefficient(f, k, alpha, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
             / denominator(f, k, beta, rho, nu)
     }
 
-    fn coefficient(f: f64, k: f64, beta: f64, rho: f64, _nu: f64) -> f64 {
-        z(f, k, beta) / chi(f, k, beta, rho)
+    fn coefficient(f: f64, k: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
+        let z = z(f, k, alpha, beta, nu);
+
+        // z / chi(z) -> 1 as z -> 0 (at the money).
+        if z == 0.0 {
+            1.0
+        } else {
+            z / chi(z, rho)
+        }
     }
 
     fn numerator(f: f64, k: f64, t: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
@@ -1264,17 +1271,12 @@ mod sabr {
         term1 * (1.0 + term2 + term3)
     }
 
-    fn z(f: f64, k: f64, beta: f64) -> f64 {
-        (f / k).ln() * fk_power(f, k, beta)
+    fn z(f: f64, k: f64, alpha: f64, beta: f64, nu: f64) -> f64 {
+        nu / alpha * (f / k).ln() * fk_power(f, k, beta)
     }
 
-    fn chi(f: f64, k: f64, beta: f64, rho: f64) -> f64 {
-        let numerator = ((1.0 - 2.0 * rho * z(f, k, beta) + z(f, k, beta).powi(2)).sqrt()
-            + z(f, k, beta)
-            - rho)
-            .ln();
-        let denominator = 1.0 - rho;
-        numerator / denominator
+    fn chi(z: f64, rho: f64) -> f64 {
+        (((1.0 - 2.0 * rho * z + z.powi(2)).sqrt() + z - rho) / (1.0 - rho)).ln()
     }
 
     fn fk_power(f: f64, k: f64, beta: f64) -> f64 {
-- 
2.43.0


From f0bad0b660ff0b1dbd4210ce9b47b975c0bcc53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 12/65] fix: Gamma and ChiSquared samples were truncated to
 integers

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 2 +-
 crates/RustQuant_math/src/distributions/gamma.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 2b89880..3475c81 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -297,7 +297,7 @@ impl Distribution for ChiSquared {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index dabfa41..8a6fec9 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -139,7 +139,7 @@ impl Distribution for Gamma {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From f5acafea24e53949cab7e0f99f2cb17a63478460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 13/65] fix: Binomial sample used the sample size as the number
 of trials

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index d9f3232..9c0d31d 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -287,7 +287,7 @@ impl Distribution for Binomial {
 
         let mut rng = thread_rng();
 
-        let dist = Binomial::new(n as u64, self.p)?;
+        let dist = Binomial::new(self.n as u64, self.p)?;
 
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
-- 
2.43.0


From 4caed80787253f247358ad21ed31d6ed7f38b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 14/65] fix: Binomial pmf overflowed for more than 12 trials

---
 crates/RustQuant_math/src/distributions/binomial.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 9c0d31d..09cae6b 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -113,11 +113,13 @@ impl Distribution for Binomial {
         assert!(k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
-        let n_C_k = |n: u32, k: u32| -> u32 {
-            (1..=n).product::<u32>() / ((1..=k).product::<u32>() * (1..=(n - k)).product::<u32>())
+        let n_C_k = |n: u32, k: u32| -> f64 {
+            (1..=k)
+                .map(|j| f64::from(n - k + j) / f64::from(j))
+                .product()
         };
 
-        n_C_k(self.n as u32, k as u32) as f64
+        n_C_k(self.n as u32, k as u32)
             * self.p.powi(k as i32)
             * (1.0 - self.p).powi((self.n - k as usize) as i32)
     }
-- 
2.43.0


From 90b616720a04ba2035291bcf3e8a24b7e73894b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 15/65] fix: Binomial cdf panicked at and beyond the number of
 trials

---
 crates/RustQuant_math/src/distributions/binomial.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 09cae6b..e7a249c 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -135,7 +135,15 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(binomial.cdf(3.0), 0.9129600, 1e-7);
     /// ```
     fn cdf(&self, k: f64) -> f64 {
-        statrs::function::beta::beta_reg((self.n - k as usize) as f64, 1_f64 + k, 1_f64 - self.p)
+        let k = k.floor();
+
+        if k < 0.0 {
+            0.0
+        } else if k >= self.n as f64 {
+            1.0
+        } else {
+            statrs::function::beta::beta_reg(self.n as f64 - k, 1_f64 + k, 1_f64 - self.p)
+        }
     }
 
     /// Inverse distribution (quantile) function of the Binomial distribution.
-- 
2.43.0


From b1f62c5bd6ebf8140c683a1b150ea9d52735af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 16/65] fix: Binomial mode was n + 1 for p = 1

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index e7a249c..4df1012 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -203,7 +203,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.mode(), 2.0);
     /// ```
     fn mode(&self) -> f64 {
-        ((self.n as f64 + 1.) * self.p).floor()
+        ((self.n as f64 + 1.) * self.p).floor().min(self.n as f64)
     }
 
     /// Variance of the Binomial distribution.
-- 
2.43.0


From 840d53d6c4689d7b85db703bf50a0dd2dff9e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 17/65] fix: Poisson pmf overflowed for counts above 20

---
 crates/RustQuant_math/src/distributions/poisson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 24eed4f..661cf8f 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -93,8 +93,10 @@ impl Distribution for Poisson {
     /// assert_approx_equal!(poisson.pmf(1.0), poisson.pdf(1.0), 1e-7);
     /// ```
     fn pmf(&self, x: f64) -> f64 {
-        (self.lambda).powi(x as i32) * (-(self.lambda)).exp()
-            / ((1..=x as usize).product::<usize>() as f64)
+        (1..=x as usize)
+            .map(|j| self.lambda / j as f64)
+            .product::<f64>()
+            * (-(self.lambda)).exp()
     }
 
     /// Cumulative distribution function of the Poisson distribution.
-- 
2.43.0


From 0c32bbecf62b9fb13349ed58a9b9c993914bda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 18/65] fix: Poisson quantile of 0 was -1

---
 crates/RustQuant_math/src/distributions/poisson.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 661cf8f..caf4525 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -135,13 +135,13 @@ impl Distribution for Poisson {
         if (p - 1.0).abs() < f64::EPSILON {
             return f64::INFINITY;
         }
-        let mut sum = 0.0;
         let mut k = 0;
+        let mut sum = self.pmf(0.0);
         while sum < p {
-            sum += self.pmf(f64::from(k));
             k += 1;
+            sum += self.pmf(f64::from(k));
         }
-        f64::from(k - 1)
+        f64::from(k)
     }
 
     /// Returns the mean of the Poisson distribution.
-- 
2.43.0


From f2f16c6957182d78f79f3c7be2029c6c65f64c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 19/65] fix: variance of the discrete Uniform is (n^2 - 1) / 12

---
 crates/RustQuant_math/src/distributions/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 2f25ddb..563be43 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -256,7 +256,7 @@ impl Distribution for Uniform {
     /// ```
     fn variance(&self) -> f64 {
         match self.class {
-            DistributionClass::Discrete => (self.b - self.a + 1.0).powi(2) / 12.0,
+            DistributionClass::Discrete => ((self.b - self.a + 1.0).powi(2) - 1.0) / 12.0,
             DistributionClass::Continuous => (self.b - self.a).powi(2) / 12.0,
         }
     }
-- 
2.43.0


From 4670fe80a6a21cd77d5d5390907382d87f1f49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 20/65] fix: discrete Uniform samples never took the upper
 bound and were clipped at 0

---
 crates/RustQuant_math/src/distributions/uniform.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 563be43..f992a0f 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -356,16 +356,18 @@ impl Distribution for Uniform {
 
         let mut rng = thread_rng();
 
-        let dist = Uniform::new(self.a, self.b);
-
         let mut variates: Vec<f64> = Vec::with_capacity(n);
         match self.class {
             DistributionClass::Discrete => {
+                let dist = Uniform::new_inclusive(self.a as i64, self.b as i64);
+
                 for _ in 0..variates.capacity() {
-                    variates.push(dist.sample(&mut rng) as usize as f64);
+                    variates.push(dist.sample(&mut rng) as f64);
                 }
             }
             DistributionClass::Continuous => {
+                let dist = Uniform::new(self.a, self.b);
+
                 for _ in 0..variates.capacity() {
                     variates.push(dist.sample(&mut rng));
                 }
-- 
2.43.0


From 97dc1f80d159e3d8a5697dbf7ce97fe633690806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 21/65] fix: generating functions of the Uniform were NaN at 0

---
 crates/RustQuant_math/src/distributions/uniform.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index f992a0f..25dfb32 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -76,6 +76,10 @@ impl Distribution for Uniform {
     fn cf(&self, t: f64) -> Complex<f64> {
         let i: Complex<f64> = Complex::i();
 
+        if t == 0.0 {
+            return Complex::new(1.0, 0.0);
+        }
+
         match self.class {
             DistributionClass::Discrete => {
                 ((i * t * self.a).exp() - (i * t * (self.b + 1.0)).exp())
@@ -324,6 +328,10 @@ impl Distribution for Uniform {
     fn mgf(&self, t: f64) -> f64 {
         let n = self.b - self.a + 1.0;
 
+        if t == 0.0 {
+            return 1.0;
+        }
+
         match self.class {
             DistributionClass::Discrete => {
                 ((t * self.a).exp() - (t * (self.b + 1.0)).exp()) / (n * (1.0 - (t).exp()))
-- 
2.43.0


From beb241d15dcf2eeb4f740258d3280a6442018c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 22/65] fix: Bernoulli cdf was 1 - p on (-1, 0)

---
 crates/RustQuant_math/src/distributions/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/bernoulli.rs b/crates/RustQuant_math/src/distributions/bernoulli.rs
index 6bd40cc..0dc213d 100644
--- a/crates/RustQuant_math/src/distributions/bernoulli.rs
+++ b/crates/RustQuant_math/src/distributions/bernoulli.rs
@@ -117,9 +117,9 @@ impl Distribution for Bernoulli {
     fn cdf(&self, k: f64) -> f64 {
         assert!((0.0..=1.0).contains(&self.p));
 
-        if (k as i32) < 0 {
+        if k < 0.0 {
             0.0
-        } else if (0..1).contains(&(k as i32)) {
+        } else if k < 1.0 {
             1.0 - self.p
         } else {
             1.0
-- 
2.43.0


From fd8ed516352d88d0cf2190fd499ca2ed08d9b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 23/65] fix: ChiSquared quantiles above 1.5 k were cut off

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 3475c81..c62be91 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -143,8 +143,16 @@ impl Distribution for ChiSquared {
         assert!((0.0..=1.0).contains(&p));
 
         let k = self.k as f64;
-        let mut x = 0.5 * k;
+        if p == 1.0 {
+            return f64::INFINITY;
+        }
+
+        // The search below covers (0, 2 * delta): enlarge it to hold the quantile.
         let mut delta = 0.5 * k;
+        while self.cdf(2.0 * delta) < p && delta < 1e300 {
+            delta *= 2.0;
+        }
+        let mut x = delta;
 
         while delta > 1e-10 {
             let cdf = self.cdf(x);
-- 
2.43.0


From 560c7b1b3d574c7aeb23dec76d239c839dcdf822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 24/65] fix: NL/360 and NL/365 omit the leap days of the
 period, not its leap years

---
 crates/RustQuant_time/src/day_counting.rs | 10 +++++-----
 crates/RustQuant_time/src/utilities.rs    | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 1e5db68..47ce935 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,7 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_year_count};
+use super::{contains_leap_year, days_between, is_last_day_of_february, leap_day_count};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -187,17 +187,17 @@ impl DayCountConvention {
     // NL/360 day count factor calculation.
     pub(crate) fn day_count_factor_nl_360(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 360.0
+        (day_count - leap_days) / 360.0
     }
 
     // NL/365 day count factor calculation.
     pub(crate) fn day_count_factor_nl_365(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 365.0
+        (day_count - leap_days) / 365.0
     }
 
     // One/One day count factor calculation.
diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 9780f97..83cf4b7 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -134,6 +134,21 @@ pub fn leap_year_count(start: Date, end: Date) -> i64 {
         .len() as i64
 }
 
+/// Function to get the number of leap days (29th of February) after `start`,
+/// up to and including `end`.
+pub fn leap_day_count(start: Date, end: Date) -> i64 {
+    leap_days_up_to(end) - leap_days_up_to(start)
+}
+
+// Number of leap days up to and including the given date.
+fn leap_days_up_to(date: Date) -> i64 {
+    let y = i64::from(date.year()) - 1;
+
+    let in_this_year = is_leap_year(date.year()) && date.ordinal() >= 60;
+
+    y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + i64::from(in_this_year)
+}
+
 /// Function to check if Date is first day of the month.
 pub fn is_first_day_of_month(date: Date) -> bool {
     date.day() == 1
-- 
2.43.0


From 76467fbc6801bbc512cace9401ce055eea472a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 25/65] fix: 30U/360 moves the end date only if both dates are
 at the end of February

---
 crates/RustQuant_time/src/day_counting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 47ce935..b08efd0 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -319,7 +319,9 @@ impl DayCountConvention {
             d1 = 30;
         }
 
-        if d2 == 31 && d1 == 30 || is_last_day_of_february(end_date) {
+        if d2 == 31 && d1 == 30
+            || is_last_day_of_february(start_date) && is_last_day_of_february(end_date)
+        {
             d2 = 30;
         }
 
-- 
2.43.0


From 0daaddff1db906cd101eff845acc74f36370f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 26/65] fix: Act/Act AFB counts whole years back from the end
 date for every period

---
 crates/RustQuant_time/src/day_counting.rs | 45 +++++++++++++++--------
 crates/RustQuant_time/src/utilities.rs    |  5 +++
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index b08efd0..944ed04 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,9 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_day_count};
+use super::{
+    contains_leap_year, days_between, is_last_day_of_february, is_leap_day, leap_day_count,
+};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -128,24 +130,35 @@ impl DayCountConvention {
 
     // Actual/Actual AFB day count factor calculation.
     pub(crate) fn day_count_factor_actual_actual_afb(start_date: Date, end_date: Date) -> f64 {
-        let (y1, _y2) = (start_date.year(), end_date.year());
-        let (_m1, m2) = (start_date.month(), end_date.month());
-        let (_d1, d2) = (start_date.day(), end_date.day());
-
-        let stub_date = if Date::from_calendar_date(y1, m2, d2).unwrap() < start_date {
-            Date::from_calendar_date(y1 + 1, m2, d2).unwrap()
-        } else {
-            Date::from_calendar_date(y1, m2, d2).unwrap()
+        // The anniversary of the end date in the given year
+        // (the end of February is kept, whether or not the year is a leap year).
+        let anniversary = |year: i32| {
+            let day = match is_last_day_of_february(end_date) {
+                true => Month::February.length(year),
+                false => end_date.day(),
+            };
+
+            Date::from_calendar_date(year, end_date.month(), day).unwrap()
         };
 
-        let initial_stub_days = (stub_date - start_date).whole_days() as f64;
-        // let final_stub_days = (end_date - stub_date).whole_days() as f64;
-        let final_stub_years = (end_date.year() - stub_date.year()) as f64;
-        let initial_stub_contains_leap = contains_leap_year(start_date, stub_date);
+        // Whole years are counted back from the end date.
+        let mut stub_date = anniversary(start_date.year());
 
-        match initial_stub_contains_leap {
-            true => final_stub_years + initial_stub_days / 366.0,
-            false => (end_date - start_date).whole_days() as f64 / 365.0,
+        if stub_date < start_date {
+            stub_date = anniversary(start_date.year() + 1);
+        }
+
+        let years = (end_date.year() - stub_date.year()) as f64;
+        let stub_days = (stub_date - start_date).whole_days() as f64;
+
+        // 29th of February from the start date (included) to the stub date (excluded).
+        let stub_leap_days = leap_day_count(start_date, stub_date)
+            + i64::from(is_leap_day(start_date))
+            - i64::from(is_leap_day(stub_date));
+
+        match stub_leap_days > 0 {
+            true => years + stub_days / 366.0,
+            false => years + stub_days / 365.0,
         }
     }
 
diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 83cf4b7..437b540 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -149,6 +149,11 @@ fn leap_days_up_to(date: Date) -> i64 {
     y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + i64::from(in_this_year)
 }
 
+/// Function to check if date is a leap day (29th of February).
+pub fn is_leap_day(date: Date) -> bool {
+    date.month() == Month::February && date.day() == 29
+}
+
 /// Function to check if Date is first day of the month.
 pub fn is_first_day_of_month(date: Date) -> bool {
     date.day() == 1
-- 
2.43.0


From 00de8662465ebd376e3877d3c86a847bfe8b3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 27/65] fix: get_last_day_of_month returned the weekday of the
 next month's first day

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 437b540..8d492e6 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -218,7 +218,7 @@ pub fn get_first_day_of_month(year: i32, month: Month) -> Result<Weekday, Error>
 pub fn get_last_day_of_month(year: i32, month: Month) -> Result<Weekday, Error> {
     let date = Date::from_calendar_date(year, month, 1)?;
 
-    let last_day = date + Duration::days(month.length(year) as i64);
+    let last_day = date + Duration::days(month.length(year) as i64 - 1);
 
     Ok(last_day.weekday())
 }
-- 
2.43.0


From f664f0289f3f63e8b827142614be8b6d016f6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 28/65] fix: date_sequence panicked when the end date is before
 the start date

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 8d492e6..d223ce6 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -198,7 +198,7 @@ pub fn previous_business_day(date: Date, calendar: &Calendar) -> Date {
 
 /// Function to generate a sequence of dates from a start date, end date.
 pub fn date_sequence(start: Date, end: Date) -> Vec<Date> {
-    let mut dates = Vec::with_capacity((end - start).whole_days() as usize);
+    let mut dates = Vec::with_capacity((end - start).whole_days().max(0) as usize);
     let mut current_date = start;
 
     while current_date <= end {
-- 
2.43.0


From db0ee4cbc6722b9c40dce9ac1436cf2248efdd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 29/65] fix: semi-quarterly is 8 per year

---
 crates/RustQuant_time/src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/constants.rs b/crates/RustQuant_time/src/constants.rs
index d1b9775..b4fdf92 100644
--- a/crates/RustQuant_time/src/constants.rs
+++ b/crates/RustQuant_time/src/constants.rs
@@ -32,7 +32,7 @@ pub(crate) const ANNUALLY: isize = 1;
 pub(crate) const SEMI_ANNUALLY: isize = 2;
 pub(crate) const TRI_ANNUALLY: isize = 3;
 pub(crate) const QUARTERLY: isize = 4;
-pub(crate) const SEMI_QUARTERLY: isize = 6;
+pub(crate) const SEMI_QUARTERLY: isize = 8;
 pub(crate) const MONTHLY: isize = 12;
 pub(crate) const SEMI_MONTHLY: isize = 24;
 pub(crate) const BI_WEEKLY: isize = 26;
-- 
2.43.0


From 6b08749cfadaad49147fe27805c73ee0a9abd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 30/65] fix: every 25th of a month was a holiday in Singapore

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index dceb55d..cb49275 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -23,7 +23,7 @@ pub(crate) fn is_holiday_impl_singapore(date: Date) -> bool {
                 // National Day
                 || ((d == 9 || ((d == 10) && wd == Weekday::Monday)) && m == Month::August)
                 // Christmas Day
-                || (d == 25 || ((d == 26) && wd == Weekday::Monday) && m == Month::December)
+                || ((d == 25 || (d == 26 && wd == Weekday::Monday)) && m == Month::December)
                 // Chinese New Year
                 || is_chinese_new_year(y, m, d)
                 // Hari Raya Haji
-- 
2.43.0


From d3750870e7ec143b2259c3b518bf77a938173933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 31/65] fix: Vesak Day 2005 in Singapore is in May

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index cb49275..d789cce 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -138,7 +138,7 @@ fn is_vesak_day(year: i32, month: Month, day: u8) -> bool {
     matches!(
         (year, day, month),
         (2004, 2, June)
-            | (2005, 22..=23, October)
+            | (2005, 22..=23, May)
             | (2006, 12, May)
             | (2007, 31, May)
             | (2008, 19, May)
-- 
2.43.0


From dcea7d8a5ad7b8f08ad47c96223733592c91cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 32/65] fix: Chinese New Year 2014 in Singapore is 31 January
 and 1 February

---
 crates/RustQuant_time/src/countries/singapore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index d789cce..bea3162 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -57,7 +57,8 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 3..=4, February)
             | (2012, 23..=24, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1, January)
+            | (2014, 31, January)
+            | (2014, 1, February)
             | (2015, 19..=20, February)
             | (2016, 8..=9, February)
             | (2017, 28..=29, January)
-- 
2.43.0


From 6a5c27d7ae296b4bae48ef4c4adde225780f3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 33/65] fix: Lunar New Year 2014 in Hong Kong is 31 January, 1
 and 3 February

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index d952c00..cbc05ca 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -67,7 +67,8 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 2..=4, February)
             | (2012, 23..=25, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1 | 2, January)
+            | (2014, 31, January)
+            | (2014, 1 | 3, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
             | (2017, 28..=30, January)
-- 
2.43.0


From 5fd22dd55844254ca698b29a89a4a4797e1f0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 34/65] fix: Lunar New Year in Hong Kong lost its last day when
 New Year's Day is a Sunday

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index cbc05ca..c1c5154 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -59,14 +59,14 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 22..=24, January)
             | (2005, 9..=11, February)
-            | (2006, 28..=30, January)
-            | (2007, 17..=19, February)
+            | (2006, 28..=31, January)
+            | (2007, 17..=20, February)
             | (2008, 7..=9, February)
             | (2009, 26..=28, January)
-            | (2010, 13..=15, February)
+            | (2010, 13..=16, February)
             | (2011, 2..=4, February)
             | (2012, 23..=25, January)
-            | (2013, 10..=12, February)
+            | (2013, 10..=13, February)
             | (2014, 31, January)
             | (2014, 1 | 3, February)
             | (2015, 19..=21, February)
-- 
2.43.0


From f86044bfdab869c4719f50729e5e76db72e82888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 35/65] fix: New Year's Day was not a holiday in Argentina

---
 crates/RustQuant_time/src/countries/argentina.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/argentina.rs b/crates/RustQuant_time/src/countries/argentina.rs
index 5f15fe9..15f57aa 100644
--- a/crates/RustQuant_time/src/countries/argentina.rs
+++ b/crates/RustQuant_time/src/countries/argentina.rs
@@ -19,7 +19,9 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
 
     if
     // New Year's Day
-    is_christmas_day(date)
+    is_new_years_day(date)
+            // Christmas Day
+            || is_christmas_day(date)
             // Holy Thursday
             || (yd == em-4)
             // Good Friday
-- 
2.43.0


From 871f81fbc6d03ef62f3ec3c942d6aa3db9cbedaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 36/65] fix: Ascension and Pentecost in France move with Easter

---
 crates/RustQuant_time/src/countries/france.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/france.rs b/crates/RustQuant_time/src/countries/france.rs
index 7174890..49195d2 100644
--- a/crates/RustQuant_time/src/countries/france.rs
+++ b/crates/RustQuant_time/src/countries/france.rs
@@ -27,9 +27,9 @@ pub(crate) fn is_holiday_impl_france(date: Date) -> bool {
             // Victoire 1945
             || (d == 8 && m == Month::May)
             // Ascension
-            || (d == 10 && m == Month::May)
+            || (yd == em + 38)
             // Pentecote
-            || (d == 21 && m == Month::May)
+            || (yd == em + 49)
             // Fete nationale
             || (d == 14 && m == Month::July)
             // Assomption
-- 
2.43.0


From 7adc36ab15433e45257c6e5a53382ec625baa985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 37/65] fix: Adar II of a Hebrew leap year was read as Nisan in
 the Israeli calendar

---
 crates/RustQuant_time/src/countries/israel.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/israel.rs b/crates/RustQuant_time/src/countries/israel.rs
index 1ce3eae..ab68fc0 100644
--- a/crates/RustQuant_time/src/countries/israel.rs
+++ b/crates/RustQuant_time/src/countries/israel.rs
@@ -48,8 +48,15 @@ pub(crate) fn is_holiday_impl_israel(date: Date) -> bool {
     let mut hebrew_month = hebrew_date.month().ordinal as u8;
     let hebrew_day = hebrew_date.day_of_month().0 as u8;
 
-    if hebrew_date.is_in_leap_year() && hebrew_month > 7 {
-        hebrew_month -= 1;
+    // A leap year has an extra sixth month, Adar I, without holidays; the months
+    // from Adar II (the Adar of an ordinary year) onwards are shifted by one.
+    if hebrew_date.is_in_leap_year() {
+        if hebrew_month == 6 {
+            return false;
+        }
+        if hebrew_month > 6 {
+            hebrew_month -= 1;
+        }
     }
 
     // Check if the date is Independence Day or Memorial Day.
-- 
2.43.0


From 92d4c7d5a7402bba6376460f0ae57b8f75cf2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 38/65] fix: the Milstein scheme did not scale the noise by
 sqrt(dt) and misplaced the step of the derivative

---
 crates/RustQuant_stochastics/src/simulation.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 420b356..8aa906c 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -82,7 +82,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let mut dw: f64;
                 for t in 0..config.n_steps {
-                    dw = match noise_gen {
+                    dw = diffusion_scale * match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
                         NoiseGenerator::Fractional(_) => fraction_noise[t],
                     };
@@ -94,8 +94,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         * (stochastic_process.diffusion(path[t], times_ref[t])
                         * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2.0
-                                    * 1e-5)
+                                    / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-- 
2.43.0


From 998279c994b8a34814bbcfd77dfbf47d4a231a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 39/65] fix: the Strang splitting scheme did not scale the
 noise by sqrt(dt)

---
 crates/RustQuant_stochastics/src/simulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 8aa906c..3f31c0b 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -122,7 +122,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(
                             path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
                             times[t] + 0.5 * dt,
-                        ) * match noise_gen {
+                        ) * diffusion_scale * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
-- 
2.43.0


From a81e7b1239b502822002bebfda9e0564b803ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 40/65] fix: fractional noise, already scaled by dt^H, was
 scaled by sqrt(dt) again

---
 crates/RustQuant_stochastics/src/simulation.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 3f31c0b..15cbc31 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -59,8 +59,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     path.push(
                         path[t]
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
@@ -82,8 +82,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let mut dw: f64;
                 for t in 0..config.n_steps {
-                    dw = diffusion_scale * match noise_gen {
-                        NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                    dw = match noise_gen {
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(_) => fraction_noise[t],
                     };
                     path.push(
@@ -122,8 +122,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(
                             path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
                             times[t] + 0.5 * dt,
-                        ) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        ) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
-- 
2.43.0


From e0abf68ce8045114c9219489a1d66ee90e8279f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 41/65] fix: fractional noise was scaled to the end time
 instead of the length of the time interval

---
 crates/RustQuant_stochastics/src/simulation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 15cbc31..3afffcc 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -50,7 +50,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -75,7 +75,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -110,7 +110,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
-- 
2.43.0


From ea4f801b243f8bda5dd3fe0920d859de81c1d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 42/65] fix: seeded fractional paths were all the same path

---
 .../RustQuant_stochastics/src/simulation.rs   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 3afffcc..231f6f0 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -16,7 +16,7 @@ use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 enum NoiseGenerator {
     Dynamic(StdRng),
-    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64)),
+    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64), Option<u64>),
 }
 
 pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
@@ -49,8 +49,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -61,7 +61,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
                         + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                            NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
                             false => 0.0,
@@ -74,8 +74,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -84,7 +84,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                        NoiseGenerator::Fractional(_) => fraction_noise[t],
+                        NoiseGenerator::Fractional(..) => fraction_noise[t],
                     };
                     path.push(
                         path[t]
@@ -109,8 +109,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -124,7 +124,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                            NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
@@ -142,7 +142,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, config.seed.map(|s| s.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
@@ -150,7 +150,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, config.seed.map(|s| s.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
-- 
2.43.0


From d8f6d010e255f23e5cb13ef0936c3742925d1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 43/65] fix: the FFT method for fractional noise ignored the
 seed

---
 crates/RustQuant_stochastics/src/fractional_process.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 3b2e3a0..e206bc7 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -95,7 +95,7 @@ pub fn fgn_cholesky(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f6
 }
 
 /// Fractional Gaussian noise via FFT.
-pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
+pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
     if !(0.0..=1.0).contains(&hurst) {
         panic!("Hurst parameter must be between 0 and 1");
     }
@@ -125,9 +125,14 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
 
     sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
 
-    let rnd = Array1::<Complex<f64>>::random(
+    let mut rng = match seed {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => StdRng::from_entropy(),
+    };
+    let rnd = Array1::<Complex<f64>>::random_using(
         2 * n,
         ComplexDistribution::new(StandardNormal, StandardNormal),
+        &mut rng,
     );
     let fgn = &sqrt_eigenvalues * &rnd;
     let fft_handler = FftHandler::new(2 * n);
-- 
2.43.0


From 4fa1e4753fbc8b72d4af628b5b42b99eaeb5a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 44/65] fix: all paths of a jump process jumped at the same
 times, which ignored the seed

---
 .../RustQuant_stochastics/src/simulation.rs   | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 231f6f0..84e37e3 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -11,7 +11,6 @@ use rayon::prelude::*;
 use rand::prelude::Distribution;
 use rand::{rngs::StdRng, SeedableRng};
 use crate::process::{StochasticProcess, Trajectories, StochasticProcessConfig, StochasticScheme};
-use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 
 enum NoiseGenerator {
@@ -37,16 +36,27 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let normal_dist: rand_distr::Normal<f64> = rand_distr::Normal::new(0.0, 1.0).unwrap();
     let diffusion_scale: f64 = dt.sqrt();
 
-    let jumps: &[f64] = match jump_config {
-        Some(lambda) => {
-            &Poisson::new(lambda * dt).sample(config.n_steps).unwrap()
+    let base_seed: u64 = config.seed.unwrap_or_else(rand::random);
+
+    // Number of jumps in each time step of the i-th path, from a stream of its own.
+    let jump_counts = |i: usize| -> Vec<f64> {
+        match jump_config {
+            Some(lambda) => {
+                let seed = base_seed.wrapping_add((config.m_paths + i) as u64);
+
+                rand_distr::Poisson::new(lambda * dt)
+                    .unwrap()
+                    .sample_iter(StdRng::seed_from_u64(seed))
+                    .take(config.n_steps)
+                    .collect()
+            }
+            None => vec![],
         }
-        None => &vec![],
     };
 
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jumps: &[f64]| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
@@ -69,9 +79,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &[f64]) + Send + Sync>,
         StochasticScheme::Milstein => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jumps: &[f64]| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
@@ -103,9 +113,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &[f64]) + Send + Sync>,
         StochasticScheme::StrangSplitting => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jumps: &[f64]| {
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
@@ -133,19 +143,18 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &[f64]) + Send + Sync>,
     };
 
     let mut paths: Vec<Vec<f64>> = vec![vec![config.x_0]; config.m_paths];
 
-    let base_seed: u64 = config.seed.unwrap_or_else(rand::random);
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, config.seed.map(|s| s.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, &jump_counts(i));
         });
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
@@ -153,7 +162,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, config.seed.map(|s| s.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, &jump_counts(i));
         });
     }
 
-- 
2.43.0


From 6253c643cbe9331876e3b738acd84d6fde1317a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 45/65] fix: SimpleQuote::set_value stores the value it was
 given

Setting None left the old value in place (and the quote valid), and an
unset quote set to zero stayed unset.
---
 crates/RustQuant_cashflows/src/quotes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_cashflows/src/quotes.rs b/crates/RustQuant_cashflows/src/quotes.rs
index 7bc6894..d313807 100644
--- a/crates/RustQuant_cashflows/src/quotes.rs
+++ b/crates/RustQuant_cashflows/src/quotes.rs
@@ -54,8 +54,9 @@ impl SimpleQuote {
             _ => 0.0,
         };
 
+        self.value = value;
+
         if diff != 0.0 {
-            self.value = value;
             // Assuming notify_observers() function exists and does what it's supposed to
             // self.notify_observers();
         }
-- 
2.43.0


From 64976743dba38d74b6f23afc81ad1ed9d0843a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 46/65] fix: the B-spline basis includes the end of its range

With repeated end knots every basis function was zero at the last knot,
so interpolate returned 0 at the end of the range it accepts.
---
 crates/RustQuant_math/src/interpolation/b_splines.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/interpolation/b_splines.rs b/crates/RustQuant_math/src/interpolation/b_splines.rs
index 7381331..a81dda0 100644
--- a/crates/RustQuant_math/src/interpolation/b_splines.rs
+++ b/crates/RustQuant_math/src/interpolation/b_splines.rs
@@ -77,7 +77,12 @@ where
     /// Cox de Boor algorithm to evalute the spline curves.
     fn cox_de_boor(&self, point: IndexType, index: usize, degree: usize) -> ValueType {
         if degree == 0 {
-            return if point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]) {
+            // The last non-empty span is closed, so that the range includes its end.
+            let at_end = self.knots[index] < self.knots[index + 1]
+                && point == self.knots[index + 1]
+                && point == self.knots[self.knots.len() - 1];
+
+            return if point.ge(&self.knots[index]) && (point.lt(&self.knots[index + 1]) || at_end) {
                 ValueType::one()
             } else {
                 ValueType::zero()
-- 
2.43.0


From d704e299bb6e68947b262968f0ed764fbc0d63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 47/65] fix: keep the curve's interpolator in step with its
 nodes

After set_rate, set_rates or shift, rates between nodes were still
interpolated from the old nodes.
---
 crates/RustQuant_data/src/curves.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index bea485b..58565a8 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -207,6 +207,7 @@ impl Curve {
     /// Set a rate in the curve.
     pub fn set_rate(&mut self, date: Date, rate: f64) {
         self.nodes.insert(date, rate);
+        self.refresh_interpolator();
     }
 
     /// Set multiple rates in the curve.
@@ -279,6 +280,7 @@ impl Curve {
         for value in self.nodes.values_mut() {
             *value += shift;
         }
+        self.refresh_interpolator();
     }
 
     /// Plot the curve.
@@ -340,6 +342,26 @@ impl CostFunction for Curve {
 }
 
 impl Curve {
+    /// Rebuild the interpolator from the nodes, after they have changed.
+    fn refresh_interpolator(&mut self) {
+        let dates = self.nodes.keys().cloned().collect::<Vec<Date>>();
+        let rates = self.nodes.values().cloned().collect::<Vec<f64>>();
+
+        match self.interpolation_method {
+            InterpolationMethod::Linear => {
+                if let Ok(interpolator) = LinearInterpolator::new(dates, rates) {
+                    self.interpolator = Arc::new(interpolator);
+                }
+            }
+            InterpolationMethod::Exponential => {
+                if let Ok(interpolator) = ExponentialInterpolator::new(dates, rates) {
+                    self.interpolator = Arc::new(interpolator);
+                }
+            }
+            InterpolationMethod::CubicSpline | InterpolationMethod::Lagrange => {}
+        }
+    }
+
     /// Fit a Nelson-Siegel-Svensson curve to the data.
     fn fit_nss(&mut self) -> Result<(), argmin::core::Error> {
         const CURVE_OPTIM_MAX_ITER: u64 = 69;
-- 
2.43.0


From aee4f29702f87b199e92652be26a65d2b066ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 48/65] fix: the scalar gaussian activation is exp(-x^2), not
 exp(x^2)

---
 crates/RustQuant_ml/src/activations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 9b3d8da..65aaa24 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -127,7 +127,7 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn gaussian(&self) -> Self {
-        (f64::powi(-self, 2)).exp()
+        (-f64::powi(*self, 2)).exp()
     }
 }
 
-- 
2.43.0


From 6ee9650a576218dfd14d9db32e8131b688493522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 49/65] fix: the real FFT returns the magnitudes of the
 transform

---
 crates/RustQuant_math/src/fft.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_math/src/fft.rs b/crates/RustQuant_math/src/fft.rs
index 79bc244..5b018fe 100644
--- a/crates/RustQuant_math/src/fft.rs
+++ b/crates/RustQuant_math/src/fft.rs
@@ -70,25 +70,14 @@ fn check_vec_length<T>(x: &[T]) {
     );
 }
 
-/// Real fourier transform in place
+/// Real fourier transform in place: the magnitudes of the transform
 fn fft_real_calculation(x: &mut [f64]) {
-    let n = x.len();
-    if n == 1 {
-        return;
-    }
+    let mut transform: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v, 0.0)).collect();
 
-    let (mut even, mut odd) = split_array(x);
+    fft_complex_calculation(&mut transform);
 
-    fft_real_calculation(&mut even);
-    fft_real_calculation(&mut odd);
-
-    for k in 0..(n / 2) {
-        let t = Complex::new(0.0, -2.0 * PI * (k as f64) / (n as f64))
-            .exp()
-            .norm()
-            * odd[k];
-        x[k] = even[k] + t;
-        x[n / 2 + k] = even[k] - t;
+    for (x_value, t) in x.iter_mut().zip(transform) {
+        *x_value = t.norm();
     }
 }
 
-- 
2.43.0


From 17892f5498562ebf8c960bf8d7d456092c4707f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 50/65] fix: gradient descent reports the value of the function
 at the minimizer

---
 crates/RustQuant_math/src/optimization/gradient_descent.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/optimization/gradient_descent.rs b/crates/RustQuant_math/src/optimization/gradient_descent.rs
index 6db87ba..dace789 100644
--- a/crates/RustQuant_math/src/optimization/gradient_descent.rs
+++ b/crates/RustQuant_math/src/optimization/gradient_descent.rs
@@ -190,8 +190,6 @@ impl GradientDescent {
                 .zip(&gradient)
                 .for_each(|(xi, gi)| *xi = *xi - self.learning_rate * gi);
 
-            result.minimum = f(&location).value;
-
             if verbose {
                 println!(
                     "Iter: {:?}, Norm: {}, Func: {:.4?}, X: {:.4?}",
@@ -213,6 +211,10 @@ impl GradientDescent {
             // }
         }
 
+        // The value at the minimizer (the last location may be behind it).
+        let graph = Graph::new();
+        result.minimum = f(&graph.vars(&result.minimizer)).value;
+
         result.elapsed = start.elapsed();
         result
     }
-- 
2.43.0


From 3f85b4fc032bf6192af0213fd1bfbed390624905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 51/65] fix: logistic regression refuses responses other than 0
 and 1

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e4ba950..e456f6d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -93,7 +93,7 @@ impl LogisticRegressionInput<f64> {
         if self
             .y
             .iter()
-            .any(|&x| x.abs() < f64::EPSILON && (x - 1.0).abs() < f64::EPSILON)
+            .any(|&x| x.abs() >= f64::EPSILON && (x - 1.0).abs() >= f64::EPSILON)
         {
             return Err("The elements of the response vector should be either 0 or 1.");
         }
-- 
2.43.0


From 947eba3444c7527d04e7312ba5a6f0eb0e46e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 52/65] fix: logistic regression stops as separable only when
 every response is fitted

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e456f6d..0ab7947 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -201,7 +201,7 @@ impl LogisticRegressionInput<f64> {
                     let diag_entries = &mu.component_mul(&(&ones_samples - &mu));
 
                     // Break if data turns out to be linearly separable.
-                    if (&y - &mu).max() < tolerance {
+                    if (&y - &mu).amax() < tolerance {
                         break;
                     }
 
-- 
2.43.0


From ee5fa37ea2a2de989ef67856067d355e142a3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 53/65] fix: logistic regression starts from zero when the
 class means coincide

---
 crates/RustQuant_ml/src/logistic_regression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 0ab7947..f01cd25 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -141,7 +141,11 @@ impl LogisticRegressionInput<f64> {
         let mid = x1_mean * y_mean + x0_mean * (1. - y_mean);
 
         //compute projection of weighted mean of class on direction delta
-        let scaler = mid.dot(&delta) / delta.magnitude_squared();
+        let scaler = if delta.magnitude_squared() > 0. {
+            mid.dot(&delta) / delta.magnitude_squared()
+        } else {
+            0.
+        };
         let dir = delta * scaler;
 
         // <dir,x>=|dir|^2 is the plane orthogonal to dir with distance |dir| from the origin
-- 
2.43.0


From 972e62eb38d071ee0e533effd39b94ddc23f00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 54/65] fix: logistic regression always makes a step from its
 initial guess

---
 crates/RustQuant_ml/src/logistic_regression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index f01cd25..09bda3d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -177,7 +177,8 @@ impl LogisticRegressionInput<f64> {
         let ones_features = DVector::from_element(n_cols, 1.);
 
         // Vector of coefficients that we update each iteration.
-        let mut coefs = DVector::zeros(n_cols);
+        // Starts away from the initial guess, so that at least one step is made.
+        let mut coefs = DVector::from_element(n_cols, f64::INFINITY);
 
         match method {
             // MAXIMUM LIKELIHOOD ESTIMATION
-- 
2.43.0


From cd726199418d565c958ca4bea6ecf4b70e1f0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 55/65] fix: the cross-entropy score is the negated mean
 log-likelihood

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 09bda3d..64f87c2 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -283,7 +283,7 @@ impl LogisticRegressionOutput<f64> {
         let log_p_complement = p_complement.map(f64::ln);
 
         // Cross-entropy
-        (y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
+        -(y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
     }
 }
 
-- 
2.43.0


From 59981603d9a897c3bde3985178b1077658db1b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 56/65] fix: bisection returns the midpoint it stops at, also
 when the function is tiny but positive there

---
 crates/RustQuant_math/src/rootfinding/bisection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/rootfinding/bisection.rs b/crates/RustQuant_math/src/rootfinding/bisection.rs
index abcad7a..4199a9f 100644
--- a/crates/RustQuant_math/src/rootfinding/bisection.rs
+++ b/crates/RustQuant_math/src/rootfinding/bisection.rs
@@ -65,7 +65,7 @@ where
             f_mid = self.value(x_mid);
             self.data.increment_evaluation_count();
 
-            if f_mid <= 0.0 {
+            if f_mid <= 0.0 || RootfinderData::close(f_mid, 0.0) {
                 self.data.root = x_mid;
             }
             if dx.abs() < self.data.accuracy || RootfinderData::close(f_mid, 0.0) {
-- 
2.43.0


From c745701e7b9f2de1a099c7671fc1fc0565fda5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 57/65] fix: implied volatility of a Black-Scholes-Merton
 option uses its cost of carry

---
 .../src/options/black_scholes_merton.rs                  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 4b95d9b..880aa12 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -141,11 +141,16 @@ impl BlackScholesMerton {
 
     /// Implied volatility.
     pub fn implied_volatility(&self, price: f64) -> f64 {
+        let T = self.year_fraction();
+
+        // The forward price of the underlying grows at the cost of carry.
+        let S = self.underlying_price * ((self.cost_of_carry - self.risk_free_rate) * T).exp();
+
         crate::options::implied_volatility(
             price,
-            self.underlying_price,
+            S,
             self.strike_price,
-            self.year_fraction(),
+            T,
             self.risk_free_rate,
             self.option_type,
         )
-- 
2.43.0


From b030313e3fb5473a03c0b83cc21dcd9469da5f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:48 +0000
Subject: [PATCH 58/65] fix: third-order step of the implied volatility search
 for middle prices

---
 crates/RustQuant_instruments/src/options/implied_volatility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/implied_volatility.rs b/crates/RustQuant_instruments/src/options/implied_volatility.rs
index d69ead7..2399eb7 100644
--- a/crates/RustQuant_instruments/src/options/implied_volatility.rs
+++ b/crates/RustQuant_instruments/src/options/implied_volatility.rs
@@ -998,7 +998,7 @@ pub(crate) fn unchecked_normalised_implied_volatility_from_a_transformed_rationa
             s_left = s; // Tighten the bracket if applicable.
         }
         let newton = (beta - b) / bp;
-        let halley = f64::powi(x / s, 2) - s / 4.0;
+        let halley = f64::powi(x / s, 2) / s - s / 4.0;
         let hh3 = halley * halley - 3.0 * f64::powi(x / (s * s), 2) - 0.25;
 
         ds = newton * householder_factor(newton, halley, hh3);
-- 
2.43.0


From dfe2aaedf061d5bdeee2cf54dd0449889f51ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 59/65] fix: finite differences exercise an American option
 early whatever its exercise window

---
 .../src/options/finite_difference_pricer.rs    | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index fdd6f14..e7462f4 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -275,11 +275,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
@@ -313,11 +309,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
@@ -357,11 +349,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_future_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
-- 
2.43.0


From 36bc6574af83c505188105f3994cf9c99d98cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 60/65] fix: boundary values of the finite difference grid
 compounded like its solution

---
 .../src/options/finite_difference_pricer.rs                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index e7462f4..a700cfc 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -207,11 +207,11 @@ impl FiniteDifferencePricer {
     }
 
     fn call_boundary(&self, tau: f64, x_max: f64) -> f64 {
-        f64::exp(x_max) - self.strike_price * f64::exp(-self.risk_free_rate * tau)
+        f64::exp(x_max + self.risk_free_rate * tau) - self.strike_price
     }
 
     fn put_boundary(&self, tau: f64, x_min: f64) -> f64 {
-        self.strike_price * f64::exp(-self.risk_free_rate * tau) - f64::exp(x_min)
+        self.strike_price - f64::exp(x_min + self.risk_free_rate * tau)
     }
 
     fn year_fraction(&self) -> f64 {
-- 
2.43.0


From 5b93099a5e4112a5433f3f83e3f5a576accb38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 61/65] fix: Longstaff-Schwartz discounts payoffs over the
 first time step too

---
 crates/RustQuant_instruments/src/options/longstaff_schwartz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
index a09ed89..1077135 100644
--- a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
+++ b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
@@ -136,7 +136,7 @@ impl LongstaffScwhartzPricer {
                 }
             }
         }
-        payoffs.iter().sum::<f64>() / self.num_simulations as f64
+        self.discount(delta_t) * payoffs.iter().sum::<f64>() / self.num_simulations as f64
     }
 
     fn create_laguerre_matrix(&self, in_the_money_assets: &[f64]) -> DMatrix<f64> {
-- 
2.43.0


From 914e04228b93fb52e1f5214a02484240265bb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 62/65] fix: Ho-Lee process accepts a negative drift

theta(t) is fitted to the initial curve and is negative wherever the curve
slopes down far enough; the drift panicked there.
---
 crates/RustQuant_stochastics/src/ho_lee.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/RustQuant_stochastics/src/ho_lee.rs b/crates/RustQuant_stochastics/src/ho_lee.rs
index 3401156..ad33e74 100644
--- a/crates/RustQuant_stochastics/src/ho_lee.rs
+++ b/crates/RustQuant_stochastics/src/ho_lee.rs
@@ -31,7 +31,6 @@ impl HoLee {
 
 impl StochasticProcess for HoLee {
     fn drift(&self, _x: f64, t: f64) -> f64 {
-        assert!(self.theta.0(t) >= 0.0);
         (self.theta.0)(t)
     }
 
-- 
2.43.0


From 753e838e914ef549482ef4facec2b51ebaf3d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:32 +0000
Subject: [PATCH 63/65] fix: Bachelier implied volatility at the money

---
 crates/RustQuant_instruments/src/options/option_models.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index ddd128d..121d31b 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1078,7 +1078,8 @@ mod bachelier {
     #[inline]
     pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
         let v = (f - k).abs() / (2. * price - (f - k));
-        let eta = v / v.atanh();
+        // At the money the ratio tends to one.
+        let eta = if v == 0.0 { 1.0 } else { v / v.atanh() };
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1101,7 +1102,8 @@ mod bachelier {
     #[inline]
     pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
         let v = (f - k).abs() / (2. * price + (f - k));
-        let eta = v / v.atanh();
+        // At the money the ratio tends to one.
+        let eta = if v == 0.0 { 1.0 } else { v / v.atanh() };
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
-- 
2.43.0


From d774805fa4253b095652cff62e39591f457827cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 64/65] fix: Bachelier at-the-money and implied volatility of
 discounted prices

---
 crates/RustQuant_instruments/src/options/option_models.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 121d31b..c875041 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1038,7 +1038,7 @@ mod bachelier {
     }
 
     #[inline]
-    fn df(r: f64, t: f64) -> f64 {
+    pub(crate) fn df(r: f64, t: f64) -> f64 {
         (-r * t).exp()
     }
 
@@ -1183,16 +1183,18 @@ impl Bachelier {
 
     /// ATM price of a European option using the Bachelier model.
     pub fn atm_price(&self, t: f64) -> f64 {
-        bachelier::atm_price(t, self.v)
+        bachelier::df(self.r, t) * bachelier::atm_price(t, self.v)
     }
 
     /// ATM volatility of a European option using the Bachelier model.
     pub fn atm_vol(&self, price: f64, t: f64) -> f64 {
-        bachelier::atm_vol(price, t)
+        bachelier::atm_vol(price / bachelier::df(self.r, t), t)
     }
 
     /// Implied volatility of a European option using the Bachelier model.
     pub fn iv(&self, price: f64, k: f64, t: f64, option_type: TypeFlag) -> f64 {
+        let price = price / bachelier::df(self.r, t);
+
         match option_type {
             TypeFlag::Call => bachelier::call_iv(price, self.f, k, t),
             TypeFlag::Put => bachelier::put_iv(price, self.f, k, t),
-- 
2.43.0


From 06473da26851c8a22dcbd141dbe8ec31f0b1d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:45 +0000
Subject: [PATCH 65/65] fix: chi-squared cdf at the origin and quantiles near
 it

cdf(0) panicked (the incomplete gamma function takes positive arguments
only; for one degree of freedom zero was refused), and with it every
quantile whose search bisects down towards the origin, and level 0.
---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index c62be91..ae836d2 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -122,7 +122,12 @@ impl Distribution for ChiSquared {
     /// assert_approx_equal!(chi.cdf(1.0), 0.6826895, 1e-7);
     ///
     fn cdf(&self, x: f64) -> f64 {
-        assert!(if self.k == 1 { x > 0.0 } else { x >= 0.0 });
+        assert!(x >= 0.0);
+
+        // The incomplete gamma function takes positive arguments only.
+        if x == 0.0 {
+            return 0.0;
+        }
 
         let k = self.k;
 
@@ -143,6 +148,9 @@ impl Distribution for ChiSquared {
         assert!((0.0..=1.0).contains(&p));
 
         let k = self.k as f64;
+        if p == 0.0 {
+            return 0.0;
+        }
         if p == 1.0 {
             return f64::INFINITY;
         }
-- 
2.43.0

