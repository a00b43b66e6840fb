From 7cce8bdf7ab8ba0dd55178a7766f712ff86a48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 01/30] fix: center the median of symmetric beta distributions
 in their support

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..895451f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            0.5 * (self.a + self.b)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From 421292f05c1469c26684dda7ba2d6fe138050861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 02/30] fix: keep the logistic density finite in the left tail

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..d15b2b1 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,7 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 3b860e70326aed7b128c658a62a9f0950e947609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 03/30] fix: ignore impossible categories in the categorical
 entropy

---
 src/distribution/categorical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From faea1b02aaebc3bd119366afdd3c60f999346b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 04/30] fix: reach unit cumulative probability at the last
 possible category

---
 src/distribution/categorical.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..1f6ed3f 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -26,10 +26,14 @@ impl Categorical {
 
         let k = p.len();
         let mut cumsum = p.to_vec();
-        for i in 1..(k - 1) {
-            cumsum[i] += cumsum[i - 1];
+        for i in 1..k {
+            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);
+        }
+        // Absorb rounding errors starting from the last possible category.
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap();
+        for sum in &mut cumsum[last..] {
+            *sum = 1.0;
         }
-        cumsum[k - 1] = 1.0;
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From 0508afd503f2f18ff9b9eefec292c9f7a91a795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 05/30] fix: return zero binomial mass outside the support only

The mass beyond n was NaN, and failure probabilities below the machine
epsilon made it zero for all outcomes other than n.
---
 src/distribution/binomial.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..fd9cd6f 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -88,11 +88,8 @@ impl distribution::Discrete for Binomial {
     fn mass(&self, x: usize) -> f64 {
         use core::f64::consts::PI;
 
-        if self.p == 0.0 {
-            return if x == 0 { 1.0 } else { 0.0 };
-        }
-        if self.p == 1.0 {
-            return if x == self.n { 1.0 } else { 0.0 };
+        if x > self.n {
+            return 0.0;
         }
 
         let n = self.n as f64;
-- 
2.43.0


From 2bc049cf80bfc907da0099739143815820005b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 06/30] fix: do not truncate the number of binomial trials to
 32 bits

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index fd9cd6f..880b967 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -123,7 +123,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From f8a131fdb2723481e032e456f4514c593b489686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 07/30] fix: skip practically impossible outcomes in the
 binomial entropy

Masses that underflow turned the sum into NaN, and for large n the sum
was over all outcomes.
---
 src/distribution/binomial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 880b967..db5af41 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -142,7 +142,14 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            // The outcomes this far from the mean are practically impossible.
+            const RADIUS: f64 = 1000.0;
+            let low = (self.np - RADIUS) as usize;
+            let high = ((self.np + RADIUS) as usize).min(self.n);
+            -(low..=high)
+                .map(|i| self.mass(i))
+                .filter(|&p| p > 0.0)
+                .fold(0.0, |sum, p| sum + p * p.ln())
         }
     }
 }
-- 
2.43.0


From 56bcafcd27305077c7660627dfd3955b7d3c5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 08/30] fix: bisect for binomial quantiles when Newton's method
 diverges

Outside the bulk of the distribution, the steps overshot the support and
then became infinite or were damped into an arbitrary outcome.
---
 src/distribution/binomial.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index db5af41..6e2af9d 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -73,6 +73,21 @@ impl Binomial {
     pub fn q(&self) -> f64 {
         self.q
     }
+
+    // Find the smallest outcome whose cumulative probability is at least `p`.
+    fn search(&self, p: f64) -> usize {
+        use distribution::Distribution;
+        let (mut low, mut high) = (0, self.n);
+        while low < high {
+            let middle = low + (high - low) / 2;
+            if self.distribution(middle as f64) < p {
+                low = middle + 1;
+            } else {
+                high = middle;
+            }
+        }
+        low
+    }
 }
 
 impl distribution::Discrete for Binomial {
@@ -159,7 +174,7 @@ impl distribution::Inverse for Binomial {
     ///
     /// For small `n`, a simple summation is utilized. For large `n` and large
     /// variances, a normal asymptotic approximation is used. Otherwise,
-    /// Newton’s method is employed.
+    /// Newton’s method is employed with bisection as a fallback.
     ///
     /// ## References
     ///
@@ -217,14 +232,15 @@ impl distribution::Inverse for Binomial {
             const ALPHA: f64 = 0.999;
             let mut q = self.modes()[0] as f64;
             let mut alpha = 1.0;
-            loop {
-                let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
+            while alpha > 0.9 && (0.0..=self.n as f64).contains(&q) {
+                let delta = (p - self.distribution(q)) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
                     return q as usize;
                 }
-                q += delta;
+                q += alpha * delta;
                 alpha *= ALPHA;
             }
+            self.search(p)
         }
     }
 }
-- 
2.43.0


From 1dd64fc5500af3a6e5259f9f33eeb77e3d57524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 09/30] fix: terminate the summation for binomial quantiles

The summation did not move when its first term underflowed and could run
past the last outcome due to rounding errors.
---
 src/distribution/binomial.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 6e2af9d..c313595 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -182,6 +182,7 @@ impl distribution::Inverse for Binomial {
     ///    distribution function where the number of trials is large,” Oxford
     ///    University, 2013.
     fn inverse(&self, p: f64) -> usize {
+        use core::f64::MIN_POSITIVE;
         use distribution::{Discrete, Distribution, Modes};
 
         should!((0.0..=1.0).contains(&p));
@@ -190,8 +191,11 @@ impl distribution::Inverse for Binomial {
             ($prod_term: expr) => ({
                 let mut k = 1;
                 let mut a = self.q.powi(self.n as i32);
+                if a < MIN_POSITIVE {
+                    return self.search(p);
+                }
                 let mut sum = a - p;
-                while sum < 0.0 {
+                while sum < 0.0 && k <= self.n {
                     a *= $prod_term(k);
                     sum += a;
                     k += 1;
@@ -203,8 +207,11 @@ impl distribution::Inverse for Binomial {
             ($prod_term: expr) => ({
                 let mut k = 1;
                 let mut a = self.p.powi(self.n as i32);
+                if a < MIN_POSITIVE {
+                    return self.search(p);
+                }
                 let mut sum = (1.0 - p) - a;
-                while sum >= 0.0 {
+                while sum >= 0.0 && k <= self.n {
                     a *= $prod_term(k);
                     sum -= a;
                     k += 1;
-- 
2.43.0


From e8ef9f477d561aefc63b4b047eea0b5ab20e90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 10/30] fix: do not round the binomial mean to the median when
 the latter differs

Being close to zero or one does not imply for the success probability
that the median is the rounded mean, and for large variances the median
is not always the floor of the mean.
---
 src/distribution/binomial.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index c313595..5420448 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -268,21 +268,12 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
-        use distribution::Inverse;
-
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
         } else {
-            self.inverse(0.5) as f64
+            self.search(0.5) as f64
         }
     }
 }
-- 
2.43.0


From 5f82562252877d8c100f9d76be3cceaf6f11711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 11/30] fix: correct the normal approximation of binomial
 quantiles

Two parentheses were misplaced in the expansion by Moorhead: quantiles
were off by 14 outcomes in the bulk and by hundreds in the tails. Where
the expansion is close to an integer, let the distribution function
decide.
---
 src/distribution/binomial.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 5420448..d9eec05 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -233,7 +233,16 @@ impl distribution::Inverse for Binomial {
             }
         } else if self.npq > 80.0 {
             // Use a normal approximation.
-            inverse_normal(self.p, self.np, self.npq, p).floor() as usize
+            let x = inverse_normal(self.p, self.np, self.npq, p);
+            let k = (x.round() as usize).min(self.n);
+            if (x - x.round()).abs() > 0.01 || k == 0 {
+                (x.floor() as usize).min(self.n)
+            } else if self.distribution((k - 1) as f64) < p {
+                // The approximation cannot tell which side of `k` it is on.
+                k
+            } else {
+                k - 1
+            }
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
@@ -342,9 +351,11 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     sd * w +
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
-    sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em1 * (
+        w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
+        w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0
+    ) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
-- 
2.43.0


From 27c0cb3f6c8e3faaeab7bd29bee7ab9d3505213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 12/30] fix: draw binomial samples from exact quantiles for
 small variances

For large n and small variances, the quantiles are rounded to the nearest
probability, which shifted samples by half an outcome on average.
---
 src/distribution/binomial.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index d9eec05..a76548e 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -309,7 +309,13 @@ impl distribution::Sample for Binomial {
         S: Source,
     {
         use distribution::Inverse;
-        self.inverse(source.read::<f64>())
+        let p = source.read::<f64>();
+        if self.n >= 1000 && self.npq <= 80.0 {
+            // The rounding of Newton’s method in `inverse` would be biased.
+            self.search(p)
+        } else {
+            self.inverse(p)
+        }
     }
 }
 
-- 
2.43.0


From 54abb18b30316ded851381a656456507e1a26182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 13/30] fix: compute the gamma density in the logarithmic space

The powers and the gamma function overflowed for shapes of a few dozens
and above, and the density at infinity was NaN.
---
 src/distribution/gamma.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..d62430e 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_gamma: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_gamma: k.ln_gamma().0,
         }
     }
 
@@ -44,10 +44,11 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x <= 0.0 || x.is_infinite() {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            let ln_theta = self.theta.ln();
+            ((self.k - 1.0) * (x.ln() - ln_theta) - x / self.theta - self.ln_gamma - ln_theta).exp()
         }
     }
 }
-- 
2.43.0


From b1fc5308bcd03b0d75487ccc270ca01177c04a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 14/30] fix: keep the beta density finite at the endpoints for
 unit shapes

---
 src/distribution/beta.rs | 11 +++++++++--
 src/distribution/pert.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 895451f..08a3501 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,15 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            let mut ln_density = -self.ln_beta;
+            // Avoid multiplying zero by infinity at the endpoints.
+            if self.alpha != 1.0 {
+                ln_density += (self.alpha - 1.0) * x.ln();
+            }
+            if self.beta != 1.0 {
+                ln_density += (self.beta - 1.0) * (-x).ln_1p();
+            }
+            ln_density.exp() / scale
         }
     }
 }
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..f64b66c 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -75,8 +75,15 @@ impl distribution::Continuous for Pert {
         } else {
             let scale = self.c - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            let mut ln_density = -self.ln_beta;
+            // Avoid multiplying zero by infinity at the endpoints.
+            if self.alpha != 1.0 {
+                ln_density += (self.alpha - 1.0) * x.ln();
+            }
+            if self.beta != 1.0 {
+                ln_density += (self.beta - 1.0) * (-x).ln_1p();
+            }
+            ln_density.exp() / scale
         }
     }
 }
-- 
2.43.0


From 851f1a7c6977149ed4cf1eda33afb7c5f682f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 15/30] fix: avoid squaring the scale of Gaussian distributions

The square underflowed or overflowed, and the density became NaN, and
the entropy infinite.
---
 src/distribution/gaussian.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 63cb259..7dcf974 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -51,7 +51,7 @@ impl Default for Gaussian {
 
 impl distribution::Continuous for Gaussian {
     fn density(&self, x: f64) -> f64 {
-        (-(x - self.mu).powi(2) / (2.0 * self.sigma * self.sigma)).exp() / self.norm
+        (-0.5 * ((x - self.mu) / self.sigma).powi(2)).exp() / self.norm
     }
 }
 
@@ -69,7 +69,7 @@ impl distribution::Entropy for Gaussian {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::{E, PI};
-        0.5 * (2.0 * PI * E * self.sigma * self.sigma).ln()
+        0.5 * (2.0 * PI * E).ln() + self.sigma.ln()
     }
 }
 
-- 
2.43.0


From 5fabb2044d54c383353b689d58d214b7b8625115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 16/30] fix: avoid underflow in the lognormal density

---
 src/distribution/lognormal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..99d67fc 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -54,7 +54,8 @@ impl distribution::Continuous for Lognormal {
             0.0
         } else {
             let &Lognormal { mu, sigma, .. } = self;
-            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (x * sigma * (2.0 * PI).sqrt())
+            let ln = x.ln();
+            (-0.5 * ((ln - mu) / sigma).powi(2) - ln).exp() / (sigma * (2.0 * PI).sqrt())
         }
     }
 }
-- 
2.43.0


From 242d30d258340c6cdae2567a6a13bb1d6332dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 17/30] fix: avoid overflow in the lognormal entropy

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 99d67fc..e1f1c51 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -76,7 +76,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        self.mu + 0.5 + (self.sigma * (2.0 * PI).sqrt()).ln()
     }
 }
 
-- 
2.43.0


From bd53887ba840867a0a1e9043df6458bcfa5f1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 18/30] fix: avoid cancellation and overflow in the lognormal
 moments

For small scales, the variance, skewness, and kurtosis degenerated to
zero or noise.
---
 src/distribution/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index e1f1c51..440ccf6 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -90,7 +90,7 @@ impl distribution::Kurtosis for Lognormal {
     #[inline]
     fn kurtosis(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (4.0 * s2).exp() + 2.0 * (3.0 * s2).exp() + 3.0 * (2.0 * s2).exp() - 6.0
+        (4.0 * s2).exp_m1() + 2.0 * (3.0 * s2).exp_m1() + 3.0 * (2.0 * s2).exp_m1()
     }
 }
 
@@ -128,8 +128,8 @@ impl distribution::Sample for Lognormal {
 impl distribution::Skewness for Lognormal {
     #[inline]
     fn skewness(&self) -> f64 {
-        let es2 = (self.sigma * self.sigma).exp();
-        (es2 - 1.0).sqrt() * (2.0 + es2)
+        let s2 = self.sigma * self.sigma;
+        s2.exp_m1().sqrt() * (2.0 + s2.exp())
     }
 }
 
@@ -137,7 +137,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        -(-s2).exp_m1() * (2.0 * (self.mu + s2)).exp()
     }
 }
 
-- 
2.43.0


From 228cb3b3f2d49f56aa2188c6584196e71e703337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 19/30] fix: avoid cancellation in the variance and skewness of
 triangular distributions

Expanded in powers of the endpoints, they were noise when the location is
large compared to the width.
---
 src/distribution/triangular.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..4430c45 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,9 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        let (left, right) = ((c - a) / (b - a), (b - c) / (b - a));
+        let npart = (right - left) * (2.0 * left + right) * (left + 2.0 * right);
+        let dpart = left * left + left * right + right * right;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +166,8 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        let (left, right) = (c - a, b - c);
+        (left * left + left * right + right * right) / 18.0
     }
 }
 
-- 
2.43.0


From 2759aa723abed58256c8e460d9ebf93bb85d69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 20/30] fix: compute beta quantiles by bisection

The inverse of the incomplete beta function hung or panicked for small
probabilities and small or uneven shapes.
---
 src/distribution/beta.rs | 26 ++++++++++++++++++++++++--
 src/distribution/pert.rs |  4 ++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 08a3501..c0a19e1 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -107,9 +107,8 @@ impl distribution::Entropy for Beta {
 impl distribution::Inverse for Beta {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        self.a + (self.b - self.a) * inverse(p, self.alpha, self.beta, self.ln_beta)
     }
 }
 
@@ -194,6 +193,29 @@ impl distribution::Variance for Beta {
     }
 }
 
+/// Compute the inverse of the cumulative distribution function of the standard
+/// beta distribution.
+///
+/// The bisection is over the representations of floating-point numbers, which
+/// are ordered as the numbers are, so that quantiles close to zero are resolved
+/// as well as the others.
+pub fn inverse(p: f64, alpha: f64, beta: f64, ln_beta: f64) -> f64 {
+    use special::Beta;
+    if p == 0.0 || p == 1.0 {
+        return p;
+    }
+    let (mut low, mut high) = (0f64.to_bits(), 1f64.to_bits());
+    while low + 1 < high {
+        let middle = low + (high - low) / 2;
+        if f64::from_bits(middle).inc_beta(alpha, beta, ln_beta) < p {
+            low = middle;
+        } else {
+            high = middle;
+        }
+    }
+    f64::from_bits(high)
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index f64b66c..8a769ce 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -117,9 +117,9 @@ impl distribution::Entropy for Pert {
 impl distribution::Inverse for Pert {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
+        use distribution::beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.c - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        self.a + (self.c - self.a) * beta::inverse(p, self.alpha, self.beta, self.ln_beta)
     }
 }
 
-- 
2.43.0


From 22e7f89b3f953592fd56f1eb3d79009d9a04cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 21/30] fix: avoid overflow when the summation for binomial
 quantiles ends at zero

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a76548e..89d31be 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -216,7 +216,7 @@ impl distribution::Inverse for Binomial {
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
-- 
2.43.0


From 0919eea28ecfd72652f5a65fe819aca05b5f1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 22/30] fix: do not sum top-down for small probabilities of
 binomial quantiles

The complement of a probability below the machine epsilon is one, so that
the quantiles of such probabilities were arbitrary.
---
 src/distribution/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 89d31be..0760b27 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -225,8 +225,8 @@ impl distribution::Inverse for Binomial {
         } else if p == 1.0 {
             self.n
         } else if self.n < 1000 {
-            // Find if top-down or bottom-up summation is better.
-            if p <= self.distribution((self.n / 2) as f64) {
+            // The complement of a small probability would lose its digits.
+            if p <= 0.5 {
                 sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
-- 
2.43.0


From 73354c9817980ea152273aaba8ac074490e9af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 23/30] fix: bisect for binomial quantiles outside the reach of
 the approximation

---
 src/distribution/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 0760b27..95d6a84 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -231,6 +231,9 @@ impl distribution::Inverse for Binomial {
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
             }
+        } else if self.npq > 80.0 && !(1e-9..=1.0 - 1e-9).contains(&p) {
+            // The approximation below does not cover the tails.
+            self.search(p)
         } else if self.npq > 80.0 {
             // Use a normal approximation.
             let x = inverse_normal(self.p, self.np, self.npq, p);
-- 
2.43.0


From 49bdd6d661a5c9eedebef065ce7ae11a9e61f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 24/30] fix: draw beta samples in the logarithmic space when
 gamma variables underflow

---
 src/distribution/beta.rs | 36 ++++++++++++++++++++++++++++++++----
 src/distribution/pert.rs |  6 ++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index c0a19e1..5c2733d 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -170,10 +170,7 @@ impl distribution::Sample for Beta {
     where
         S: Source,
     {
-        use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        self.a + (self.b - self.a) * x / (x + y)
+        self.a + (self.b - self.a) * sample(self.alpha, self.beta, source)
     }
 }
 
@@ -216,6 +213,37 @@ pub fn inverse(p: f64, alpha: f64, beta: f64, ln_beta: f64) -> f64 {
     f64::from_bits(high)
 }
 
+/// Draw a sample from the standard beta distribution.
+pub fn sample<S: Source>(alpha: f64, beta: f64, source: &mut S) -> f64 {
+    use core::f64::MIN_POSITIVE;
+    use distribution::gamma;
+
+    // A gamma variable with shape `k` is one with shape `k + 1` multiplied by
+    // `u^(1 / k)` where `u` is uniform.
+    let mut draw = |k: f64| {
+        if k < 1.0 {
+            let x = gamma::sample(1.0 + k, source);
+            (x, source.read::<f64>())
+        } else {
+            (gamma::sample(k, source), 1.0)
+        }
+    };
+    let (x, u) = draw(alpha);
+    let (y, v) = draw(beta);
+
+    let power = |u: f64, k: f64| if k < 1.0 { u.powf(1.0 / k) } else { 1.0 };
+    let (p, q) = (x * power(u, alpha), y * power(v, beta));
+    if p + q >= MIN_POSITIVE {
+        return p / (p + q);
+    }
+
+    // Both underflow; resort to their logarithms.
+    let scale = alpha.min(beta);
+    let u = u.max(MIN_POSITIVE).ln() * (scale / alpha);
+    let v = v.max(MIN_POSITIVE).ln() * (scale / beta);
+    1.0 / (1.0 + ((y / x).ln() + (v - u) / scale).exp())
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 8a769ce..670460f 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -159,10 +159,8 @@ impl distribution::Sample for Pert {
     where
         S: Source,
     {
-        use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        self.a + (self.c - self.a) * x / (x + y)
+        use distribution::beta;
+        self.a + (self.c - self.a) * beta::sample(self.alpha, self.beta, source)
     }
 }
 
-- 
2.43.0


From 9f588ed0e5cab2910cbbdb28b615cd9cbb216c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:51 +0000
Subject: [PATCH 25/30] fix: scale deviations when inferring a Gaussian

---
 src/distribution/gaussian.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 7dcf974..e106642 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -160,12 +160,17 @@ impl core::iter::FromIterator<f64> for Gaussian {
     fn from_iter<T: IntoIterator<Item = f64>>(iterator: T) -> Self {
         let samples: Vec<f64> = iterator.into_iter().collect();
         let mu = samples.iter().fold(0.0, |a, b| a + b) / samples.len() as f64;
-        let sigma = f64::sqrt(
-            samples
-                .iter()
-                .fold(0.0, |a, b| a + f64::powf(b - mu as f64, 2.0))
-                / (samples.len() - 1) as f64,
-        );
+        // The deviations are scaled so that their squares neither overflow nor underflow.
+        let scale = samples
+            .iter()
+            .fold(core::f64::MIN_POSITIVE, |a, b| f64::max(a, (b - mu).abs()));
+        let sigma = scale
+            * f64::sqrt(
+                samples
+                    .iter()
+                    .fold(0.0, |a, b| a + f64::powf((b - mu) / scale, 2.0))
+                    / (samples.len() - 1) as f64,
+            );
         Gaussian::new(mu, sigma)
     }
 }
-- 
2.43.0


From e478a3dbce47de20f7328f454c2a6be8372d024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 26/30] fix: avoid cancellation in the shapes of the PERT
 distribution

---
 src/distribution/pert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 670460f..16b964b 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -24,8 +24,8 @@ impl Pert {
     pub fn new(a: f64, b: f64, c: f64) -> Self {
         use special::Beta as SpecialBeta;
         should!(a < b && b < c);
-        let alpha = (4.0 * b + c - 5.0 * a) / (c - a);
-        let beta = (5.0 * c - a - 4.0 * b) / (c - a);
+        let alpha = 1.0 + 4.0 * ((b - a) / (c - a));
+        let beta = 1.0 + 4.0 * ((c - b) / (c - a));
         Pert {
             a,
             b,
-- 
2.43.0


From 9b51edc0ed961cdf35b9c3533dc1f08653449233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 27/30] fix: compute the variance of the PERT distribution
 without cancellation

---
 src/distribution/pert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 16b964b..721740c 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -174,8 +174,8 @@ impl distribution::Skewness for Pert {
 
 impl distribution::Variance for Pert {
     fn variance(&self) -> f64 {
-        use distribution::Mean;
-        (self.mean() - self.a) * (self.c - self.mean()) / 7.0
+        let (left, right) = (self.b - self.a, self.c - self.b);
+        (5.0 * left + right) * (left + 5.0 * right) / 252.0
     }
 }
 
-- 
2.43.0


From 3dc7d130043db196ed717e058f45b03ac11c665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 28/30] fix: categorical skewness and kurtosis no longer divide
 by an underflowing power of the variance

---
 src/distribution/categorical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 1f6ed3f..3435c22 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -106,7 +106,7 @@ impl distribution::Kurtosis for Categorical {
             .iter()
             .enumerate()
             .fold(0.0, |sum, (i, p)| sum + (i as f64 - mean).powi(4) * p);
-        kurt / variance.powi(2) - 3.0
+        kurt / variance / variance - 3.0
     }
 }
 
@@ -175,7 +175,7 @@ impl distribution::Skewness for Categorical {
             .iter()
             .enumerate()
             .fold(0.0, |sum, (i, p)| sum + (i as f64 - mean).powi(3) * p);
-        skew / (variance * variance.sqrt())
+        skew / variance / variance.sqrt()
     }
 }
 
-- 
2.43.0


From 86e68d1ba5a6ca61c487207826f3b6ea6e3afa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 29/30] fix: keep the distribution function of the triangular
 distribution within [0, 1]

---
 src/distribution/triangular.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 4430c45..56f384f 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -73,9 +73,9 @@ impl distribution::Distribution for Triangular {
         } else {
             let diff = b - a;
             if x <= c {
-                (x - a).powi(2) / diff / (c - a)
+                (x - a) / diff * ((x - a) / (c - a))
             } else {
-                1.0 - (b - x).powi(2) / diff / (b - c)
+                1.0 - (b - x) / diff * ((b - x) / (b - c))
             }
         }
     }
-- 
2.43.0


From 1b3389dc2b39a8b121f8d04a14a6e697ab781e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:30 +0000
Subject: [PATCH 30/30] fix: keep quantiles and samples of bounded
 distributions within their supports

---
 src/distribution/beta.rs       | 4 ++--
 src/distribution/pert.rs       | 5 +++--
 src/distribution/triangular.rs | 4 ++--
 src/distribution/uniform.rs    | 4 ++--
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 5c2733d..7935e2a 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -108,7 +108,7 @@ impl distribution::Inverse for Beta {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * inverse(p, self.alpha, self.beta, self.ln_beta)
+        (self.a + (self.b - self.a) * inverse(p, self.alpha, self.beta, self.ln_beta)).min(self.b)
     }
 }
 
@@ -170,7 +170,7 @@ impl distribution::Sample for Beta {
     where
         S: Source,
     {
-        self.a + (self.b - self.a) * sample(self.alpha, self.beta, source)
+        (self.a + (self.b - self.a) * sample(self.alpha, self.beta, source)).min(self.b)
     }
 }
 
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 721740c..1389a13 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -119,7 +119,8 @@ impl distribution::Inverse for Pert {
     fn inverse(&self, p: f64) -> f64 {
         use distribution::beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.c - self.a) * beta::inverse(p, self.alpha, self.beta, self.ln_beta)
+        (self.a + (self.c - self.a) * beta::inverse(p, self.alpha, self.beta, self.ln_beta))
+            .min(self.c)
     }
 }
 
@@ -160,7 +161,7 @@ impl distribution::Sample for Pert {
         S: Source,
     {
         use distribution::beta;
-        self.a + (self.c - self.a) * beta::sample(self.alpha, self.beta, source)
+        (self.a + (self.c - self.a) * beta::sample(self.alpha, self.beta, source)).min(self.c)
     }
 }
 
diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 56f384f..dfa4cac 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -100,9 +100,9 @@ impl distribution::Inverse for Triangular {
         } else {
             let p0 = (c - a) / (b - a);
             if p < p0 {
-                ((b - a) * (c - a) * p).sqrt() + a
+                (((b - a) * (c - a) * p).sqrt() + a).min(c)
             } else if p > p0 {
-                b - ((b - a) * (b - c) * (1.0 - p)).sqrt()
+                (b - ((b - a) * (b - c) * (1.0 - p)).sqrt()).max(c)
             } else {
                 c
             }
diff --git a/src/distribution/uniform.rs b/src/distribution/uniform.rs
index 8e3092f..2d083fb 100644
--- a/src/distribution/uniform.rs
+++ b/src/distribution/uniform.rs
@@ -78,7 +78,7 @@ impl distribution::Inverse for Uniform {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p
+        (self.a + (self.b - self.a) * p).min(self.b)
     }
 }
 
@@ -110,7 +110,7 @@ impl distribution::Sample for Uniform {
     where
         S: Source,
     {
-        self.a + (self.b - self.a) * source.read::<f64>()
+        (self.a + (self.b - self.a) * source.read::<f64>()).min(self.b)
     }
 }
 
-- 
2.43.0

