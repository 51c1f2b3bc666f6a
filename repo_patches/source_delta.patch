From 618e2c6cf4e05ccd99e4f99615247b78dd9e3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 01/25] fix: a spin in a vanishing field stays put instead of
 becoming NaN

---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..301d148 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -171,6 +171,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // No field, no precession (and no direction to normalise)
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From 989f90cd5f7f405f5068a7017f3ac5f03a0eb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 02/25] fix: azimuth of a spin with vanishing x component has
 the right sign

---
 src/spin.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index 301d148..b199ef0 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,11 +131,7 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-- 
2.43.0


From d22c27304dfff00cf1307760066b7c6d23748858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 03/25] fix: initial spins are finite at zero and at very large
 inverse temperature

---
 src/spinchain.rs          | 12 ++++++++----
 src/spinchain_langevin.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..edc36b5 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -129,8 +129,6 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -152,8 +150,14 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = match beta_eff.abs() {
+                    b if b > 0.0 => {
+                        beta_eff.signum() * (1.0 + (u * (-2.0 * b).exp_m1()).ln_1p() / b)
+                    }
+                    _ => 1.0 - 2.0 * u,
+                };
+                let rot_angle: f64 = cos_angle.max(-1.0).min(1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..bbbf47c 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -120,8 +120,6 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -143,8 +141,14 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = match beta_eff.abs() {
+                    b if b > 0.0 => {
+                        beta_eff.signum() * (1.0 + (u * (-2.0 * b).exp_m1()).ln_1p() / b)
+                    }
+                    _ => 1.0 - 2.0 * u,
+                };
+                let rot_angle: f64 = cos_angle.max(-1.0).min(1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From 41266708ac3fc1d661797edcf8c0ca6cce8402ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 04/25] fix: solve_beta inverts the energy density instead of
 stopping within 0.01 of it

---
 src/spinchain.rs          | 19 ++++++++++++-------
 src/spinchain_langevin.rs | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index edc36b5..80b2776 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -105,14 +105,19 @@ impl SpinChain {
     }
 
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
-
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        // 1/beta - coth(beta) decreases from 0 to -1, so bisect
+        let mut lower: f64 = 0.0;
+        let mut upper: f64 = 1.0e4;
+
+        for _ in 0..100 {
+            let beta: f64 = 0.5 * (lower + upper);
+            if 1.0 / beta - 1.0 / beta.tanh() > e {
+                lower = beta;
+            } else {
+                upper = beta;
+            }
         }
-        beta
+        0.5 * (lower + upper)
     }
 
     /// Creates a new spin chain by reading the configuration variables from a toml file
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index bbbf47c..b880dd1 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -96,14 +96,19 @@ impl SpinChainLangevin {
     }
 
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
-
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        // 1/beta - coth(beta) decreases from 0 to -1, so bisect
+        let mut lower: f64 = 0.0;
+        let mut upper: f64 = 1.0e4;
+
+        for _ in 0..100 {
+            let beta: f64 = 0.5 * (lower + upper);
+            if 1.0 / beta - 1.0 / beta.tanh() > e {
+                lower = beta;
+            } else {
+                upper = beta;
+            }
         }
-        beta
+        0.5 * (lower + upper)
     }
 
     /// Creates a new spin chain by reading the configuration variables from a toml file
-- 
2.43.0


From e50cac1c991d7c083bb4aaacf2d2485413f4bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 05/25] fix: second-order Magnus move uses the same field at
 site j+1 in both factors

---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 80b2776..f9e77f4 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -619,7 +619,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -800,7 +800,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From 7e56446db6094e1dd1b8a8f311624db7272d50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 06/25] fix: first-order Magnus move weighs all and only the
 driven terms a spin enters

---
 src/spinchain.rs          | 69 ++++++++++++++++-----------------------
 src/spinchain_langevin.rs | 69 ++++++++++++++++-----------------------
 2 files changed, 56 insertions(+), 82 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index f9e77f4..012a991 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1006,30 +1006,25 @@ impl SpinChain {
         }
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
-        // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
+        // Because j-1->j->j+1, flipping j effects *three* terms in the energy,
+        // each of them only if the field is non-zero at the site it belongs to
+        let driven = |site: usize| site % s < self.vars.ssize as usize;
+        if driven(index) {
             ei -= PI / self.vars.tau
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]));
+        }
+        if driven(index + s - 1) {
+            ei -= 2.0 * PI / self.vars.tau
+                * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if driven(index + 1) {
+            ei -= 2.0 * PI / self.vars.tau
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]);
         }
 
         // Select random angles
@@ -1044,30 +1039,22 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
+        if driven(index) {
             de -= PI / self.vars.tau
-                * (s_j.dir[2]
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]));
+        }
+        if driven(index + s - 1) {
+            de -= 2.0 * PI / self.vars.tau
+                * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if driven(index + 1) {
+            de -= 2.0 * PI / self.vars.tau
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0]) * s_jp1.dir[2]);
         }
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index b880dd1..ca2852e 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -341,30 +341,25 @@ impl SpinChainLangevin {
         }
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
-        // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
+        // Because j-1->j->j+1, flipping j effects *three* terms in the energy,
+        // each of them only if the field is non-zero at the site it belongs to
+        let driven = |site: usize| site % s < self.vars.ssize as usize;
+        if driven(index) {
             ei -= PI / self.vars.tau
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]));
+        }
+        if driven(index + s - 1) {
+            ei -= 2.0 * PI / self.vars.tau
+                * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if driven(index + 1) {
+            ei -= 2.0 * PI / self.vars.tau
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]);
         }
 
         // Select random angles
@@ -379,30 +374,22 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
+        if driven(index) {
             de -= PI / self.vars.tau
-                * (s_j.dir[2]
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]));
+        }
+        if driven(index + s - 1) {
+            de -= 2.0 * PI / self.vars.tau
+                * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                    - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+        }
+        if driven(index + 1) {
+            de -= 2.0 * PI / self.vars.tau
+                * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                    - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0]) * s_jp1.dir[2]);
         }
         // Evaluate energy difference
 
-- 
2.43.0


From 948f940851cc2d9cf07f3203f8089b95766ae76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 07/25] fix: rotating-frame energy counts each Magnus bond and
 triple term once

---
 src/spinchain.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 012a991..a9c998f 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1633,19 +1633,12 @@ impl SpinChain {
                 _ => &self.j_couple[index + 1],
             };
 
+            // Every bond and every triple counts once: the bond to the right, the triple around s_c
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From a739f8e9370f29ea7ae3e593f215355f269754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 08/25] fix: --config-desc prints the options and defaults the
 loader accepts

---
 README.md            |  6 ++++--
 src/config-desc.toml | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index ca56b7c..3aafd5c 100644
--- a/README.md
+++ b/README.md
@@ -91,8 +91,10 @@ file = "log"   # pattern for log files i.e. log0.dat, log1.dat
 strob = false  # stroboscopic evaluation
 offset = 0     # first file i.e. log0.dat
 beta = 2.88    # beta (determined from ednsty)
-e = 0.9    # eccentricity (scale of y-drive if drivetype="xyelliptic")
-drivetype = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic" 
+mc_points = 1000 # number of Monte-Carlo samples
+e = 0.9        # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
 
 ```
 
diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..fc22669 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,24 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256        # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0       # minus initial time
+tau = 10       # period of drive
+lambda = 1     # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0       # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+mc_points = 1000 # number of Monte-Carlo samples
+e = 0.9        # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
-- 
2.43.0


From 54b993025d58d7fa727c2d5f1094dcbb3cfe68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 09/25] fix: stroboscopic logging rounds to whole steps, before
 and after time zero

---
 src/obs.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..3a4d343 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -906,7 +906,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
             }
             pb.reset_eta();
             //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -914,7 +914,8 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -971,7 +972,7 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -984,8 +985,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
-                    {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1042,7 +1043,7 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1050,7 +1051,8 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1290,7 +1292,7 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1298,7 +1300,8 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From 0895eaa6c798701b4fb859a0fae6c7de0c50b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 10/25] fix: a trajectory yields one sample per cycle, as many
 as asked for

---
 src/obs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 3a4d343..fcccb7a 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -566,15 +566,15 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
-    let steps = (final_t / conf.dt) as usize;
+    let cycle_steps: u64 = (conf.tau / conf.dt).round() as u64;
+    let init_steps = offset as u64 * cycle_steps;
+    let steps = init_steps + sample_num as u64 * cycle_steps;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -582,7 +582,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         pb.set_position(sc.t as u64);
         step_count += 1;
     }
-    while sc.t < final_t {
+    while step_count < steps {
         sc.update();
         step_count += 1;
 
-- 
2.43.0


From 49a9589c991872d9c038196b92c80f8700d33c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 11/25] fix: mean trajectory energy is sampled once per drive
 period

---
 src/obs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index fcccb7a..6f7b649 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -491,8 +491,8 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
     for i in 0..((conf.runs) as usize) {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
-        let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
+        let steps: usize = 1000 * steps_in_cycle;
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
-- 
2.43.0


From 243ed28eb53f641be7fbb7648d721bfb61d0ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 12/25] fix: sampling modes wait until their last records are
 written

---
 src/obs.rs     | 20 ++++++++++++++++----
 src/writers.rs |  7 +++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 6f7b649..7155b5a 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,9 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+    // Close the channel, and wait until everything sent has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +816,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +876,9 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+    // Close the channel, and wait until everything sent has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1527,7 +1533,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1601,6 +1607,9 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    // Close the channel, and wait until everything sent has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1718,7 +1727,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1792,4 +1801,7 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    // Close the channel, and wait until everything sent has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..688cb4c 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,14 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+pub fn write_in_bg(
+    file: File,
+    rx: std::sync::mpsc::Receiver<String>,
+) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From 8ae28e70761ffa5323ed5d022f1f7c87fd3e7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 13/25] fix: config.toml is replaced atomically, so a crash
 cannot leave it truncated

---
 src/config.rs             |  9 +++++++++
 src/main.rs               |  1 -
 src/obs.rs                | 10 +++++-----
 src/spinchain.rs          |  2 +-
 src/spinchain_langevin.rs |  2 +-
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 53d5ec8..54ab2c1 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -94,4 +94,13 @@ impl Default for Config {
     }
 }
 
+impl Config {
+    /// Writes the configuration such that the file is never seen incomplete
+    pub fn write(&self, filename: &str) {
+        let tmp_name = format!("{}.tmp", filename);
+        std::fs::write(&tmp_name, toml::to_string(self).unwrap()).unwrap();
+        std::fs::rename(&tmp_name, filename).unwrap();
+    }
+}
+
 pub static CS: &str = include_str!("config-desc.toml");
diff --git a/src/main.rs b/src/main.rs
index 66cfb01..57291f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,4 @@
 use indicatif::{MultiProgress, ProgressBar, ProgressStyle};
-use std::fs;
 use std::fs::{File, OpenOptions};
 use std::io::{prelude::*, BufReader};
 use std::sync::mpsc;
diff --git a/src/obs.rs b/src/obs.rs
index 7155b5a..1335ad0 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -942,7 +942,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml");
     println!("Finished {} runs", num);
 }
 
@@ -1013,7 +1013,7 @@ pub fn run_sim_response(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml");
     println!("Finished {} runs", num);
 }
 
@@ -1079,7 +1079,7 @@ pub fn run_sim(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml");
     println!("Finished {} runs", num);
 }
 
@@ -1262,7 +1262,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml");
     println!("Finished {} runs", num);
 }
 
@@ -1328,7 +1328,7 @@ pub fn run_ext(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml");
     println!("Finished {} runs", num);
 }
 
diff --git a/src/spinchain.rs b/src/spinchain.rs
index a9c998f..c88e0d7 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -98,7 +98,7 @@ impl SpinChain {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().write("config.toml");
                 Config::default()
             }
         }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index ca2852e..3b31299 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -89,7 +89,7 @@ impl SpinChainLangevin {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().write("config.toml");
                 Config::default()
             }
         }
-- 
2.43.0


From d3a70f84f5d1134bb376b40f34aa6961f7d94850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 14/25] fix: sampling, fitting and histogram modes no longer
 truncate run logs

---
 src/obs.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 1335ad0..14dfc74 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,7 +1,14 @@
 use super::*;
 
+/// Chain for sampling, which leaves the log files of earlier runs alone
+fn sampling_chain(conf: &Config, num: usize) -> SpinChain {
+    let mut conf: Config = conf.clone();
+    conf.log = false;
+    SpinChain::new(conf, num)
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -20,7 +27,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -39,7 +46,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -57,7 +64,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -78,7 +85,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -281,7 +288,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -315,7 +322,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -348,7 +355,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -379,7 +386,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -412,7 +419,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -495,7 +502,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps: usize = 1000 * steps_in_cycle;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = sampling_chain(conf, 0);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -551,7 +558,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -641,7 +648,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = sampling_chain(conf, 0);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -679,7 +686,7 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1561,7 +1568,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf, i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1653,7 +1660,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf, i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1755,7 +1762,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf, i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From 8bea60451faa29f70ddea5f98c40df2e6cf0aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 15/25] fix: dynamic profiles are written, and the program
 ends, for every period and time step

---
 src/obs.rs | 56 +++++++++++-------------------------------------------
 1 file changed, 11 insertions(+), 45 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 14dfc74..560329b 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1164,6 +1164,10 @@ pub fn run_dyn_profile(conf: &mut Config) {
             }
             pb.reset_eta();
             let _tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let marks = [
+                txc_500, txc_1000, txc_1500, txc_2000, txc_2500, txc_3000, txc_3500, txc_4000,
+            ];
+            let mut next: usize = 0;
 
             while spin_chain.t < spin_chain.vars.t {
                 spin_chain.update();
@@ -1171,51 +1175,13 @@ pub fn run_dyn_profile(conf: &mut Config) {
                     pb.set_position(spin_chain.t as u64);
                 }
 
-                let txc_matched = match spin_chain.t {
-                    _ if (spin_chain.t - 500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_500))
-                    }
-                    _ if (spin_chain.t - 1000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1000))
-                    }
-                    _ if (spin_chain.t - 1500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1500))
-                    }
-                    _ if (spin_chain.t - 2000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2000))
-                    }
-                    _ if (spin_chain.t - 2500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2500))
-                    }
-                    _ if (spin_chain.t - 3000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3000))
-                    }
-                    _ if (spin_chain.t - 3500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3500))
-                    }
-                    _ if (spin_chain.t - 4000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_4000))
-                    }
-                    _ => None,
-                };
-
-                if let Some(txc) = txc_matched {
+                // Every mark is reached exactly once, also if it falls in between two steps
+                while next < marks.len()
+                    && spin_chain.t
+                        > 500.0 * (next + 1) as f64 * spin_chain.vars.tau - spin_chain.vars.dt / 5.0
+                {
+                    let txc = &marks[next];
+                    next += 1;
                     //Now log with correct log
                     //Write data
                     #[allow(non_snake_case)]
-- 
2.43.0


From 16cb1c9d14908c60a011c45e65c1df28b3ae4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 16/25] fix: two-point averages find the zero-time record in
 the first line, too

---
 src/obs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 560329b..9d9ea8a 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1344,13 +1344,13 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
+                    for line in reader.lines() {
                         let line = line.unwrap();
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
                             .collect::<Vec<f64>>();
-                        if line_data[0].abs() < 1e-5 {
+                        if !line_data.is_empty() && line_data[0].abs() < 1e-5 {
                             t_zero_data = line_data;
                         }
                     }
-- 
2.43.0


From 5d9ca4f58aefbd81ea2cccaf7064575707e6cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 17/25] fix: extended runs advance the offset for the modes
 that follow them

---
 src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57291f4..bfce667 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -155,7 +155,6 @@ fn main() {
     }
     if args.ext {
         println!("Generating ext");
-        let mut conf = conf.clone();
         run_ext(&mut conf);
         default = false;
     }
-- 
2.43.0


From f94db555ce1e18d077762252129d96d89e0191ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 18/25] fix: averaging takes the file prefix literally

---
 src/obs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 9d9ea8a..222ffd5 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1308,7 +1308,7 @@ pub fn run_ext(conf: &mut Config) {
 pub fn two_point_average(conf: &mut Config) {
     println!("Calculating two-point-average");
 
-    let mut file_glob = conf.file.clone();
+    let mut file_glob = glob::Pattern::escape(&conf.file);
     file_glob.push_str("*.dat");
 
     let mut avg_data: Vec<Vec<f64>> = Vec::with_capacity(2000_usize);
@@ -1417,7 +1417,7 @@ pub fn two_point_average(conf: &mut Config) {
 
 pub fn average(conf: &mut Config) {
     println!("Averaging");
-    let mut file_prefix = conf.file.clone();
+    let mut file_prefix = glob::Pattern::escape(&conf.file);
     file_prefix.push_str("*.dat");
     let mut avg_data: Vec<Vec<f64>> = Vec::with_capacity((conf.t / conf.dt) as usize);
     let mut avg_nums: Vec<f64> = Vec::with_capacity((conf.t / conf.dt) as usize);
-- 
2.43.0


From a9593d6d091be276a70318d27aa99ccb5c40bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 19/25] fix: -b overrides the configured beta in every mode

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bfce667..fff97f2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -145,6 +145,9 @@ fn main() {
     if let Some(tau) = args.tau {
         conf.tau = tau;
     }
+    if let Some(beta) = args.beta {
+        conf.beta = beta;
+    }
 
     match args.config_desc {
         false => {}
-- 
2.43.0


From f6bffb0526c506f391b7a1a002a163799fe8b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 20/25] fix: -n accepts the comma-separated periods its help
 documents

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index fff97f2..90e71cd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -76,7 +76,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_name = "TAU1,TAU2,...",
+        value_delimiter = ','
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
-- 
2.43.0


From e91a4b8101664a05f8f8079c1238f41f50e1e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 21/25] fix: -E accepts the negative energy densities it is for

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 90e71cd..555ad43 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -106,7 +106,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        allow_hyphen_values = true,
+        value_name = "E"
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0


From ab65e2ef45de1b7683cc7d3e105ee32528760ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 22/25] fix: lab-frame Magnus energy is the one its moves
 sample

The reported energy carried the rotating-frame correction over from
mc_system_energy_rot; the lab-frame moves know no such term, so with
unequal in-plane couplings -E fitted an energy of another ensemble.
---
 src/spinchain.rs | 58 ------------------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index c88e0d7..780913f 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1492,64 +1492,6 @@ impl SpinChain {
             e += -self.spins[i].dir[2] / (2.0 * om);
         }
 
-        let mut mg: f64 = 0.0;
-        // Now for correction term
-        for index in 0..h {
-            let s_c: &Spin = &self.spins[index];
-            let s_l: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 1],
-                _ => &self.spins[index - 1],
-            };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
-            let s_r: &Spin = match index {
-                _ if index == h - 1 => &self.spins[0],
-                _ => &self.spins[index + 1],
-            };
-
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
-            let j_l: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 1],
-            };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
-            let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
-            mg += (j_l[1] - j_l[0])
-                * (j_r[1] - j_r[0])
-                * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
-        }
-
-        e -= mg / (16.0 * om);
-
         e / (h as f64)
     }
 
-- 
2.43.0


From cb30b90fac67cb26edaa1026c0286c21acf97286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 23/25] fix: a mode's own settings do not leak into the modes
 after it or into config.toml

The fits (-D -r -E -f -F -H -A) and the histograms (--histogram, --magnus-hist)
changed the shared configuration: the fields, the sizes, the period, the
temperature, the drive and the log prefix of every mode performed after them in
the same invocation, and of the config.toml its batch saved.
---
 src/main.rs | 7 +++++++
 src/obs.rs  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 555ad43..99df3a4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -188,6 +188,7 @@ fn main() {
 
     if let Some(tau) = args.adiab2 {
         println!("Adiab 2");
+        let mut conf = conf.clone();
         conf.tau = tau;
 
         conf.hs = vec![1.0, 0.0, 0.0];
@@ -209,6 +210,7 @@ fn main() {
     if let Some(targete) = args.rot {
         println!("Evaluating with first-order correction in rot frame");
         //Start with no extra fields paplied to chain
+        let mut conf = conf.clone();
         conf.ednsty = targete;
 
         // find_beta_rot does Monte-Carlo updates with additional fields, and also evaluates energy
@@ -236,6 +238,7 @@ fn main() {
     if let Some(targete) = args.maglab {
         println!("Evaluating with first-order correction in lab frame");
         //Start with no extra fields paplied to chain
+        let mut conf = conf.clone();
         conf.ednsty = targete;
 
         // find_beta_rot does Monte-Carlo updates with additional fields, and also evaluates energy
@@ -262,6 +265,7 @@ fn main() {
     }
 
     if let Some(targete) = args.fit {
+        let mut conf = conf.clone();
         conf.ednsty = targete;
         conf.hs = vec![1.0, 0.0, 0.0];
         conf.hfield = vec![0.0, 0.0, -2.0 * PI / conf.tau];
@@ -290,6 +294,7 @@ fn main() {
     }
 
     if let Some(targete) = args.fit_effective {
+        let mut conf = conf.clone();
         conf.ednsty = targete;
         conf.hs = vec![1.0, 0.0, 0.0];
         conf.hfield = vec![0.0, 0.0, -2.0 * PI / conf.tau];
@@ -318,6 +323,7 @@ fn main() {
         default = false;
     }
     if let Some(targete) = args.high_freq {
+        let mut conf = conf.clone();
         conf.ednsty = targete;
 
         conf.hfield = vec![0.0, 0.0, -conf.tau / (4.0 * PI)];
@@ -346,6 +352,7 @@ fn main() {
         // Can't think of a clever way to do this,
         // so will set up a grid of beta, and produce estimates for
         // the mean energy. Can then do a bisection search
+        let mut conf = conf.clone();
         conf.tau = tau;
         println!("tau={}", conf.tau);
 
diff --git a/src/obs.rs b/src/obs.rs
index 222ffd5..ffae917 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -417,6 +417,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 ///Generate ```sample_num``` samples via Monte Carlo using first-order Magnus expansion system
 ///indeed thermalises via time-evolution
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
+    let conf: &mut Config = &mut conf.clone();
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
     let mut sc: SpinChain = sampling_chain(conf, 0);
@@ -683,6 +684,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
 ///system indeed thermalises via time-evolution
 pub fn gen_hist(conf: &mut Config, sample_num: usize) {
+    let conf: &mut Config = &mut conf.clone();
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-- 
2.43.0


From 051c19a8bcc2eaac4a3b148daa90f7ffdccb9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 24/25] fix: Langevin boundary flux includes the static fields
 of the end sites

---
 src/spinchain_langevin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 3b31299..5031302 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -546,19 +546,21 @@ impl SpinChainLangevin {
         let slsq: f64 = sq!(self.spins[ell - 1].dir);
 
         let h_e: [f64; 3] = self.h_ext(self.t);
+        let h_el: [f64; 3] = Self::sum_vec(&self.static_h[0], &h_e);
+        let h_er: [f64; 3] = Self::sum_vec(&self.static_h[ell - 1], &h_e);
 
         //Use macro to do these things later, for now just use vec
         //\Omega_1 = J_1 S_2 - B(t)
 
         let om_1: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_e[x])
+            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_el[x])
             .collect();
         let om_1_sq: f64 = sq!(om_1);
         let oms1: f64 = dot!(om_1, self.spins[0].dir);
 
         //\Omega_\ell = J_{\ell-1} S_{\ell-1} - B(t)
         let om_ell: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_e[x])
+            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_er[x])
             .collect();
         let om_ell_sq: f64 = sq!(om_ell);
         let omsell: f64 = dot!(om_ell, self.spins[ell - 1].dir);
-- 
2.43.0


From ecff3d2cc46a2cba6e28dd2723ed9d5df4fd2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 25/25] fix: sampling modes asked for no samples end instead of
 panicking

---
 src/obs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index ffae917..8d2c696 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -635,7 +635,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
     );
 
     let threads = match conf.threads {
-        _ if conf.threads >= sample_num => sample_num,
+        _ if conf.threads >= sample_num => sample_num.max(1),
         _ => conf.threads,
     };
 
@@ -1527,7 +1527,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     //What if points <= threads? Then generate 1 point per thread and truncate threads
 
     let threads = match conf.threads {
-        _ if conf.threads >= points => points,
+        _ if conf.threads >= points => points.max(1),
         _ => conf.threads,
     };
 
@@ -1619,7 +1619,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     //What if points <= threads? Then generate 1 point per thread and truncate threads
 
     let threads = match conf.threads {
-        _ if conf.threads >= points => points,
+        _ if conf.threads >= points => points.max(1),
         _ => conf.threads,
     };
 
@@ -1721,7 +1721,7 @@ pub fn run_mc(conf: &mut Config) {
     //What if points <= threads? Then generate 1 point per thread and truncate threads
 
     let threads = match conf.threads {
-        _ if conf.threads >= points => points,
+        _ if conf.threads >= points => points.max(1),
         _ => conf.threads,
     };
 
-- 
2.43.0

