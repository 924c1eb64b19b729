From d337e998942744c49c4049d8599efa18356eba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:47 +0000
Subject: [PATCH 01/28] fix: report a zero first pivot column as singular

The factorizations returned the zero-based stage index, so a zero first
column came back as 0, which callers read as success.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..8e3944f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0


From 3eccf9d1b7147e7bf7c48e6af0c300acea12b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:47 +0000
Subject: [PATCH 02/28] fix: eliminate every row in complex Hessenberg back
 substitution

---
 src/linalg/sol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index ee0eb3e..1111545 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -152,7 +152,7 @@ pub(crate) fn solhc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            for i in 0..km1 {
+            for i in 0..(km1 + 1) {
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[i] += prodr;
-- 
2.43.0


From d7aa212d823fba1f1156d26ab00d16e6af23d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:01 +0000
Subject: [PATCH 03/28] fix: stop the Dormand-Prince retry loop when the step
 gets too small

The status was set but the loop kept retrying, so a right-hand side that
never meets the tolerance (for example one returning NaN) hung forever.
---
 src/dorm_prince/dp5/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..fc8929e 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -71,6 +71,7 @@ impl OdeAlgorithm for DormandPrince5 {
             }
             if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
             }
         }
 
-- 
2.43.0


From 3dda42d8c5f0c24c67927dc442fee0a4c82e89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:02 +0000
Subject: [PATCH 04/28] fix: do not take more than max_steps Dormand-Prince
 steps

---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index fc8929e..074b0d9 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -79,7 +79,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
-- 
2.43.0


From 69604b34f8c471df4a9795552bbec0cf11362b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:02 +0000
Subject: [PATCH 05/28] fix: start the Dormand-Prince step controller with a
 non-zero error history

A zero history made the stabilization term divide by zero, so the first
accepted step always cut the step size by the maximum factor.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 074b0d9..4fdf102 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // previous ratio of dtnew/dt
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From f4e9134dc7504daf982f1aa0b6b3733d965e7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:03 +0000
Subject: [PATCH 06/28] fix: use the 0.2 - 0.75 * beta exponent in the
 Dormand-Prince controller

beta was raised to the power 0.75 instead of multiplied by it.
---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From b3abfa2c471be9bdbae69163098d6f9603372895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:03 +0000
Subject: [PATCH 07/28] fix: do not divide by zero when the stiffness test
 interval is zero

---
 src/dorm_prince/dp5/prepare.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index c5d154c..88fbb23 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -30,7 +30,8 @@ impl DormandPrince5 {
             integrator.stats.accepts += 1;
 
             /* stiffness detection */
-            if integrator.stats.accepts % integrator.opts.max_stiff == 0
+            if (integrator.opts.max_stiff != 0
+                && integrator.stats.accepts % integrator.opts.max_stiff == 0)
                 || integrator.cache.n_stiff > 0
             {
                 let mut stnum = 0.0;
-- 
2.43.0


From 247ec328bdf4f85120301ac0700745c564793ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:55 +0000
Subject: [PATCH 08/28] fix: start with the requested step size

The dtstart option was stored but the first step always used 1e-6.
---
 src/ode/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..65ab2b0 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -144,6 +144,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn dtstart(mut self, val: f64) -> Self {
         self.opts.dtstart = val;
+        self.dt = val;
         self
     }
     pub fn dtmax(mut self, val: f64) -> Self {
-- 
2.43.0


From d15573a6b7342a4973a55728c2cf920822afed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:56 +0000
Subject: [PATCH 09/28] fix: point the first step toward the final time

With tfinal < t the first step had the wrong sign, so backward
integration walked away from the final time and never finished.
---
 src/ode/integrator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 65ab2b0..2349863 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -208,6 +208,8 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        self.dt = self.dt.abs().copysign(self.tfinal - self.t);
+
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
-- 
2.43.0


From e2c6e6eb8bbb47023e883e8268e37e90cf01ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:56 +0000
Subject: [PATCH 10/28] fix: apply the maximum step size to the first step too

---
 src/ode/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 2349863..fbc10cc 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -208,7 +208,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
-        self.dt = self.dt.abs().copysign(self.tfinal - self.t);
+        self.dt = self.dt.abs().min(self.opts.dtmax).copysign(self.tfinal - self.t);
 
         let cache = Alg::new_cache(&mut self);
 
-- 
2.43.0


From bcafd5c9b51407d06470ddc66f8cfe514bad30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:56 +0000
Subject: [PATCH 11/28] fix: test for the last Radau5 step in the direction of
 integration

Only the final time was multiplied by the direction, so every backward
integration was truncated to a single step.
---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..91eb340 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
-- 
2.43.0


From a0830a191b827030e4e21c6cc2970a722793d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:57 +0000
Subject: [PATCH 12/28] fix: update the previous state on accepted Radau5 steps

---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..0b872a3 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -37,6 +37,7 @@ impl Radau5 {
                 integrator.cache.dtacc = integrator.dt;
                 integrator.cache.erracc = 1e-2f64.max(integrator.cache.err);
             }
+            integrator.uprev.assign(&integrator.u);
             integrator.tprev = integrator.t;
             integrator.dtprev = integrator.dt;
             integrator.t += integrator.dt;
-- 
2.43.0


From e942e7426b2f006145fd2d347010f02d835cebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:57 +0000
Subject: [PATCH 13/28] fix: refactor the Radau5 matrices whenever the step
 size has changed

The factors were reused after a failed Newton iteration or a truncated
last step had changed the step size, so the state was advanced with a
different step length than the time.
---
 src/radau/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 91eb340..40b21b7 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -103,7 +103,9 @@ impl OdeAlgorithm for Radau5 {
             integrator.cache.last = true;
         }
         loop {
-            if integrator.cache.decompose {
+            if integrator.cache.decompose
+                || integrator.cache.fac1 != Radau5::U1 / integrator.dt
+            {
                 // Perform needed decompositions until we succeed.
                 loop {
                     let success = Self::perform_decompositions(integrator);
-- 
2.43.0


From c983f5fae6afb82f56f9f79d43a526ed4b75b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:58 +0000
Subject: [PATCH 14/28] fix: reject Radau5 steps whose error estimate is NaN

f64::max drops NaN, which turned a NaN estimate into the smallest
possible error and accepted the step.
---
 src/radau/error_estimate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..4169f93 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -30,7 +30,10 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+        if integrator.cache.err < 1.0e-10 {
+            integrator.cache.err = 1.0e-10;
+        }
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +65,10 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+            if integrator.cache.err < 1.0e-10 {
+                integrator.cache.err = 1.0e-10;
+            }
         }
     }
 }
-- 
2.43.0


From 8909609b36f9d60186e92b553f251c18660e6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:58 +0000
Subject: [PATCH 15/28] fix: scale the Jacobian increment by the magnitude of
 the state

Large negative components got the increment of a tiny state, which
vanished when added and gave a zero or noisy Jacobian column.
---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From e693f8d61797a2a22e1fcf56fdac91d9ff4a614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:59 +0000
Subject: [PATCH 16/28] fix: evaluate the time Jacobian at an incremented time

Both evaluations used the same time, so the result was always zero.
---
 src/ode/jacobian.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index e93af89..5746837 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -49,8 +49,8 @@ pub(crate) fn jacobian_t<Dudt, Dfdt, Params>(
         None => {
             let mut du = Array::zeros(u.raw_dim());
             dudt(du.view_mut(), u.view(), t, p);
-            dudt(df.view_mut(), u.view(), t, p);
-            let dt = f64::EPSILON * t.max(1e-5);
+            let dt = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
+            dudt(df.view_mut(), u.view(), t + dt, p);
             df.assign(&((&df - &du) / dt));
         }
     }
-- 
2.43.0


From bd99da0a1d2efeb8e2c04e1afdc45f55a49d222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:59 +0000
Subject: [PATCH 17/28] fix: drop a stray factor from the Radau5 continuous
 output

---
 src/radau/continuous_output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/continuous_output.rs b/src/radau/continuous_output.rs
index 59d5565..38c4771 100644
--- a/src/radau/continuous_output.rs
+++ b/src/radau/continuous_output.rs
@@ -21,7 +21,7 @@ impl Radau5 {
         let mut res: Array1<f64> = Array1::<f64>::zeros(n);
 
         res.assign(&((s - c1m1) * &integrator.cache.cont.slice(s![(3 * n)..])));
-        res = (s - c2m1) * (res + s * &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
+        res = (s - c2m1) * (res + &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
         res = s * (res + &integrator.cache.cont.slice(s![n..2 * n]));
         res + &integrator.cache.cont.slice(s![0..n])
     }
-- 
2.43.0


From 4184abe096b989989538f52707cf78ab3955cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:00 +0000
Subject: [PATCH 18/28] fix: count the Jacobian evaluations of Radau5 steps

---
 src/radau/dec.rs               | 1 +
 src/radau/newton.rs            | 3 +++
 src/radau/step_size_control.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..10748b6 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -78,6 +78,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..9117650 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 0b872a3..bad7dc1 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -117,6 +117,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -141,6 +142,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From b89d4e9dbef8b7b9d7821288951c5afcb05d7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:00 +0000
Subject: [PATCH 19/28] fix: start Dormand-Prince steps from the state the
 callback left

The first stage reused the derivative at the state before the callback.
---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 4fdf102..1556e8e 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -58,6 +58,16 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        // A callback may have changed the state the cached derivative belongs to.
+        if integrator.callback.is_some() {
+            (integrator.dudt)(
+                integrator.cache.du.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From deb46fc81163a7b7f5da086beb6b585a90e7b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:01 +0000
Subject: [PATCH 20/28] fix: start Radau5 steps from the state the callback
 left

The error estimate reused the derivative and error scale at the state
before the callback.
---
 src/radau/algorithm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 40b21b7..7963dc7 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,6 +98,20 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        // A callback may have changed the state the cached values belong to.
+        if integrator.callback.is_some() {
+            for i in 0..integrator.u.len() {
+                integrator.cache.scal[i] =
+                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+            }
+            (integrator.dudt)(
+                integrator.cache.u0.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From bbd0b55e2339104af8fa2372805cb58a2ad41133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:01 +0000
Subject: [PATCH 21/28] fix: leave a finished integration unchanged when
 stepped again

Stepping past the end recorded the final point again on every call.
---
 src/ode/integrator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index fbc10cc..e2f9bd8 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -243,6 +243,9 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
-- 
2.43.0


From ca5932cf6ebabf822d0d4526b3ca46575e3cb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:14 +0000
Subject: [PATCH 22/28] fix: yield the final state when iterating an integrator

The step that finishes the integration returned no item, so iteration
stopped one point before the final time.
---
 src/ode/integrator.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index e2f9bd8..e1963ef 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -306,9 +306,14 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
+        let t = self.integrator.t;
         let res = self.integrator.step();
         match res {
             Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
+            // The last step also advances the state.
+            None if self.integrator.t != t => {
+                Some((self.integrator.t, self.integrator.u.clone()))
+            }
             None => None,
         }
     }
@@ -357,9 +362,14 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
+        let t = self.integrator.t;
         let res = (*self).integrator.step();
         match res {
             Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
+            // The last step also advances the state.
+            None if self.integrator.t != t => {
+                Some((self.integrator.t, self.integrator.u.clone()))
+            }
             None => None,
         }
     }
-- 
2.43.0


From fb848d4b5bd7d395f80dd9f7fe285ec19d0d834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:12 +0000
Subject: [PATCH 23/28] Expose private numerics to the verification harness
 behind a cfg flag

---
 src/dorm_prince/dp5/dense.rs |  12 +++++
 src/lib.rs                   |   6 +++
 src/verif_hooks.rs           | 101 +++++++++++++++++++++++++++++++++++
 3 files changed, 119 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/dorm_prince/dp5/dense.rs b/src/dorm_prince/dp5/dense.rs
index f3e4ee2..a116405 100644
--- a/src/dorm_prince/dp5/dense.rs
+++ b/src/dorm_prince/dp5/dense.rs
@@ -49,3 +49,15 @@ impl DormandPrince5 {
                                 * (&integrator.cache.rcont4 + &(s1 * &integrator.cache.rcont5)))))))
     }
 }
+
+#[cfg(cyphus_verif = "dense")]
+impl DormandPrince5 {
+    /// Access to `dense_output` for the verification harness.
+    pub(crate) fn verif_dense_output<Params>(
+        integrator: &mut OdeIntegrator<Params, DormandPrince5>,
+        t: f64,
+        dt: f64,
+    ) -> Array1<f64> {
+        DormandPrince5::dense_output(integrator, t, dt)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 4d63955..2f9ba8f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,9 @@ pub mod ode;
 pub mod prelude;
 pub mod radau;
 pub mod rodas;
+#[cfg(any(
+    cyphus_verif = "linalg",
+    cyphus_verif = "jacobian",
+    cyphus_verif = "dense"
+))]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..f47dd64
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,101 @@
+//! Access to crate-private items for the external verification harness.
+//! Nothing in here is compiled unless `--cfg cyphus_verif="..."` is given.
+
+/// Factorizations and triangular solves.
+#[cfg(cyphus_verif = "linalg")]
+pub mod linalg {
+    use ndarray::prelude::*;
+
+    pub fn dec(n: usize, a: ArrayViewMut2<f64>, ip: ArrayViewMut1<i32>) -> usize {
+        crate::linalg::dec::dec(n, a, ip)
+    }
+    pub fn dech(n: usize, a: ArrayViewMut2<f64>, lb: usize, ip: ArrayViewMut1<i32>) -> usize {
+        crate::linalg::dec::dech(n, a, lb, ip)
+    }
+    pub fn decc(
+        n: usize,
+        ar: ArrayViewMut2<f64>,
+        ai: ArrayViewMut2<f64>,
+        ip: ArrayViewMut1<i32>,
+    ) -> usize {
+        crate::linalg::dec::decc(n, ar, ai, ip)
+    }
+    pub fn dechc(
+        n: usize,
+        ar: ArrayViewMut2<f64>,
+        ai: ArrayViewMut2<f64>,
+        lb: usize,
+        ip: ArrayViewMut1<i32>,
+    ) -> usize {
+        crate::linalg::dec::dechc(n, ar, ai, lb, ip)
+    }
+    pub fn sol(n: usize, a: ArrayView2<f64>, b: ArrayViewMut1<f64>, ip: ArrayView1<i32>) {
+        crate::linalg::sol::sol(n, a, b, ip)
+    }
+    pub fn solh(
+        n: usize,
+        a: ArrayView2<f64>,
+        lb: usize,
+        b: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        crate::linalg::sol::solh(n, a, lb, b, ip)
+    }
+    pub fn solc(
+        n: usize,
+        ar: ArrayView2<f64>,
+        ai: ArrayView2<f64>,
+        br: ArrayViewMut1<f64>,
+        bi: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        crate::linalg::sol::solc(n, ar, ai, br, bi, ip)
+    }
+    pub fn solhc(
+        n: usize,
+        ar: ArrayView2<f64>,
+        ai: ArrayView2<f64>,
+        lb: usize,
+        br: ArrayViewMut1<f64>,
+        bi: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        crate::linalg::sol::solhc(n, ar, ai, lb, br, bi, ip)
+    }
+}
+
+/// State and time Jacobians.
+#[cfg(cyphus_verif = "jacobian")]
+pub mod jacobian {
+    use ndarray::prelude::*;
+
+    type Vf<'a> = &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &());
+    type Mf<'a> = &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &());
+
+    pub fn jacobian_u(f: Vf, j: Option<Mf>, df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64) {
+        crate::ode::jacobian::jacobian_u(f, j, df, u, t, &())
+    }
+    pub fn jacobian_t(f: Vf, j: Option<Vf>, df: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64) {
+        crate::ode::jacobian::jacobian_t(f, j, df, u, t, &())
+    }
+}
+
+/// Continuous extensions of the last accepted step.
+#[cfg(cyphus_verif = "dense")]
+pub mod dense {
+    use crate::dorm_prince::dp5::DormandPrince5;
+    use crate::ode::OdeIntegrator;
+    use crate::radau::Radau5;
+    use ndarray::prelude::*;
+
+    pub fn dormand_prince5<P>(
+        integrator: &mut OdeIntegrator<P, DormandPrince5>,
+        t: f64,
+        dt: f64,
+    ) -> Array1<f64> {
+        DormandPrince5::verif_dense_output(integrator, t, dt)
+    }
+    pub fn radau5<P>(integrator: &mut OdeIntegrator<P, Radau5>, t: f64) -> Array1<f64> {
+        Radau5.dense_output(t, integrator)
+    }
+}
-- 
2.43.0


From 770954fe839e450061ee12fbc79ab985c036bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:10 +0000
Subject: [PATCH 24/28] fix: decide on the last Radau step from the current
 step size

The flag set after an accepted step stayed on when a callback then
shortened the step, so the integration reported success before reaching
the final time.
---
 src/radau/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 7963dc7..7d0bb85 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -112,6 +112,7 @@ impl OdeAlgorithm for Radau5 {
             );
             integrator.stats.function_evals += 1;
         }
+        integrator.cache.last = false;
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From 571b92d60221c1e8adfb6b03e57bcb8fe42008a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:11 +0000
Subject: [PATCH 25/28] fix: stop when the explicit solver's step no longer
 advances time

The step size was only compared with the resolution of the time after a
rejection, so a step too small to change the time could be accepted.
---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 1556e8e..0b00f27 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -73,16 +73,18 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.cache.last = true;
         }
         loop {
+            if !integrator.cache.last
+                && integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
+            {
+                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
             if !integrator.cache.reject {
                 break;
             }
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
-                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-                return;
-            }
         }
 
         integrator.stats.steps += 1;
-- 
2.43.0


From f96d34bf206a343e03f3916c80d99808d16e10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:11 +0000
Subject: [PATCH 26/28] fix: forget the Newton convergence rate when a callback
 is present

The rate observed in the previous step says nothing about a state or
parameters changed by the callback, and let the iteration stop too early.
---
 src/radau/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 7d0bb85..d7cb293 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -111,6 +111,7 @@ impl OdeAlgorithm for Radau5 {
                 &integrator.params,
             );
             integrator.stats.function_evals += 1;
+            integrator.cache.faccon = 1.0;
         }
         integrator.cache.last = false;
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
-- 
2.43.0


From 3242338773e8b0800dce46e912a6171e9bc24911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:17:01 +0000
Subject: [PATCH 27/28] fix: bound the explicit step from below at time zero

At t = 0 the smallest step was zero, which repeated shrinking by more
than one half never reaches, so a NaN right-hand side hung.
---
 src/dorm_prince/dp5/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 0b00f27..b828255 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -74,7 +74,8 @@ impl OdeAlgorithm for DormandPrince5 {
         }
         loop {
             if !integrator.cache.last
-                && integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
+                && integrator.dt.abs()
+                    <= (integrator.t.abs() * f64::EPSILON).max(f64::MIN_POSITIVE)
             {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
                 return;
-- 
2.43.0


From dfccd9fac6c97e5cdc3308a1cbaa4a7b5826394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:15:21 +0000
Subject: [PATCH 28/28] fix: keep the difference increment above the rounding
 unit of large states and times

---
 src/ode/jacobian.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 5746837..968303a 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,9 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5))
+                    .sqrt()
+                    .max(f64::EPSILON.sqrt() * usafe.abs());
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
@@ -49,7 +51,9 @@ pub(crate) fn jacobian_t<Dudt, Dfdt, Params>(
         None => {
             let mut du = Array::zeros(u.raw_dim());
             dudt(du.view_mut(), u.view(), t, p);
-            let dt = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
+            let dt = (f64::EPSILON * t.abs().max(1e-5))
+                .sqrt()
+                .max(f64::EPSILON.sqrt() * t.abs());
             dudt(df.view_mut(), u.view(), t + dt, p);
             df.assign(&((&df - &du) / dt));
         }
-- 
2.43.0

