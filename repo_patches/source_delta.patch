From 54577bd506e1d3b77cb382e33f729d141f89759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 1/6] fix: keep the adaptive step size proposal finite when the
 error estimate vanishes

At equilibrium the error is zero, dt_coeff is infinite (or NaN) and the stored
dt became non-finite, which JSON cannot hold: the checkpoint failed to load.
---
 dess/src/solver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..914ffc0 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,9 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, limited to `dt_max` because `dt_coeff` is not
+                // finite if the error vanishes
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +658,9 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, limited to `dt_max` because `dt_coeff` is not
+                // finite if the error vanishes
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From ddd2a89a53ada6607da570d4ec6eca966a56ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 2/6] fix: keep Heun's predictor off the system itself so that
 a failing derivative update cannot tear the step

---
 dess/src/solver.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 914ffc0..ea3688c 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -185,25 +185,22 @@ pub trait SolverVariantMethods: SolverBase {
         let mut updated_self = self.bare_clone();
         //recording initial derivative value for later use
         let deriv_0: Vec<f64> = self.derivs();
-        //this will give euler's formula result
-        self.step_states_by_dt(dt);
-        self.update_derivs();
+        //this will give euler's formula result, on the copy so that a failure of `update_derivs`
+        //cannot leave `self` at the predictor
+        updated_self.step_states_by_dt(dt);
+        updated_self.update_derivs();
         //recording derivative at endpoint of euler's method line
-        let deriv_1: Vec<f64> = self.derivs();
+        let deriv_1: Vec<f64> = updated_self.derivs();
         //creating new vector that is average of deriv_1 and deriv_2
         let deriv_mean: Vec<f64> = deriv_0
             .iter()
             .zip(&deriv_1)
             .map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)
             .collect::<Vec<f64>>();
-        //updates derivative in updated_self to be the average of deriv_0 and deriv_1
-        updated_self.set_derivs(&deriv_mean);
+        //updates derivative in self to be the average of deriv_0 and deriv_1
+        self.set_derivs(&deriv_mean);
         //steps states using the average derivative
-        updated_self.step_states_by_dt(dt);
-        //saving updated state
-        let new_state = updated_self.states();
-        //setting state to be the updated state
-        self.set_states(new_state);
+        self.step_states_by_dt(dt);
         self.update_derivs();
     }
     /// Midpoint Method
-- 
2.43.0


From 93043c1becbf4fee0e586af049f6fea88413b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 3/6] fix: let adaptive walks end when the states are no longer
 finite

---
 dess/src/solver.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ea3688c..0b49283 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -253,6 +253,9 @@ pub trait SolverVariantMethods: SolverBase {
         sc_mut.state.n_iter = 0;
         sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);
 
+        // states that are not finite stay that way whatever the step size
+        let states_finite = self.states().iter().all(|s| s.is_finite());
+
         // loop to find `dt` that results in meeting tolerance
         // and does not exceed `dt_max`
         let (delta3, dt_used) = loop {
@@ -391,10 +394,14 @@ pub trait SolverVariantMethods: SolverBase {
                     }
                 }
             };
+            // if the states were lost before this step and the error cannot be estimated, reducing
+            // `dt` gains nothing and would leave it too small to move time forward
+            let hopeless = !states_finite && sc_mut.state.norm_err.map_or(true, |e| !e.is_finite());
             // if tolerance is achieved here, then we proceed to the next time step, and
             // `dt` will be limited to `dt_max` at the start of the next time step.  If tolerance
             // is not achieved, then time step will be decreased.
-            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
+            let break_cond = hopeless
+                || sc_mut.state.n_iter >= sc_mut.max_iter
                 || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                 || tol_met;
 
@@ -407,7 +414,11 @@ pub trait SolverVariantMethods: SolverBase {
                 let dt_used = sc_mut.state.dt;
                 // adapt for next solver time step, limited to `dt_max` because `dt_coeff` is not
                 // finite if the error vanishes
-                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
+                sc_mut.state.dt = if hopeless {
+                    sc_mut.dt_max
+                } else {
+                    (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max)
+                };
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -510,6 +521,9 @@ pub trait SolverVariantMethods: SolverBase {
         sc_mut.state.n_iter = 0;
         sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);
 
+        // states that are not finite stay that way whatever the step size
+        let states_finite = self.states().iter().all(|s| s.is_finite());
+
         // loop to find `dt` that results in meeting tolerance
         // and does not exceed `dt_max`
         let (delta5, dt_used) = loop {
@@ -641,10 +655,14 @@ pub trait SolverVariantMethods: SolverBase {
                 }
             };
 
+            // if the states were lost before this step and the error cannot be estimated, reducing
+            // `dt` gains nothing and would leave it too small to move time forward
+            let hopeless = !states_finite && sc_mut.state.norm_err.map_or(true, |e| !e.is_finite());
             // if tolerance is achieved here, then we proceed to the next time step, and
             // `dt` will be limited to `dt_max` at the start of the next time step.  If tolerance
             // is not achieved, then time step will be decreased.
-            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
+            let break_cond = hopeless
+                || sc_mut.state.n_iter >= sc_mut.max_iter
                 || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                 || tol_met;
 
@@ -657,7 +675,11 @@ pub trait SolverVariantMethods: SolverBase {
                 let dt_used = sc_mut.state.dt;
                 // adapt for next solver time step, limited to `dt_max` because `dt_coeff` is not
                 // finite if the error vanishes
-                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
+                sc_mut.state.dt = if hopeless {
+                    sc_mut.dt_max
+                } else {
+                    (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max)
+                };
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From d5f14165e7d2066feb3ed09e7a23ee9ca9e6463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 4/6] fix: make to_file replace the target file as a whole or
 leave it alone

---
 dess/src/traits_and_macros.rs | 60 +++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..aebdb92 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -1,8 +1,10 @@
 use crate::imports::*;
 use bincode::{deserialize, serialize};
 use std::ffi::OsStr;
-use std::fs::File;
-use std::path::{Path, PathBuf};
+use std::fs::{File, OpenOptions};
+use std::io::{ErrorKind, Write};
+use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[macro_export]
 macro_rules! time_it {
@@ -149,6 +151,41 @@ impl Diff for Vec<f64> {
     }
 }
 
+/// Replaces the file at `path` by one holding `contents`. The contents are completed in a temporary
+/// file in the same directory, which is renamed to `path` as the last step, so that whatever fails
+/// or wherever it is interrupted, `path` has either its old or its new contents.
+fn replace_file(path: &Path, contents: &[u8]) -> std::io::Result<()> {
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+
+    // if `path` is a symbolic link, replace what it refers to
+    let path = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+    let (tmp, mut file) = loop {
+        let tmp = path.with_file_name(format!(
+            ".dess-{}-{}.tmp",
+            std::process::id(),
+            COUNT.fetch_add(1, Ordering::Relaxed)
+        ));
+        match OpenOptions::new().write(true).create_new(true).open(&tmp) {
+            Ok(file) => break (tmp, file),
+            // left behind by an interrupted process that had the same id
+            Err(err) if err.kind() == ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
+    };
+    let result = (|| {
+        file.write_all(contents)?;
+        if let Ok(metadata) = std::fs::metadata(&path) {
+            file.set_permissions(metadata.permissions())?;
+        }
+        file.sync_all()?;
+        std::fs::rename(&tmp, &path)
+    })();
+    if result.is_err() {
+        let _ = std::fs::remove_file(&tmp);
+    }
+    result
+}
+
 pub trait SerdeAPI: Serialize + for<'a> Deserialize<'a> {
     #[allow(clippy::wrong_self_convention)]
     /// Save current data structure to file. Method adaptively calls serialization methods
@@ -163,22 +200,17 @@ pub trait SerdeAPI: Serialize + for<'a> Deserialize<'a> {
     ///
     /// A Rust Result
     fn to_file(&self, filename: &str) -> Result<(), anyhow::Error> {
-        let file = PathBuf::from(filename);
         let extension = Path::new(filename)
             .extension()
             .and_then(OsStr::to_str)
             .unwrap_or("");
-        match extension {
-            "json" => {
-                serde_json::to_writer(&File::create(file)?, self)?;
-                Ok(())
-            }
-            "yaml" => {
-                serde_yaml::to_writer(&File::create(file)?, self)?;
-                Ok(())
-            }
-            _ => Err(anyhow!("Unsupported file extension {}", extension)),
-        }
+        let contents = match extension {
+            "json" => serde_json::to_vec(self)?,
+            "yaml" => serde_yaml::to_string(self)?.into_bytes(),
+            _ => return Err(anyhow!("Unsupported file extension {}", extension)),
+        };
+        replace_file(Path::new(filename), &contents)?;
+        Ok(())
     }
 
     /// Read from file and return instantiated struct. Method adaptively calls deserialization
-- 
2.43.0


From f191db7f9ae958537ee5183f8ba7131f586ec978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 5/6] fix: do not let a non-finite error estimate of a zero
 increment set the step size to zero or NaN

---
 dess/src/solver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 0b49283..7025e63 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -388,6 +388,8 @@ pub trait SolverVariantMethods: SolverBase {
                 //if no rtol exists, just consideres atol
                 None => {
                     match sc_mut.state.norm_err {
+                        // nothing to scale by
+                        Some(norm_err) if !norm_err.is_finite() => 0.25,
                         Some(norm_err) => (sc_mut.atol / norm_err)
                             .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),
                         None => 1., // don't adapt if there is not enough information to do so (if neither atol or rtol exist)
@@ -648,6 +650,8 @@ pub trait SolverVariantMethods: SolverBase {
                 //if rtol doesn't exist just use atol
                 None => {
                     match sc_mut.state.norm_err {
+                        // nothing to scale by
+                        Some(norm_err) if !norm_err.is_finite() => 0.25,
                         Some(norm_err) => (sc_mut.atol / norm_err)
                             .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),
                         None => 1., // don't adapt if there is not enough information to do so
-- 
2.43.0


From 0315b5736a33663fd10a8181d82ef27cffad431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 6/6] fix: accept the memo argument that copy.deepcopy passes
 to __deepcopy__

---
 dess/dess-proc-macros/src/pyo3_api.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..d6f7541 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -147,8 +147,9 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
                 self.clone()
             }
 
-            /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            /// `__deepcopy__` magic method that uses `clone`.  `copy.deepcopy` passes it a memo dict,
+            /// which is not needed here.
+            fn __deepcopy__(&self, _memo: Option<&PyAny>) -> Self {
                 self.clone()
             }
 
-- 
2.43.0

