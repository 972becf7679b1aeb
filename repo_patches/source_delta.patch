From e229b3d9dc143f20b0abbdadde6b25e3b0577280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 01/14] fix: keep reference points paired with their objectives
 when Stage 2 shuffles them

run() shuffled the reference set but not the pre-computed objectives, so the merit filter
compared each trial with the objective of a different point.
---
 src/oqnlp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..85730a5 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -919,9 +919,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         #[cfg(not(feature = "checkpointing"))]
         let mut rng: StdRng = StdRng::seed_from_u64(self.params.seed);
 
-        // Shuffle reference set if starting fresh
-        if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+        // Shuffle reference set if starting fresh, keeping every point next to its own objective
+        if let Some(objectives) = ref_objectives.take() {
+            let mut paired: Vec<(Array1<f64>, f64)> =
+                ref_set.into_iter().zip(objectives).collect();
+            paired.shuffle(&mut rng);
+            let (points, objectives): (Vec<Array1<f64>>, Vec<f64>) = paired.into_iter().unzip();
+            ref_set = points;
+            ref_objectives = Some(objectives);
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 176d862a59004a750b67b817c42e5b6dac94710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 02/14] fix: find the checkpoint of iteration 0 when it is the
 only one

With keep_all, a directory holding only <name>_000000.bin was reported as empty.
---
 src/checkpoint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..992c9d0 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -312,7 +312,7 @@ impl CheckpointManager {
             })?;
         let pattern = format!("{}_", self.config.checkpoint_name);
 
-        let mut latest_iteration = 0;
+        let mut latest_iteration = None;
         let mut latest_path = None;
 
         for entry in entries {
@@ -327,8 +327,8 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
-                            latest_iteration = iteration;
+                        if latest_iteration.is_none_or(|latest| iteration > latest) {
+                            latest_iteration = Some(iteration);
                             latest_path = Some(path);
                         }
                     }
-- 
2.43.0


From 0a9252256cfdbc35d054e71f7f6a0cd16b59e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 03/14] fix: save checkpoints atomically

A crash in the middle of fs::write left a truncated file in place of the previous checkpoint.
---
 src/checkpoint.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 992c9d0..b4231ec 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -245,8 +245,16 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
+        // Write to a temporary file and rename it, so that an interrupted save never damages a
+        // checkpoint that was already stored under this name
+        let temp_path = filepath.with_extension("bin.tmp");
+        fs::write(&temp_path, encoded).map_err(|e| CheckpointError::IoError {
             operation: "write".to_string(),
+            path: temp_path.clone(),
+            source: e,
+        })?;
+        fs::rename(&temp_path, &filepath).map_err(|e| CheckpointError::IoError {
+            operation: "rename".to_string(),
             path: filepath.clone(),
             source: e,
         })?;
-- 
2.43.0


From 71e8589526d133e137de1146a2cdbc4bff0a1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:05 +0000
Subject: [PATCH 04/14] fix: do not overflow when deriving seeds from a seed
 close to u64::MAX

---
 src/oqnlp.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 85730a5..40e4ed7 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -911,7 +911,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             StdRng::seed_from_u64(self.current_seed)
         } else {
             // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
+            let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             self.current_seed = seed;
             StdRng::seed_from_u64(seed)
         };
@@ -1463,7 +1463,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1654,7 +1654,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Update the current seed for checkpointing
             #[cfg(feature = "checkpointing")]
             {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             let trial = trial.clone();
@@ -1846,7 +1846,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 self.current_iteration = local_iter;
                 self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             *unchanged_cycles += 1;
@@ -1926,7 +1926,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -1995,7 +1995,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -2079,7 +2079,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
-- 
2.43.0


From d1ff3e292ebb092aa1462c9493ba384e850b64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:05 +0000
Subject: [PATCH 05/14] fix: accept 0 as save frequency, callback frequency and
 batch size

Each of them made run() panic (remainder by zero, chunks of size zero). A frequency of 0 now
means never, and a batch size of 0 is treated as 1.
---
 src/observers/mod.rs | 4 +++-
 src/oqnlp.rs         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..e2bdcee 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,9 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some()
+            && self.callback_frequency > 0
+            && iteration % self.callback_frequency == 0
     }
 }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 40e4ed7..82f3009 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -955,7 +955,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (remaining_iterations / (thread_count * 2)).clamp(2, 8)
                 }
             })
-        };
+        }
+        .max(1); // A batch holds at least one trial
 
         #[cfg(not(feature = "rayon"))]
         let effective_batch_size = 1; // Always sequential when rayon is not available
@@ -1594,7 +1595,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     #[cfg(feature = "checkpointing")]
     fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let save_frequency = manager.config().save_frequency;
+            if save_frequency > 0 && self.current_iteration % save_frequency == 0 {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
-- 
2.43.0


From ed6398881a4e0fbc1cfdcff61f584e55d21f271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:05 +0000
Subject: [PATCH 06/14] fix: reject NaN parameters, points, bounds and
 constraint values

NaN passed every `<` check: NaN factors and custom points were accepted, NaN constraint values
counted as satisfied, and NaN or infinite bounds made the sampler panic. The midpoint seed
also left the bounds when lower + upper overflowed.
---
 src/filters.rs        |  2 +-
 src/oqnlp.rs          |  6 +++---
 src/scatter_search.rs | 11 +++++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..010a145 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -208,7 +208,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor.is_nan() || params.distance_factor < 0.0 {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 82f3009..c272334 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -444,7 +444,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
@@ -662,7 +662,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if value.is_nan() || value < lower || value > upper {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1068,7 +1068,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            if value.is_nan() || value < lower_bound || value > upper_bound {
                 return false;
             }
         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..7e870e0 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -163,7 +163,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // The width must be finite too: NaN and infinite bounds cannot be sampled
+            if bounds.lower[i] >= bounds.upper[i]
+                || !(bounds.upper[i] - bounds.lower[i]).is_finite()
+            {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
@@ -328,13 +331,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             // No constraints - add all seed points directly
             ref_set.push(self.bounds.lower.to_owned());
             ref_set.push(self.bounds.upper.to_owned());
-            ref_set.push((&self.bounds.lower + &self.bounds.upper) / 2.0);
+            ref_set.push(&self.bounds.lower / 2.0 + &self.bounds.upper / 2.0);
         } else {
             // With constraints - only add seed points that satisfy them
             let seed_points = vec![
                 self.bounds.lower.to_owned(),
                 self.bounds.upper.to_owned(),
-                (&self.bounds.lower + &self.bounds.upper) / 2.0,
+                &self.bounds.lower / 2.0 + &self.bounds.upper / 2.0,
             ];
 
             for point in seed_points {
@@ -916,7 +919,7 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        if value.is_nan() || value < 0.0 {
             return false;
         }
     }
-- 
2.43.0


From 32e8f779f76c24574c5cf4d79bf304cdfe21a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:14 +0000
Subject: [PATCH 07/14] fix: let a run after a resume call continue from the
 restored state and settings

A run after resume_with_modified_params() or
resume_from_checkpoint_with_params() reloaded the latest checkpoint with its
old parameters (auto_resume) or started over (no auto_resume), and the local
solver and the distance filter kept the settings from before the restore.
---
 src/oqnlp.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index c272334..2b56bcd 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -408,6 +408,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     current_seed: u64,
 
+    /// Whether the state was restored from a checkpoint and the next run continues from it.
+    #[cfg(feature = "checkpointing")]
+    resume_pending: bool,
+
     /// Observer for tracking algorithm state and metrics
     observer: Option<Observer>,
 
@@ -491,6 +495,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             start_time: None,
             #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
+            #[cfg(feature = "checkpointing")]
+            resume_pending: false,
             observer: None,
             custom_points: None,
             abs_tol: 1e-8,
@@ -686,9 +692,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             }
         }
 
-        // Try to resume from checkpoint if enabled
+        // Continue from the restored state, or try to resume from checkpoint if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint = self.resume_pending || self.try_resume_from_checkpoint()?;
+        #[cfg(feature = "checkpointing")]
+        {
+            self.resume_pending = false;
+        }
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1518,6 +1528,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn restore_from_checkpoint(&mut self, checkpoint: OQNLPCheckpoint) -> Result<(), OQNLPError> {
         let solution_count = checkpoint.solution_set.as_ref().map_or(0, |s| s.len());
 
+        // The filter and the local solver follow the restored parameters
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: checkpoint.params.distance_factor,
+            wait_cycle: checkpoint.params.wait_cycle,
+            threshold_factor: checkpoint.params.threshold_factor,
+        })?;
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            checkpoint.params.local_solver_type.clone(),
+            checkpoint.params.local_solver_config.clone(),
+        );
+
         self.params = checkpoint.params;
         self.current_iteration = checkpoint.current_iteration;
         self.merit_filter.update_threshold(checkpoint.merit_threshold);
@@ -1553,6 +1575,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
+        // The next run continues from this state
+        self.resume_pending = true;
+
         if self.verbose {
             println!(
                 "Resumed from checkpoint at iteration {} with {} solutions",
-- 
2.43.0


From b3f679e4e6b15155de1ac68be890b9de59a03428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 08/14] fix: resume with the next trial of the reference set
 that is being processed

Checkpoints stored the reference set before Stage 2 shuffles it and the index
of the trial that was already done, so a resumed run repeated one trial and
took all others from a different order: some reference points were tried twice
and others never. A parallel batch could even be saved half-way with the index
of an arbitrary trial. Store the order of processing and the next trial, save
batches as a whole and do not start a batch when the target is already reached.
---
 src/oqnlp.rs | 128 ++++++++++++++++++++++++---------------------------
 1 file changed, 61 insertions(+), 67 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 2b56bcd..43510c7 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -846,12 +846,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -937,6 +931,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let (points, objectives): (Vec<Array1<f64>>, Vec<f64>) = paired.into_iter().unzip();
             ref_set = points;
             ref_objectives = Some(objectives);
+
+            // Store the reference set in the order of processing for checkpointing
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+                self.current_iteration = 0;
+                self.unchanged_cycles = 0;
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
@@ -976,6 +978,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
         for batch in trials_to_process.chunks(effective_batch_size) {
+            // Check if target objective has been reached before processing each batch
+            if self.target_objective_reached() {
+                if self.verbose {
+                    println!(
+                        "Stage 2: Target objective {:.8} reached. Stopping optimization.",
+                        self.target_objective.unwrap()
+                    );
+                }
+                break;
+            }
+
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
@@ -1016,17 +1029,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     ref_objectives.as_ref(),
                 )?;
             }
-
-            // Check if target objective has been reached after processing the batch
-            if self.target_objective_reached() {
-                if self.verbose {
-                    println!(
-                        "Stage 2: Target objective {:.8} reached. Stopping optimization.",
-                        self.target_objective.unwrap()
-                    );
-                }
-                break;
-            }
         }
 
         // Observer: End Stage 2
@@ -1616,12 +1618,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
     }
 
-    /// Save a checkpoint if checkpointing is enabled and conditions are met
+    /// Save a checkpoint if checkpointing is enabled and a multiple of the save frequency was
+    /// reached since `previous_iteration`
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
             let save_frequency = manager.config().save_frequency;
-            if save_frequency > 0 && self.current_iteration % save_frequency == 0 {
+            if save_frequency > 0
+                && self.current_iteration / save_frequency > previous_iteration / save_frequency
+            {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1672,16 +1677,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
             // Update the current seed for checkpointing
             #[cfg(feature = "checkpointing")]
             {
-                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+                self.current_seed = self.params.seed.wrapping_add(local_iter as u64);
             }
 
             let trial = trial.clone();
@@ -1737,6 +1736,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 let added: bool = self.process_local_solution(local_trial.clone())?;
 
+                // This trial is done: a resumed run continues with the next one
+                #[cfg(feature = "checkpointing")]
+                {
+                    self.current_iteration = local_iter + 1;
+                    self.unchanged_cycles = *unchanged_cycles;
+                }
+
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
@@ -1788,6 +1794,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     self.adjust_threshold(self.merit_filter.threshold);
                     *unchanged_cycles = 0;
                 }
+
+                // This trial is done: a resumed run continues with the next one
+                #[cfg(feature = "checkpointing")]
+                {
+                    self.current_iteration = local_iter + 1;
+                    self.unchanged_cycles = *unchanged_cycles;
+                }
             }
 
             // Invoke observer callback if set and frequency matches
@@ -1799,7 +1812,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Save checkpoint if enabled and conditions are met
             #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
+            self.maybe_save_checkpoint(local_iter)?;
         }
         Ok(())
     }
@@ -1826,6 +1839,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Ok(());
         }
 
+        #[cfg(feature = "checkpointing")]
+        let first_iter = filtered_batch[0].0;
+        #[cfg(feature = "checkpointing")]
+        let last_iter = filtered_batch[filtered_batch.len() - 1].0;
+
         // For parallel processing, we need to collect the objective evaluations first
         let batch_results: Result<Vec<(usize, Array1<f64>, f64)>, OQNLPError> = filtered_batch
             .par_iter()
@@ -1867,15 +1885,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 passes_merit && passes_distance
             });
 
+        // The batch is saved as a whole: a resumed run continues with the next one
+        #[cfg(feature = "checkpointing")]
+        {
+            self.current_iteration = last_iter + 1;
+            self.current_seed = self.params.seed.wrapping_add(last_iter as u64);
+        }
+
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1907,9 +1925,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
+        }
 
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
+        #[cfg(feature = "checkpointing")]
+        {
+            self.unchanged_cycles = *unchanged_cycles;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1949,13 +1969,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -2011,20 +2024,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2092,9 +2095,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2102,13 +2102,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2134,12 +2127,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
+
+        // Save checkpoint if enabled and conditions are met
+        #[cfg(feature = "checkpointing")]
+        self.maybe_save_checkpoint(first_iter)?;
         Ok(())
     }
 }
-- 
2.43.0


From ecd6a83bdfce1760dc878e5a46a95ffc32a6b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:30 +0000
Subject: [PATCH 09/14] fix: apply the Newton-CG settings with the Hager-Zhang
 line search too

---
 src/local_solver/runner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..20e3a4a 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -921,7 +921,12 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From 07a15996145d37a094bf8d43f55b616df3d35aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:32 +0000
Subject: [PATCH 10/14] fix: keep the total time of a stage after the stage has
 ended

---
 src/observers/stage1.rs | 2 +-
 src/observers/stage2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..69099a8 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -125,7 +125,7 @@ impl Stage1State {
 
     /// End Stage 1 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..39e8e98 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -126,7 +126,7 @@ impl Stage2State {
 
     /// End Stage 2 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
-- 
2.43.0


From 937bf4bbf543b302bf12070dc85876b0e0b4634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:35 +0000
Subject: [PATCH 11/14] fix: respect the callback frequency for single local
 searches in a parallel batch

---
 src/oqnlp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 43510c7..340e075 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2072,9 +2072,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 04f3953a97ab614fb83b878df4b8c5d7317ec2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:32 +0000
Subject: [PATCH 12/14] fix: count the trial points that Stage 1 evaluates as
 function evaluations

---
 src/scatter_search.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 7e870e0..f404ca6 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -782,6 +783,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // 1. Constraint feasibility check (if constraints exist)
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
         // 3. Expensive objective evaluation only for diverse, feasible points
+        let evaluations = AtomicUsize::new(0);
         let evaluate_trial = |point: &Array1<f64>| -> Option<(Array1<f64>, f64)> {
             if !constraints.is_empty() && !is_feasible(point, &constraints) {
                 return None;
@@ -796,6 +798,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
@@ -811,6 +814,15 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
             trials.iter().filter_map(evaluate_trial).collect();
 
+        // Observer: Track the evaluated trial points
+        if let Some(ref mut obs) = self.observer {
+            if obs.should_observe_stage1() {
+                if let Some(stage1) = obs.stage1_mut() {
+                    stage1.add_function_evaluations(evaluations.into_inner());
+                }
+            }
+        }
+
         // If no trials passed filtering, keep current reference set unchanged
         if trial_evaluated.is_empty() {
             return;
-- 
2.43.0


From df1427e2ecdec9cb60b70f8f7a898d8e7acbdaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 13/14] fix: line search bounds with fewer than two entries
 panicked in the local search

---
 src/local_solver/runner.rs | 39 ++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 20e3a4a..861d4b5 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -86,6 +86,15 @@ use thiserror::Error;
 
 // TODO: Do not repeat code in the linesearch branch, use helper function?
 
+/// Step bounds of a line search, which must hold a minimum and a maximum
+#[cfg(feature = "argmin")]
+fn step_bounds(bounds: &Array1<f64>) -> std::result::Result<(f64, f64), Error> {
+    if bounds.len() < 2 {
+        return Err(Error::msg("Line search bounds must hold a minimum and a maximum step"));
+    }
+    Ok((bounds[0], bounds[1]))
+}
+
 #[derive(Error, Debug, PartialEq)]
 /// Local solver error enum
 pub enum LocalSolverError {
@@ -242,12 +251,15 @@ impl<P: Problem> LocalSolver<P> {
             // Match line search method
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|e: Error| {
+                        LocalSolverError::InvalidLBFGSConfig { reason: e.to_string() }
+                    })?;
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?
@@ -305,6 +317,9 @@ impl<P: Problem> LocalSolver<P> {
                     eta,
                     bounds,
                 } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|e: Error| {
+                        LocalSolverError::InvalidLBFGSConfig { reason: e.to_string() }
+                    })?;
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
@@ -326,7 +341,7 @@ impl<P: Problem> LocalSolver<P> {
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?;
@@ -527,12 +542,15 @@ impl<P: Problem> LocalSolver<P> {
             // Match line search method
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|e: Error| {
+                        LocalSolverError::InvalidSteepestDescentConfig { reason: e.to_string() }
+                    })?;
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
@@ -576,6 +594,9 @@ impl<P: Problem> LocalSolver<P> {
                     eta,
                     bounds,
                 } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|e: Error| {
+                        LocalSolverError::InvalidSteepestDescentConfig { reason: e.to_string() }
+                    })?;
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
@@ -597,7 +618,7 @@ impl<P: Problem> LocalSolver<P> {
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?;
@@ -841,12 +862,15 @@ impl<P: Problem> LocalSolver<P> {
         {
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|e: Error| {
+                        LocalSolverError::InvalidSteepestDescentConfig { reason: e.to_string() }
+                    })?;
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
@@ -895,6 +919,9 @@ impl<P: Problem> LocalSolver<P> {
                     eta,
                     bounds,
                 } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|e: Error| {
+                        LocalSolverError::InvalidSteepestDescentConfig { reason: e.to_string() }
+                    })?;
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
@@ -916,7 +943,7 @@ impl<P: Problem> LocalSolver<P> {
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?;
-- 
2.43.0


From a3de50e3d324235719cf0dcc8135fae04e2bf470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 14/14] fix: COBYLA tolerances of another dimension panicked in
 the local search

---
 src/local_solver/runner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 861d4b5..72c2327 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1041,6 +1041,16 @@ impl<P: Problem> LocalSolver<P> {
                 });
             }
 
+            if !xtol_abs.is_empty() && xtol_abs.len() != x0.len() {
+                return Err(LocalSolverError::InvalidCOBYLAConfig {
+                    reason: format!(
+                        "xtol_abs dimension mismatch: expected {} tolerances, got {}",
+                        x0.len(),
+                        xtol_abs.len()
+                    ),
+                });
+            }
+
             let bounds: Vec<(f64, f64)> =
                 (0..x0.len()).map(|i| (problem_bounds[[i, 0]], problem_bounds[[i, 1]])).collect();
 
-- 
2.43.0

