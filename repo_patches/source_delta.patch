From af3d788d21578751666d369def6a12a7911600e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 1/7] fix: threaded search must not overwrite a better result
 of another task

A task shares its best memory values with the other tasks before it hands in its
results, so at the end of a task 'this_mem' may be a value adopted from another
task while the task's own result is worse. Comparing only 'this_mem' let such
stale results overwrite the better ones.
---
 mbqc_scheduling/src/search/threaded.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..f9314f4 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -150,8 +150,14 @@ fn task(
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
             // collected a result for them (which is okay there)
-            if let Some(mem) = new_results.remove(&time) {
-                results.insert(time, mem);
+            //
+            // also, this_mem might not be the memory of our own result, but a better one
+            // that we got from another task (cf. update); our result must not overwrite
+            // the result of that other task then
+            if let Some(result) = new_results.remove(&time) {
+                if result.0 <= this_mem {
+                    results.insert(time, result);
+                }
             }
         }
     }
-- 
2.43.0


From 57aae06fbf5cf776693ee797b556c3d8d028acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 2/7] fix: too large measure sets return NotMeasurable instead
 of panicking

The capacity calculation underflowed when the measure set had more elements than
the measurable set: an arithmetic overflow panic in debug builds and a capacity
overflow panic in release builds, where the error is documented.
---
 mbqc_scheduling/src/scheduler/time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..c736692 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -200,8 +200,10 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // check whether the measure_set is really measurable and return the new
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
-        let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+        let mut new_measurable_set = Vec::with_capacity(
+            // the measure_set might be larger than the measurable set (error below)
+            self.measurable.set().len().saturating_sub(measure_set.len()),
+        );
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0


From 53cd356221e1ae612baf6fda43de922707028703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 3/7] fix: num_remaining_nodes has to include the currently
 measurable nodes

It counted only the nodes that are blocked by unmeasured dependencies, but it is
documented (also as argument of the accept functions, where 'total - remaining' is
the number of measured nodes) as the number of nodes that are left to be measured.
---
 mbqc_scheduling/src/scheduler/time.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index c736692..d88c12c 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -105,11 +105,6 @@ impl<'l, T> PathGenerator<'l, T> {
         &self.measurable
     }
 
-    /// How many nodes are left to be measured.
-    pub fn num_remaining_nodes(&self) -> usize {
-        self.deps_counter.len()
-    }
-
     /// Check whether there are qubits that cannot be measured yet.
     pub fn has_unmeasureable(&self) -> bool {
         !self.deps_counter.is_empty()
@@ -117,6 +112,12 @@ impl<'l, T> PathGenerator<'l, T> {
 }
 
 impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
+    /// How many nodes are left to be measured.
+    pub fn num_remaining_nodes(&self) -> usize {
+        // the ones that can be measured now, plus the ones that cannot be measured yet
+        self.measurable.set().len() + self.deps_counter.len()
+    }
+
     /// Create a new [PathGenerator] from a [PartialOrderGraph]. `dependency_buffer` is
     /// going to own the dependency structure implied by the `graph`, so that it can be
     /// reused again.
-- 
2.43.0


From 0e51f6950e1033f56ed27d5d5c05dc6960557389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 4/7] fix: reexport SpacialGraph in the interface module

The Python wrapper accesses it as interface::SpacialGraph.
---
 mbqc_scheduling/src/interface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/interface.rs b/mbqc_scheduling/src/interface.rs
index 4535a12..8d3c76e 100644
--- a/mbqc_scheduling/src/interface.rs
+++ b/mbqc_scheduling/src/interface.rs
@@ -7,9 +7,12 @@ use std::{error, fmt, fs, fs::File, io, path, time::Duration};
 use pauli_tracker::tracker::frames::induced_order::PartialOrderGraph;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 
-use crate::{probabilistic::AcceptFunc, scheduler::space::SpacialGraph, search};
+use crate::{probabilistic::AcceptFunc, search};
 pub use crate::{
-    scheduler::{space::RefSpacialGraph, time::RefPartialOrderGraph},
+    scheduler::{
+        space::{RefSpacialGraph, SpacialGraph},
+        time::RefPartialOrderGraph,
+    },
     search::Steps,
 };
 
-- 
2.43.0


From 424e1c8c90fecd8f946a22baa306b2ae91dcb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 5/7] fix: respect a task bound of zero in the threaded search

The bound was only compared after a task has been started, so zero meant unbounded.
---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index f9314f4..de69d16 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks < task_bound {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -82,9 +86,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From 7466eb5bb2b780cc8a0e7e79625318ac62fc1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 6/7] fix: do not start queued search tasks after the timeout

A task polls the timer only every UPDATE_INTERVAL steps, so after the timeout all
the (by default up to 100000) queued tasks were still searched for that many steps,
exceeding the timeout by far (e.g. 18s instead of 1s for 17 independent nodes).
---
 mbqc_scheduling/src/search/threaded.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index de69d16..367b174 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -121,6 +121,12 @@ fn task(
         best_memory.lock().unwrap()
     );
 
+    // there might be a lot of tasks left, and the search polls the timer only now and then
+    if timer.finished() {
+        tracing::info!("timer: timeout");
+        return;
+    }
+
     let (mut new_results, this_best_mem) = if let Some(probabilistic) = probabilistic {
         do_probabilistic_search(
             scheduler.into_iter(),
-- 
2.43.0


From f45ba9a069be2ecb8e14df5e2e6017985e32e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:03 +0000
Subject: [PATCH 7/7] fix: a leaf never raises the known memory

A threaded search takes over what other tasks have found in between a step
forward and the following step backward; the memory of the leaf then replaced
a lower known memory by a higher one.
---
 mbqc_scheduling/src/search.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/search.rs b/mbqc_scheduling/src/search.rs
index b11ac5a..5f76dce 100644
--- a/mbqc_scheduling/src/search.rs
+++ b/mbqc_scheduling/src/search.rs
@@ -212,8 +212,9 @@ fn backward(
     results: &mut MappedPaths,
 ) {
     if let Some(mem) = leaf {
-        best_memory[current_path.len()] = mem;
-        for m in best_memory[current_path.len() + 1..].iter_mut() {
+        // in a threaded search, something better might have been taken over from another
+        // task since we stepped forward (cf. threaded::update); don't forget it
+        for m in best_memory[current_path.len()..].iter_mut() {
             *m = cmp::min(*m, mem);
         }
         results.insert(current_path.len(), (mem, current_path.clone()));
-- 
2.43.0

