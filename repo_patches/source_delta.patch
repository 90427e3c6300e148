From 0ee20860b9cc467071261682c1a72aa6a360ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 1/9] fix: do not overflow when the initial value of a problem
 is negative

The bound of the root of a decision diagram was computed with a plain
subtraction: with the initial upper bound isize::MAX, any negative root
value made it overflow (a panic wherever overflow checks are on).
---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..8db3bed 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..c1dcfce 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From 392a0c392497f6565aa426fc1107410134f96618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 2/9] fix: a restricted diagram that dies out is not exact

When every node of a restricted (hence incomplete) decision diagram is cut
and the model still names a variable for the empty layer, compile returned
early and left the diagram flagged as exact: the solvers then dropped the
subproblem without ever relaxing it, and missed its solutions.
---
 src/mdd/with_all.rs     | 1 +
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 8db3bed..6e10c78 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,6 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index c1dcfce..2faca9b 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,6 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
-- 
2.43.0


From 028b58e5effdbc7c427ebfe6477feb3501e4d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:59 +0000
Subject: [PATCH 3/9] fix: keep the exact terminal nodes in the frontier cutset

A terminal node of a relaxed decision diagram that is reached through exact
nodes only is a solution of its own: it is below no node of the frontier
cutset, and unless it happens to be the best node of the diagram it was
dropped, and with it possibly the optimum of the problem.
---
 src/mdd/with_all.rs     | 6 ++++++
 src/mdd/with_barrier.rs | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 6e10c78..1e98d7d 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -483,6 +483,12 @@ where
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
                 visit.push(id);
+
+                // an exact terminal node is a solution which is below no other cutset node
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
             }
 
             while !visit.is_empty() {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 2faca9b..eb945c5 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -544,7 +544,9 @@ where
             if self.cutset_type == CutsetType::LastExactLayer && !self.approximate {
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
+                // an exact terminal node is a solution which is below no other cutset node
                 self.nodes[node_id.0].flags.set_cutset(true);
+                self.cutset.push(*node_id);
             }
         }
 
-- 
2.43.0


From 392406a6b20391883001c0444d3b875a0fd507be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 4/9] fix: with_nb_threads makes room for the bounds of its
 threads

The vector of per-thread upper bounds kept the size chosen at construction:
asking for more threads made the extra ones panic (index out of bounds),
which left the other ones waiting for ever.
---
 src/solver/barrier.rs  | 2 ++
 src/solver/parallel.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..0a2c41c 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,8 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        // each thread has its own cell in the shared bounds
+        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..eff0a71 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,8 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        // each thread has its own cell in the shared bounds
+        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
-- 
2.43.0


From 76dd3925a8b7d069e95bca4a3a57d2dbb3fab267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 5/9] fix: report sound bounds when the search is interrupted

The upper bound reported by an interrupted search
- ignored the open nodes of the fringe as soon as a node was being processed,
- could be that of a stale node, below the incumbent,
- was replaced by the incumbent when another thread found the fringe emptied
  by the interruption.
It is now the greatest of the incumbent, the nodes being processed and the
fringe; isize::MIN stands for an idle thread, as documented, because the
bound of the root is isize::MAX.
---
 src/solver/barrier.rs  | 34 +++++++++++++++-------------------
 src/solver/parallel.rs | 34 +++++++++++++++-------------------
 2 files changed, 30 insertions(+), 38 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 0a2c41c..daf4e24 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -57,7 +57,7 @@ where
     ///
     /// # Note
     /// When a thread is idle (or more generally when it is done with processing
-    /// it node), it should place the value i32::min_value() in its corresponding
+    /// it node), it should place the value isize::MIN in its corresponding
     /// cell.
     upper_bounds: Vec<isize>,
     interrupted: bool,
@@ -172,7 +172,7 @@ where
                     best_sol: None,
                     best_lb: isize::MIN,
                     best_ub: isize::MAX,
-                    upper_bounds: vec![isize::MAX; nb_threads],
+                    upper_bounds: vec![isize::MIN; nb_threads],
                     fringe: NoDupFrontier::new(ranking),
                     ongoing: 0,
                     explored: 0,
@@ -191,7 +191,7 @@ where
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
         // each thread has its own cell in the shared bounds
-        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MAX);
+        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MIN);
         self
     }
 
@@ -303,7 +303,7 @@ where
     fn notify_node_finished(shared: &Shared<P, R, O, W>, thread_id: usize, depth: usize, explored_dd: usize) {
         let mut critical = shared.critical.lock();
         critical.ongoing -= 1;
-        critical.upper_bounds[thread_id] = isize::MAX;
+        critical.upper_bounds[thread_id] = isize::MIN;
         critical.ongoing_by_layer[depth] -= 1;
         critical.explored_dd += explored_dd;
 
@@ -336,6 +336,11 @@ where
             critical.lowest_active_layer += 1;
         }
 
+        // Did someone stop the search already ?
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -343,23 +348,14 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
-                critical
-                    .upper_bounds
-                    .iter()
-                    .copied()
-                    .filter(|x| *x != isize::MAX)
-                    .max()
-                    .unwrap_or(isize::MAX)
-            } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
-            };
+            // the optimum is the incumbent, or in a node which is either being
+            // processed (idle threads do not count) or still on the fringe
+            let ongoing_ub = critical.upper_bounds.iter().copied().max().unwrap_or(isize::MIN);
+            let fringe_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = critical.best_lb.max(ongoing_ub).max(fringe_ub);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index eff0a71..d2ece22 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -46,7 +46,7 @@ struct Critical<'a, F: Frontier> {
     ///
     /// # Note
     /// When a thread is idle (or more generally when it is done with processing
-    /// it node), it should place the value i32::min_value() in its corresponding
+    /// it node), it should place the value isize::MIN in its corresponding
     /// cell.
     upper_bounds: Vec<isize>,
     interrupted: bool,
@@ -159,7 +159,7 @@ where
                     best_sol: None,
                     best_lb: isize::MIN,
                     best_ub: isize::MAX,
-                    upper_bounds: vec![isize::MAX; nb_threads],
+                    upper_bounds: vec![isize::MIN; nb_threads],
                     fringe,
                     ongoing: 0,
                     explored: 0,
@@ -174,7 +174,7 @@ where
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
         // each thread has its own cell in the shared bounds
-        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MAX);
+        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MIN);
         self
     }
 
@@ -282,7 +282,7 @@ where
     fn notify_node_finished(shared: &Shared<P, R, O, W, F>, thread_id: usize, explored_dd: usize) {
         let mut critical = shared.critical.lock();
         critical.ongoing -= 1;
-        critical.upper_bounds[thread_id] = isize::MAX;
+        critical.upper_bounds[thread_id] = isize::MIN;
         critical.explored_dd += explored_dd;
         shared.monitor.notify_all();
     }
@@ -306,6 +306,11 @@ where
     {
         let mut critical = shared.critical.lock();
 
+        // Did someone stop the search already ?
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -313,23 +318,14 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
-                critical
-                    .upper_bounds
-                    .iter()
-                    .copied()
-                    .filter(|x| *x != isize::MAX)
-                    .max()
-                    .unwrap_or(isize::MAX)
-            } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
-            };
+            // the optimum is the incumbent, or in a node which is either being
+            // processed (idle threads do not count) or still on the fringe
+            let ongoing_ub = critical.upper_bounds.iter().copied().max().unwrap_or(isize::MIN);
+            let fringe_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = critical.best_lb.max(ongoing_ub).max(fringe_ub);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From 3f16185b76373cf040992256b1a75f68d8876ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 6/9] fix: the gap of unbounded, equal or opposite bounds

---
 src/xputils.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..5fe38b9 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,12 +169,13 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
-    let u = aub.max(alb);
-    let l = aub.min(alb);
+    if lb == ub {
+        0.0
+    } else {
+        let (lb, ub) = (lb as f64, ub as f64);
 
-    (u - l) as f32 / u as f32
+        ((ub - lb) / ub.abs().max(lb.abs())) as f32
+    }
 }
 
 pub fn resolution_header() {
-- 
2.43.0


From ace0329284965753dbf8a0b4eb53fab91cf458cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:49 +0000
Subject: [PATCH 7/9] fix: a solver that is asked for no thread uses one

---
 src/solver/barrier.rs  | 2 ++
 src/solver/parallel.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index daf4e24..bb8d935 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -154,6 +154,7 @@ where
         cutset_type: CutsetType,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // nothing is explored without a thread
         let mut barriers = vec![];
         for _ in 0..=problem.nb_variables() {
             barriers.push(RwLock::new(Default::default()));
@@ -189,6 +190,7 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        let nb_threads = nb_threads.max(1); // nothing is explored without a thread
         self.nb_threads = nb_threads;
         // each thread has its own cell in the shared bounds
         self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MIN);
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index d2ece22..22cd2d4 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -146,6 +146,7 @@ where
         fringe: &'a mut F,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // nothing is explored without a thread
         ParallelSolver {
             shared: Shared {
                 problem,
@@ -172,6 +173,7 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        let nb_threads = nb_threads.max(1); // nothing is explored without a thread
         self.nb_threads = nb_threads;
         // each thread has its own cell in the shared bounds
         self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MIN);
-- 
2.43.0


From e9c84342e103fc5e873dc641c7d90d2035abf5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 8/9] fix: a node that is on the fringe already is not opened
 twice

---
 src/solver/barrier.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index bb8d935..2f2c82e 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -296,8 +296,10 @@ where
             cutset_node.ub = ub.min(cutset_node.ub);
             if cutset_node.ub > best_lb {
                 let depth = cutset_node.path.len();
+                let before = critical.fringe.len();
                 critical.fringe.push(cutset_node);
-                critical.open_by_layer[depth] += 1;
+                // the fringe keeps one node only for each state
+                critical.open_by_layer[depth] += critical.fringe.len() - before;
             }
         });
     }
-- 
2.43.0


From 44b77b7490e5b511ef723ca8bd890e65387ef9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:52 +0000
Subject: [PATCH 9/9] fix: a later search drops the thresholds of finished
 layers too

---
 src/solver/barrier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 2f2c82e..2e485df 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -205,6 +205,8 @@ where
         let mut critical = self.shared.critical.lock();
         critical.fringe.push(root);
         critical.open_by_layer[0] += 1;
+        // the search starts over at the first layer
+        critical.lowest_active_layer = 0;
     }
 
     fn root_node(&self) -> SubProblem<P::State> {
-- 
2.43.0

