From 3c19deecd88b9fa4cb8d06140d8af31bc0df01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:11 +0000
Subject: [PATCH 1/8] fix: exit with status 10 for satisfiable formulas

---
 starlit-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlit-cli/src/main.rs b/starlit-cli/src/main.rs
index cbbe3ab..a945c17 100644
--- a/starlit-cli/src/main.rs
+++ b/starlit-cli/src/main.rs
@@ -137,7 +137,7 @@ fn main() -> anyhow::Result<()> {
             println!("v{}", line);
         }
         println!("v 0");
-        std::process::exit(20);
+        std::process::exit(10);
     } else {
         println!("s UNSATISFIABLE");
         std::process::exit(20);
-- 
2.43.0


From 675c902a1f7acd7e22534e66cda1ea4764f925d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:48 +0000
Subject: [PATCH 2/8] fix: restore the heap order when dequeuing an inner key

---
 starlit/src/heap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlit/src/heap.rs b/starlit/src/heap.rs
index 6aef5cb..74603a4 100644
--- a/starlit/src/heap.rs
+++ b/starlit/src/heap.rs
@@ -115,9 +115,9 @@ where
             self.heap.pop();
 
             if self.values[self.heap[other_pos] as usize] > self.values[index] {
-                self.move_towards_leaves(other_pos)
-            } else {
                 self.move_towards_root(other_pos)
+            } else {
+                self.move_towards_leaves(other_pos)
             }
         }
     }
-- 
2.43.0


From 9074b3178802bd3b682bcce01875c45f1ac2d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:48 +0000
Subject: [PATCH 3/8] fix: do not assign the literal of a repeated unit clause
 again

---
 starlit/src/prop.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlit/src/prop.rs b/starlit/src/prop.rs
index e019e09..f96b73e 100644
--- a/starlit/src/prop.rs
+++ b/starlit/src/prop.rs
@@ -98,6 +98,10 @@ pub fn add_clause_verbatim(
                 prop.unsat = true;
                 return AddedClause::Empty;
             }
+            if prop.values.is_true(a) {
+                // Already assigned, assigning it again would corrupt the trail.
+                return AddedClause::Unit(a);
+            }
             trail::assign(
                 prop,
                 Step {
-- 
2.43.0


From a4563eb8cd301073ecc152ecfee811c4b5dfd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:48 +0000
Subject: [PATCH 4/8] fix: log the empty clause to the proof when the formula
 becomes unsatisfiable

---
 starlit/src/prop.rs   | 3 +++
 starlit/src/search.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/starlit/src/prop.rs b/starlit/src/prop.rs
index f96b73e..01312c1 100644
--- a/starlit/src/prop.rs
+++ b/starlit/src/prop.rs
@@ -96,6 +96,9 @@ pub fn add_clause_verbatim(
         [a] => {
             if prop.values.is_false(a) {
                 prop.unsat = true;
+                if let Some(proof) = &mut ctx.proof {
+                    proof.add_clause(&[]);
+                }
                 return AddedClause::Empty;
             }
             if prop.values.is_true(a) {
diff --git a/starlit/src/search.rs b/starlit/src/search.rs
index e7e96b9..649358f 100644
--- a/starlit/src/search.rs
+++ b/starlit/src/search.rs
@@ -52,6 +52,9 @@ pub fn search_step(ctx: &mut Ctx, search: &mut Search) -> Option<bool> {
         if search.prop.trail.decision_level() == DecisionLevel::TOP {
             search.prop.unsat = true;
             // Conflict without any assumptions means the formula is UNSAT
+            if let Some(proof) = &mut ctx.proof {
+                proof.add_clause(&[]);
+            }
             verbose!(ctx, "unsatisfiable");
 
             return Some(false);
-- 
2.43.0


From 9b39755c47ea43847f28d485175e36bf7987ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:48 +0000
Subject: [PATCH 5/8] fix: count a clause deleted more than once as garbage
 only once

---
 starlit/src/clause_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlit/src/clause_arena.rs b/starlit/src/clause_arena.rs
index 0fd4203..cb77062 100644
--- a/starlit/src/clause_arena.rs
+++ b/starlit/src/clause_arena.rs
@@ -459,8 +459,8 @@ where
     /// clause's literals will return an empty slice.
     pub fn delete_clause(&mut self, clause: ClauseRef) {
         let len = self.clause_len(clause);
-        self.garbage_count += len + HEADER_LEN + 1;
         if len > 0 {
+            self.garbage_count += len + HEADER_LEN + 1;
             unsafe {
                 // SAFETY `clause_len` above asserts that `clause` is valid
                 *self
-- 
2.43.0


From 7d80c26060f77afa0ef9ca3a76e378a9099f9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:48 +0000
Subject: [PATCH 6/8] fix: reset the search position when it is outside of a
 shrunk clause

---
 starlit/src/prop/long.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlit/src/prop/long.rs b/starlit/src/prop/long.rs
index b106954..a647727 100644
--- a/starlit/src/prop/long.rs
+++ b/starlit/src/prop/long.rs
@@ -27,7 +27,8 @@ pub use crate::clause_arena::ClauseRef;
 
 impl ClauseHeader for LongHeader {
     fn shrink_clause(&mut self, _old_len: usize, new_len: usize) {
-        if self.search_pos() >= new_len {
+        // The search position is relative to the third literal
+        if self.search_pos() + 2 >= new_len {
             self.set_search_pos(0)
         }
     }
-- 
2.43.0


From e56b164ee06ede6fe5b298e6cdf1e06dd06f3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:09 +0000
Subject: [PATCH 7/8] fix: add clauses at the top level and propagate them
 after an earlier solve

---
 starlit/src/prop/trail.rs | 7 +++++++
 starlit/src/search.rs     | 5 +++++
 starlit/src/solver.rs     | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/starlit/src/prop/trail.rs b/starlit/src/prop/trail.rs
index d7bbe6c..cd0e05c 100644
--- a/starlit/src/prop/trail.rs
+++ b/starlit/src/prop/trail.rs
@@ -208,6 +208,13 @@ impl Trail {
             .map(|step| step.assigned_lit)
     }
 
+    /// Marks all literals as not yet propagated.
+    ///
+    /// Required when adding clauses that contain already propagated literals.
+    pub fn reset_propagated(&mut self) {
+        self.propagated = 0
+    }
+
     /// Marks the next literal as fully propagated.
     pub fn advance_propagated(&mut self) {
         debug_assert!(self.propagated < self.steps.len());
diff --git a/starlit/src/search.rs b/starlit/src/search.rs
index 649358f..608bb61 100644
--- a/starlit/src/search.rs
+++ b/starlit/src/search.rs
@@ -115,6 +115,11 @@ pub fn restart(ctx: &mut Ctx, search: &mut Search) {
     debug!(ctx, "restart");
     ctx.stats.search.restarts += 1;
 
+    backtrack_to_top(ctx, search);
+}
+
+/// Undoes all decisions.
+pub fn backtrack_to_top(ctx: &mut Ctx, search: &mut Search) {
     if search.prop.trail.decision_level() > DecisionLevel::TOP {
         backtrack_to_level(
             ctx,
diff --git a/starlit/src/solver.rs b/starlit/src/solver.rs
index 2079138..3364e2f 100644
--- a/starlit/src/solver.rs
+++ b/starlit/src/solver.rs
@@ -6,6 +6,7 @@ use crate::{
     proof::Proof,
     prop::{add_clause_verbatim, long::LongHeader},
     report::report,
+    search::backtrack_to_top,
     state::{schedule_search_step, State},
     tracking::Resize,
 };
@@ -34,6 +35,11 @@ impl<'a> Solver<'a> {
             self.state.resize(var_count);
         }
 
+        // An earlier call to `solve` can leave decisions and already propagated literals behind. The
+        // new clause has to be added at the top level and its literals propagated again.
+        backtrack_to_top(&mut self.ctx, &mut self.state.search);
+        self.state.search.prop.trail.reset_propagated();
+
         add_clause_verbatim(
             &mut self.ctx,
             &mut self.state.search.prop,
-- 
2.43.0


From 9f5de6efd5298a1411cefc4c74dc3c7f958bec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:09 +0000
Subject: [PATCH 8/8] fix: print the model when the header leaves the variable
 count unspecified

---
 starlit-cli/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlit-cli/src/main.rs b/starlit-cli/src/main.rs
index a945c17..0a17b5b 100644
--- a/starlit-cli/src/main.rs
+++ b/starlit-cli/src/main.rs
@@ -117,7 +117,10 @@ fn main() -> anyhow::Result<()> {
         println!("s SATISFIABLE");
         let mut line = String::default();
 
-        for lit in (0..header.var_count).map(|index| Lit::from_index(index, true)) {
+        // A variable count of zero in the header means that it is unspecified
+        let var_count = header.var_count.max(solver.ctx.stats.formula.vars);
+
+        for lit in (0..var_count).map(|index| Lit::from_index(index, true)) {
             if let Some(value) = solver.value(lit) {
                 use std::fmt::Write;
 
-- 
2.43.0

