From b50698ebc3639210bb39d39eaa0f69be8e207556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 01/34] fix: keep a course as a starting unit while any of its
 starting lessons is free

---
 src/graph.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 562b053..49707bf 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -611,10 +611,11 @@ impl UnitGraph for InMemoryUnitGraph {
                 .collect();
 
             // Before updating the map, the dependency sinks need to be updated as well. The course
-            // is no longer a dependency sink if any of its starting lessons have dependencies to
-            // other valid units in the graph.
+            // is no longer a dependency sink if all of its starting lessons have dependencies to
+            // other valid units in the graph. A course with some other starting lesson must remain
+            // a dependency sink because that lesson might not be reachable from any other unit.
             if self.dependency_sinks.contains(course_id) {
-                let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {
+                let mut dependent_lessons = starting_lessons.iter().map(|lesson_id| {
                     self.get_dependencies(*lesson_id)
                         .is_some_and(|dependencies| {
                             !dependencies.is_empty()
@@ -623,6 +624,8 @@ impl UnitGraph for InMemoryUnitGraph {
                                     .all(|dep| self.get_unit_type(*dep).is_some())
                         })
                 });
+                let has_starting_dependencies =
+                    !starting_lessons.is_empty() && dependent_lessons.all(|dependent| dependent);
                 if has_starting_dependencies {
                     Arc::make_mut(&mut self.dependency_sinks).remove(course_id);
                 }
-- 
2.43.0


From 73f7b375bc179606dc733d2eae18d04c5aac89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:50 +0000
Subject: [PATCH 02/34] fix: do not enter another course through a lesson
 before that course's dependencies are satisfied

---
 src/scheduler.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 0890e73..1268c76 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -288,6 +288,11 @@ impl DepthFirstScheduler {
                 .unwrap_or_default();
 
             if lesson_ids.is_empty() {
+                // A lesson whose course still has unsatisfied dependencies cannot be visited yet.
+                if !self.course_is_open(course_id, course_id, metadata_filter) {
+                    continue;
+                }
+
                 // For units with no lessons, insert the unit itself as a starting unit so that its
                 // dependents are traversed.
                 initial_stack.push(StackItem {
@@ -611,13 +616,34 @@ impl DepthFirstScheduler {
         unit_id: Ustr,
         metadata_filter: Option<&KeyValueFilter>,
     ) -> Vec<Ustr> {
+        let home_course = self.data.get_lesson_course(unit_id).unwrap_or(unit_id);
         self.data
             .get_all_dependents(unit_id)
             .into_iter()
-            .filter(|unit_id| self.all_satisfied_dependencies(*unit_id, metadata_filter))
+            .filter(|dependent_id| {
+                self.all_satisfied_dependencies(*dependent_id, metadata_filter)
+                    && self.course_is_open(*dependent_id, home_course, metadata_filter)
+            })
             .collect()
     }
 
+    /// Returns whether the given unit can be reached from the given course as far as the
+    /// dependencies of its course are concerned. A lesson from another course cannot be visited
+    /// until the dependencies of its own course are satisfied.
+    fn course_is_open(
+        &self,
+        unit_id: Ustr,
+        home_course: Ustr,
+        metadata_filter: Option<&KeyValueFilter>,
+    ) -> bool {
+        match self.data.get_lesson_course(unit_id) {
+            Some(course_id) if course_id != home_course => {
+                self.all_satisfied_dependencies(course_id, metadata_filter)
+            }
+            _ => true,
+        }
+    }
+
     // Returns whether the given course should be skipped during the search. If so, the valid
     /// dependents of the course should be added to the stack.
     fn skip_course(
-- 
2.43.0


From b58ce5a1cc26760aef4db58c462ececffa1c36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 03/34] fix: skip review list exercises inside a blacklisted
 lesson or course

---
 src/scheduler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 1268c76..1fd04d3 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -962,6 +962,11 @@ impl DepthFirstScheduler {
                     candidates.extend(self.get_candidates_from_lesson(unit_id)?);
                 }
                 UnitType::Exercise => {
+                    // Skip exercises that are blacklisted or inside a blacklisted unit.
+                    if self.data.inside_blacklisted(unit_id)? {
+                        continue;
+                    }
+
                     // Retrieve the exercise's lesson and course IDs.
                     let lesson_id = self.data.get_lesson_id(unit_id).unwrap_or_default();
                     let course_id = self.data.get_course_id(lesson_id).unwrap_or_default();
-- 
2.43.0


From 712e67c592ed001b314cd72b690651e7ec078ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 04/34] fix: schedule an exercise once when filter or review
 list entries overlap

---
 src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 1fd04d3..3e04c01 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -998,7 +998,7 @@ impl DepthFirstScheduler {
     /// Retrieves an initial batch of candidates based on the given filter.
     fn get_initial_candidates(&self, filter: Option<ExerciseFilter>) -> Result<Vec<Candidate>> {
         // Retrieve an initial list of candidates based on the type of the filter.
-        let candidates = match filter {
+        let mut candidates = match filter {
             None => {
                 // If the filter is empty, retrieve candidates from the entire graph. This mode is
                 // Trane's default.
@@ -1060,6 +1060,10 @@ impl DepthFirstScheduler {
             },
         };
 
+        // The same exercise can be found more than once if the filter or the review list mention
+        // overlapping units. Keep only one candidate per exercise.
+        let mut seen = UstrSet::default();
+        candidates.retain(|candidate| seen.insert(candidate.exercise_id));
         Ok(candidates)
     }
 
-- 
2.43.0


From e7f8979f6b5336a181767db8644f479109f34c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:27 +0000
Subject: [PATCH 05/34] fix: use the configured number of deltas to score an
 exercise

---
 src/scheduler/unit_scorer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 329fb57..d217067 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -206,7 +206,7 @@ impl UnitScorer {
             .data
             .practice_deltas
             .read()
-            .get_deltas(exercise_id, self.options.num_trials)
+            .get_deltas(exercise_id, self.options.num_deltas)
             .unwrap_or_default();
         let score = self
             .exercise_scorer
-- 
2.43.0


From 320e0fe5429c3673355c16e582cfab11e37a2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 06/34] fix: invalidate the cached scores of superseded units
 when a superseding unit changes

---
 src/scheduler/unit_scorer.rs | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index d217067..e6887b1 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -152,6 +152,46 @@ impl UnitScorer {
             }
             None => {}
         }
+        drop(exercise_cache);
+        drop(graph);
+        self.invalidate_superseded_scores(unit_id);
+    }
+
+    /// Removes the cached scores of all the lessons and courses that are directly or indirectly
+    /// superseded by the given unit, or by a unit whose score was affected by it. Whether those
+    /// units are superseded, and thus have a score, depends on the score of the given unit.
+    fn invalidate_superseded_scores(&self, unit_id: Ustr) {
+        let graph = self.data.unit_graph.read();
+
+        // The update affects the unit, the lesson and course that contain it, and its lessons.
+        let lesson_id = graph.get_exercise_lesson(unit_id).unwrap_or(unit_id);
+        let mut pending = vec![unit_id, lesson_id];
+        pending.extend(graph.get_lesson_course(lesson_id));
+        pending.extend(
+            graph
+                .get_course_lessons(unit_id)
+                .iter()
+                .flat_map(|ids| ids.iter().copied()),
+        );
+
+        let mut visited = UstrSet::default();
+        while let Some(unit_id) = pending.pop() {
+            if !visited.insert(unit_id) {
+                continue;
+            }
+            let superseded = graph.get_supersedes(unit_id).unwrap_or_default();
+            for superseded_id in superseded.iter().copied() {
+                // The score of a lesson is part of the score of its course.
+                let course_id = graph.get_lesson_course(superseded_id);
+                for id in std::iter::once(superseded_id).chain(course_id) {
+                    self.lesson_cache.borrow_mut().remove(&id);
+                    self.course_cache.borrow_mut().remove(&id);
+                    self.lesson_trials_cache.borrow_mut().remove(&id);
+                    self.course_trials_cache.borrow_mut().remove(&id);
+                    pending.push(id);
+                }
+            }
+        }
     }
 
     /// Removes the cached score for any unit with the given prefix.
-- 
2.43.0


From fba54cbc1077b765539b440d98d72b7f6cbe31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 07/34] fix: invalidate the scores of units that depend on
 those matching a prefix

---
 src/scheduler/unit_scorer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index e6887b1..86313f1 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -213,6 +213,17 @@ impl UnitScorer {
         self.course_trials_cache
             .borrow_mut()
             .retain(|unit_id, _| !unit_id.starts_with(prefix));
+
+        // Invalidate the matching units one by one, so that the cached scores of other units that
+        // depend on them, which might not match the prefix, are removed as well.
+        let matching_ids = self
+            .data
+            .course_library
+            .read()
+            .get_matching_prefix(prefix, None);
+        for unit_id in matching_ids {
+            self.invalidate_cached_score(unit_id);
+        }
     }
 
     /// Returns the score for the given exercise.
-- 
2.43.0


From a45e7cfd76801323de322a473613f867d56df93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 08/34] fix: invalidate cached scores when the practice history
 is edited directly

---
 src/lib.rs | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a02d77..f2f5563 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -508,17 +508,26 @@ impl PracticeRewards for Trane {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.practice_rewards.write().record_unit_rewards(rewards)
+        let updated_ids = self.practice_rewards.write().record_unit_rewards(rewards)?;
+        for unit_id in &updated_ids {
+            self.scheduler.invalidate_cached_score(*unit_id);
+        }
+        Ok(updated_ids)
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
-        self.practice_rewards.write().trim_rewards(num_rewards)
+        // Trimming can affect any unit, so invalidate all cached scores.
+        self.practice_rewards.write().trim_rewards(num_rewards)?;
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        Ok(())
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
         self.practice_rewards
             .write()
-            .remove_rewards_with_prefix(prefix)
+            .remove_rewards_with_prefix(prefix)?;
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        Ok(())
     }
 }
 
@@ -538,17 +547,28 @@ impl PracticeDeltas for Trane {
         &mut self,
         deltas: &[ExerciseDelta],
     ) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas.write().record_exercise_deltas(deltas)
+        self.practice_deltas
+            .write()
+            .record_exercise_deltas(deltas)?;
+        for delta in deltas {
+            self.scheduler.invalidate_cached_score(delta.exercise_id);
+        }
+        Ok(())
     }
 
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas.write().trim_deltas(num_deltas)
+        // Trimming can affect any unit, so invalidate all cached scores.
+        self.practice_deltas.write().trim_deltas(num_deltas)?;
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        Ok(())
     }
 
     fn remove_deltas_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeDeltasError> {
         self.practice_deltas
             .write()
-            .remove_deltas_with_prefix(prefix)
+            .remove_deltas_with_prefix(prefix)?;
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        Ok(())
     }
 }
 
@@ -568,17 +588,26 @@ impl PracticeStats for Trane {
         &mut self,
         trials: &[ExerciseTrial],
     ) -> Result<(), PracticeStatsError> {
-        self.practice_stats.write().record_exercise_scores(trials)
+        self.practice_stats.write().record_exercise_scores(trials)?;
+        for trial in trials {
+            self.scheduler.invalidate_cached_score(trial.exercise_id);
+        }
+        Ok(())
     }
 
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
-        self.practice_stats.write().trim_scores(num_scores)
+        // Trimming can affect any unit, so invalidate all cached scores.
+        self.practice_stats.write().trim_scores(num_scores)?;
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        Ok(())
     }
 
     fn remove_scores_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeStatsError> {
         self.practice_stats
             .write()
-            .remove_scores_with_prefix(prefix)
+            .remove_scores_with_prefix(prefix)?;
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        Ok(())
     }
 }
 #[cfg_attr(coverage, coverage(off))]
-- 
2.43.0


From 9c31315e35333055b060c2b6313fa93be99f17de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 09/34] fix: apply new scheduler options to every part of the
 scheduler

---
 src/scheduler.rs              | 16 ++++++++++++++--
 src/scheduler/relearn_pile.rs |  5 +++++
 src/scheduler/unit_scorer.rs  | 12 ++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3e04c01..cc776f3 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -204,6 +204,18 @@ impl DepthFirstScheduler {
         }
     }
 
+    /// Sets the options in all the components of the scheduler.
+    fn update_options(&mut self, options: SchedulerOptions) {
+        self.unit_scorer.set_options(options.clone());
+        self.relearn_pile.set_options(options.clone());
+        self.data.options = options;
+        self.reward_propagator = RewardPropagator {
+            data: self.data.clone(),
+        };
+        self.review_knocker = ReviewKnocker::new(self.data.clone());
+        self.filter = CandidateFilter::new(self.data.clone());
+    }
+
     /// Shuffles the units and pushes them to the given stack. Used with the goal of ensuring that
     /// the units are traversed in a different order each time a new batch is requested.
     fn shuffle_to_stack(curr_unit: &StackItem, mut units: Vec<Ustr>, stack: &mut Vec<StackItem>) {
@@ -1216,11 +1228,11 @@ impl ExerciseScheduler for DepthFirstScheduler {
     }
 
     fn set_scheduler_options(&mut self, options: SchedulerOptions) {
-        self.data.options = options;
+        self.update_options(options);
     }
 
     fn reset_scheduler_options(&mut self) {
-        self.data.options = SchedulerOptions::default();
+        self.update_options(SchedulerOptions::default());
     }
 
     fn override_current_timestamp(&mut self, timestamp: Option<i64>) {
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index ea95227..29e01a1 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -29,6 +29,11 @@ impl RelearnPile {
         }
     }
 
+    /// Sets the scheduler options.
+    pub fn set_options(&mut self, options: SchedulerOptions) {
+        self.options = options;
+    }
+
     /// Updates the relearning pile based on the score of an exercise.
     pub fn update(&self, exercise_id: Ustr, score: &MasteryScore) {
         let mut relearning_pile = self.pile.write();
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 86313f1..2e351bf 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -85,6 +85,18 @@ impl UnitScorer {
         }
     }
 
+    /// Sets the options used to compute scores and removes all the scores computed with the
+    /// previous ones.
+    pub(super) fn set_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options.clone();
+        self.options = options;
+        self.exercise_cache.get_mut().clear();
+        self.lesson_cache.get_mut().clear();
+        self.course_cache.get_mut().clear();
+        self.lesson_trials_cache.get_mut().clear();
+        self.course_trials_cache.get_mut().clear();
+    }
+
     /// Sets the timestamp override used to compute scores.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
         self.override_timestamp = timestamp;
-- 
2.43.0


From d78bc709ac61d1d624ae15796402ff0fe2110deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 10/34] fix: reject scores for exercises that do not exist

---
 src/scheduler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index cc776f3..6c8feef 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1147,6 +1147,11 @@ impl ExerciseScheduler for DepthFirstScheduler {
         score: MasteryScore,
         timestamp: i64,
     ) -> Result<(), ExerciseSchedulerError> {
+        // Exercises that do not exist cannot be scored.
+        self.data
+            .get_exercise_manifest(exercise_id)
+            .map_err(ExerciseSchedulerError::ScoreExercise)?;
+
         // Retreive the existing score to compute the delta. Do not apply it to exercises with no
         // trials as those have no previous data for comparison.
         let existing_score = self
-- 
2.43.0


From a1d63adb918c37f2015d6fc89d7e7e0d005ae869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 11/34] fix: compute the elapsed part of a study session
 without overflow

---
 src/data/filter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/filter.rs b/src/data/filter.rs
index 89019c4..6da7e53 100644
--- a/src/data/filter.rs
+++ b/src/data/filter.rs
@@ -357,13 +357,13 @@ impl StudySessionData {
         if minutes_since_start < 0 {
             return self.definition.parts[0].clone();
         }
-        let minutes_since_start = minutes_since_start as u32;
+        let minutes_since_start = minutes_since_start as u64;
 
         // Find the first part that has not been completed yet. If all parts have been completed,
         // return the last part.
-        let mut session_length = 0;
+        let mut session_length = 0_u64;
         for part in &self.definition.parts {
-            session_length += part.duration();
+            session_length += u64::from(part.duration());
             if minutes_since_start < session_length {
                 return part.clone();
             }
-- 
2.43.0


From 80e132e8955e92554eadfe9e26783789866e8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 12/34] fix: match unit prefixes literally instead of as SQL
 patterns

---
 src/blacklist.rs        | 7 ++++---
 src/practice_deltas.rs  | 7 ++++---
 src/practice_rewards.rs | 4 ++--
 src/practice_stats.rs   | 7 ++++---
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index e93ab9b..1f9cb6c 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -134,9 +134,10 @@ impl LocalBlacklist {
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
         let connection = self.connection.lock();
-        let mut stmt =
-            connection.prepare_cached("SELECT unit_id from blacklist WHERE unit_id LIKE $1;")?;
-        let mut rows = stmt.query(params![format!("{}%", prefix)])?;
+        let mut stmt = connection.prepare_cached(
+            "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
+        let mut rows = stmt.query(params![prefix])?;
 
         // Remove all the entries with the given prefix.
         let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index aa62749..8b85086 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -162,10 +162,11 @@ impl LocalPracticeDeltas {
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 4a028c0..3c94deb 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -252,8 +252,8 @@ impl LocalPracticeRewards {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
-            .prepare("SELECT unit_uid FROM uids WHERE unit_id LIKE ?1")?
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
+            .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
             connection.execute(
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index a05194e..def10f7 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -185,10 +185,11 @@ impl LocalPracticeStats {
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
-- 
2.43.0


From fb34e73a6473aa77249fe91a4359d28656d2a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 13/34] fix: keep exactly the requested number of entries when
 trimming ties

---
 src/practice_deltas.rs | 6 +++---
 src/practice_stats.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index 8b85086..d7a0c99 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -148,9 +148,9 @@ impl LocalPracticeDeltas {
 
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_deltas WHERE unit_uid = $1
-                    ORDER BY timestamp DESC LIMIT ?2);",
+                "DELETE FROM practice_deltas WHERE id IN (
+                    SELECT id FROM practice_deltas WHERE unit_uid = $1
+                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
         }
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index def10f7..581c018 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -169,9 +169,9 @@ impl LocalPracticeStats {
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_stats WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_stats WHERE unit_uid = $1
-                    ORDER BY timestamp DESC LIMIT ?2);",
+                "DELETE FROM practice_stats WHERE id IN (
+                    SELECT id FROM practice_stats WHERE unit_uid = $1
+                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
         }
-- 
2.43.0


From 4bdaa73a92c81328c6f9b90604daf5221f7ae885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 14/34] fix: do not deduplicate rewards against rewards that
 are not stored

---
 src/practice_rewards.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 3c94deb..529600b 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -282,16 +282,24 @@ impl PracticeRewards for LocalPracticeRewards {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.record_unit_rewards_helper(rewards)
-            .map_err(PracticeRewardsError::RecordRewards)
+        let result = self.record_unit_rewards_helper(rewards);
+        if result.is_err() {
+            // None of the rewards were stored, so the cache can no longer be trusted.
+            self.cache.cache.clear();
+        }
+        result.map_err(PracticeRewardsError::RecordRewards)
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
+        // The cache might contain rewards that are about to be removed.
+        self.cache.cache.clear();
         self.trim_rewards_helper(num_rewards)
             .map_err(PracticeRewardsError::TrimReward)
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
+        // The cache might contain rewards that are about to be removed.
+        self.cache.cache.clear();
         self.remove_rewards_with_prefix_helper(prefix)
             .map_err(|e| PracticeRewardsError::RemovePrefix(prefix.to_string(), e))
     }
-- 
2.43.0


From 0ee68598342fde06a74e30e07065284e6516d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:29 +0000
Subject: [PATCH 15/34] fix: compare timestamps far apart without overflow

---
 src/practice_rewards.rs | 4 ++--
 src/reward_scorer.rs    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 529600b..94489a7 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -48,7 +48,7 @@ pub trait PracticeRewards {
 }
 
 /// Number of seconds in a day.
-const SECONDS_IN_DAY: i64 = 86_400;
+const SECONDS_IN_DAY: u64 = 86_400;
 
 /// The maximum difference in weights between two rewards to consider them similar.
 const WEIGHT_EPSILON: f32 = 0.1;
@@ -74,7 +74,7 @@ impl RewardCache {
             .and_then(|rewards| {
                 rewards.iter().find(|r| {
                     r.value == reward.value
-                        && (r.timestamp - reward.timestamp).abs() < SECONDS_IN_DAY
+                        && r.timestamp.abs_diff(reward.timestamp) < SECONDS_IN_DAY
                         && (r.weight - reward.weight).abs() < WEIGHT_EPSILON
                 })
             })
diff --git a/src/reward_scorer.rs b/src/reward_scorer.rs
index 8706220..9da6039 100644
--- a/src/reward_scorer.rs
+++ b/src/reward_scorer.rs
@@ -125,7 +125,8 @@ impl RewardScorer for WeightedRewardScorer {
         // that are not being performed well.
         let recent_trials = previous_trials.iter().take(3);
         let last_trial = previous_trials.first().unwrap();
-        let num_days = (Utc::now().timestamp() - last_trial.timestamp) as f32 / (86_400.0);
+        let num_days =
+            Utc::now().timestamp().saturating_sub(last_trial.timestamp) as f32 / (86_400.0);
         let average_score = recent_trials.map(|trial| trial.score).sum::<f32>() / 3.0;
         if reward > 0.0 && average_score < 3.0 && num_days < 7.0 {
             return false;
-- 
2.43.0


From d3707c4293bbf19023b60f6590859b859ab2179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 16/34] fix: trim and remove stored entries in a single
 transaction

---
 src/blacklist.rs        | 24 +++++++++++++++++-------
 src/practice_deltas.rs  | 19 ++++++++++++-------
 src/practice_rewards.rs | 16 ++++++++++------
 src/practice_stats.rs   | 19 ++++++++++++-------
 4 files changed, 51 insertions(+), 27 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index 1f9cb6c..7d2ac03 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -133,22 +133,32 @@ impl LocalBlacklist {
     /// Helper function to remove all the entries with the given prefix from the blacklist.
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
-        let connection = self.connection.lock();
-        let mut stmt = connection.prepare_cached(
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut stmt = tx.prepare_cached(
             "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
         )?;
         let mut rows = stmt.query(params![prefix])?;
 
         // Remove all the entries with the given prefix.
-        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
-        let mut cache = self.cache.write();
+        let mut delete_stmt = tx.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
+        let mut removed = Vec::new();
         while let Some(row) = rows.next()? {
             let unit_id: String = row.get(0)?;
-            stmt.execute(params![unit_id])?;
+            delete_stmt.execute(params![unit_id])?;
+            removed.push(Ustr::from(&unit_id));
+        }
+        drop(rows);
+        drop(stmt);
+        drop(delete_stmt);
+        tx.commit()?;
 
-            // Update the cache.
-            cache.insert(unit_id.into(), false);
+        // Update the cache.
+        let mut cache = self.cache.write();
+        for unit_id in removed {
+            cache.insert(unit_id, false);
         }
+        drop(cache);
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted entries.
         connection.execute_batch("VACUUM;")?;
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index d7a0c99..4d98ce1 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -139,21 +139,24 @@ impl LocalPracticeDeltas {
 
     /// Helper function to trim the number of deltas for each exercise.
     fn trim_deltas_helper(&mut self, num_deltas: u32) -> Result<()> {
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached("SELECT unit_uid from uids")?;
         let uids = uid_stmt
             .query_map([], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
+        drop(uid_stmt);
 
         for uid in uids {
-            let mut stmt = connection.prepare_cached(
+            let mut stmt = tx.prepare_cached(
                 "DELETE FROM practice_deltas WHERE id IN (
                     SELECT id FROM practice_deltas WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
         }
+        tx.commit()?;
 
         connection.execute_batch("VACUUM;")?;
         Ok(())
@@ -161,20 +164,22 @@ impl LocalPracticeDeltas {
 
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached(
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached(
             "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
         )?;
         let uids = uid_stmt
             .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
+        drop(uid_stmt);
 
         for uid in uids {
-            let mut stmt =
-                connection.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
+            let mut stmt = tx.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
             let _ = stmt.execute(params![uid])?;
         }
+        tx.commit()?;
 
         connection.execute_batch("VACUUM;")?;
         Ok(())
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 94489a7..ab2e8f0 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -230,13 +230,14 @@ impl LocalPracticeRewards {
     /// Helper function to trim the number of rewards for each unit to the given number. If the
     /// number of rewards is less than the given number, the method deletes no rewards.
     fn trim_rewards_helper(&mut self, num_rewards: u32) -> Result<()> {
-        let connection = self.connection.lock();
-        for row in connection
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        for row in tx
             .prepare("SELECT unit_uid FROM uids")?
             .query_map([], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
-            connection.execute(
+            tx.execute(
                 "DELETE FROM practice_rewards WHERE id IN (
                     SELECT id FROM practice_rewards WHERE unit_uid = ?1
                     ORDER BY timestamp DESC LIMIT -1 OFFSET ?2
@@ -244,23 +245,26 @@ impl LocalPracticeRewards {
                 params![unit_uid, num_rewards],
             )?;
         }
+        tx.commit()?;
         Ok(())
     }
 
     /// Helper function to remove all the rewards from units that match the given prefix.
     fn remove_rewards_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
-        let connection = self.connection.lock();
-        for row in connection
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        for row in tx
             .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
             .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
-            connection.execute(
+            tx.execute(
                 "DELETE FROM practice_rewards WHERE unit_uid = ?1;",
                 params![unit_uid],
             )?;
         }
+        tx.commit()?;
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index 581c018..89b5f34 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -159,22 +159,25 @@ impl LocalPracticeStats {
     /// Helper function to trim the number of scores for each exercise.
     fn trim_scores_helper(&mut self, num_scores: u32) -> Result<()> {
         // Get all the UIDs from the database.
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached("SELECT unit_uid from uids")?;
         let uids = uid_stmt
             .query_map([], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
+        drop(uid_stmt);
 
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
-            let mut stmt = connection.prepare_cached(
+            let mut stmt = tx.prepare_cached(
                 "DELETE FROM practice_stats WHERE id IN (
                     SELECT id FROM practice_stats WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
         }
+        tx.commit()?;
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
@@ -184,21 +187,23 @@ impl LocalPracticeStats {
     /// Helper function to remove all the scores from units that match the given prefix.
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached(
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached(
             "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
         )?;
         let uids = uid_stmt
             .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
+        drop(uid_stmt);
 
         // Delete all the trials for those units.
         for uid in uids {
-            let mut stmt =
-                connection.prepare_cached("DELETE FROM practice_stats WHERE unit_uid = $1;")?;
+            let mut stmt = tx.prepare_cached("DELETE FROM practice_stats WHERE unit_uid = $1;")?;
             let _ = stmt.execute(params![uid])?;
         }
+        tx.commit()?;
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
-- 
2.43.0


From 231e53146330db6672d3a106675b17bab7e31031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 17/34] fix: replace the user preferences file in a single step

---
 src/lib.rs                 | 11 ++---------
 src/preferences_manager.rs |  4 ++--
 src/utils.rs               |  9 +++++++++
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f2f5563..6ab67b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,12 +74,7 @@ pub mod utils;
 use anyhow::{Context, Result, bail, ensure};
 use error::*;
 use parking_lot::RwLock;
-use std::{
-    fs::{File, create_dir},
-    io::Write,
-    path::Path,
-    sync::Arc,
-};
+use std::{fs::create_dir, path::Path, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -224,11 +219,9 @@ impl Trane {
         // Create the user preferences file if it does not exist already.
         let user_prefs_path = trane_path.join(USER_PREFERENCES_PATH);
         if !user_prefs_path.exists() {
-            let mut file = File::create(user_prefs_path.clone())
-                .context("failed to create user_preferences.json file")?;
             let default_prefs = UserPreferences::default();
             let prefs_json = serde_json::to_string_pretty(&default_prefs)? + "\n";
-            file.write_all(prefs_json.as_bytes())
+            utils::write_file(&user_prefs_path, &prefs_json)
                 .context("failed to write to user_preferences.json file")?;
         } else if !user_prefs_path.is_file() {
             bail!("user preferences file must be a regular file");
diff --git a/src/preferences_manager.rs b/src/preferences_manager.rs
index d1ad431..0d7edfb 100644
--- a/src/preferences_manager.rs
+++ b/src/preferences_manager.rs
@@ -3,7 +3,7 @@
 use anyhow::{Context, Result};
 use std::{fs, path::PathBuf};
 
-use crate::{PreferencesManagerError, data::UserPreferences};
+use crate::{PreferencesManagerError, data::UserPreferences, utils};
 
 /// A trait for managing user preferences.
 pub trait PreferencesManager {
@@ -37,7 +37,7 @@ impl LocalPreferencesManager {
     fn set_user_preferences_helper(&self, preferences: &UserPreferences) -> Result<()> {
         let pretty_json =
             serde_json::to_string_pretty(preferences).context("invalid user preferences")?;
-        fs::write(&self.path, pretty_json).context("failed to write user preferences")
+        utils::write_file(&self.path, &pretty_json).context("failed to write user preferences")
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index cfec402..05e98bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,7 @@
 //! Contains common utilities used in multiple modules.
 
 use rusqlite::Connection;
+use std::{fs, io, path::Path};
 
 /// Returns the weighted average of the scores.
 #[must_use]
@@ -26,6 +27,14 @@ pub fn new_connection(db_path: &str) -> Result<Connection, rusqlite::Error> {
     Ok(connection)
 }
 
+/// Writes the contents to the given file. The file is replaced in a single step, so it never holds
+/// incomplete contents if the write fails or is interrupted.
+pub fn write_file(path: &Path, contents: &str) -> io::Result<()> {
+    let temp_path = path.with_extension("tmp");
+    fs::write(&temp_path, contents)?;
+    fs::rename(&temp_path, path)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From e664cadb9cf4be97fab165e8f4e9c600b365d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:51 +0000
Subject: [PATCH 18/34] fix: serialize the operations of a scheduler shared
 between threads

---
 src/lib.rs       |  3 ++-
 src/scheduler.rs | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ab67b7..aa610c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -759,7 +759,8 @@ impl UnitGraph for Trane {
 }
 
 /// Implementation of `Send` and `Sync` for `Trane`. The implementation is safe because all the
-/// internal mutability of `Trane` is managed by `Arc<RwLock<...>>`.
+/// internal mutability of `Trane` is managed by `Arc<RwLock<...>>`, except for the score caches, which
+/// the scheduler only accesses while holding its lock.
 unsafe impl Send for Trane {}
 unsafe impl Sync for Trane {}
 
diff --git a/src/scheduler.rs b/src/scheduler.rs
index 6c8feef..913132c 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -24,6 +24,7 @@ mod unit_scorer;
 
 use anyhow::Result;
 use chrono::Utc;
+use parking_lot::Mutex;
 use rand::{rng, seq::SliceRandom};
 use reward_propagator::RewardPropagator;
 use std::sync::Arc;
@@ -182,6 +183,10 @@ pub struct DepthFirstScheduler {
     /// The pile of recently failed exercises that need to be re-scheduled soon to improve
     /// retention.
     relearn_pile: RelearnPile,
+
+    /// A lock held during each operation on a shared scheduler. The caches used to score units are
+    /// not synchronized, and the values stored in them are computed from several stores.
+    operation_lock: Mutex<()>,
 }
 
 impl DepthFirstScheduler {
@@ -201,6 +206,7 @@ impl DepthFirstScheduler {
             review_knocker,
             filter,
             relearn_pile,
+            operation_lock: Mutex::new(()),
         }
     }
 
@@ -1097,6 +1103,8 @@ impl ExerciseScheduler for DepthFirstScheduler {
         &self,
         filter: Option<ExerciseFilter>,
     ) -> Result<Vec<ExerciseManifest>, ExerciseSchedulerError> {
+        let _lock = self.operation_lock.lock();
+
         // Retrieve an initial batch of candidates based on the type of the filter.
         let initial_candidates = self
             .get_initial_candidates(filter)
@@ -1147,6 +1155,8 @@ impl ExerciseScheduler for DepthFirstScheduler {
         score: MasteryScore,
         timestamp: i64,
     ) -> Result<(), ExerciseSchedulerError> {
+        let _lock = self.operation_lock.lock();
+
         // Exercises that do not exist cannot be scored.
         self.data
             .get_exercise_manifest(exercise_id)
@@ -1212,6 +1222,7 @@ impl ExerciseScheduler for DepthFirstScheduler {
 
     #[cfg_attr(coverage, coverage(off))]
     fn get_unit_score(&self, unit_id: Ustr) -> Result<Option<f32>, ExerciseSchedulerError> {
+        let _lock = self.operation_lock.lock();
         self.unit_scorer
             .get_unit_score(unit_id)
             .map_err(|e| ExerciseSchedulerError::GetUnitScore(unit_id, e))
@@ -1219,11 +1230,13 @@ impl ExerciseScheduler for DepthFirstScheduler {
 
     #[cfg_attr(coverage, coverage(off))]
     fn invalidate_cached_score(&self, unit_id: Ustr) {
+        let _lock = self.operation_lock.lock();
         self.unit_scorer.invalidate_cached_score(unit_id);
     }
 
     #[cfg_attr(coverage, coverage(off))]
     fn invalidate_cached_scores_with_prefix(&self, prefix: &str) {
+        let _lock = self.operation_lock.lock();
         self.unit_scorer
             .invalidate_cached_scores_with_prefix(prefix);
     }
-- 
2.43.0


From 4eeccb2639ceb9bf60cefa2f23d74119b12311cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:03 +0000
Subject: [PATCH 19/34] fix: reject libraries in which the score of a unit
 depends on itself

---
 src/graph.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 49707bf..32143ea 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -497,6 +497,26 @@ impl InMemoryUnitGraph {
             "cycle in superseded graph detected",
         )?;
 
+        // The score of a unit depends on the scores of the units that supersede it and the score of
+        // a course depends on the scores of its lessons. Check that no unit ends up depending on
+        // its own score.
+        let score_keys: Vec<Ustr> = self
+            .superseded_by
+            .keys()
+            .chain(self.course_lesson_map.keys())
+            .copied()
+            .collect();
+        Self::check_graph_cycles(
+            &score_keys,
+            |id| {
+                let superseding = self.get_superseded_by(id).unwrap_or_default();
+                let lessons = self.get_course_lessons(id).unwrap_or_default();
+                Some(superseding.iter().chain(lessons.iter()).copied().collect())
+            },
+            |_, _| Ok(()),
+            "cycle between superseded units and the courses containing them detected",
+        )?;
+
         // Check the encompasses and encompassed_by graphs for cycles and consistency.
         let enc_keys: Vec<Ustr> = self.encompasses_graph.keys().copied().collect();
         Self::check_graph_cycles(
-- 
2.43.0


From 3f6ebdcedf724f90e6d05c065a43b7c87b04f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:02 +0000
Subject: [PATCH 20/34] fix: leave the unit graph unchanged when a unit is
 rejected

The type of the new lesson or exercise was stored before checking the type of
its parent, so a rejected unit still ended up in the graph.
---
 src/graph.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 32143ea..907f750 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -294,9 +294,15 @@ impl InMemoryUnitGraph {
             "lesson with ID {lesson_id} already exists",
         );
 
-        // Add the course and lessons to the type map.
-        self.update_unit_type(lesson_id, UnitType::Lesson)?;
+        ensure!(
+            lesson_id != course_id,
+            "lesson with ID {lesson_id} cannot belong to itself",
+        );
+
+        // Add the course and lessons to the type map. The update of the course can fail, so it's
+        // done first to leave the graph unchanged in that case.
         self.update_unit_type(course_id, UnitType::Course)?;
+        self.update_unit_type(lesson_id, UnitType::Lesson)?;
 
         // Update the map of lesson to course and course to lessons.
         self.lesson_course_map.insert(lesson_id, course_id);
@@ -312,9 +318,15 @@ impl InMemoryUnitGraph {
             "exercise with ID {exercise_id} already exists",
         );
 
-        // Add the exercise and lesson to the type map.
-        self.update_unit_type(exercise_id, UnitType::Exercise)?;
+        ensure!(
+            exercise_id != lesson_id,
+            "exercise with ID {exercise_id} cannot belong to itself",
+        );
+
+        // Add the exercise and lesson to the type map. The update of the lesson can fail, so it's
+        // done first to leave the graph unchanged in that case.
         self.update_unit_type(lesson_id, UnitType::Lesson)?;
+        self.update_unit_type(exercise_id, UnitType::Exercise)?;
 
         // Update the map of exercise to lesson and lesson to exercises.
         Arc::make_mut(self.lesson_exercise_map.entry(lesson_id).or_default()).insert(exercise_id);
-- 
2.43.0


From 02e461a08f2bd09d836b2fbfdcd2c60fd859ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 21/34] fix: ignore the configured paths when the library is
 opened through a relative path

---
 src/course_library.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/course_library.rs b/src/course_library.rs
index 323b676..06c3000 100644
--- a/src/course_library.rs
+++ b/src/course_library.rs
@@ -448,9 +448,10 @@ impl LocalCourseLibrary {
 
         // Start a search for courses from the library root. Courses can be located at any level
         // within the library root. However, the course manifests, assets, and its lessons and
-        // exercises follow a fixed structure.
+        // exercises follow a fixed structure. Search from the absolute path so that the entries can be
+        // compared with the paths to ignore.
         let mut courses = Vec::new();
-        for entry in WalkDir::new(library_root)
+        for entry in WalkDir::new(&absolute_root)
             .min_depth(2)
             .into_iter()
             .flatten()
-- 
2.43.0


From 25bd557b3362b003cea86a09c0e1d76acd118037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 22/34] fix: do not report a stored deletion as failed because
 VACUUM failed

---
 src/blacklist.rs        |  5 +++--
 src/practice_deltas.rs  |  8 ++++++--
 src/practice_rewards.rs |  5 +++--
 src/practice_stats.rs   | 10 ++++++----
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index 7d2ac03..69bb2dc 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -160,8 +160,9 @@ impl LocalBlacklist {
         }
         drop(cache);
 
-        // Call the `VACUUM` command to reclaim the space freed by the deleted entries.
-        connection.execute_batch("VACUUM;")?;
+        // Call the `VACUUM` command to reclaim the space freed by the deleted entries. The deletion
+        // is already stored, so failing to reclaim the space is not a failure of the operation.
+        let _ = connection.execute_batch("VACUUM;");
         Ok(())
     }
 
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index 4d98ce1..f7f0d8b 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -158,7 +158,9 @@ impl LocalPracticeDeltas {
         }
         tx.commit()?;
 
-        connection.execute_batch("VACUUM;")?;
+        // Call the `VACUUM` command to reclaim the freed space. The deletion is already stored, so
+        // failing to reclaim the space is not a failure of the operation.
+        let _ = connection.execute_batch("VACUUM;");
         Ok(())
     }
 
@@ -181,7 +183,9 @@ impl LocalPracticeDeltas {
         }
         tx.commit()?;
 
-        connection.execute_batch("VACUUM;")?;
+        // Call the `VACUUM` command to reclaim the freed space. The deletion is already stored, so
+        // failing to reclaim the space is not a failure of the operation.
+        let _ = connection.execute_batch("VACUUM;");
         Ok(())
     }
 }
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index ab2e8f0..e1aff0c 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -266,8 +266,9 @@ impl LocalPracticeRewards {
         }
         tx.commit()?;
 
-        // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
-        connection.execute_batch("VACUUM;")?;
+        // Call the `VACUUM` command to reclaim the space freed by the deleted trials. The deletion
+        // is already stored, so failing to reclaim the space is not a failure of the operation.
+        let _ = connection.execute_batch("VACUUM;");
         Ok(())
     }
 }
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index 89b5f34..6d4a392 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -179,8 +179,9 @@ impl LocalPracticeStats {
         }
         tx.commit()?;
 
-        // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
-        connection.execute_batch("VACUUM;")?;
+        // Call the `VACUUM` command to reclaim the space freed by the deleted trials. The deletion
+        // is already stored, so failing to reclaim the space is not a failure of the operation.
+        let _ = connection.execute_batch("VACUUM;");
         Ok(())
     }
 
@@ -205,8 +206,9 @@ impl LocalPracticeStats {
         }
         tx.commit()?;
 
-        // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
-        connection.execute_batch("VACUUM;")?;
+        // Call the `VACUUM` command to reclaim the space freed by the deleted trials. The deletion
+        // is already stored, so failing to reclaim the space is not a failure of the operation.
+        let _ = connection.execute_batch("VACUUM;");
         Ok(())
     }
 }
-- 
2.43.0


From 9169662cc9aa31c492fdc35a65595f343665abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 23/34] fix: invalidate the cached score once the delta is
 recorded

---
 src/scheduler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 913132c..5462012 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1185,6 +1185,9 @@ impl ExerciseScheduler for DepthFirstScheduler {
                     timestamp,
                 }])
                 .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
+
+            // The delta affects the score, even if recording the trial fails.
+            self.unit_scorer.invalidate_cached_score(exercise_id);
         }
 
         // Write the score to the practice stats database, invalidate the cache, and update the
-- 
2.43.0


From 5b78a04bd46a2c47a13bf93a31c15ba12b8096d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 24/34] fix: do not deadlock when the blacklist is edited while
 a score is computed

---
 src/scheduler/data.rs        | 7 ++++---
 src/scheduler/unit_scorer.rs | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/scheduler/data.rs b/src/scheduler/data.rs
index 6943a0e..7e76a98 100644
--- a/src/scheduler/data.rs
+++ b/src/scheduler/data.rs
@@ -340,8 +340,9 @@ impl SchedulerData {
     /// Returns all the valid exercises in the given lesson.
     #[must_use]
     pub fn all_valid_exercises_in_lesson(&self, lesson_id: Ustr) -> Vec<Ustr> {
-        // If the lesson is blacklisted, return no exercises.
-        let blacklist = self.blacklist.read();
+        // If the lesson is blacklisted, return no exercises. The caller may already be reading the
+        // blacklist, so waiting behind a queued writer would deadlock.
+        let blacklist = self.blacklist.read_recursive();
         if blacklist.blacklisted(lesson_id).unwrap_or(false) {
             return vec![];
         }
@@ -365,7 +366,7 @@ impl SchedulerData {
     pub fn all_valid_exercises(&self, unit_id: Ustr) -> Vec<Ustr> {
         // First, get the type of the unit. Then get the exercises based on the unit type.
         let unit_type = self.get_unit_type(unit_id);
-        let blacklist = self.blacklist.read();
+        let blacklist = self.blacklist.read_recursive();
         match unit_type {
             None => vec![],
             Some(UnitType::Exercise) => {
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 2e351bf..1e5d6a9 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -458,8 +458,9 @@ impl UnitScorer {
             return Ok(score);
         }
 
-        // Check if the unit is blacklisted. A blacklisted unit has no score.
-        let blacklist = self.data.blacklist.read();
+        // Check if the unit is blacklisted. A blacklisted unit has no score. The caller may already
+        // be reading the blacklist, so waiting behind a queued writer would deadlock.
+        let blacklist = self.data.blacklist.read_recursive();
         let blacklisted = blacklist.blacklisted(lesson_id);
         if blacklisted.unwrap_or(false) {
             self.lesson_cache.borrow_mut().insert(lesson_id, None);
@@ -524,7 +525,7 @@ impl UnitScorer {
         }
 
         // Check if the unit is blacklisted. A blacklisted course has no valid score.
-        let blacklisted = self.data.blacklist.read().blacklisted(course_id);
+        let blacklisted = self.data.blacklist.read_recursive().blacklisted(course_id);
         if blacklisted.unwrap_or(false) {
             self.course_cache.borrow_mut().insert(course_id, None);
             return Ok(None);
@@ -610,7 +611,7 @@ impl UnitScorer {
         }
 
         // Get all the exercises in the lesson and filter those that are blacklisted.
-        let blacklist = self.data.blacklist.read();
+        let blacklist = self.data.blacklist.read_recursive();
         let exercise_ids: Vec<Ustr> = self
             .data
             .unit_graph
-- 
2.43.0


From 8aa8b145492a8d398f2963cbcf4787295056cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 25/34] fix: resolve the instructions and material of a
 knowledge base lesson

---
 src/data/course_generator/knowledge_base.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 3fcbc86..e0bfdaa 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -13,7 +13,7 @@ use ustr::{Ustr, UstrMap};
 
 use crate::data::{
     BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType, GenerateManifests,
-    GeneratedCourse, LessonManifest, UserPreferences,
+    GeneratedCourse, LessonManifest, NormalizePaths, UserPreferences,
 };
 
 /// The suffix used to recognize a directory as a knowledge base lesson.
@@ -672,7 +672,10 @@ impl GenerateManifests for KnowledgeBaseConfig {
         let manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = lessons
             .into_iter()
             .map(|(_, (lesson, exercises))| {
-                let lesson_manifest = LessonManifest::from(lesson.clone());
+                // The instructions and material are found in the directory of the lesson.
+                let lesson_root = course_root.join(format!("{}{LESSON_SUFFIX}", lesson.short_id));
+                let lesson_manifest =
+                    LessonManifest::from(lesson.clone()).normalize_paths(&lesson_root)?;
                 let exercise_manifests = exercises
                     .into_iter()
                     .map(|e| {
-- 
2.43.0


From 469290fb0553508d4901b140fa2884f360027271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 26/34] fix: do not panic on directory names that are not UTF-8
 in generated courses

---
 src/data/course_generator/knowledge_base.rs | 6 +++++-
 src/data/course_generator/literacy.rs       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index e0bfdaa..e6df368 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -655,7 +655,11 @@ impl GenerateManifests for KnowledgeBaseConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .unwrap_or_default();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) {
                 lessons.insert(
                     short_id.into(),
diff --git a/src/data/course_generator/literacy.rs b/src/data/course_generator/literacy.rs
index bce10c6..ef6ecbe 100644
--- a/src/data/course_generator/literacy.rs
+++ b/src/data/course_generator/literacy.rs
@@ -723,7 +723,11 @@ impl GenerateManifests for LiteracyConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .unwrap_or_default();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX)
                 && !short_id.is_empty()
             {
-- 
2.43.0


From e01f25ede5425c1fd62fd66c52ee75d6e9a39fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 27/34] fix: refuse to build courses whose manifests mention
 missing files

---
 src/course_builder.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/course_builder.rs b/src/course_builder.rs
index 2c1cd94..474d1f6 100644
--- a/src/course_builder.rs
+++ b/src/course_builder.rs
@@ -95,10 +95,15 @@ impl ExerciseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest.verify_paths(exercise_directory).context(format!(
+        let paths_exist = manifest.verify_paths(exercise_directory).context(format!(
             "failed to verify files for exercise {}",
             manifest.id
         ))?;
+        ensure!(
+            paths_exist,
+            "missing files mentioned in the manifest of exercise {}",
+            manifest.id
+        );
         Ok(())
     }
 }
@@ -151,9 +156,14 @@ impl LessonBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest
+        let paths_exist = manifest
             .verify_paths(lesson_directory)
             .context(format!("failed to verify files for lesson {}", manifest.id))?;
+        ensure!(
+            paths_exist,
+            "missing files mentioned in the manifest of lesson {}",
+            manifest.id
+        );
         Ok(())
     }
 }
@@ -201,12 +211,18 @@ impl CourseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        self.course_manifest
+        let paths_exist = self
+            .course_manifest
             .verify_paths(&course_directory)
             .context(format!(
                 "failed to verify files for course {}",
                 self.course_manifest.id
             ))?;
+        ensure!(
+            paths_exist,
+            "missing files mentioned in the manifest of course {}",
+            self.course_manifest.id
+        );
         Ok(())
     }
 }
-- 
2.43.0


From 136d28b14a413c0e544e52b66d59bbc8a94e2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 28/34] fix: an exercise with the maximum score was scheduled
 twice when several mastery windows end at it

---
 src/scheduler/filter.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 2d1d378..42ff1a5 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -266,21 +266,24 @@ impl CandidateFilter {
         // Find the candidates that fit in each window. Then combine the mastered and highly
         // encompassed candidates into a single window to ensure that they are not overrepresented
         // in the final batch.
-        let encompassed_set: UstrSet = result
+        let mut excluded: UstrSet = result
             .highly_encompassed
             .iter()
             .map(|c| c.exercise_id)
             .collect();
-        let mut mastered_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.mastered_window_opts);
-        let easy_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.easy_window_opts);
-        let current_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.current_window_opts);
-        let target_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.target_window_opts);
-        let new_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.new_window_opts);
+
+        // Several windows can include the maximum score. Start with the window of highest mastery
+        // and exclude its candidates from the others, so that no candidate is in two windows.
+        let mut take_window = |window_opts: &MasteryWindow| {
+            let selected = Self::candidates_in_window(candidates, &excluded, window_opts);
+            excluded.extend(selected.iter().map(|c| c.exercise_id));
+            selected
+        };
+        let mut mastered_candidates = take_window(&options.mastered_window_opts);
+        let easy_candidates = take_window(&options.easy_window_opts);
+        let current_candidates = take_window(&options.current_window_opts);
+        let target_candidates = take_window(&options.target_window_opts);
+        let new_candidates = take_window(&options.new_window_opts);
         mastered_candidates.extend(result.highly_encompassed);
 
         // Initialize the final list. For each window in descending order of mastery, add the
-- 
2.43.0


From 581ba94dd86f7fab86858fa526c3415002dd7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 29/34] fix: review list entries of removed units no longer
 make batches fail

A unit in the review list that is no longer part of the library made every
batch of the review list fail. Such entries are skipped now, as unknown units
are in the other filters.
---
 src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 5462012..e6ec39c 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -969,7 +969,11 @@ impl DepthFirstScheduler {
         let review_list = self.data.review_list.read().get_review_list_entries()?;
         let frequency_map = self.data.frequency_map.read();
         for unit_id in review_list {
-            match self.data.get_unit_type_strict(unit_id)? {
+            // Skip entries for units that are no longer in the library.
+            let Some(unit_type) = self.data.get_unit_type(unit_id) else {
+                continue;
+            };
+            match unit_type {
                 UnitType::Course => {
                     // If the unit is a course, use the course scheduler to retrieve candidates.
                     let course_ids = vec![unit_id];
-- 
2.43.0


From ba97d422cdff88314489954951f06d5427010c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:43 +0000
Subject: [PATCH 30/34] fix: user data of a library given by a relative path
 was kept outside of it

The working directory resolved the path of the library but not that of its
.trane directory, which was created under the directory of the process.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aa610c9..72c67cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -299,6 +299,9 @@ impl Trane {
     /// directory. The working directory will be used to resolve relative paths.
     #[cfg_attr(coverage, coverage(off))]
     pub fn new_local(working_dir: &Path, library_root: &Path) -> Result<Trane> {
+        // Resolve the library root, so that the library and the user data share the same directory.
+        let library_root = &working_dir.join(library_root);
+
         // Initialize the config directory.
         Self::init_config_directory(library_root)?;
 
@@ -310,7 +313,7 @@ impl Trane {
         }));
         let user_preferences = preferences_manager.read().get_user_preferences()?;
         let course_library = Arc::new(RwLock::new(LocalCourseLibrary::new(
-            &working_dir.join(library_root),
+            library_root,
             user_preferences.clone(),
         )?));
 
-- 
2.43.0


From 47fa520b92d3f45fd97a33ebc893d0959980d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:13 +0000
Subject: [PATCH 31/34] fix: builders wrote courses in which units sharing a
 directory overwrote each other

---
 src/course_builder.rs                        | 19 +++++++++++++++++--
 src/course_builder/knowledge_base_builder.rs |  9 ++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/course_builder.rs b/src/course_builder.rs
index 474d1f6..5573ba5 100644
--- a/src/course_builder.rs
+++ b/src/course_builder.rs
@@ -12,6 +12,7 @@ pub mod knowledge_base_builder;
 use anyhow::{Context, Result, ensure};
 use serde::{Deserialize, Serialize};
 use std::{
+    collections::HashSet,
     fs::{File, create_dir_all},
     io::Write,
     path::{Path, PathBuf},
@@ -149,8 +150,15 @@ impl LessonBuilder {
             asset_builder.build(lesson_directory)?;
         }
 
-        // Build all the exercises in the lesson.
+        // Build all the exercises in the lesson. Two exercises cannot share a directory because the
+        // second would overwrite the first.
+        let mut directory_names = HashSet::new();
         for exercise_builder in &self.exercise_builders {
+            ensure!(
+                directory_names.insert(&exercise_builder.directory_name),
+                "exercise directory {} is not unique",
+                exercise_builder.directory_name
+            );
             let exercise_directory = lesson_directory.join(&exercise_builder.directory_name);
             exercise_builder.build(&exercise_directory, self.exercise_manifest_template.clone())?;
         }
@@ -204,8 +212,15 @@ impl CourseBuilder {
             asset_builder.build(&course_directory)?;
         }
 
-        // Build all the lessons in the course.
+        // Build all the lessons in the course. Two lessons cannot share a directory because the
+        // second would overwrite the first.
+        let mut directory_names = HashSet::new();
         for lesson_builder in &self.lesson_builders {
+            ensure!(
+                directory_names.insert(&lesson_builder.directory_name),
+                "lesson directory {} is not unique",
+                lesson_builder.directory_name
+            );
             let lesson_directory = course_directory.join(&lesson_builder.directory_name);
             lesson_builder.build(&lesson_directory, self.lesson_manifest_template.clone())?;
         }
diff --git a/src/course_builder/knowledge_base_builder.rs b/src/course_builder/knowledge_base_builder.rs
index 27857ca..1730ea1 100644
--- a/src/course_builder/knowledge_base_builder.rs
+++ b/src/course_builder/knowledge_base_builder.rs
@@ -182,8 +182,15 @@ impl CourseBuilder {
         }
 
         // For each lesson in the course, create a directory with the name
-        // `<LESSON_SHORT_ID>.lesson` and build the lesson in that directory.
+        // `<LESSON_SHORT_ID>.lesson` and build the lesson in that directory. The short IDs must be
+        // unique because the files of lessons that share a directory would overwrite each other.
+        let mut short_ids = HashSet::new();
         for builder in &self.lessons {
+            ensure!(
+                short_ids.insert(builder.lesson.short_id),
+                "short ID {} of lesson is not unique",
+                builder.lesson.short_id
+            );
             let lesson_directory =
                 course_directory.join(format!("{}{}", builder.lesson.short_id, LESSON_SUFFIX));
             fs::create_dir_all(&lesson_directory)?;
-- 
2.43.0


From 1fb420a26bc65992d9791a81a20e400363f81e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:37 +0000
Subject: [PATCH 32/34] fix: filters on dependencies at a depth took time
 exponential in the depth

---
 src/scheduler/data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/data.rs b/src/scheduler/data.rs
index 7e76a98..032d2de 100644
--- a/src/scheduler/data.rs
+++ b/src/scheduler/data.rs
@@ -3,7 +3,7 @@
 use anyhow::{Ok, Result, anyhow};
 use chrono::{DateTime, Utc};
 use parking_lot::RwLock;
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -177,8 +177,15 @@ impl SchedulerData {
         // Search for the dependencies at the given depth.
         let mut dependencies = vec![];
         let mut stack = vec![(unit_id, 0)];
+        let mut visited = HashSet::new();
         let graph = self.unit_graph.read();
         while let Some((candidate_id, candidate_depth)) = stack.pop() {
+            // The same unit can be reached through many paths. Visit it only once per depth to avoid
+            // going through all of them.
+            if !visited.insert((candidate_id, candidate_depth)) {
+                continue;
+            }
+
             if candidate_depth == depth {
                 // Reached the end of the search.
                 dependencies.push(candidate_id);
-- 
2.43.0


From 39261c18db2f14d48ba4ea3a520ba801eea4c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:37 +0000
Subject: [PATCH 33/34] fix: following chains of superseding units took time
 exponential in their length

---
 src/scheduler/unit_scorer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 1e5d6a9..7657d1c 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -425,13 +425,20 @@ impl UnitScorer {
     /// replace them from the original set with those units.
     fn replace_superseding(&self, superseding_ids: &UstrSet) -> UstrSet {
         let mut result = UstrSet::default();
-        for id in superseding_ids.iter().copied() {
+        let mut visited = UstrSet::default();
+        let mut pending: Vec<Ustr> = superseding_ids.iter().copied().collect();
+        while let Some(id) = pending.pop() {
+            // The same unit can be reached through many paths but only needs to be checked once.
+            if !visited.insert(id) {
+                continue;
+            }
+
             let superseding = self.data.get_superseding(id);
             if let Some(superseding) = superseding {
                 // The unit has some superseding units of its own. If the unit has been superseded
-                // by them, recursively call this function. Otherwise, add the unit to the result.
+                // by them, check those units instead. Otherwise, add the unit to the result.
                 if self.is_superseded(id, &superseding) {
-                    result.extend(self.replace_superseding(&superseding));
+                    pending.extend(superseding.iter().copied());
                 } else {
                     result.insert(id);
                 }
-- 
2.43.0


From e9bbff131188e3cefdaadfc7291f6f0e2dbec6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:10 +0000
Subject: [PATCH 34/34] fix: falling grades made all other factors in the
 selection of exercises irrelevant

---
 src/scheduler/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 42ff1a5..834cad0 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -114,7 +114,7 @@ impl CandidateFilter {
         }
 
         if let Some(velocity) = c.velocity {
-            log_cost += VELOCITY_COST_COEFFICIENT * -velocity.ln_1p();
+            log_cost -= VELOCITY_COST_COEFFICIENT * velocity.signum() * velocity.abs().ln_1p();
             if velocity.abs() < STAGNANT_VELOCITY_THRESHOLD {
                 if c.exercise_score >= MASTERED_SCORE_THRESHOLD {
                     log_cost += STAGNANT_MASTERED_COST_PENALTY;
-- 
2.43.0

