#![allow(dead_code, unused_imports)]
use anyhow::{Result, ensure};
use std::collections::{BTreeMap, BTreeSet};
use trane::{Trane, blacklist::*, course_library::*, data::{filter::*, *}, graph::*, practice_deltas::*, practice_rewards::*, practice_stats::*};
use trane::{review_list::*, scheduler::*, test_utils::*};
use ustr::Ustr;

/// "0" is a course, "0::1" a lesson, "0::1::2" an exercise.
fn tid(s: &str) -> TestId {
    TestId::from(&Ustr::from(s))
}
fn tids(s: &[&str]) -> Vec<TestId> {
    s.iter().map(|x| tid(x)).collect()
}
fn lesson(id: &str, deps: &[&str], num_exercises: usize) -> TestLesson {
    TestLesson { id: tid(id), dependencies: tids(deps), encompassed: vec![], superseded: vec![], metadata: BTreeMap::default(), num_exercises }
}
fn course(id: &str, deps: &[&str], lessons: Vec<TestLesson>) -> TestCourse {
    TestCourse { id: tid(id), dependencies: tids(deps), encompassed: vec![], superseded: vec![], metadata: BTreeMap::default(), lessons }
}
fn u(s: &str) -> Ustr {
    Ustr::from(s)
}
/// Gives an exercise the same grade n times in the recent past.
fn practice(t: &Trane, e: &str, grade: MasteryScore, n: i64) -> Result<()> {
    let now = chrono::Utc::now().timestamp();
    for i in 0..n {
        t.score_exercise(u(e), grade.clone(), now - 60 * (n - i))?;
    }
    Ok(())
}
/// The exercises seen in a number of batches.
fn seen(t: &Trane, filter: Option<ExerciseFilter>, batches: usize) -> Result<BTreeSet<String>> {
    let mut out = BTreeSet::new();
    for _ in 0..batches {
        out.extend(t.get_exercise_batch(filter.clone())?.iter().map(|m| m.id.to_string()));
    }
    Ok(out)
}
