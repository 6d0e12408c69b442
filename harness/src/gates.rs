//! Points at which a thread can be made to wait: every call of a store, of the library and of the
//! graph (for schedulers built from wrapped parts), and every lock SQLite takes on a file.
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use trane::blacklist::Blacklist;
use trane::course_library::CourseLibrary;
use trane::data::*;
use trane::error::*;
use trane::filter_manager::FilterManager;
use trane::graph::UnitGraph;
use trane::practice_deltas::PracticeDeltas;
use trane::practice_rewards::PracticeRewards;
use trane::practice_stats::PracticeStats;
use trane::review_list::ReviewList;
use ustr::{Ustr, UstrSet};

/// Something that happens once.
#[derive(Default)]
pub struct Flag(Mutex<bool>, Condvar);
impl Flag {
    pub fn raise(&self) {
        *self.0.lock().unwrap() = true;
        self.1.notify_all();
    }
    pub fn wait(&self, max: Duration) -> bool {
        *self.1.wait_timeout_while(self.0.lock().unwrap(), max, |x| !*x).unwrap().0
    }
}

pub enum Plan {
    None,
    /// At the given gate, lets the other thread run until it is done or stuck.
    Pause { at: u32, reached: Arc<Flag>, resume: Arc<Flag>, max: Duration },
    /// Sleeps at random.
    Random(u64),
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static PLAN: RefCell<Plan> = const { RefCell::new(Plan::None) };
}
pub fn plan(p: Plan) {
    COUNT.set(0);
    ON.set(!matches!(p, Plan::None));
    PLAN.set(p);
}
/// The number of gates passed.
pub fn count() -> u32 {
    COUNT.get()
}
pub fn gate() {
    if !ON.get() {
        return;
    }
    ON.set(false);
    let n = COUNT.get() + 1;
    COUNT.set(n);
    PLAN.with_borrow_mut(|p| match p {
        Plan::None => {}
        Plan::Pause { at, reached, resume, max } => {
            if n == *at {
                reached.raise();
                resume.wait(*max);
            }
        }
        Plan::Random(x) => {
            *x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            match (*x >> 33) % 16 {
                0 => std::thread::sleep(Duration::from_micros((*x >> 40) % 1500)),
                1..=4 => std::thread::yield_now(),
                _ => {}
            }
        }
    });
    ON.set(true);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: libc::c_int, cmd: libc::c_int, arg: usize) -> libc::c_int {
    if cmd == libc::F_SETLK {
        gate();
    }
    unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as libc::c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: libc::c_int, cmd: libc::c_int, arg: usize) -> libc::c_int {
    unsafe { fcntl(fd, cmd, arg) }
}

/// Forwards to what it wraps, passing a gate.
pub struct Gated<T>(pub T);

macro_rules! forward {
    ($tr:ident { $($f:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)* } mut { $($mf:ident ( $($ma:ident : $mt:ty),* ) -> $mr:ty;)* }) => {
        impl<T: $tr> $tr for Gated<T> {
            $(fn $f(&self, $($a: $t),*) -> $r { gate(); self.0.$f($($a),*) })*
            $(fn $mf(&mut self, $($ma: $mt),*) -> $mr { gate(); self.0.$mf($($ma),*) })*
        }
    };
}
forward!(Blacklist {
    blacklisted(u: Ustr) -> Result<bool, BlacklistError>;
    get_blacklist_entries() -> Result<Vec<Ustr>, BlacklistError>;
} mut {
    add_to_blacklist(u: Ustr) -> Result<(), BlacklistError>;
    remove_from_blacklist(u: Ustr) -> Result<(), BlacklistError>;
    remove_prefix_from_blacklist(p: &str) -> Result<(), BlacklistError>;
});
forward!(ReviewList {
    get_review_list_entries() -> Result<Vec<Ustr>, ReviewListError>;
} mut {
    add_to_review_list(u: Ustr) -> Result<(), ReviewListError>;
    remove_from_review_list(u: Ustr) -> Result<(), ReviewListError>;
});
forward!(PracticeStats {
    get_scores(u: Ustr, n: u32) -> Result<Vec<ExerciseTrial>, PracticeStatsError>;
} mut {
    record_exercise_scores(t: &[ExerciseTrial]) -> Result<(), PracticeStatsError>;
    trim_scores(n: u32) -> Result<(), PracticeStatsError>;
    remove_scores_with_prefix(p: &str) -> Result<(), PracticeStatsError>;
});
forward!(PracticeDeltas {
    get_deltas(u: Ustr, n: u32) -> Result<Vec<ExerciseDelta>, PracticeDeltasError>;
} mut {
    record_exercise_deltas(t: &[ExerciseDelta]) -> Result<(), PracticeDeltasError>;
    trim_deltas(n: u32) -> Result<(), PracticeDeltasError>;
    remove_deltas_with_prefix(p: &str) -> Result<(), PracticeDeltasError>;
});
forward!(PracticeRewards {
    get_rewards(u: Ustr, n: u32) -> Result<Vec<UnitReward>, PracticeRewardsError>;
} mut {
    record_unit_rewards(t: &[UnitReward]) -> Result<Vec<Ustr>, PracticeRewardsError>;
    trim_rewards(n: u32) -> Result<(), PracticeRewardsError>;
    remove_rewards_with_prefix(p: &str) -> Result<(), PracticeRewardsError>;
});
forward!(FilterManager {
    get_filter(id: &str) -> Option<Arc<filter::SavedFilter>>;
    list_filters() -> Vec<(String, String)>;
} mut {});
forward!(CourseLibrary {
    get_course_manifest(u: Ustr) -> Option<Arc<CourseManifest>>;
    get_lesson_manifest(u: Ustr) -> Option<Arc<LessonManifest>>;
    get_exercise_manifest(u: Ustr) -> Option<Arc<ExerciseManifest>>;
    get_course_ids() -> Vec<Ustr>;
    get_lesson_ids(u: Ustr) -> Option<Vec<Ustr>>;
    get_exercise_ids(u: Ustr) -> Option<Vec<Ustr>>;
    get_all_exercise_ids(u: Option<Ustr>) -> Vec<Ustr>;
    get_matching_prefix(p: &str, t: Option<UnitType>) -> UstrSet;
} mut {});
forward!(UnitGraph {
    encompasing_equals_dependency() -> bool;
    get_unit_type(u: Ustr) -> Option<UnitType>;
    get_course_lessons(u: Ustr) -> Option<Arc<UstrSet>>;
    get_starting_lessons(u: Ustr) -> Option<Arc<UstrSet>>;
    get_lesson_course(u: Ustr) -> Option<Ustr>;
    get_lesson_exercises(u: Ustr) -> Option<Arc<UstrSet>>;
    get_exercise_lesson(u: Ustr) -> Option<Ustr>;
    get_dependencies(u: Ustr) -> Option<Arc<UstrSet>>;
    get_dependents(u: Ustr) -> Option<Arc<UstrSet>>;
    get_dependency_sinks() -> Arc<UstrSet>;
    get_encompasses(u: Ustr) -> Option<Vec<(Ustr, f32)>>;
    get_encompassed_by(u: Ustr) -> Option<Vec<(Ustr, f32)>>;
    get_supersedes(u: Ustr) -> Option<Arc<UstrSet>>;
    get_superseded_by(u: Ustr) -> Option<Arc<UstrSet>>;
    check_cycles() -> Result<(), UnitGraphError>;
    generate_dot_graph(c: bool) -> String;
} mut {
    add_course(c: Ustr) -> Result<(), UnitGraphError>;
    add_lesson(l: Ustr, c: Ustr) -> Result<(), UnitGraphError>;
    add_exercise(e: Ustr, l: Ustr) -> Result<(), UnitGraphError>;
    add_dependencies(u: Ustr, t: UnitType, d: &[Ustr]) -> Result<(), UnitGraphError>;
    add_encompassed(u: Ustr, d: &[Ustr], e: &[(Ustr, f32)]) -> Result<(), UnitGraphError>;
    set_encompasing_equals_dependency() -> ();
    add_superseded(u: Ustr, s: &[Ustr]) -> ();
    update_starting_lessons() -> ();
});
