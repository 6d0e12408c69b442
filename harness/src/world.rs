//! The "world": a library on disk, an open instance, and a program of user-level operations.
use crate::par;
use anyhow::{Context, Result, anyhow, bail};
use chrono::{Duration, Utc};
use parking_lot::RwLock;
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use crate::gates::Gated;
use trane::Trane;
use trane::blacklist::{Blacklist, LocalBlacklist};
use trane::course_library::{CourseLibrary, LocalCourseLibrary, SerializedCourseLibrary};
use trane::data::filter::*;
use trane::data::*;
use trane::exercise_scorer::{ExerciseScorer, PowerLawScorer};
use trane::filter_manager::LocalFilterManager;
use trane::practice_deltas::{LocalPracticeDeltas, PracticeDeltas};
use trane::practice_rewards::{LocalPracticeRewards, PracticeRewards};
use trane::practice_stats::{LocalPracticeStats, PracticeStats};
use trane::review_list::{LocalReviewList, ReviewList};
use trane::scheduler::data::SchedulerData;
use trane::scheduler::{DepthFirstScheduler, ExerciseScheduler};
use ustr::Ustr;

pub fn s<'a>(v: &'a Value, k: &str) -> Result<&'a str> {
    v.get(k).and_then(Value::as_str).ok_or_else(|| anyhow!("missing string {k} in {v}"))
}
pub fn i(v: &Value, k: &str) -> Result<i64> {
    v.get(k).and_then(Value::as_i64).ok_or_else(|| anyhow!("missing int {k} in {v}"))
}
pub fn ids(v: &Value) -> Vec<Ustr> {
    v.as_array()
        .map(|a| a.iter().map(|x| Ustr::from(x.as_str().unwrap())).collect())
        .unwrap_or_default()
}
pub fn micro(f: f32) -> i64 {
    (f64::from(f) * 1e6).round() as i64
}
/// Values go to TLC as 32-bit integers.
pub fn clamp32(x: i64) -> i64 {
    x.clamp(-2_000_000_000, 2_000_000_000)
}
pub fn grade(g: i64) -> MasteryScore {
    match g {
        1 => MasteryScore::One,
        2 => MasteryScore::Two,
        3 => MasteryScore::Three,
        4 => MasteryScore::Four,
        _ => MasteryScore::Five,
    }
}

pub fn metadata(v: &Value) -> Option<BTreeMap<String, Vec<String>>> {
    let o = v.as_object()?;
    if o.contains_key("__none") {
        return None;
    }
    Some(
        o.iter()
            .map(|(k, vs)| {
                (
                    k.clone(),
                    vs.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                )
            })
            .collect(),
    )
}
fn encompassed(v: &Value) -> Vec<(Ustr, f32)> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|p| (Ustr::from(p[0].as_str().unwrap()), p[1].as_i64().unwrap() as f32 / 1000.0))
                .collect()
        })
        .unwrap_or_default()
}

/// Writes the library described by the program below the root.
pub fn write_library(root: &Path, lib: &Value) -> Result<()> {
    let courses = lib["courses"].as_object().context("courses")?;
    let lessons = lib["lessons"].as_object().context("lessons")?;
    let exs = lib["exs"].as_object().context("exs")?;
    for (ci, (cid, c)) in courses.iter().enumerate() {
        let cdir = root.join(format!("course_{ci}"));
        std::fs::create_dir_all(&cdir)?;
        let m = CourseManifest {
            id: Ustr::from(cid),
            name: format!("name {cid}"),
            dependencies: ids(&c["deps"]),
            encompassed: encompassed(&c["enc"]),
            superseded: ids(&c["sup"]),
            description: Some(format!("about {cid}")),
            authors: None,
            metadata: metadata(&c["meta"]),
            course_material: None,
            course_instructions: None,
            generator_config: None,
        };
        std::fs::write(cdir.join("course_manifest.json"), serde_json::to_string_pretty(&m)?)?;
        for (li, lid) in c["lessons"].as_array().context("lessons")?.iter().enumerate() {
            let lid = lid.as_str().unwrap();
            let l = lessons.get(lid).context("lesson")?;
            let ldir = cdir.join(format!("lesson_{li}"));
            std::fs::create_dir_all(&ldir)?;
            let m = LessonManifest {
                id: Ustr::from(lid),
                dependencies: ids(&l["deps"]),
                encompassed: encompassed(&l["enc"]),
                superseded: ids(&l["sup"]),
                course_id: Ustr::from(cid),
                name: format!("name {lid}"),
                description: None,
                metadata: metadata(&l["meta"]),
                lesson_material: None,
                lesson_instructions: None,
            };
            std::fs::write(ldir.join("lesson_manifest.json"), serde_json::to_string_pretty(&m)?)?;
            for (ei, eid) in l["exs"].as_array().context("exs")?.iter().enumerate() {
                let eid = eid.as_str().unwrap();
                let e = exs.get(eid).context("exercise")?;
                let edir = ldir.join(format!("ex_{ei}"));
                std::fs::create_dir_all(&edir)?;
                let m = ExerciseManifest {
                    id: Ustr::from(eid),
                    lesson_id: Ustr::from(lid),
                    course_id: Ustr::from(cid),
                    name: format!("name {eid}"),
                    description: None,
                    exercise_type: if e["type"] == "D" {
                        ExerciseType::Declarative
                    } else {
                        ExerciseType::Procedural
                    },
                    exercise_asset: ExerciseAsset::BasicAsset(BasicAsset::InlinedAsset {
                        content: format!("content {eid}"),
                    }),
                };
                std::fs::write(edir.join("exercise_manifest.json"), serde_json::to_string_pretty(&m)?)?;
            }
        }
    }
    Ok(())
}

pub fn kv_filter(v: &Value) -> Result<KeyValueFilter> {
    let inc = || {
        if v["inc"].as_bool().unwrap_or(true) { FilterType::Include } else { FilterType::Exclude }
    };
    Ok(match s(v, "t")? {
        "c" => KeyValueFilter::CourseFilter { key: s(v, "k")?.into(), value: s(v, "v")?.into(), filter_type: inc() },
        "l" => KeyValueFilter::LessonFilter { key: s(v, "k")?.into(), value: s(v, "v")?.into(), filter_type: inc() },
        op => KeyValueFilter::CombinedFilter {
            op: if op == "all" { FilterOp::All } else { FilterOp::Any },
            filters: v["fs"].as_array().unwrap().iter().map(kv_filter).collect::<Result<_>>()?,
        },
    })
}
pub fn unit_filter(v: &Value) -> Result<UnitFilter> {
    Ok(match s(v, "t")? {
        "course" => UnitFilter::CourseFilter { course_ids: ids(&v["ids"]) },
        "lesson" => UnitFilter::LessonFilter { lesson_ids: ids(&v["ids"]) },
        "meta" => UnitFilter::MetadataFilter { filter: kv_filter(&v["f"])? },
        "review" => UnitFilter::ReviewListFilter,
        "dependents" => UnitFilter::Dependents { unit_ids: ids(&v["ids"]) },
        "deps" => UnitFilter::Dependencies { unit_ids: ids(&v["ids"]), depth: i(v, "depth")? as usize },
        t => bail!("unknown filter {t}"),
    })
}
pub fn session_parts(v: &Value) -> Result<Vec<SessionPart>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let duration = i(p, "dur")? as u32;
            Ok(match s(p, "k")? {
                "none" => SessionPart::NoFilter { duration },
                "unit" => SessionPart::UnitFilter { filter: unit_filter(&p["f"])?, duration },
                _ => SessionPart::SavedFilter { filter_id: s(p, "id")?.into(), duration },
            })
        })
        .collect()
}
pub fn exercise_filter(v: &Value) -> Result<Option<ExerciseFilter>> {
    Ok(match s(v, "t")? {
        "none" => None,
        "session" => Some(ExerciseFilter::StudySession(StudySessionData {
            start_time: Utc::now() - Duration::seconds(i(v, "elapsed")?),
            definition: StudySession {
                id: "session".into(),
                description: String::new(),
                parts: session_parts(&v["parts"])?,
            },
        })),
        _ => Some(ExerciseFilter::UnitFilter(unit_filter(v)?)),
    })
}

/// Builds options from a program's overrides.
pub fn options(o: &Value, base: SchedulerOptions) -> SchedulerOptions {
    let mut r = base;
    let m = |k: &str| o.get(k).and_then(Value::as_i64);
    let f = |x: i64| x as f32 / 1000.0;
    if let Some(x) = m("batch") { r.batch_size = x as usize; }
    if let Some(x) = m("relearn") { r.relearn_fraction = f(x); }
    if let Some(x) = m("min_score") { r.passing_score.min_score = f(x); }
    if let Some(x) = m("min_trials") { r.passing_score.min_avg_trials = f(x); }
    if let Some(x) = m("min_frac") { r.passing_score.min_fraction = f(x); }
    if let Some(x) = m("sup") { r.superseding_score = f(x); }
    if let Some(x) = m("num_trials") { r.num_trials = x as u32; }
    if let Some(x) = m("num_deltas") { r.num_deltas = x as u32; }
    if let Some(x) = m("num_rewards") { r.num_rewards = x as u32; }
    if let Some(x) = m("max_prog") { r.max_lessons_in_progress = x as usize; }
    if let Some(a) = o.get("pct").and_then(Value::as_array) {
        let p: Vec<f32> = a.iter().map(|x| f(x.as_i64().unwrap())).collect();
        r.new_window_opts.percentage = p[0];
        r.target_window_opts.percentage = p[1];
        r.current_window_opts.percentage = p[2];
        r.easy_window_opts.percentage = p[3];
        r.mastered_window_opts.percentage = p[4];
    }
    if let Some(a) = o.get("cuts").and_then(Value::as_array) {
        let p: Vec<f32> = a.iter().map(|x| f(x.as_i64().unwrap())).collect();
        r.new_window_opts.range = (0.0, p[0]);
        r.target_window_opts.range = (p[0], p[1]);
        r.current_window_opts.range = (p[1], p[2]);
        r.easy_window_opts.range = (p[2], p[3]);
        r.mastered_window_opts.range = (p[3], 5.0);
    }
    r
}
pub fn options_json(o: &SchedulerOptions) -> Value {
    let m = |x: f32| (f64::from(x) * 1000.0).round() as i64;
    json!({"batch": o.batch_size, "relearn": m(o.relearn_fraction), "min_score": m(o.passing_score.min_score),
        "min_trials": m(o.passing_score.min_avg_trials), "min_frac": m(o.passing_score.min_fraction),
        "sup": m(o.superseding_score), "num_trials": o.num_trials, "num_deltas": o.num_deltas,
        "num_rewards": o.num_rewards, "max_prog": o.max_lessons_in_progress,
        "pct": [m(o.new_window_opts.percentage), m(o.target_window_opts.percentage),
            m(o.current_window_opts.percentage), m(o.easy_window_opts.percentage), m(o.mastered_window_opts.percentage)],
        "cuts": [m(o.new_window_opts.range.1), m(o.target_window_opts.range.1),
            m(o.current_window_opts.range.1), m(o.easy_window_opts.range.1)]})
}

/// The pool trick: with window shares this large every candidate is selected, so that one batch
/// shows the whole pool.
pub const POOL_PCT: f32 = 100.0;
fn pool_options(mut opts: SchedulerOptions) -> SchedulerOptions {
    opts.new_window_opts.percentage = POOL_PCT;
    opts.target_window_opts.percentage = POOL_PCT;
    opts.current_window_opts.percentage = POOL_PCT;
    opts.easy_window_opts.percentage = POOL_PCT;
    opts.mastered_window_opts.percentage = POOL_PCT;
    opts
}

pub struct Parts {
    pub library: Arc<RwLock<Gated<Trane>>>,
    pub data: SchedulerData,
    pub sched: DepthFirstScheduler,
}

pub enum Rig {
    Facade(Box<Trane>),
    Parts(Box<Parts>),
}

pub fn config(root: &Path) -> PathBuf {
    root.join(".trane")
}
pub fn db(root: &Path, name: &str) -> String {
    config(root).join(name).to_str().unwrap().to_string()
}

impl Rig {
    /// Opens the directory, or the serialized form of what it contains.
    pub fn open_trane(root: &Path, ser: bool) -> Result<Trane> {
        if !ser {
            return Trane::new_local(root, root);
        }
        let lib = LocalCourseLibrary::new(root, UserPreferences::default())?;
        let bytes = postcard::to_allocvec(&SerializedCourseLibrary::from(&lib))?;
        Trane::new_local_from_serialized(root, postcard::from_bytes(&bytes)?)
    }
    pub fn open_facade(root: &Path, ser: bool, now: Option<i64>) -> Result<Rig> {
        let mut t = Self::open_trane(root, ser)?;
        t.override_current_timestamp(now);
        Ok(Rig::Facade(Box::new(t)))
    }
    pub fn open_parts(root: &Path, ser: bool, opts: SchedulerOptions, pool: bool, now: Option<i64>) -> Result<Rig> {
        // A second instance serves as library and graph (it implements both interfaces).
        let library = Arc::new(RwLock::new(Gated(Self::open_trane(root, ser)?)));
        let mut opts = opts;
        if pool {
            opts = pool_options(opts);
        }
        let data = SchedulerData {
            options: opts,
            course_library: library.clone(),
            unit_graph: library.clone(),
            practice_deltas: Arc::new(RwLock::new(Gated(LocalPracticeDeltas::new_from_disk(&db(root, "practice_deltas.db"))?))),
            practice_stats: Arc::new(RwLock::new(Gated(LocalPracticeStats::new_from_disk(&db(root, "practice_stats.db"))?))),
            practice_rewards: Arc::new(RwLock::new(Gated(LocalPracticeRewards::new_from_disk(&db(root, "practice_rewards.db"))?))),
            blacklist: Arc::new(RwLock::new(Gated(LocalBlacklist::new_from_disk(&db(root, "blacklist.db"))?))),
            review_list: Arc::new(RwLock::new(Gated(LocalReviewList::new_from_disk(&db(root, "review_list.db"))?))),
            filter_manager: Arc::new(RwLock::new(Gated(LocalFilterManager::new(config(root).join("filters").to_str().unwrap())?))),
            frequency_map: Arc::default(),
            trial_counts: Arc::default(),
        };
        let mut sched = DepthFirstScheduler::new(data.clone());
        sched.override_current_timestamp(now);
        Ok(Rig::Parts(Box::new(Parts { library, data, sched })))
    }
    pub fn sched(&self) -> &dyn ExerciseScheduler {
        match self {
            Rig::Facade(t) => &**t,
            Rig::Parts(p) => &p.sched,
        }
    }
    pub fn sched_mut(&mut self) -> &mut dyn ExerciseScheduler {
        match self {
            Rig::Facade(t) => &mut **t,
            Rig::Parts(p) => &mut p.sched,
        }
    }
    pub fn manifest(&self, id: Ustr) -> Option<ExerciseManifest> {
        match self {
            Rig::Facade(t) => t.get_exercise_manifest(id),
            Rig::Parts(p) => p.library.read().get_exercise_manifest(id),
        }
        .map(|m| (*m).clone())
    }
    pub fn trials(&self, id: Ustr, n: u32) -> Result<Vec<ExerciseTrial>> {
        Ok(match self {
            Rig::Facade(t) => t.get_scores(id, n)?,
            Rig::Parts(p) => p.data.practice_stats.read().get_scores(id, n)?,
        })
    }
    pub fn deltas(&self, id: Ustr, n: u32) -> Result<Vec<ExerciseDelta>> {
        Ok(match self {
            Rig::Facade(t) => t.get_deltas(id, n)?,
            Rig::Parts(p) => p.data.practice_deltas.read().get_deltas(id, n)?,
        })
    }
    pub fn rewards(&self, id: Ustr, n: u32) -> Result<Vec<UnitReward>> {
        Ok(match self {
            Rig::Facade(t) => t.get_rewards(id, n)?,
            Rig::Parts(p) => p.data.practice_rewards.read().get_rewards(id, n)?,
        })
    }
    pub fn record_trials(&mut self, ts: &[ExerciseTrial]) -> Result<()> {
        match self {
            Rig::Facade(t) => t.record_exercise_scores(ts)?,
            Rig::Parts(p) => {
                p.data.practice_stats.write().record_exercise_scores(ts)?;
                for t in ts {
                    p.sched.invalidate_cached_score(t.exercise_id);
                }
            }
        }
        Ok(())
    }
    pub fn record_deltas(&mut self, ds: &[ExerciseDelta]) -> Result<()> {
        match self {
            Rig::Facade(t) => t.record_exercise_deltas(ds)?,
            Rig::Parts(p) => {
                p.data.practice_deltas.write().record_exercise_deltas(ds)?;
                for d in ds {
                    p.sched.invalidate_cached_score(d.exercise_id);
                }
            }
        }
        Ok(())
    }
    pub fn record_rewards(&mut self, rs: &[UnitReward]) -> Result<Vec<Ustr>> {
        Ok(match self {
            Rig::Facade(t) => t.record_unit_rewards(rs)?,
            Rig::Parts(p) => {
                let u = p.data.practice_rewards.write().record_unit_rewards(rs)?;
                for r in rs {
                    p.sched.invalidate_cached_score(r.unit_id);
                }
                u
            }
        })
    }
    pub fn blacklist_op(&mut self, op: &str, u: &str) -> Result<()> {
        let id = Ustr::from(u);
        match self {
            Rig::Facade(t) => match op {
                "bl_add" => t.add_to_blacklist(id)?,
                "bl_rm" => t.remove_from_blacklist(id)?,
                _ => t.remove_prefix_from_blacklist(u)?,
            },
            Rig::Parts(_) => self.blacklist_shared(op, u)?,
        }
        Ok(())
    }
    /// The parts of a scheduler can be edited while others use them.
    pub fn blacklist_shared(&self, op: &str, u: &str) -> Result<()> {
        let Rig::Parts(p) = self else { bail!("not shared") };
        let id = Ustr::from(u);
        {
            let mut b = p.data.blacklist.write();
            match op {
                "bl_add" => b.add_to_blacklist(id)?,
                "bl_rm" => b.remove_from_blacklist(id)?,
                _ => b.remove_prefix_from_blacklist(u)?,
            }
        }
        if op == "bl_rmp" {
            p.sched.invalidate_cached_scores_with_prefix("");
        } else {
            p.sched.invalidate_cached_score(id);
        }
        Ok(())
    }
    pub fn review_shared(&self, op: &str, id: Ustr) -> Result<()> {
        let Rig::Parts(p) = self else { bail!("not shared") };
        let mut r = p.data.review_list.write();
        if op == "rv_add" { r.add_to_review_list(id)? } else { r.remove_from_review_list(id)? }
        Ok(())
    }
    pub fn review_op(&mut self, op: &str, id: Ustr) -> Result<()> {
        match self {
            Rig::Facade(t) => {
                if op == "rv_add" { t.add_to_review_list(id)? } else { t.remove_from_review_list(id)? }
            }
            Rig::Parts(_) => self.review_shared(op, id)?,
        }
        Ok(())
    }
    pub fn store_op(&mut self, op: &str, ev: &Value) -> Result<()> {
        let Rig::Facade(t) = self else {
            let Rig::Parts(p) = self else { unreachable!() };
            let d = &p.data;
            match op {
                "st_trim" => d.practice_stats.write().trim_scores(i(ev, "n")? as u32)?,
                "st_rmp" => d.practice_stats.write().remove_scores_with_prefix(s(ev, "p")?)?,
                "de_trim" => d.practice_deltas.write().trim_deltas(i(ev, "n")? as u32)?,
                "de_rmp" => d.practice_deltas.write().remove_deltas_with_prefix(s(ev, "p")?)?,
                "rw_trim" => d.practice_rewards.write().trim_rewards(i(ev, "n")? as u32)?,
                _ => d.practice_rewards.write().remove_rewards_with_prefix(s(ev, "p")?)?,
            }
            p.sched.invalidate_cached_scores_with_prefix("");
            return Ok(());
        };
        match op {
            "st_trim" => t.trim_scores(i(ev, "n")? as u32)?,
            "st_rmp" => t.remove_scores_with_prefix(s(ev, "p")?)?,
            "de_trim" => t.trim_deltas(i(ev, "n")? as u32)?,
            "de_rmp" => t.remove_deltas_with_prefix(s(ev, "p")?)?,
            "rw_trim" => t.trim_rewards(i(ev, "n")? as u32)?,
            _ => t.remove_rewards_with_prefix(s(ev, "p")?)?,
        }
        Ok(())
    }
    pub fn review_entries(&self) -> Result<Vec<Ustr>> {
        Ok(match self {
            Rig::Facade(t) => t.get_review_list_entries()?,
            Rig::Parts(p) => p.data.review_list.read().get_review_list_entries()?,
        })
    }
    /// The trials of the session, good and bad, where they can be seen.
    pub fn counts(&self) -> Vec<usize> {
        match self {
            Rig::Facade(_) => vec![],
            Rig::Parts(p) => {
                let c = p.data.trial_counts.read();
                vec![c.0, c.1]
            }
        }
    }
    pub fn blacklist_entries(&self) -> Result<Vec<Ustr>> {
        Ok(match self {
            Rig::Facade(t) => t.get_blacklist_entries()?,
            Rig::Parts(p) => p.data.blacklist.read().get_blacklist_entries()?,
        })
    }
}

/// The per-exercise inputs of the score specification, computed from the stored history with the
/// exercise scorer alone (no scheduler, no cache).
pub fn observe(rig: &Rig, lib: &Value, now: i64, opts: &SchedulerOptions) -> Result<Value> {
    let mut obs = Map::new();
    let scorer = PowerLawScorer {};
    for (eid, e) in lib["exs"].as_object().unwrap() {
        let id = Ustr::from(eid);
        let ty = if e["type"] == "D" { ExerciseType::Declarative } else { ExerciseType::Procedural };
        let trials = rig.trials(id, opts.num_trials)?;
        let deltas = rig.deltas(id, opts.num_deltas)?;
        let v = match scorer.score(ty, &trials, &deltas, now) {
            Ok(sc) => {
                let s3: f32 = trials.iter().take(3).map(|t| t.score).sum();
                json!({"n": trials.len(), "base": micro(sc.value), "ur": micro(sc.urgency), "ve": sc.velocity.map_or(json!([]), |v| json!([(v.clamp(-1000.0, 1000.0) * 1000.0) as i64])), "xi": sc.value.fract() == 0.0,
                    "s3": (s3 * 10.0).round() as i64,
                    "la": trials.first().map_or(0, |t| clamp32(now - t.timestamp)), "ok": true})
            }
            Err(_) => json!({"n": trials.len(), "base": 0, "ur": 0, "ve": [], "xi": true, "s3": 0, "la": 0, "ok": false}),
        };
        obs.insert(eid.clone(), v);
    }
    Ok(Value::Object(obs))
}

/// All stored rewards: unit -> [[value, weight, age]] newest first.
pub fn observe_rewards(rig: &Rig, lib: &Value, now: i64, n: u32) -> Result<Value> {
    let mut m = Map::new();
    for kind in ["courses", "lessons"] {
        for (uid, _) in lib[kind].as_object().unwrap() {
            let r: Vec<Value> = rig
                .rewards(Ustr::from(uid), n)?
                .iter()
                .map(|r| json!([micro(r.value), micro(r.weight), clamp32(now - r.timestamp)]))
                .collect();
            m.insert(uid.clone(), Value::Array(r));
        }
    }
    Ok(Value::Object(m))
}

pub fn all_units(lib: &Value) -> Vec<String> {
    let mut r = vec![];
    for k in ["courses", "lessons", "exs"] {
        r.extend(lib[k].as_object().unwrap().keys().cloned());
    }
    r
}
pub fn unit_scores(rig: &Rig, lib: &Value) -> Value {
    let mut m = Map::new();
    let mut units = all_units(lib);
    units.push("no_such_unit".into());
    for u in units {
        let v = match rig.sched().get_unit_score(Ustr::from(&u)) {
            Ok(Some(x)) if x.is_finite() => micro(x),
            Ok(Some(_)) => -3,
            Ok(None) => -1,
            Err(_) => -2,
        };
        m.insert(u, json!(v));
    }
    Value::Object(m)
}

pub struct World {
    pub dir: tempfile::TempDir,
    pub root: PathBuf,
    pub rig: Rig,
    pub now: i64,
    pub lib: Value,
    pub opts: SchedulerOptions,
    pub pool: bool,
    pub parts: bool,
    pub rwobs: bool,
    pub ser: bool,
}

impl World {
    pub fn new(prog: &Value) -> Result<World> {
        let dir = tempfile::tempdir()?;
        let root = dir.path().join("lib");
        std::fs::create_dir_all(&root)?;
        let lib = prog["lib"].clone();
        write_library(&root, &lib)?;
        let trane_dir = config(&root);
        std::fs::create_dir_all(trane_dir.join("filters"))?;
        if let Some(saved) = prog.get("saved").and_then(Value::as_array) {
            for (k, f) in saved.iter().enumerate() {
                let sf = SavedFilter { id: s(f, "id")?.into(), description: "saved".into(), filter: unit_filter(&f["f"])? };
                std::fs::write(trane_dir.join("filters").join(format!("f{k}.json")), serde_json::to_string(&sf)?)?;
            }
        }
        let now = Utc::now().timestamp();
        let parts = prog["backend"] == "parts";
        let pool = parts && prog.get("pool").and_then(Value::as_bool).unwrap_or(true);
        let opts = options(prog.get("opts").unwrap_or(&Value::Null), SchedulerOptions::default());
        let ser = prog.get("serialized").and_then(Value::as_bool).unwrap_or(false);
        let rig = Self::open(&root, ser, parts, pool, &opts, now)?;
        let rwobs = prog.get("rwobs").and_then(Value::as_bool).unwrap_or(false);
        Ok(World { dir, root, rig, now, lib, opts, pool, parts, rwobs, ser })
    }
    fn open(root: &Path, ser: bool, parts: bool, pool: bool, opts: &SchedulerOptions, now: i64) -> Result<Rig> {
        if parts {
            Rig::open_parts(root, ser, opts.clone(), pool, Some(now))
        } else {
            let mut r = Rig::open_facade(root, ser, Some(now))?;
            if *opts != SchedulerOptions::default() {
                r.sched_mut().set_scheduler_options(opts.clone());
            }
            Ok(r)
        }
    }
    fn obs_into(&self, out: &mut Map<String, Value>) -> Result<()> {
        out.insert("obs".into(), observe(&self.rig, &self.lib, self.now, &self.opts)?);
        out.insert("rws".into(), observe_rewards(&self.rig, &self.lib, self.now, self.opts.num_rewards)?);
        Ok(())
    }
    fn trials_json(&self, id: Ustr) -> Result<(Value, Value)> {
        let t: Vec<Value> = self.rig.trials(id, 10_000)?.iter()
            .map(|t| json!([(t.score * 10.0).round() as i64, clamp32(self.now - t.timestamp)])).collect();
        let d: Vec<Value> = self.rig.deltas(id, 10_000)?.iter()
            .map(|t| json!([micro(t.delta), clamp32(self.now - t.timestamp)])).collect();
        Ok((Value::Array(t), Value::Array(d)))
    }

    /// The options that make the scheduler work as the program asks, showing whole pools if it should.
    fn effective(&self) -> SchedulerOptions {
        if self.parts && self.pool { pool_options(self.opts.clone()) } else { self.opts.clone() }
    }

    fn history(&self, x: &str) -> Result<Value> {
        let (t, d) = self.trials_json(Ustr::from(x))?;
        Ok(json!({"t": t, "d": d}))
    }

    /// Executes one event; the result is merged into the event.
    pub fn step(&mut self, ev: &Value) -> Result<Value> {
        let mut out = ev.as_object().unwrap().clone();
        let op = s(ev, "op")?.to_string();
        let mut ok = true;
        let mut err = String::new();
        macro_rules! res {
            ($e:expr) => {
                if let Err(e) = $e { ok = false; err = format!("{e:#}"); }
            };
        }
        match op.as_str() {
            "score" => {
                let id = Ustr::from(s(ev, "ex")?);
                if self.rwobs {
                    out.insert("rw0".into(), observe_rewards(&self.rig, &self.lib, self.now, 1000)?);
                    self.obs_into(&mut out)?;
                }
                let (t0, d0) = self.trials_json(id)?;
                out.insert("t0".into(), t0);
                out.insert("d0".into(), d0);
                let r = self.rig.sched().score_exercise(id, grade(i(ev, "grade")?), self.now - i(ev, "ago")?);
                res!(r);
                let (t1, d1) = self.trials_json(id)?;
                out.insert("t1".into(), t1);
                out.insert("d1".into(), d1);
                if self.rwobs {
                    out.insert("rw1".into(), observe_rewards(&self.rig, &self.lib, self.now, 1000)?);
                }
            }
            "batch" => {
                let f = exercise_filter(&ev["f"])?;
                self.obs_into(&mut out)?;
                if self.pool && let Rig::Parts(p) = &self.rig {
                    *p.data.trial_counts.write() = (8, 2);
                }
                let freq = |rig: &Rig| match rig {
                    Rig::Parts(p) => json!(p.data.frequency_map.read().iter().filter(|(_, n)| **n > 0).map(|(u, n)| (u.to_string(), json!(n))).collect::<Map<_, _>>()),
                    Rig::Facade(_) => json!({}),
                };
                let freq0 = freq(&self.rig);
                let batch = self.rig.sched().get_exercise_batch(f);
                if self.parts {
                    out.insert("freq0".into(), freq0);
                    out.insert("freq1".into(), freq(&self.rig));
                }
                match batch {
                    Ok(ms) => {
                        let same = ms.iter().all(|m| self.rig.manifest(m.id).is_some_and(|x| x == *m));
                        out.insert("ids".into(), json!(ms.iter().map(|m| m.id.as_str()).collect::<Vec<_>>()));
                        out.insert("same".into(), json!(same));
                    }
                    Err(e) => {
                        ok = false;
                        err = format!("{e:#}");
                        out.insert("ids".into(), json!([]));
                        out.insert("same".into(), json!(true));
                    }
                }
            }
            "batches" => {
                // The same batch many times: how often was each exercise in it?
                let mut counts: std::collections::BTreeMap<String, i64> = std::collections::BTreeMap::new();
                let mut seqs = vec![];
                for _ in 0..ev["n"].as_i64().unwrap() {
                    if ev["fresh"].as_bool() == Some(true) {
                        // Nothing counts as shown already in a new instance.
                        let (root, ser, parts, pool, opts, now) = (self.root.clone(), self.ser, self.parts, self.pool, self.opts.clone(), self.now);
                        self.rig = Self::open(&root, ser, parts, pool, &opts, now)?;
                    }
                    let ids: Vec<String> =
                        self.rig.sched().get_exercise_batch(exercise_filter(&ev["f"])?)?.iter().map(|m| m.id.to_string()).collect();
                    for id in &ids {
                        *counts.entry(id.clone()).or_default() += 1;
                    }
                    seqs.push(ids);
                }
                if ev["fresh"].as_bool() == Some(true) {
                    self.obs_into(&mut out)?;
                }
                if ev["order"].as_bool() == Some(true) {
                    self.obs_into(&mut out)?;
                    out.insert("seqs".into(), json!(seqs));
                }
                out.insert("counts".into(), json!(counts));
            }
            "scores" => {
                self.obs_into(&mut out)?;
                out.insert("sc".into(), unit_scores(&self.rig, &self.lib));
            }
            "read" => {
                // Reads one unit's score, to populate the caches.
                let _ = self.rig.sched().get_unit_score(Ustr::from(s(ev, "u")?));
            }
            "bl_add" | "bl_rm" | "bl_rmp" => res!(self.rig.blacklist_op(&op, s(ev, "u")?)),
            "rv_add" | "rv_rm" => res!(self.rig.review_op(&op, Ustr::from(s(ev, "u")?))),
            "st_trim" | "st_rmp" | "de_trim" | "de_rmp" | "rw_trim" | "rw_rmp" => res!(self.rig.store_op(&op, ev)),
            "rec" => {
                let id = Ustr::from(s(ev, "ex")?);
                let ts: Vec<ExerciseTrial> = ev["ts"].as_array().unwrap().iter().map(|t| ExerciseTrial {
                    exercise_id: id,
                    score: t[0].as_i64().unwrap() as f32 / 10.0,
                    timestamp: self.now - t[1].as_i64().unwrap(),
                }).collect();
                res!(self.rig.record_trials(&ts));
            }
            "rwrec" => {
                let r = UnitReward {
                    unit_id: Ustr::from(s(ev, "u")?),
                    value: i(ev, "v")? as f32 / 1000.0,
                    weight: i(ev, "w")? as f32 / 1000.0,
                    timestamp: self.now - i(ev, "ago")?,
                };
                res!(self.rig.record_rewards(&[r]));
            }
            // Several exercises or units in one call.
            "recs" => {
                let ts: Vec<ExerciseTrial> = ev["all"].as_array().unwrap().iter().map(|t| ExerciseTrial {
                    exercise_id: Ustr::from(t[0].as_str().unwrap()),
                    score: t[1].as_i64().unwrap() as f32 / 10.0,
                    timestamp: self.now - t[2].as_i64().unwrap(),
                }).collect();
                res!(self.rig.record_trials(&ts));
            }
            "derecs" => {
                let ds: Vec<ExerciseDelta> = ev["all"].as_array().unwrap().iter().map(|t| ExerciseDelta {
                    exercise_id: Ustr::from(t[0].as_str().unwrap()),
                    delta: t[1].as_i64().unwrap() as f32 / 10.0,
                    timestamp: self.now - t[2].as_i64().unwrap(),
                }).collect();
                res!(self.rig.record_deltas(&ds));
            }
            "rwrecs" => {
                let rs: Vec<UnitReward> = ev["all"].as_array().unwrap().iter().map(|t| UnitReward {
                    unit_id: Ustr::from(t[0].as_str().unwrap()),
                    value: t[1].as_i64().unwrap() as f32 / 1000.0,
                    weight: t[2].as_i64().unwrap() as f32 / 1000.0,
                    timestamp: self.now - t[3].as_i64().unwrap(),
                }).collect();
                res!(self.rig.record_rewards(&rs));
            }
            "inval" => self.rig.sched().invalidate_cached_score(Ustr::from(s(ev, "u")?)),
            "invalp" => self.rig.sched().invalidate_cached_scores_with_prefix(s(ev, "p")?),
            "setopts" => {
                self.opts = options(&ev["o"], self.opts.clone());
                let o = self.effective();
                out.insert("want".into(), options_json(&self.opts));
                self.rig.sched_mut().set_scheduler_options(o.clone());
                let got = self.rig.sched().get_scheduler_options();
                out.insert("opts".into(), if got == o { out["want"].clone() } else { options_json(&got) });
            }
            "resetopts" => {
                self.opts = SchedulerOptions::default();
                self.rig.sched_mut().reset_scheduler_options();
                out.insert("opts".into(), options_json(&self.rig.sched().get_scheduler_options()));
                out.insert("want".into(), options_json(&self.opts));
            }
            "reopen" => {
                let (root, ser, parts, pool, opts, now) = (self.root.clone(), self.ser, self.parts, self.pool, self.opts.clone(), self.now);
                self.rig = Self::open(&root, ser, parts, pool, &opts, now)?;
            }
            "par" => {
                let scored: Vec<&str> = ev["th"].as_array().unwrap().iter().flat_map(|t| t.as_array().unwrap())
                    .filter(|o| o["op"] == "score").map(|o| o["ex"].as_str().unwrap()).collect();
                let hist = |w: &World| -> Result<Value> {
                    Ok(Value::Object(scored.iter().map(|x| Ok((x.to_string(), w.history(x)?))).collect::<Result<_>>()?))
                };
                let (h0, c0) = (hist(self)?, self.rig.counts());
                let r = par::run(&mut self.rig, self.now, &self.opts, ev);
                out.insert("hang".into(), json!(r.is_none()));
                if let Some((th, gates)) = r {
                    for o in th.iter().flatten().filter(|o| o["op"] == "setopts") {
                        self.opts = options(&o["o"], self.opts.clone());
                    }
                    out.insert("th".into(), json!(th));
                    out.insert("gates".into(), json!(gates));
                    out.insert("h0".into(), h0);
                    out.insert("h1".into(), hist(self)?);
                    out.insert("rate".into(), json!([c0, self.rig.counts()]));
                    out.insert("bl".into(), json!(self.rig.blacklist_entries()?.iter().map(|u| u.as_str()).collect::<Vec<_>>()));
                    out.insert("rv".into(), json!(self.rig.review_entries()?.iter().map(|u| u.as_str()).collect::<Vec<_>>()));
                    out.insert("opts".into(), options_json(&self.rig.sched().get_scheduler_options()));
                    out.insert("want".into(), options_json(&self.opts));
                }
            }
            _ => bail!("unknown op {op}"),
        }
        out.insert("ok".into(), json!(ok));
        out.insert("err".into(), json!(err));
        out.insert("panic".into(), json!(""));
        Ok(Value::Object(out))
    }
}

/// Blacklists the fields TLC needs even if the program omitted them.
pub fn run(prog: &Value) -> Result<Value> {
    let mut w = match World::new(prog) {
        Ok(w) => w,
        Err(e) => {
            return Ok(json!({"id": prog["id"], "backend": prog["backend"], "lib": prog["lib"],
                "opts": options_json(&SchedulerOptions::default()), "saved": [], "opened": false,
                "err": format!("{e:#}"), "ev": []}));
        }
    };
    let mut evs = vec![];
    let opts0 = options_json(&w.opts);
    for ev in prog["ev"].as_array().context("ev")? {
        match catch_unwind(AssertUnwindSafe(|| w.step(ev))) {
            Ok(r) => {
                let r = r?;
                let hang = r["hang"] == true;
                evs.push(r);
                if hang {
                    // The threads still use it.
                    std::mem::forget(w);
                    break;
                }
            }
            Err(p) => {
                let mut out = ev.as_object().unwrap().clone();
                out.insert("ok".into(), json!(false));
                out.insert("err".into(), json!(""));
                out.insert("panic".into(), json!(crate::panic_text(&p)));
                evs.push(Value::Object(out));
                break;
            }
        }
    }
    Ok(json!({"id": prog["id"], "backend": prog["backend"], "lib": prog["lib"], "opts": opts0,
        "saved": prog.get("saved").cloned().unwrap_or_else(|| json!([])), "opened": true, "err": "", "ev": evs}))
}
