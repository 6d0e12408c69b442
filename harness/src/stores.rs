//! Sequences of operations on the practice stores and lists, with the complete contents of all of
//! them after each operation.
use crate::inject;
use crate::world::{clamp32, i, micro, s, write_library};
use anyhow::{Result, anyhow, bail};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;
use trane::Trane;
use trane::blacklist::{Blacklist, LocalBlacklist};
use trane::data::filter::{ExerciseFilter, UnitFilter};
use trane::data::{ExerciseDelta, ExerciseTrial, MasteryScore, UnitReward, UserPreferences};
use trane::practice_deltas::{LocalPracticeDeltas, PracticeDeltas};
use trane::practice_rewards::{LocalPracticeRewards, PracticeRewards};
use trane::practice_stats::{LocalPracticeStats, PracticeStats};
use trane::preferences_manager::{LocalPreferencesManager, PreferencesManager};
use trane::review_list::{LocalReviewList, ReviewList};
use trane::scheduler::ExerciseScheduler;
use ustr::Ustr;

pub struct Locals {
    stats: LocalPracticeStats,
    deltas: LocalPracticeDeltas,
    rewards: LocalPracticeRewards,
    bl: LocalBlacklist,
    rv: LocalReviewList,
    prefs: LocalPreferencesManager,
}
pub enum Stores {
    Facade(Box<Trane>),
    Local(Box<Locals>),
}
use Stores::*;

/// Weights and rewards are written in thousandths.
fn f(v: &Value) -> f32 {
    v.as_i64().unwrap() as f32 / 1000.0
}
fn milli(x: f32) -> i64 {
    let m = (f64::from(x) * 1000.0).round();
    if (m / 1000.0) as f32 == x { m as i64 } else { 1_999_999_999 }
}

impl Stores {
    pub fn open(root: &Path, facade: bool) -> Result<Stores> {
        if facade {
            let mut t = Trane::new_local(root, root)?;
            t.override_current_timestamp(Some(NOW));
            return Ok(Facade(Box::new(t)));
        }
        let d = root.join(".trane");
        std::fs::create_dir_all(&d)?;
        let p = |n: &str| d.join(n).to_str().unwrap().to_string();
        let mut prefs = LocalPreferencesManager { path: d.join("user_preferences.json") };
        if !prefs.path.exists() {
            prefs.set_user_preferences(UserPreferences::default())?;
        }
        Ok(Local(Box::new(Locals {
            stats: LocalPracticeStats::new_from_disk(&p("practice_stats.db"))?,
            deltas: LocalPracticeDeltas::new_from_disk(&p("practice_deltas.db"))?,
            rewards: LocalPracticeRewards::new_from_disk(&p("practice_rewards.db"))?,
            bl: LocalBlacklist::new_from_disk(&p("blacklist.db"))?,
            rv: LocalReviewList::new_from_disk(&p("review_list.db"))?,
            prefs,
        })))
    }
    fn stats(&mut self) -> &mut dyn PracticeStats {
        match self {
            Facade(t) => &mut **t,
            Local(l) => &mut l.stats,
        }
    }
    fn deltas(&mut self) -> &mut dyn PracticeDeltas {
        match self {
            Facade(t) => &mut **t,
            Local(l) => &mut l.deltas,
        }
    }
    fn rewards(&mut self) -> &mut dyn PracticeRewards {
        match self {
            Facade(t) => &mut **t,
            Local(l) => &mut l.rewards,
        }
    }
    fn bl(&mut self) -> &mut dyn Blacklist {
        match self {
            Facade(t) => &mut **t,
            Local(l) => &mut l.bl,
        }
    }
    fn rv(&mut self) -> &mut dyn ReviewList {
        match self {
            Facade(t) => &mut **t,
            Local(l) => &mut l.rv,
        }
    }

    fn prefs(&mut self) -> &mut dyn PreferencesManager {
        match self {
            Facade(t) => &mut **t,
            Local(l) => &mut l.prefs,
        }
    }

    fn trials(&mut self, u: Ustr, n: u32) -> Result<Value> {
        Ok(self.stats().get_scores(u, n)?.iter().map(|t| json!([milli(t.score), clamp32(t.timestamp), t.exercise_id == u])).collect())
    }
    fn delta_list(&mut self, u: Ustr, n: u32) -> Result<Value> {
        Ok(self.deltas().get_deltas(u, n)?.iter().map(|t| json!([micro(t.delta), clamp32(t.timestamp), t.exercise_id == u])).collect())
    }
    fn reward_list(&mut self, u: Ustr, n: u32) -> Result<Value> {
        Ok(self.rewards().get_rewards(u, n)?.iter()
            .map(|r| json!([milli(r.value), milli(r.weight), clamp32(r.timestamp), r.unit_id == u])).collect())
    }

    /// Everything stored about the given units. Lists of entries become indices of units.
    pub fn dump(&mut self, units: &[Ustr], prefs: &[UserPreferences]) -> Result<Value> {
        let index = |l: Vec<Ustr>| -> Value {
            l.iter().map(|x| json!(units.iter().position(|u| u == x).map_or(0, |p| p + 1))).collect()
        };
        let (mut st, mut de, mut rw, mut mem) = (vec![], vec![], vec![], vec![]);
        for u in units {
            st.push(self.trials(*u, 5000)?);
            de.push(self.delta_list(*u, 5000)?);
            rw.push(self.reward_list(*u, 5000)?);
            mem.push(json!(self.bl().blacklisted(*u)?));
        }
        let pf = self.prefs().get_user_preferences().map_or(-1, |p| prefs.iter().position(|x| *x == p).map_or(-1, |i| i as i64));
        Ok(json!({"prefs": pf, "stats": st, "deltas": de, "rewards": rw, "bl": index(self.bl().get_blacklist_entries()?),
            "rv": index(self.rv().get_review_list_entries()?), "mem": mem}))
    }

    /// The scores the instance reports.
    pub fn scores(&mut self, units: &[Ustr]) -> Value {
        match self {
            Facade(t) => units.iter().map(|u| json!(t.get_unit_score(*u).map_or(-2, |x| x.map_or(-1, micro)))).collect(),
            Local(_) => json!([]),
        }
    }

    /// The failed exercises waiting to be tried again, as a batch of nothing else shows them.
    pub fn pile(&mut self, units: &[Ustr]) -> Value {
        let Facade(t) = self else { return json!([]) };
        let nothing = ExerciseFilter::UnitFilter(UnitFilter::LessonFilter { lesson_ids: vec![] });
        match t.get_exercise_batch(Some(nothing)) {
            Ok(b) => b.iter().map(|m| json!(units.iter().position(|u| *u == m.id).map_or(-1, |i| i as i64 + 1))).collect(),
            Err(_) => json!([-2]),
        }
    }

    /// Performs an operation; the extra information is part of the trace.
    pub fn perform(&mut self, op: &Value, units: &[Ustr], prefs: &[UserPreferences]) -> Result<Value> {
        let unit = |k: &str| -> Result<Ustr> {
            units.get(i(op, k)? as usize - 1).copied().ok_or_else(|| anyhow!("no unit"))
        };
        let store = op["store"].as_str().unwrap_or("");
        let n = op["n"].as_i64().unwrap_or(0) as u32;
        let prefix = op["p"].as_str().unwrap_or("");
        let list = op["list"].as_array().cloned().unwrap_or_default();
        let at = |x: &Value| units[x.as_i64().unwrap() as usize - 1];
        let t = |x: &Value| x.as_i64().unwrap();
        Ok(match (s(op, "op")?, store) {
            ("rec", "stats") => {
                let v: Vec<_> = list.iter().map(|x| ExerciseTrial { exercise_id: at(&x[0]), score: f(&x[1]), timestamp: t(&x[2]) }).collect();
                self.stats().record_exercise_scores(&v)?;
                json!({})
            }
            ("rec", "deltas") => {
                let v: Vec<_> = list.iter().map(|x| ExerciseDelta { exercise_id: at(&x[0]), delta: f(&x[1]), timestamp: t(&x[2]) }).collect();
                self.deltas().record_exercise_deltas(&v)?;
                json!({})
            }
            ("rec", "rewards") => {
                let v: Vec<_> = list.iter()
                    .map(|x| UnitReward { unit_id: at(&x[0]), value: f(&x[1]), weight: f(&x[2]), timestamp: t(&x[3]) }).collect();
                let upd = self.rewards().record_unit_rewards(&v)?;
                let upd: Vec<_> = upd.iter().map(|u| units.iter().position(|x| x == u).map_or(0, |p| p + 1)).collect();
                json!({"upd": upd})
            }
            ("read", "stats") => json!({"got": self.trials(unit("u")?, n)?}),
            ("read", "deltas") => json!({"got": self.delta_list(unit("u")?, n)?}),
            ("read", "rewards") => json!({"got": self.reward_list(unit("u")?, n)?}),
            ("trim", "stats") => { self.stats().trim_scores(n)?; json!({}) }
            ("trim", "deltas") => { self.deltas().trim_deltas(n)?; json!({}) }
            ("trim", "rewards") => { self.rewards().trim_rewards(n)?; json!({}) }
            ("rmp", "stats") => { self.stats().remove_scores_with_prefix(prefix)?; json!({}) }
            ("rmp", "deltas") => { self.deltas().remove_deltas_with_prefix(prefix)?; json!({}) }
            ("rmp", "rewards") => { self.rewards().remove_rewards_with_prefix(prefix)?; json!({}) }
            ("rmp", "bl") => { self.bl().remove_prefix_from_blacklist(prefix)?; json!({}) }
            ("add", "bl") => { self.bl().add_to_blacklist(unit("u")?)?; json!({}) }
            ("rm", "bl") => { self.bl().remove_from_blacklist(unit("u")?)?; json!({}) }
            ("add", "rv") => { self.rv().add_to_review_list(unit("u")?)?; json!({}) }
            ("rm", "rv") => { self.rv().remove_from_review_list(unit("u")?)?; json!({}) }
            ("set", _) => { self.prefs().set_user_preferences(prefs[i(op, "v")? as usize].clone())?; json!({}) }
            ("score", _) => {
                let Facade(tr) = self else { bail!("score needs the facade") };
                let u = unit("u")?;
                let prev = tr.get_unit_score(u).ok().flatten().map_or(-1, micro);
                let grade = match i(op, "g")? {
                    1 => MasteryScore::One,
                    2 => MasteryScore::Two,
                    3 => MasteryScore::Three,
                    4 => MasteryScore::Four,
                    _ => MasteryScore::Five,
                };
                let ok = tr.score_exercise(u, grade, i(op, "t")?).is_ok();
                json!({"prev": prev, "accepted": ok})
            }
            ("batch", _) => {
                let Facade(tr) = self else { bail!("batch needs the facade") };
                json!({"size": tr.get_exercise_batch(None)?.len()})
            }
            ("scores", _) => {
                let Facade(tr) = self else { bail!("scores need the facade") };
                for u in units {
                    let _ = tr.get_unit_score(*u);
                }
                tr.invalidate_cached_score(units[0]);
                tr.reset_scheduler_options();
                json!({})
            }
            (o, st) => bail!("unknown operation {o} on {st}"),
        })
    }
}

const NOW: i64 = 1_700_200_000;

struct Run<'a> {
    prog: &'a Value,
    units: Vec<Ustr>,
    prefs: Vec<UserPreferences>,
    facade: bool,
    out: Vec<Value>,
}

impl Run<'_> {
    /// Performs the operation and notes what happened.
    fn step(&self, st: &mut Stores, op: &Value) -> serde_json::Map<String, Value> {
        let mut e = op.as_object().unwrap().clone();
        let r = catch_unwind(AssertUnwindSafe(|| st.perform(op, &self.units, &self.prefs)));
        e.insert("ok".into(), json!(matches!(r, Ok(Ok(_)))));
        match r {
            Ok(Ok(v)) => e.extend(v.as_object().unwrap().clone()),
            Ok(Err(x)) => drop(e.insert("error".into(), json!(format!("{x:#}")))),
            Err(_) => drop(e.insert("error".into(), json!("panic"))),
        }
        e
    }
    fn dump(&self, st: &mut Stores) -> Result<Value> {
        st.dump(&self.units, &self.prefs)
    }

    /// The operation with its n-th write failing, for every n, each time on a copy of the directory.
    fn faults(&mut self, root: &Path, op: &Value) -> Result<()> {
        let mut norm = {
            let dir = tempfile::tempdir()?;
            inject::copy_dir(root, dir.path())?;
            let mut st = Stores::open(dir.path(), self.facade)?;
            let e = self.step(&mut st, op);
            json!({"accepted": e.get("accepted"), "dump": self.dump(&mut st)?})
        };
        if norm["accepted"].is_null() {
            norm["accepted"] = json!(true);
        }
        let errno = if self.out.len() % 2 == 0 { libc::ENOSPC } else { libc::EIO };
        for mode in ["once", "sticky", "short"] {
            for n in 1..400 {
                let dir = tempfile::tempdir()?;
                inject::copy_dir(root, dir.path())?;
                let mut st = Stores::open(dir.path(), self.facade)?;
                st.scores(&self.units);
                self.out.push(json!({"op": "reset", "after": self.dump(&mut st)?}));
                inject::arm(mode, n, errno);
                let mut e = self.step(&mut st, op);
                let fired = inject::disarm();
                e.insert("fired".into(), json!(fired));
                e.insert("norm".into(), norm.clone());
                e.insert("mode".into(), json!(format!("{mode} {n}")));
                e.insert("scores".into(), st.scores(&self.units));
                e.insert("after".into(), self.dump(&mut st)?);
                e.insert("pile".into(), st.pile(&self.units));
                let other = tempfile::tempdir()?;
                inject::copy_dir(dir.path(), other.path())?;
                let mut fresh = Stores::open(other.path(), self.facade)?;
                e.insert("fresh".into(), json!({"scores": fresh.scores(&self.units), "dump": self.dump(&mut fresh)?}));
                drop(fresh);
                let failed = e["ok"] == json!(false) || e.get("accepted") == Some(&json!(false));
                self.out.push(Value::Object(e));
                if !fired {
                    break;
                }
                if failed {
                    let mut e = self.step(&mut st, op);
                    e.insert("after".into(), self.dump(&mut st)?);
                    self.out.push(Value::Object(e));
                }
            }
        }
        let dir = tempfile::tempdir()?;
        inject::copy_dir(root, dir.path())?;
        let mut st = Stores::open(dir.path(), self.facade)?;
        let after = self.dump(&mut st)?;
        self.out.push(json!({"op": "reset", "after": after}));
        Ok(())
    }

    /// What reopening finds in the copies made at the writes of an operation.
    fn snapshots(&self, root: &Path, mut list: Vec<std::path::PathBuf>, op: &Value) -> Result<Value> {
        let last = root.with_file_name("copies").join("last");
        inject::copy_dir(root, &last)?;
        let limit = self.prog["limit"].as_u64().unwrap_or(40) as usize;
        let stride = list.len().div_ceil(limit).max(1);
        let offset = self.prog["offset"].as_u64().unwrap_or(0) as usize % stride;
        list = list.into_iter().skip(offset).step_by(stride).collect();
        list.push(last);
        let mut found: Vec<Value> = vec![];
        let n = list.len();
        for (k, p) in list.iter().enumerate() {
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<Value> {
                let mut st = Stores::open(p, self.facade)?;
                let d = self.dump(&mut st)?;
                let redo = s(op, "op")? == "reopen" || self.step(&mut st, op)["ok"] == json!(true);
                Ok(json!({"dump": d, "redo": redo}))
            }));
            let mut v = match r {
                Ok(Ok(v)) => v,
                Ok(Err(x)) => json!({"error": format!("{x:#}")}),
                Err(_) => json!({"error": "panic"}),
            };
            v["acked"] = json!(k + 1 == n);
            if found.last() != Some(&v) {
                found.push(v);
            }
        }
        Ok(json!({"list": found, "count": n}))
    }
}

pub fn run(prog: &Value) -> Result<Value> {
    let dir = tempfile::tempdir()?;
    let (root, copies) = (&dir.path().join("lib"), &dir.path().join("copies"));
    std::fs::create_dir_all(root)?;
    write_library(root, &prog["lib"])?;
    let mut prefs = vec![UserPreferences::default()];
    for p in prog["prefs"].as_array().unwrap_or(&vec![]) {
        prefs.push(serde_json::from_value(p.clone())?);
    }
    let mut r = Run { prog, units: crate::world::ids(&prog["units"]), prefs, facade: s(prog, "backend")? == "facade", out: vec![] };
    let mut st = None;
    let mut before = json!(null);
    if prog["inject"] == "crash" {
        let mut e = json!({"op": "reopen", "ok": true});
        inject::watch(root, copies);
        let opened = Stores::open(root, r.facade);
        let snaps = inject::unwatch();
        st = Some(opened?);
        before = r.dump(st.as_mut().unwrap())?;
        e["snaps"] = r.snapshots(root, snaps, &e)?;
        e["after"] = before.clone();
        r.out.push(e);
        std::fs::remove_dir_all(copies)?;
    } else {
        st.replace(Stores::open(root, r.facade)?);
    }
    if before.is_null() {
        before = r.dump(st.as_mut().unwrap())?;
    }
    for op in prog["ev"].as_array().unwrap() {
        let inject = op["inject"].as_str().unwrap_or("");
        let mut e;
        if inject == "faults" {
            r.faults(root, op)?;
        }
        if inject == "crash" {
            inject::watch(root, copies);
        }
        if s(op, "op")? == "reopen" {
            e = op.as_object().unwrap().clone();
            drop(st.take());
            let o = Stores::open(root, r.facade);
            e.insert("ok".into(), json!(o.is_ok()));
            let snaps = inject::unwatch();
            st = Some(o?);
            if inject == "crash" {
                e.insert("snaps".into(), r.snapshots(root, snaps, op)?);
            }
        } else {
            e = r.step(st.as_mut().unwrap(), op);
            if inject == "crash" {
                let snaps = inject::unwatch();
                e.insert("snaps".into(), r.snapshots(root, snaps, op)?);
            }
        }
        if copies.exists() {
            std::fs::remove_dir_all(copies)?;
        }
        e.insert("after".into(), r.dump(st.as_mut().unwrap())?);
        r.out.push(Value::Object(e));
    }
    Ok(json!({"id": prog["id"], "units": prog["units"], "exs": prog["exs"], "before": before, "ev": r.out}))
}
