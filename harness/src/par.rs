//! Calls made by several threads sharing one instance.
use crate::gates::{self, Flag, Plan};
use crate::panic_text;
use crate::world::{Rig, exercise_filter, grade, i, micro, options, s};
use anyhow::{Result, bail};
use serde_json::{Map, Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::mpsc::{RecvTimeoutError, channel};
use std::sync::{Arc, RwLock};
use std::time::Duration;
use trane::course_library::CourseLibrary;
use trane::data::SchedulerOptions;
use trane::filter_manager::FilterManager;
use trane::graph::UnitGraph;
use trane::study_session_manager::StudySessionManager;
use ustr::Ustr;

/// Calls that take the instance exclusively (`&mut`) exclude all others, as the language demands.
/// The parts of a scheduler are shared behind their own locks instead.
fn call(rig: *mut Rig, turn: &RwLock<()>, now: i64, opts: &SchedulerOptions, op: &Value) -> Result<Value> {
    let name = s(op, "op")?;
    let shared = unsafe { &*rig };
    let parts = matches!(shared, Rig::Parts(_));
    let edit = matches!(name, "bl_add" | "bl_rm" | "bl_rmp" | "rv_add" | "rv_rm");
    if (edit && !parts) || name == "setopts" {
        let _guard = turn.write().unwrap_or_else(|e| e.into_inner());
        let own = unsafe { &mut *rig };
        match name {
            "rv_add" | "rv_rm" => own.review_op(name, Ustr::from(s(op, "u")?))?,
            "setopts" => own.sched_mut().set_scheduler_options(opts.clone()),
            _ => own.blacklist_op(name, s(op, "u")?)?,
        }
        return Ok(json!({}));
    }
    let _guard = turn.read().unwrap_or_else(|e| e.into_inner());
    Ok(match name {
        "score" => {
            shared.sched().score_exercise(Ustr::from(s(op, "ex")?), grade(i(op, "grade")?), now - i(op, "ago")?)?;
            json!({})
        }
        "batch" => {
            let b = shared.sched().get_exercise_batch(exercise_filter(&op["f"])?)?;
            let same = b.iter().all(|m| shared.manifest(m.id).is_some_and(|x| x == *m));
            json!({"ids": b.iter().map(|m| m.id.as_str()).collect::<Vec<_>>(), "same": same})
        }
        "read" => {
            let v = shared.sched().get_unit_score(Ustr::from(s(op, "u")?))?;
            json!({"v": v.map_or(-1, |x| if x.is_finite() { micro(x) } else { -3 })})
        }
        "trials" => json!({"n": shared.trials(Ustr::from(s(op, "u")?), 100)?.len()}),
        "query" => {
            let u = Ustr::from(s(op, "u")?);
            let n = match shared {
                Rig::Facade(t) => look(&**t, &**t, u) + t.list_filters().len() + t.list_study_sessions().len(),
                Rig::Parts(p) => look(&*p.library.read(), &*p.library.read_recursive(), u),
            };
            shared.rewards(u, 10)?;
            shared.deltas(u, 10)?;
            shared.review_entries()?;
            shared.blacklist_entries()?;
            json!({"n": n})
        }
        "inval" => {
            shared.sched().invalidate_cached_score(Ustr::from(s(op, "u")?));
            json!({})
        }
        "invalp" => {
            shared.sched().invalidate_cached_scores_with_prefix(s(op, "p")?);
            json!({})
        }
        "bl_add" | "bl_rm" | "bl_rmp" => {
            shared.blacklist_shared(name, s(op, "u")?)?;
            json!({})
        }
        "rv_add" | "rv_rm" => {
            shared.review_shared(name, Ustr::from(s(op, "u")?))?;
            json!({})
        }
        _ => bail!("unknown concurrent op {name}"),
    })
}

/// Looks a unit up everywhere.
fn look(l: &dyn CourseLibrary, g: &dyn UnitGraph, u: Ustr) -> usize {
    l.get_matching_prefix(&u, None).len() + l.get_all_exercise_ids(Some(u)).len() + usize::from(l.get_lesson_manifest(u).is_some())
        + g.generate_dot_graph(false).len() + g.get_dependents(u).map_or(0, |x| x.len()) + g.get_dependency_sinks().len()
}

/// The answers of each thread, or None if some call never returned.
pub fn run(rig: &mut Rig, now: i64, base: &SchedulerOptions, ev: &Value) -> Option<(Vec<Vec<Value>>, u32)> {
    let rig = std::ptr::from_mut(rig) as usize;
    let turn = Arc::new(RwLock::new(()));
    let threads = ev["th"].as_array().unwrap();
    let pause = ev["mode"] == "pause";
    let max = Duration::from_millis(ev["max"].as_u64().unwrap_or(15));
    let (reached, resume) = (Arc::new(Flag::default()), Arc::new(Flag::default()));
    let (tx, rx) = channel();
    for (n, ops) in threads.iter().enumerate() {
        let (ops, tx, turn, base) = (ops.as_array().unwrap().clone(), tx.clone(), turn.clone(), base.clone());
        let (reached, resume) = (reached.clone(), resume.clone());
        let plan = match (pause, n) {
            (true, 0) => Plan::Pause { at: ev["k"].as_u64().unwrap_or(1) as u32, reached: reached.clone(), resume: resume.clone(), max },
            (true, _) => Plan::None,
            _ => Plan::Random(ev["seed"].as_u64().unwrap_or(1) * 1000 + n as u64),
        };
        let body = move || {
            if pause && n > 0 {
                reached.wait(Duration::from_secs(5));
            }
            gates::plan(plan);
            let mut out = vec![];
            for op in &ops {
                let o = options(op.get("o").unwrap_or(&Value::Null), base.clone());
                let mut r = op.as_object().unwrap().clone();
                let (mut ok, mut err, mut panic) = (true, String::new(), String::new());
                match catch_unwind(AssertUnwindSafe(|| call(rig as *mut Rig, &turn, now, &o, op))) {
                    Ok(Ok(Value::Object(m))) => r.extend(m),
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) => (ok, err) = (false, format!("{e:#}")),
                    Err(p) => (ok, panic) = (false, panic_text(&p)),
                }
                r.extend(Map::from_iter([("ok".into(), json!(ok)), ("err".into(), json!(err)), ("panic".into(), json!(panic))]));
                out.push(Value::Object(r));
            }
            let gates = gates::count();
            gates::plan(Plan::None);
            if n == 0 { reached.raise() } else { resume.raise() }
            let _ = tx.send((n, out, gates));
        };
        std::thread::Builder::new().stack_size(16 << 20).spawn(body).expect("cannot start a thread");
    }
    drop(tx);
    let mut out = vec![vec![]; threads.len()];
    let mut passed = 0;
    for _ in threads {
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok((n, r, g)) => {
                out[n] = r;
                if n == 0 {
                    passed = g;
                }
            }
            Err(RecvTimeoutError::Timeout | RecvTimeoutError::Disconnected) => return None,
        }
    }
    Some((out, passed))
}
