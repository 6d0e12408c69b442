//! Validation of options, and preferences files.
use crate::world::{i, options_json, s};
use anyhow::{Result, anyhow};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use trane::Trane;
use trane::data::{MasteryWindow, SchedulerOptions, UserPreferences};
use trane::preferences_manager::PreferencesManager;
use trane::scheduler::ExerciseScheduler;

fn full(o: &Value) -> Result<SchedulerOptions> {
    let mut r = SchedulerOptions::default();
    let f = |k: &str| -> Result<f32> { Ok(i(o, k)? as f32 / 1000.0) };
    r.batch_size = i(o, "batch")? as usize;
    r.relearn_fraction = f("relearn")?;
    r.passing_score.min_score = f("min_score")?;
    r.passing_score.min_avg_trials = f("min_trials")?;
    r.passing_score.min_fraction = f("min_frac")?;
    r.max_lessons_in_progress = i(o, "max_prog")? as usize;
    let w = |k: usize| -> Result<MasteryWindow> {
        let g = |j: usize| o["win"][k][j].as_i64().map(|x| x as f32 / 1000.0).ok_or_else(|| anyhow!("window"));
        Ok(MasteryWindow { percentage: g(0)?, range: (g(1)?, g(2)?) })
    };
    r.new_window_opts = w(0)?;
    r.target_window_opts = w(1)?;
    r.current_window_opts = w(2)?;
    r.easy_window_opts = w(3)?;
    r.mastered_window_opts = w(4)?;
    Ok(r)
}

pub fn run(prog: &Value) -> Result<Value> {
    let mut out = vec![];
    if s(prog, "kind")? == "verify" {
        for o in prog["ev"].as_array().unwrap() {
            out.push(json!({"op": "verify", "o": o, "valid": full(o)?.verify().is_ok()}));
        }
        return Ok(json!({"id": prog["id"], "ev": out}));
    }
    let dir = tempfile::tempdir()?;
    let root = dir.path();
    let file = root.join(".trane/user_preferences.json");
    let mut t: Option<Trane> = None;
    let values: Vec<Value> = prog["values"].as_array().unwrap().clone();
    for ev in prog["ev"].as_array().unwrap() {
        let mut e = ev.as_object().unwrap().clone();
        match s(ev, "op")? {
            // Puts the text of a file in place.
            "file" => {
                drop(t.take());
                std::fs::create_dir_all(root.join(".trane"))?;
                std::fs::write(&file, s(ev, "text")?)?;
            }
            "nofile" => {
                drop(t.take());
                let _ = std::fs::remove_file(&file);
            }
            "open" => {
                drop(t.take());
                match catch_unwind(AssertUnwindSafe(|| Trane::new_local(root, root))) {
                    Ok(x) => t = x.ok(),
                    Err(_) => drop(e.insert("panic".into(), json!(true))),
                }
            }
            "set" => {
                let p: UserPreferences = serde_json::from_value(values[i(ev, "v")? as usize - 1].clone())?;
                let ok = match t.as_mut() {
                    Some(t) => t.set_user_preferences(p).is_ok(),
                    None => false,
                };
                e.insert("ok".into(), json!(ok));
            }
            "reset" => {
                if let Some(t) = t.as_mut() {
                    t.reset_scheduler_options();
                }
            }
            "setopts" => {
                if let Some(t) = t.as_mut() {
                    t.set_scheduler_options(full(&ev["o"])?);
                }
            }
            x => return Err(anyhow!("unknown operation {x}")),
        }
        e.insert("opened".into(), json!(t.is_some()));
        if let Some(t) = &t {
            let o = t.get_scheduler_options();
            e.insert("opts".into(), options_json(&o));
            e.insert("default".into(), json!(o == SchedulerOptions::default()));
            e.insert("same".into(), json!(ev["o"].is_object() && o == full(&ev["o"])?));
            let got = t.get_user_preferences().ok();
            let same = |v: &Value| serde_json::from_value::<UserPreferences>(v.clone()).ok() == got;
            let is: Vec<usize> = (1..=values.len()).filter(|k| got.is_some() && same(&values[k - 1])).collect();
            e.insert("is".into(), json!(is));
        }
        out.push(Value::Object(e));
    }
    Ok(json!({"id": prog["id"], "values": prog["values"], "batch": prog["batch"], "ev": out}))
}
