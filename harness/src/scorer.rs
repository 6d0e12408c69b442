//! Families of evaluations of the exercise scorer.
use crate::world::s;
use anyhow::Result;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use trane::data::{ExerciseDelta, ExerciseTrial, ExerciseType};
use trane::exercise_scorer::{ExerciseScorer, PowerLawScorer};
use ustr::Ustr;

fn micro(x: f32) -> i64 {
    if x.is_finite() { (f64::from(x) * 1e6).round().clamp(-2e9, 2e9) as i64 } else { 2_111_111_111 }
}

/// One evaluation: times are relative to a base, which may be given as text when it is large.
fn one(c: &Value) -> Result<Value> {
    let base: i64 = c["base"].as_str().map_or(Ok(0), str::parse)?;
    let id = Ustr::from("e");
    let at = |x: &Value| -> i64 {
        x.as_str().map_or_else(|| base.saturating_add(x.as_i64().unwrap()), |t| t.parse().unwrap())
    };
    let arr = |k: &str| c[k].as_array().cloned().unwrap_or_default();
    let trials: Vec<_> = arr("trials").iter()
        .map(|x| ExerciseTrial { exercise_id: id, score: x[0].as_i64().unwrap() as f32, timestamp: at(&x[1]) }).collect();
    let deltas: Vec<_> = arr("deltas").iter()
        .map(|x| ExerciseDelta { exercise_id: id, delta: x[0].as_i64().unwrap() as f32 / 1000.0, timestamp: at(&x[1]) }).collect();
    let ty = if s(c, "type")? == "d" { ExerciseType::Declarative } else { ExerciseType::Procedural };
    let r = catch_unwind(AssertUnwindSafe(|| PowerLawScorer {}.score(ty, &trials, &deltas, at(&c["now"]))));
    Ok(match r {
        Ok(Ok(x)) => json!({"err": false, "v": micro(x.value), "u": micro(x.urgency), "t": x.velocity.map_or(json!([]), |v| json!([micro(v)]))}),
        Ok(Err(_)) => json!({"err": true, "v": 0, "u": 0, "t": []}),
        Err(_) => json!({"panic": true, "err": true, "v": 0, "u": 0, "t": []}),
    })
}

pub fn run(prog: &Value) -> Result<Value> {
    let mut out = vec![];
    for e in prog["ev"].as_array().unwrap() {
        let mut o = serde_json::Map::new();
        o.insert("law".into(), json!(s(e, "law")?));
        if e["info"].is_object() {
            o.insert("info".into(), e["info"].clone());
        }
        let got: Vec<Value> = e["cases"].as_array().unwrap().iter().map(one).collect::<Result<_>>()?;
        o.insert("got".into(), json!(got));
        out.push(Value::Object(o));
    }
    Ok(json!({"id": prog["id"], "ev": out}))
}
