//! Declarations to an in-memory unit graph, and the answers to all queries.
use crate::world::{i, ids, s};
use anyhow::{Result, bail};
use serde_json::{Map, Value, json};
use trane::data::UnitType;
use trane::graph::{InMemoryUnitGraph, UnitGraph};
use ustr::Ustr;

/// Weights are given in thousandths; -1000000 stands for one that is not a number.
fn weight(w: i64) -> f32 {
    if w == -1_000_000 { f32::NAN } else { w as f32 / 1000.0 }
}
fn pairs(v: &Value) -> Vec<(Ustr, f32)> {
    v.as_array()
        .map(|a| a.iter().map(|p| (Ustr::from(p[0].as_str().unwrap()), weight(p[1].as_i64().unwrap()))).collect())
        .unwrap_or_default()
}
fn set(x: Option<std::sync::Arc<ustr::UstrSet>>) -> Value {
    x.map_or(json!([]), |x| json!(x.iter().map(Ustr::as_str).collect::<Vec<_>>()))
}
fn one(x: Option<Ustr>) -> Value {
    x.map_or(json!([]), |x| json!([x.as_str()]))
}
fn weighted(x: Option<Vec<(Ustr, f32)>>) -> Value {
    x.map_or(json!([]), |x| json!(x.iter().map(|(u, w)| json!([u.as_str(), (w * 1000.0).round() as i64])).collect::<Vec<_>>()))
}
fn ty(x: Option<UnitType>) -> &'static str {
    match x {
        None => "none",
        Some(UnitType::Course) => "course",
        Some(UnitType::Lesson) => "lesson",
        Some(UnitType::Exercise) => "exercise",
    }
}
fn dot(text: &str) -> Value {
    let mut nodes = vec![];
    let mut edges = vec![];
    for l in text.lines() {
        let q: Vec<&str> = l.split('"').collect();
        if q.len() == 5 && q[2].trim() == "->" {
            edges.push(json!([q[1], q[3]]));
        } else if q.len() == 3 {
            let color = q[2].split("color=").nth(1).unwrap_or("").split(',').next().unwrap_or("");
            nodes.push(json!([q[1], color]));
        }
    }
    json!({"nodes": nodes, "edges": edges})
}

pub fn answers(g: &dyn UnitGraph, univ: &[Ustr]) -> Value {
    let mut q = Map::new();
    for u in univ {
        q.insert(u.to_string(), json!({
            "type": ty(g.get_unit_type(*u)), "lessons": set(g.get_course_lessons(*u)), "starting": set(g.get_starting_lessons(*u)),
            "course": one(g.get_lesson_course(*u)), "exercises": set(g.get_lesson_exercises(*u)), "lesson": one(g.get_exercise_lesson(*u)),
            "deps": set(g.get_dependencies(*u)), "dependents": set(g.get_dependents(*u)), "enc": weighted(g.get_encompasses(*u)),
            "encby": weighted(g.get_encompassed_by(*u)), "sup": set(g.get_supersedes(*u)), "supby": set(g.get_superseded_by(*u)),
        }));
    }
    Value::Object(q)
}

pub fn run(prog: &Value) -> Result<Value> {
    let mut g = InMemoryUnitGraph::default();
    let mut out = vec![];
    for op in prog["ops"].as_array().unwrap() {
        let u = Ustr::from(op["u"].as_str().unwrap_or(""));
        let ok = match s(op, "op")? {
            "course" => g.add_course(u).is_ok(),
            "lesson" => g.add_lesson(u, Ustr::from(s(op, "p")?)).is_ok(),
            "exercise" => g.add_exercise(u, Ustr::from(s(op, "p")?)).is_ok(),
            "rel" => {
                let t = g.get_unit_type(u).unwrap_or(UnitType::Lesson);
                let deps = ids(&op["deps"]);
                g.add_dependencies(u, t, &deps).is_ok() && g.add_encompassed(u, &deps, &pairs(&op["enc"])).is_ok()
            }
            "enc" => g.add_encompassed(u, &[], &pairs(&op["enc"])).is_ok(),
            "sup" => {
                g.add_superseded(u, &ids(&op["sup"]));
                true
            }
            "eq" => {
                g.set_encompasing_equals_dependency();
                true
            }
            o => bail!("unknown op {o}"),
        };
        let mut o = op.as_object().unwrap().clone();
        o.insert("ok".into(), json!(ok));
        out.push(Value::Object(o));
    }
    let finish = i(prog, "finish")? == 1;
    if finish {
        g.update_starting_lessons();
    }
    let univ = ids(&prog["univ"]);
    Ok(json!({"id": prog["id"], "univ": prog["univ"], "ops": out, "finish": finish, "q": answers(&g, &univ),
        "sinks": set(Some(g.get_dependency_sinks())), "acyclic": g.check_cycles().is_ok(),
        "dot": dot(&g.generate_dot_graph(false)), "cdot": dot(&g.generate_dot_graph(true)), "ev": []}))
}
