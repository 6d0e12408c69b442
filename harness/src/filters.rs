//! Metadata filters applied to manifests, the parts of a study session over time, and the saved
//! filters and study sessions found in a directory.
use crate::world::{ids, kv_filter, metadata, s, session_parts, unit_filter};
use anyhow::{Context, Result, bail};
use chrono::{Duration, Utc};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use trane::Trane;
use trane::data::filter::*;
use trane::data::*;
use trane::filter_manager::FilterManager;
use trane::study_session_manager::StudySessionManager;
use ustr::Ustr;

fn course(meta: &Value) -> CourseManifest {
    CourseManifest {
        id: Ustr::from("c"), name: String::new(), dependencies: vec![], encompassed: vec![], superseded: vec![], description: None,
        authors: None, metadata: metadata(meta), course_material: None, course_instructions: None, generator_config: None,
    }
}
fn lesson(meta: &Value) -> LessonManifest {
    LessonManifest {
        id: Ustr::from("l"), dependencies: vec![], encompassed: vec![], superseded: vec![], course_id: Ustr::from("c"),
        name: String::new(), description: None, metadata: metadata(meta), lesson_material: None, lesson_instructions: None,
    }
}

/// Which course and lessons each filter selects.
fn kv(prog: &Value) -> Result<Value> {
    let c = course(&prog["course"]);
    let ls: Vec<LessonManifest> = prog["lessons"].as_array().context("lessons")?.iter().map(lesson).collect();
    let mut out = vec![];
    for f in prog["fs"].as_array().context("fs")? {
        let k = kv_filter(f)?;
        // The filter as it is when read back from disk.
        let k: KeyValueFilter = serde_json::from_str(&serde_json::to_string(&k)?)?;
        out.push(json!({"f": f, "c": k.apply_to_course(&c), "l": ls.iter().map(|l| k.apply_to_lesson(&c, l)).collect::<Vec<_>>()}));
    }
    Ok(json!({"id": prog["id"], "kind": "kv", "course": prog["course"], "lessons": prog["lessons"], "ev": out}))
}

/// The part of a session at several moments.
fn part(prog: &Value) -> Result<Value> {
    let parts = session_parts(&prog["parts"])?;
    let start = Utc::now();
    let data = StudySessionData {
        start_time: start,
        definition: StudySession { id: "s".into(), description: String::new(), parts: parts.clone() },
    };
    let data: StudySessionData = serde_json::from_str(&serde_json::to_string(&data)?)?;
    let mut out = vec![];
    for ms in prog["at"].as_array().context("at")? {
        let at = data.start_time + Duration::milliseconds(ms.as_i64().unwrap());
        let (which, dur, panic) = match catch_unwind(AssertUnwindSafe(|| data.get_part(at))) {
            // Equal parts are the same part as far as anybody can tell.
            Ok(p) => (parts.iter().enumerate().filter(|(_, x)| **x == p).map(|(k, _)| k + 1).collect::<Vec<_>>(), p.duration(), String::new()),
            Err(e) => (vec![], 0, crate::panic_text(&e)),
        };
        let mins = ms.as_i64().unwrap().div_euclid(60_000);
        out.push(json!({"mins": crate::world::clamp32(mins), "is": which, "zero": dur == 0, "panic": panic}));
    }
    let durs: Vec<i64> = parts.iter().map(|p| crate::world::clamp32(i64::from(p.duration()))).collect();
    Ok(json!({"id": prog["id"], "kind": "part", "durs": durs, "ev": out}))
}

/// A library whose saved filters and sessions are the given files.
fn saved(prog: &Value) -> Result<Value> {
    let dir = tempfile::tempdir()?;
    let root = dir.path().join("lib");
    let conf = root.join(".trane");
    for d in ["filters", "study_sessions"] {
        std::fs::create_dir_all(conf.join(d))?;
    }
    let mut files = vec![];
    for f in prog["files"].as_array().context("files")? {
        let (which, ok) = (s(f, "where")?, f["ok"].as_bool().unwrap_or(true));
        let (text, value) = match which {
            "filters" => {
                let x = SavedFilter { id: s(f, "id")?.into(), description: s(f, "desc")?.into(), filter: unit_filter(&f["f"])? };
                (serde_json::to_string_pretty(&x)?, serde_json::to_string(&x)?)
            }
            "study_sessions" => {
                let x = StudySession { id: s(f, "id")?.into(), description: s(f, "desc")?.into(), parts: session_parts(&f["parts"])? };
                (serde_json::to_string_pretty(&x)?, serde_json::to_string(&x)?)
            }
            w => bail!("unknown place {w}"),
        };
        let text = if ok { text } else { s(f, "text")?.to_string() };
        std::fs::write(conf.join(which).join(s(f, "name")?), text)?;
        files.push(json!({"where": which, "id": f["id"], "desc": f["desc"], "ok": ok, "value": value}));
    }
    let univ = ids(&prog["univ"]);
    let opened = catch_unwind(AssertUnwindSafe(|| Trane::new_local(&root, &root)));
    let mut r = json!({"id": prog["id"], "kind": "saved", "files": files, "univ": prog["univ"], "opened": false, "panic": "", "ev": [{}]});
    match opened {
        Err(p) => r["panic"] = json!(crate::panic_text(&p)),
        Ok(Err(_)) => {}
        Ok(Ok(t)) => {
            r["opened"] = json!(true);
            r["filters"] = json!(t.list_filters());
            r["sessions"] = json!(t.list_study_sessions());
            let (mut gf, mut gs) = (vec![], vec![]);
            for u in &univ {
                gf.extend(t.get_filter(u).map(|x| json!([u.as_str(), serde_json::to_string(&*x).unwrap()])));
                gs.extend(t.get_study_session(u).map(|x| json!([u.as_str(), serde_json::to_string(&x).unwrap()])));
            }
            r["gotf"] = json!(gf);
            r["gots"] = json!(gs);
        }
    }
    Ok(r)
}

pub fn run(prog: &Value) -> Result<Value> {
    match s(prog, "kind")? {
        "kv" => kv(prog),
        "part" => part(prog),
        _ => saved(prog),
    }
}
