//! A library directory laid out file by file, opened from the directory and from its serialized
//! form: what was loaded, and the answers to the library and graph queries.
use crate::graph;
use crate::world::{ids, s};
use anyhow::{Context, Result};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::path::Path;
use trane::Trane;
use trane::course_library::{CourseLibrary, LocalCourseLibrary, SerializedCourseLibrary};
use trane::data::course_generator::transcription::TranscriptionLink;
use trane::data::*;
use trane::graph::UnitGraph;
use ustr::Ustr;

fn opt<T: serde::Serialize>(x: &Option<T>) -> Value {
    x.as_ref().map_or(json!([]), |x| json!([x]))
}
fn path(root: &Path, p: &str) -> Value {
    let p = Path::new(p);
    match p.strip_prefix(root) {
        Ok(rest) => json!(rest.components().map(|c| c.as_os_str().to_string_lossy()).collect::<Vec<_>>()),
        Err(_) => json!(["?", p]),
    }
}
fn basic(root: &Path, a: &BasicAsset) -> Value {
    match a {
        BasicAsset::MarkdownAsset { path: p } => json!({"t": "md", "x": [], "p": [path(root, p)]}),
        BasicAsset::InlinedAsset { content } => json!({"t": "inline", "x": [content], "p": []}),
        BasicAsset::InlinedUniqueAsset { content } => json!({"t": "unique", "x": [content], "p": []}),
    }
}
fn obasic(root: &Path, a: &Option<BasicAsset>) -> Value {
    a.as_ref().map_or(json!([]), |a| json!([basic(root, a)]))
}
fn asset(root: &Path, a: &ExerciseAsset) -> Value {
    match a {
        ExerciseAsset::BasicAsset(b) => basic(root, b),
        ExerciseAsset::FlashcardAsset { front_path, back_path } => {
            let mut p = vec![path(root, front_path)];
            p.extend(back_path.iter().map(|b| path(root, b)));
            json!({"t": "flash", "x": [], "p": p})
        }
        ExerciseAsset::InlineFlashcardAsset { front_content, back_content } => {
            let mut x = vec![front_content.clone()];
            x.extend(back_content.clone());
            json!({"t": "iflash", "x": x, "p": []})
        }
        ExerciseAsset::LiteracyAsset { lesson_type, examples, exceptions } => {
            let mut x = vec![format!("{lesson_type:?}")];
            for (tag, list) in [("e", examples), ("x", exceptions)] {
                for (a, b) in list {
                    x.push(tag.into());
                    x.push(a.clone());
                    x.extend(b.clone());
                }
            }
            json!({"t": "literacy", "x": x, "p": []})
        }
        ExerciseAsset::SoundSliceAsset { link, description, backup } => {
            let mut x = vec![link.clone()];
            x.extend(description.clone());
            json!({"t": "slice", "x": x, "p": backup.iter().map(|b| path(root, b)).collect::<Vec<_>>()})
        }
        ExerciseAsset::TranscriptionAsset { content, external_link } => {
            let mut x = vec![content.clone()];
            if let Some(TranscriptionLink::YouTube(l)) = external_link {
                x.push(l.clone());
            }
            json!({"t": "trans", "x": x, "p": []})
        }
    }
}
fn meta(m: &Option<BTreeMap<String, Vec<String>>>) -> Value {
    m.as_ref().map_or(json!([]), |m| json!([m.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()]))
}
fn strs(v: &[Ustr]) -> Value {
    json!(v.iter().map(Ustr::as_str).collect::<Vec<_>>())
}
fn enc(v: &[(Ustr, f32)]) -> Value {
    json!(v.iter().map(|(u, w)| json!([u.as_str(), (w * 1000.0).round() as i64])).collect::<Vec<_>>())
}
fn course(root: &Path, m: &CourseManifest) -> Value {
    json!({"id": m.id.as_str(), "name": m.name, "desc": opt(&m.description), "deps": strs(&m.dependencies), "sup": strs(&m.superseded),
        "enc": enc(&m.encompassed), "meta": meta(&m.metadata), "authors": opt(&m.authors),
        "material": obasic(root, &m.course_material), "instructions": obasic(root, &m.course_instructions)})
}
fn lesson(root: &Path, m: &LessonManifest) -> Value {
    json!({"id": m.id.as_str(), "name": m.name, "desc": opt(&m.description), "deps": strs(&m.dependencies), "sup": strs(&m.superseded),
        "enc": enc(&m.encompassed), "meta": meta(&m.metadata), "authors": [], "course": m.course_id.as_str(),
        "material": obasic(root, &m.lesson_material), "instructions": obasic(root, &m.lesson_instructions)})
}
fn exercise(root: &Path, m: &ExerciseManifest) -> Value {
    json!({"id": m.id.as_str(), "name": m.name, "desc": opt(&m.description), "course": m.course_id.as_str(),
        "lesson": m.lesson_id.as_str(), "type": format!("{:?}", m.exercise_type), "asset": [asset(root, &m.exercise_asset)]})
}
fn list(v: Option<Vec<Ustr>>) -> Value {
    v.map_or(json!({"some": false, "v": []}), |v| json!({"some": true, "v": strs(&v)}))
}

/// The marked words in the texts of generated units.
struct Marks {
    names: Vec<String>,
    texts: Vec<String>,
}
impl Marks {
    fn list(v: &Value) -> Vec<String> {
        v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    }
    fn of(prog: &Value) -> Self {
        Marks { names: Self::list(&prog["names"]), texts: Self::list(&prog["marks"]) }
    }
    fn name(&self, text: &str) -> Value {
        json!(self.names.iter().filter(|n| text.contains(n.as_str())).collect::<Vec<_>>())
    }
    fn exercise(&self, m: &ExerciseManifest) -> Value {
        let text = match &m.exercise_asset {
            ExerciseAsset::BasicAsset(BasicAsset::InlinedAsset { content }) => content.clone(),
            ExerciseAsset::SoundSliceAsset { description, link, .. } => format!("{link}\n{}", description.clone().unwrap_or_default()),
            ExerciseAsset::TranscriptionAsset { content, external_link } => {
                format!("{content}\n{}", external_link.as_ref().map_or("", |l| l.url()))
            }
            _ => String::new(),
        };
        let found: Vec<&String> = self.texts.iter().filter(|w| text.contains(w.as_str())).collect();
        let pairs = |v: &[(String, Option<String>)]| json!(v.iter().map(|(a, b)| json!([a, b.iter().collect::<Vec<_>>()])).collect::<Vec<_>>());
        let (ex, exc) = match &m.exercise_asset {
            ExerciseAsset::LiteracyAsset { examples, exceptions, .. } => (pairs(examples), pairs(exceptions)),
            _ => (json!([]), json!([])),
        };
        json!({"name": self.name(&m.name), "text": found, "ex": ex, "exc": exc})
    }
}

/// Everything the library and graph interfaces answer.
fn answers(t: &Trane, root: &Path, univ: &[Ustr], prefixes: &[String], marks: &Marks) -> Value {
    let mut mk = Map::new();
    let mut units = Map::new();
    let mut shown = (vec![], vec![], vec![]);
    for u in univ {
        let (c, l, e) = (t.get_course_manifest(*u), t.get_lesson_manifest(*u), t.get_exercise_manifest(*u));
        if let Some(m) = &c {
            shown.0.push(json!([u.as_str(), course(root, m)]));
        }
        if let Some(m) = &l {
            shown.1.push(json!([u.as_str(), lesson(root, m)]));
            mk.insert(u.to_string(), json!({"name": marks.name(&m.name)}));
        }
        if let Some(m) = &e {
            shown.2.push(json!([u.as_str(), exercise(root, m)]));
            mk.insert(u.to_string(), marks.exercise(m));
        }
        units.insert(u.to_string(), json!({"lessons": list(t.get_lesson_ids(*u)),
            "exs": list(t.get_exercise_ids(*u)), "all": strs(&t.get_all_exercise_ids(Some(*u)))}));
    }
    let mut pre = vec![];
    for p in prefixes {
        for (name, ty) in [("any", None), ("course", Some(UnitType::Course)), ("lesson", Some(UnitType::Lesson)), ("exercise", Some(UnitType::Exercise))] {
            let v: Vec<Ustr> = t.get_matching_prefix(p, ty).into_iter().collect();
            pre.push(json!({"p": p, "t": name, "v": strs(&v)}));
        }
    }
    let sinks: Vec<Ustr> = t.get_dependency_sinks().iter().copied().collect();
    json!({"units": units, "cm": shown.0, "lm": shown.1, "em": shown.2, "mk": mk, "courses": strs(&t.get_course_ids()),
        "exs": strs(&t.get_all_exercise_ids(None)), "pre": pre, "graph": graph::answers(t, univ), "sinks": strs(&sinks)})
}

fn snapshot(root: &Path) -> Result<BTreeMap<String, Vec<u8>>> {
    fn go(d: &Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) -> Result<()> {
        for e in std::fs::read_dir(d)? {
            let e = e?;
            let n = format!("{rel}/{}", e.file_name().to_string_lossy());
            if n == "/.trane" {
                continue;
            }
            if e.file_type()?.is_dir() {
                out.insert(n.clone() + "/", vec![]);
                go(&e.path(), &n, out)?;
            } else {
                out.insert(n, std::fs::read(e.path())?);
            }
        }
        Ok(())
    }
    let mut r = BTreeMap::new();
    go(root, "", &mut r)?;
    Ok(r)
}

fn serialized(root: &Path) -> Result<Trane> {
    let prefs: UserPreferences = serde_json::from_str(&std::fs::read_to_string(root.join(".trane/user_preferences.json"))?)?;
    let lib = LocalCourseLibrary::new(root, prefs)?;
    let bytes = postcard::to_allocvec(&SerializedCourseLibrary::from(&lib))?;
    let ser: SerializedCourseLibrary = postcard::from_bytes(&bytes)?;
    Trane::new_local_from_serialized(root, ser)
}

/// A component of a path; one that starts with "!" is not valid UTF-8.
fn component(c: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    match c.strip_prefix('!') {
        Some(rest) => std::ffi::OsString::from_vec([&[0xff], rest.as_bytes()].concat()),
        None => c.into(),
    }
}
/// Writes the files below the directory, in the given order.
fn lay_out<'a>(abs: &Path, files: impl Iterator<Item = &'a Value>) -> Result<()> {
    for f in files {
        let mut d = abs.to_path_buf();
        for c in f["dir"].as_array().context("dir")? {
            d.push(component(c.as_str().unwrap()));
        }
        std::fs::create_dir_all(&d)?;
        let text = s(f, "text")?.replace("\"ROOT/", &format!("\"{}/", abs.to_str().unwrap()));
        std::fs::write(d.join(component(s(f, "name")?)), text)?;
    }
    Ok(())
}
fn preferences(abs: &Path, prog: &Value) -> Result<()> {
    let mut p = Map::new();
    if prog["shown"].as_array().is_some_and(|a| !a.is_empty()) {
        p.insert("ignored_paths".into(), prog["shown"].clone());
    }
    if let Some(i) = prog["instr"].as_array()
        && (!i.is_empty() || prog["transcription"].as_bool() == Some(true))
    {
        p.insert("transcription".into(), json!({"instruments": i}));
    }
    if !p.is_empty() {
        std::fs::create_dir_all(abs.join(".trane"))?;
        std::fs::write(abs.join(".trane/user_preferences.json"), Value::Object(p).to_string())?;
    }
    Ok(())
}

/// Opens the library, and asks it everything.
fn open(wd: &Path, root: &Path, abs: &Path, ser: bool, univ: &[Ustr], prefixes: &[String], marks: &Marks) -> Result<Value, Value> {
    let opened = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if ser { serialized(&wd.join(root)) } else { Trane::new_local(wd, root) }
    }));
    match opened {
        Ok(Ok(t)) => Ok(answers(&t, abs, univ, prefixes, marks)),
        Ok(Err(e)) => Err(json!({"failed": format!("{e:#}"), "panic": ""})),
        Err(p) => Err(json!({"failed": "panic", "panic": crate::panic_text(&p)})),
    }
}

pub fn run(prog: &Value) -> Result<Value> {
    // The process runs in a directory of its own, so that relative paths can be used as well.
    let cwd = std::env::current_dir()?;
    let dir = tempfile::tempdir_in(&cwd)?;
    let abs = dir.path().join("lib");
    std::fs::create_dir_all(&abs)?;
    let abs = abs.canonicalize()?;
    let here = Path::new(dir.path().file_name().context("name")?).to_path_buf();
    let top = abs.parent().context("parent")?.to_path_buf();
    let (wd, root) = match prog["relative"].as_str().unwrap_or("") {
        // The library is named relative to where the process runs, or to a directory given.
        "cwd" => (Path::new(".").to_path_buf(), here.join("lib")),
        "near" => (here, Path::new("lib").to_path_buf()),
        "given" => (top, Path::new("lib").to_path_buf()),
        _ => (Path::new(".").to_path_buf(), abs.clone()),
    };
    let list = prog["files"].as_array().context("files")?;
    let files: Vec<Value> = list
        .iter()
        .map(|f| {
            let mut f = f.clone();
            f.as_object_mut().unwrap().remove("text");
            f
        })
        .collect();
    let univ = ids(&prog["univ"]);
    let prefixes: Vec<String> = prog["prefixes"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let marks = Marks::of(prog);
    let mut built = json!([]);
    if prog["build"].is_null() {
        lay_out(&abs, list.iter())?;
    } else {
        let b = prog["build"].to_string().replace("\"ROOT/", &format!("\"{}/", abs.to_str().unwrap()));
        built = crate::builder::build(&abs, &serde_json::from_str(&b)?)?;
    }
    preferences(&abs, prog)?;
    let before = snapshot(&abs)?;
    // What the builders wrote, and what they were asked to write, but for what is read back as JSON.
    let (mut found, mut written) = (vec![], vec![]);
    if !prog["build"].is_null() {
        let plain = |n: &str| !n.ends_with('/') && !n.ends_with(".json");
        found = before.iter().filter(|(n, _)| plain(n)).map(|(n, t)| json!([n, String::from_utf8_lossy(t)])).collect();
        for f in list.iter().filter(|f| f["kind"] == "other") {
            let n: String = f["dir"].as_array().unwrap().iter().chain([&f["name"]]).map(|c| format!("/{}", c.as_str().unwrap())).collect();
            if plain(&n) {
                written.push(json!([n, s(f, "text")?]));
            }
        }
    }
    let (mut a, mut b, mut c, mut err, mut panic, mut ok) = (json!({}), json!({}), json!({}), String::new(), String::new(), false);
    match open(&wd, &root, &abs, false, &univ, &prefixes, &marks) {
        Ok(x) => {
            ok = true;
            a = x;
            b = open(&wd, &root, &abs, true, &univ, &prefixes, &marks).unwrap_or_else(|e| e);
        }
        Err(e) => {
            err = s(&e, "failed")?.to_string();
            panic = s(&e, "panic")?.to_string();
        }
    }
    let after = snapshot(&abs)?;
    let changed: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).collect();
    // The same files written in the opposite order: directories list their entries differently.
    if ok && prog["twice"].as_bool() == Some(true) {
        let other = dir.path().join("again/lib");
        std::fs::create_dir_all(&other)?;
        let other = other.canonicalize()?;
        lay_out(&other, list.iter().rev())?;
        preferences(&other, prog)?;
        c = open(Path::new("."), &other, &other, false, &univ, &prefixes, &marks).unwrap_or_else(|e| e);
    }
    let drop_same = |x: Value| if a == x { json!({}) } else { x };
    let (same, again) = (a == b, c == json!({}) || a == c);
    Ok(json!({"id": prog["id"], "files": files, "ignored": prog["ignored"], "univ": prog["univ"], "prefixes": prog["prefixes"],
        "instr": prog["instr"].as_array().cloned().unwrap_or_default(), "built": built, "clash": prog["clash"].as_bool().unwrap_or(false),
        "opened": ok, "err": err, "panic": panic, "same": same, "b": drop_same(b.clone()), "again": again, "c": drop_same(c), "a": a,
        "found": found, "written": written, "changed": changed, "ev": []}))
}
