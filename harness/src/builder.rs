//! Courses written to disk with the builders.
use crate::world::s;
use anyhow::{Context, Result};
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use trane::course_builder::knowledge_base_builder as kb;
use trane::course_builder::{AssetBuilder, CourseBuilder, ExerciseBuilder, LessonBuilder};
use trane::data::course_generator::knowledge_base::{KnowledgeBaseExercise, KnowledgeBaseLesson};
use trane::data::{CourseManifest, ExerciseManifest, ExerciseManifestBuilder, LessonManifest, LessonManifestBuilder};

fn get<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T> {
    Ok(serde_json::from_value(v.clone())?)
}
fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn assets(v: &Value) -> Vec<AssetBuilder> {
    list(v).iter().map(|a| AssetBuilder { file_name: a[0].as_str().unwrap().into(), contents: a[1].as_str().unwrap().into() }).collect()
}
fn dir(base: &Path, v: &Value) -> PathBuf {
    list(v).iter().fold(base.to_path_buf(), |d, c| d.join(c.as_str().unwrap()))
}

fn exercise(v: &Value) -> Result<ExerciseBuilder> {
    let m: ExerciseManifest = get(&v["manifest"])?;
    let own = v["own"].as_bool().unwrap_or(true);
    Ok(ExerciseBuilder {
        directory_name: s(v, "dir")?.into(),
        manifest_closure: Box::new(move |b| {
            let mut b = b.clone();
            b.id(m.id).name(m.name.clone()).description(m.description.clone()).exercise_asset(m.exercise_asset.clone());
            if own {
                b.exercise_type(m.exercise_type.clone());
            }
            b
        }),
        asset_builders: assets(&v["assets"]),
    })
}
fn lesson(v: &Value) -> Result<LessonBuilder> {
    let m: LessonManifest = get(&v["manifest"])?;
    let exs = list(&v["exercises"]);
    let mut template = ExerciseManifestBuilder::default();
    template.lesson_id(m.id).course_id(m.course_id);
    // The type of the exercises comes from the template or from each exercise.
    if let Some(t) = v["type"].as_str() {
        template.exercise_type(get(&json!(t))?);
    }
    Ok(LessonBuilder {
        directory_name: s(v, "dir")?.into(),
        manifest_closure: Box::new(move |b| {
            let mut b = b.clone();
            b.id(m.id)
                .name(m.name.clone())
                .description(m.description.clone())
                .dependencies(m.dependencies.clone())
                .superseded(m.superseded.clone())
                .encompassed(m.encompassed.clone())
                .metadata(m.metadata.clone())
                .lesson_material(m.lesson_material.clone())
                .lesson_instructions(m.lesson_instructions.clone());
            b
        }),
        exercise_manifest_template: template,
        exercise_builders: exs.iter().map(exercise).collect::<Result<_>>()?,
        asset_builders: assets(&v["assets"]),
    })
}
fn plain(root: &Path, v: &Value) -> Result<()> {
    let m: CourseManifest = get(&v["manifest"])?;
    let mut template = LessonManifestBuilder::default();
    template.course_id(m.id);
    let b = CourseBuilder {
        directory_name: dir(Path::new(""), &v["dir"]).to_str().context("dir")?.into(),
        course_manifest: m,
        lesson_manifest_template: template,
        lesson_builders: list(&v["lessons"]).iter().map(lesson).collect::<Result<_>>()?,
        asset_builders: assets(&v["assets"]),
    };
    b.build(root)
}

fn knowledge_base(root: &Path, v: &Value) -> Result<()> {
    let m: CourseManifest = get(&v["manifest"])?;
    let mut lessons = vec![];
    for l in list(&v["lessons"]) {
        let short = s(&l, "short")?;
        let mut exercises = vec![];
        for e in list(&l["exercises"]) {
            let id = s(&e, "short")?;
            exercises.push(kb::ExerciseBuilder {
                exercise: KnowledgeBaseExercise {
                    short_id: id.into(),
                    short_lesson_id: short.into(),
                    course_id: m.id,
                    front_file: format!("{id}.front.md"),
                    back_file: e["back"].as_str().map(|_| format!("{id}.back.md")),
                    name: get(&e["name"])?,
                    description: get(&e["description"])?,
                    exercise_type: get(&e["type"])?,
                },
                asset_builders: assets(&e["assets"]),
            });
        }
        let has = |n: &str| list(&l["assets"]).iter().any(|a| a[0] == n);
        lessons.push(kb::LessonBuilder {
            lesson: KnowledgeBaseLesson {
                short_id: short.into(),
                course_id: m.id,
                dependencies: get(&l["dependencies"])?,
                encompassed: get(&l["encompassed"])?,
                superseded: get(&l["superseded"])?,
                name: get(&l["name"])?,
                description: get(&l["description"])?,
                metadata: get(&l["metadata"])?,
                has_instructions: has("lesson.instructions.md"),
                has_material: has("lesson.material.md"),
                default_exercise_type: get(&l["type"])?,
            },
            exercises,
            asset_builders: assets(&l["assets"]),
        });
    }
    let b = kb::CourseBuilder {
        directory_name: dir(Path::new(""), &v["dir"]).to_str().context("dir")?.into(),
        lessons,
        assets: assets(&v["assets"]),
        manifest: m,
    };
    b.build(root)
}

fn simple(root: &Path, v: &Value) -> Result<()> {
    let b: kb::SimpleKnowledgeBaseCourse = get(&v["course"])?;
    let d = dir(root, &v["dir"]);
    std::fs::create_dir_all(&d)?;
    b.build(&d)
}

/// Builds the courses in turn: the first error of a builder, or an empty text.
pub fn build(root: &Path, v: &Value) -> Result<Value> {
    for c in list(v) {
        let r = match s(&c, "kind")? {
            "plain" => plain(root, &c),
            "kb" => knowledge_base(root, &c),
            "simple" => simple(root, &c),
            k => anyhow::bail!("unknown builder {k}"),
        };
        if let Err(e) = r {
            return Ok(json!([format!("{e:#}")]));
        }
    }
    Ok(json!([""]))
}
