//! Conformance harness: executes programs (JSON, one per line) against the real code and writes
//! what was observed as traces (JSON, one per line) for the TLA+ trace specifications to judge.
//! The harness itself decides nothing.
mod builder;
mod filters;
mod graph;
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod gates;
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod inject;
mod library;
mod options;
mod par;
mod scorer;
mod stores;
mod world;

use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Runs one program; a panic of the code under test becomes data in the trace.
fn run_one(kind: &str, prog: &Value) -> Value {
    let f: fn(&Value) -> anyhow::Result<Value> = match kind {
        "world" => world::run,
        "graph" => graph::run,
        "scorer" => scorer::run,
        "stores" => stores::run,
        "filters" => filters::run,
        "library" => library::run,
        "options" => options::run,
        _ => panic!("unknown kind {kind}"),
    };
    match catch_unwind(AssertUnwindSafe(|| f(prog))) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"harness_error": format!("{e:#}")}),
        Err(p) => json!({"harness_error": format!("panic: {}", panic_text(&p))}),
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown".into()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: vharness KIND PROGRAMS.ndjson TRACES.ndjson");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let kind = args[1].clone();
    let input = std::fs::File::open(&args[2]).expect("cannot open programs");
    let progs: Vec<Value> = std::io::BufReader::new(input)
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("bad program"))
        .collect();
    let n = progs.len();
    let results: Vec<Mutex<Option<Value>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    let threads = std::env::var("VH_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8usize);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(s, || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = run_one(&kind, &progs[i]);
                    *results[i].lock().unwrap() = Some(r);
                }
            })
            .unwrap();
        }
    });
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).expect("cannot write"));
    for r in results {
        let v = r.into_inner().unwrap().unwrap();
        writeln!(out, "{}", serde_json::to_string(&v).unwrap()).unwrap();
    }
    out.flush().unwrap();
}
