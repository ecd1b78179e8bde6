#![cfg_attr(feature = "f16", feature(f16))]
mod ar30;
mod colour;
mod engine;
mod gen;
mod guard;
mod isa;
mod judge;
mod model;
mod op;
mod props;
mod run;

use engine::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;

/// Runs `$e` with `$p` bound to the property of the given id.
macro_rules! by_id {
    ($id:expr, $p:ident => $e:expr, [$($t:ty),* $(,)?]) => {
        match $id {
            $(i if i == <$t as Prop>::ID => { type $p = $t; $e })*
            other => { eprintln!("unknown property {other}"); std::process::exit(2) }
        }
    };
}
macro_rules! dispatch {
    ($id:expr, $p:ident => $e:expr) => {
        by_id!($id, $p => $e, [
            props::accuracy::P01, props::accuracy::P02, props::accuracy::P03, props::accuracy::P04,
            props::ar30::P05, props::alpha::P06, props::nearest::P07, props::constant::P08,
            props::stride::P09, props::threads::P10, props::levels::P11, props::reject::P12, props::memory::P13, props::container::P16, props::extension::P17, props::filters::P20, props::policy::P21, props::same::P14, props::colour_resize::P15, props::history::P18,
            props::channels::P19, props::local::P22, props::symmetry::P23, props::linear::P24, props::share::P25, props::capi::P26,
            props::build::P27,
        ])
    };
}

/// What a violation leaves behind; `psverif replay FILE` runs it again.
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    /// which of the builds of P27
    #[serde(default)]
    build: Option<String>,
    #[serde(default)]
    found: serde_json::Value,
    case: serde_json::Value,
}

#[derive(Serialize, Deserialize, Clone)]
struct Known {
    property: String,
    what: String,
    case: serde_json::Value,
}

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("tier must be quick or thorough");
            std::process::exit(2)
        }
    }
}

fn scratch() -> String {
    let d = format!("{}/psverif.{}", std::env::var("TMPDIR").unwrap_or("/tmp".into()), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| usage());
    match arg(1).as_str() {
        "run" => {
            let (id, tier, seed) = (arg(2), arg(3), arg(4));
            let code = dispatch!(id.as_str(), P => parent::<P>(tier_of(&tier), seed.parse().unwrap_or(1), &arg(5)));
            std::process::exit(code)
        }
        "work" => {
            let id = arg(2);
            let job = Job {
                tier: tier_of(&arg(3)),
                seed: arg(4).parse().unwrap(),
                first: arg(5).parse().unwrap(),
                step: arg(6).parse().unwrap(),
                count: arg(7).parse().unwrap(),
                seconds: arg(8).parse().unwrap(),
                progress: arg(9),
            };
            let rep = dispatch!(id.as_str(), P => work::<P>(&job));
            std::fs::write(arg(10), serde_json::to_vec(&rep).unwrap()).unwrap();
        }
        // one case from a file: 0 holds, 1 violated (message on stdout)
        "one" | "replay" => {
            let r: Replay = serde_json::from_slice(&std::fs::read(arg(2)).expect("replay file")).expect("replay json");
            let out = dispatch!(r.property.as_str(), P => {
                let case: <P as Prop>::Case = serde_json::from_value(r.case.clone()).expect("case json");
                run_case::<P>(&case)
            });
            match out {
                Ok(i) => println!("holds {:?}", i.labels),
                Err(m) => {
                    println!("violated: {m}");
                    std::process::exit(1)
                }
            }
        }
        "merge" => merge(&arg(2), &a[3..]),
        "show" => {
            let id = arg(2);
            dispatch!(id.as_str(), P => {
                let (_, c) = generate::<P>(Tier::Quick, arg(3).parse().unwrap(), arg(4).parse().unwrap());
                println!("{}", serde_json::to_string(&c).unwrap());
            });
        }
        _ => {
            usage();
        }
    }
}

/// One evidence file out of those of several builds, named `DIR/BUILD.json`.
fn merge(out: &str, parts: &[String]) {
    let read = |p: &String| serde_json::from_slice::<serde_json::Value>(&std::fs::read(p).unwrap()).unwrap();
    let mut all = read(&parts[0]);
    let mut builds = serde_json::Map::new();
    let (mut sums, mut samples, mut wall, mut violations) = ([0u64; 3], vec![], 0.0, 0);
    let mut late = false;
    for p in parts {
        let e = read(p);
        let c = &e["coverage"];
        for (s, k) in sums.iter_mut().zip(["evaluations", "distinct_nontrivial", "planned_cases"]) {
            *s += c[k].as_u64().unwrap();
        }
        late |= c["out_of_time"].as_bool().unwrap();
        wall += e["wall_s"].as_f64().unwrap();
        violations += e["violations"].as_u64().unwrap();
        let name = std::path::Path::new(p).file_stem().unwrap().to_string_lossy().to_string();
        for s in c["samples"].as_array().unwrap().iter().take(2) {
            samples.push(serde_json::json!({"build": name, "case": s}));
        }
        builds.insert(name, serde_json::json!({"evaluations": c["evaluations"], "labels": c["labels"]}));
    }
    let c = all["coverage"].as_object_mut().unwrap();
    c.remove("labels");
    c.insert("evaluations".into(), sums[0].into());
    c.insert("distinct_nontrivial".into(), sums[1].into());
    c.insert("planned_cases".into(), sums[2].into());
    c.insert("samples".into(), samples.into());
    c.insert("builds".into(), builds.into());
    c.insert("out_of_time".into(), late.into());
    all["wall_s"] = wall.into();
    all["violations"] = violations.into();
    std::fs::write(out, serde_json::to_string_pretty(&all).unwrap() + "\n").unwrap();
}

fn usage() -> String {
    eprintln!("psverif run ID quick|thorough SEED VERIF_DIR | replay FILE | show ID SEED INDEX");
    std::process::exit(2)
}

enum Judged {
    Holds,
    Violated(String),
    Error(String),
}

/// Runs one case in a subprocess, so that a crash is only a result.
fn judge_outside(property: &str, case: &serde_json::Value, dir: &str) -> Judged {
    let file = format!("{dir}/one.json");
    let r = Replay { property: property.into(), message: String::new(), build: None, found: serde_json::Value::Null, case: case.clone() };
    std::fs::write(&file, serde_json::to_vec(&r).unwrap()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["one", &file])
        .stdout(Stdio::piped())
        .stderr(std::fs::File::create(format!("{dir}/one.err")).map_or(Stdio::null(), Stdio::from))
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(120) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Judged::Error("a case ran for more than 120 s".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    use std::os::unix::process::ExitStatusExt;
    let mut text = String::new();
    use std::io::Read;
    let _ = ch.stdout.take().unwrap().read_to_string(&mut text);
    match (status.code(), status.signal()) {
        (Some(0), _) => Judged::Holds,
        (Some(1), _) => Judged::Violated(text.trim().trim_start_matches("violated: ").to_string()),
        (_, Some(9)) => Judged::Error("killed (out of memory?)".into()),
        (_, Some(s)) => {
            let said = std::fs::read_to_string(format!("{dir}/one.err")).unwrap_or_default();
            let said = said.lines().find(|l| l.starts_with("unsafe precondition")).map_or(String::new(), |l| format!(": {l}"));
            Judged::Violated(format!("the process is killed by signal {s}{said}"))
        }
        (c, _) => Judged::Error(format!("exit status {c:?}")),
    }
}

fn parent<P: Prop>(tier: Tier, seed: u64, verif: &str) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let count = match std::env::var("PSV_CASES").ok().and_then(|v| v.parse().ok()) {
        Some(n) => n,
        None => [P::CASES.0, P::CASES.1][(tier == Tier::Thorough) as usize],
    };
    let seconds: f64 = match tier {
        Tier::Quick => 420.0,
        Tier::Thorough => std::env::var("PSV_SECONDS").ok().and_then(|v| v.parse().ok()).unwrap_or(7200.0),
    };
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    let code = (|| {
        // known findings first: they are inputs, listed one by one
        let known: Vec<Known> = std::fs::read(format!("{verif}/known_findings.json"))
            .ok()
            .map(|b| serde_json::from_slice::<serde_json::Value>(&b).expect("known_findings.json"))
            .and_then(|v| v.get("findings").cloned())
            .map(|v| serde_json::from_value(v).expect("known_findings.json"))
            .unwrap_or_default();
        for k in known.iter().filter(|k| k.property == P::ID) {
            match judge_outside(P::ID, &k.case, &dir) {
                Judged::Violated(m) => println!("KNOWN-FINDING: property={} {} [{m}]", P::ID, k.what),
                Judged::Holds => println!("note: a listed finding of {} no longer fails: {}", P::ID, k.what),
                Judged::Error(e) => {
                    println!("error: {e}");
                    return 2;
                }
            }
        }
        let mut children = Vec::new();
        for w in 0..workers {
            let (progress, out) = (format!("{dir}/progress.{w}"), format!("{dir}/report.{w}"));
            let ch = Command::new(std::env::current_exe().unwrap())
                .args(["work", P::ID, tname, &seed.to_string(), &w.to_string(), &workers.to_string()])
                .args([&count.to_string(), &seconds.to_string(), &progress, &out])
                .stderr(std::fs::File::create(format!("{dir}/stderr.{w}")).unwrap())
                .spawn()
                .unwrap();
            children.push((w, ch, progress, out, Instant::now(), u64::MAX));
        }
        let mut reports: Vec<Report> = Vec::new();
        let mut crashed: Vec<(u64, String)> = Vec::new();
        let mut error = None;
        while !children.is_empty() {
            std::thread::sleep(Duration::from_millis(10));
            let mut rest = Vec::new();
            for (w, mut ch, progress, out, mut since, mut last) in children {
                let at = std::fs::read(&progress).ok().and_then(|b| Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?)));
                if at.unwrap_or(0) != last {
                    last = at.unwrap_or(0);
                    since = Instant::now();
                }
                match ch.try_wait().unwrap() {
                    None if since.elapsed() > Duration::from_secs(150) => {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        error = Some(format!("case {last} of seed {seed} did not end within 150 s"));
                    }
                    None => rest.push((w, ch, progress, out, since, last)),
                    Some(st) if st.success() => {
                        reports.push(serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap())
                    }
                    Some(st) => {
                        use std::os::unix::process::ExitStatusExt;
                        let log = std::fs::read_to_string(format!("{dir}/stderr.{w}")).unwrap_or_default();
                        let log: String = log.lines().take(3).collect::<Vec<_>>().join(" | ").chars().take(400).collect();
                        match (at, st.signal()) {
                            (Some(i), Some(s)) if s != 9 => crashed.push((i, format!("signal {s}: {log}"))),
                            _ => error = Some(format!("worker ended with {st}: {log}")),
                        }
                    }
                }
            }
            children = rest;
        }
        let mut failures: Vec<Failure> = reports.iter().flat_map(|r| r.failures.clone()).collect();
        for (i, what) in &crashed {
            let (mut tree, case) = generate::<P>(tier, seed, *i);
            let value = serde_json::to_value(&case).unwrap();
            match judge_outside(P::ID, &value, &dir) {
                Judged::Violated(m) => {
                    let first = format!("{m} ({what})");
                    let (c, m, steps) = shrink(tree.as_mut(), first.clone(), 600, Duration::from_secs(60), |c| {
                        match judge_outside(P::ID, &serde_json::to_value(c).unwrap(), &dir) {
                            Judged::Violated(m) => Some(m),
                            _ => None,
                        }
                    });
                    failures.push(Failure {
                        index: *i,
                        message: m,
                        original_message: first,
                        case: serde_json::to_value(&c).unwrap(),
                        shrink_steps: steps,
                    });
                }
                // the heap of the worker was damaged by this case or an earlier one
                _ if ["signal 11", "signal 7", "signal 4", "signal 8", "corrupt", "double free", "invalid"]
                    .iter()
                    .any(|s| what.contains(s)) =>
                {
                    failures.push(Failure {
                        index: *i,
                        message: format!("{what} at or before case {i} of seed {seed}; the case alone passes"),
                        original_message: what.clone(),
                        case: value,
                        shrink_steps: 0,
                    })
                }
                _ => error = Some(format!("case {i} of seed {seed} crashed its worker ({what}) but not alone")),
            }
        }
        failures.sort_by_key(|f| f.index);
        let mut hashes = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples = Vec::new();
        let mut evaluations = crashed.len() as u64;
        let mut out_of_time = false;
        for r in &reports {
            evaluations += r.evaluations;
            out_of_time |= r.out_of_time;
            hashes.extend(r.nontrivial_hashes.iter().copied());
            for (k, v) in &r.labels {
                *labels.entry(k.clone()).or_insert(0) += v;
            }
            samples.extend(r.samples.iter().cloned());
        }
        samples.truncate(8);
        let evidence = serde_json::json!({
            "property": P::ID, "tier": tname, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": hashes.len(), "rule": P::RULE,
                "samples": samples, "labels": labels, "planned_cases": count, "out_of_time": out_of_time,
            },
            "assumptions": [
                format!("x86-64 build with {}", std::env::var("PSV_BUILD").map_or(
                    "every kernel the crate has there (default features, nightly_avx512, nightly_avx512fp16, nightly_f16)".into(),
                    |_| "the features and target named in coverage.builds".to_string())),
                "kernel choice is driven by hiding CPU features from run-time detection",
            ],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": failures.len(),
        });
        std::fs::create_dir_all(format!("{verif}/evidence")).unwrap();
        let file = std::env::var("PSV_EVIDENCE").unwrap_or(format!("{verif}/evidence/{}.json", P::ID));
        let mut f = std::fs::File::create(file).unwrap();
        writeln!(f, "{}", serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
        println!(
            "{}{}: {evaluations} cases, {} distinct non-trivial, {:.1} s{}",
            P::ID,
            std::env::var("PSV_BUILD").map_or(String::new(), |b| format!(" in build {b}")),
            hashes.len(),
            t0.elapsed().as_secs_f64(),
            if out_of_time { ", stopped by the time limit" } else { "" }
        );
        if let Some(f) = failures.first() {
            std::fs::create_dir_all(format!("{verif}/replays")).unwrap();
            let path = format!("{verif}/replays/{}.json", P::ID);
            let r = Replay {
                property: P::ID.into(),
                message: f.message.clone(),
                build: std::env::var("PSV_BUILD").ok(),
                found: serde_json::json!({"seed": seed, "tier": tname, "index": f.index, "before_shrinking": f.original_message, "shrink_steps": f.shrink_steps}),
                case: f.case.clone(),
            };
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            println!("{}", f.message);
            println!("VIOLATION property={} replay={path}", P::ID);
            return 1;
        }
        if let Some(e) = error {
            println!("error: {e}");
            return 2;
        }
        0
    })();
    let _ = std::fs::remove_dir_all(&dir);
    code
}
