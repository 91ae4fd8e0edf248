//! Command line of the check binaries.
use crate::{fw, gen};
use fw::*;

static ALL: std::sync::OnceLock<Vec<&'static Prop>> = std::sync::OnceLock::new();
use std::time::{Duration, Instant};

pub fn main(all: Vec<&'static Prop>) {
    ALL.set(all).ok();
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    match args.get(1).map(|s| &**s) {
        Some("run") => run_prop(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("one") => one(&args[2], args[3].parse().expect("seed"), args[4].parse().expect("case")),
        Some("plain") => plain(&args[2..]),
        Some("list") => ALL.get().unwrap().iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: vh run ID [--tier T] [--seed N] [--secs S] [--cases N] [--threads N] [--dir D] [--journal D] | replay FILE | one ID SEED CASE | list");
            std::process::exit(2)
        }
    }
}

fn find(id: &str) -> &'static Prop {
    match ALL.get().unwrap().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn run_prop(a: &[String]) {
    let p = find(&a[0]);
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string()) };
    let o = Opts {
        seed: get("--seed", "1").parse().expect("seed"),
        tier: get("--tier", "quick"),
        secs: get("--secs", "20").parse().expect("secs"),
        max_cases: get("--cases", "18446744073709551615").parse().expect("cases"),
        threads: get("--threads", "8").parse().expect("threads"),
        dir: get("--dir", "/verif/target"),
        journal: Some(get("--journal", "")).filter(|s| !s.is_empty()),
    };
    let start = Instant::now();
    let (st, fail, _) = run(p, &o);
    let mut violations: Vec<serde_json::Value> = Vec::new();
    let mut code = 0;
    if let Some(f) = &fail {
        let (choices, msg) = shrink(p.subs[f.sub].f, f, Duration::from_millis(std::env::var("VH_SHRINK_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(15000)));
        let path = write_replay(p, &o, f.sub, f.case, &choices, &msg, false);
        println!("{}/{}: {}", p.id, p.subs[f.sub].name, msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        violations.push(serde_json::json!({"sub": p.subs[f.sub].name, "message": msg, "replay": path}));
        code = 1;
    } else {
        for k in p.must_see {
            if st.counters.get(k).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE property={}: nothing observed for {k}", p.id);
                code = 2;
            }
        }
    }
    let out = serde_json::json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": p.level,
        "coverage": {
            "evaluations": st.evals.max(st.judged),
            "cases": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule,
            "samples": st.samples,
            "events_observed": st.events,
            "counters": st.counters,
            "monitors": p.subs.iter().map(|s| s.name).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(&o.dir);
    std::fs::write(format!("{}/part-{}.json", o.dir, p.id), serde_json::to_string_pretty(&out).unwrap()).expect("evidence");
    println!("{} evals={} distinct={} events={} wall={:.1}s {:?}", p.id, st.evals, st.distinct.len(), st.events, start.elapsed().as_secs_f64(), st.counters);
    std::process::exit(code);
}

fn replay(path: &str) {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let p = find(j["property"].as_str().expect("property"));
    let sub = p.subs.iter().find(|s| Some(s.name) == j["sub"].as_str()).expect("sub");
    if j["by_seed"].as_bool() == Some(true) {
        return one(p.id, j["seed"].as_u64().unwrap(), j["case"].as_u64().unwrap());
    }
    let choices: Vec<u64> = j["choices"].as_array().expect("choices").iter().map(|v| v.as_u64().expect("choice")).collect();
    let mut g = gen::Gen::replay(choices);
    finish(p.id, run_case(sub.f, &mut g, &mut Stats::default()));
}

fn one(id: &str, seed: u64, case: u64) {
    let p = find(id);
    let sub = fw::sub_of(p, case);
    let mut g = gen::Gen::seeded(case_seed(seed, p.id, p.subs[sub].name, case), case);
    let out = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || run_case(p.subs[sub].f, &mut g, &mut Stats::default())).expect("spawn").join().expect("join")
    });
    finish(id, out);
}

/// plain ID SEED SECS FROM STEP [SUB]: one thread, no files, ordinary return (for interpreters). Each case is announced first.
fn plain(a: &[String]) {
    let p = find(&a[0]);
    let seed: u64 = a[1].parse().expect("seed");
    let secs: f64 = a[2].parse().expect("secs");
    let (from, step): (u64, u64) = (a[3].parse().expect("from"), a[4].parse().expect("step"));
    let start = Instant::now();
    let mut st = Stats::default();
    let mut case = from;
    while start.elapsed().as_secs_f64() < secs {
        let sub = fw::sub_of(p, case);
        if a.get(5).is_some_and(|s| s != p.subs[sub].name) {
            case += step;
            continue;
        }
        println!("CASE {case} {}", p.subs[sub].name);
        let t = Instant::now();
        let mut g = gen::Gen::seeded(case_seed(seed, p.id, p.subs[sub].name, case), case);
        st.evals += 1;
        match run_case(p.subs[sub].f, &mut g, &mut st) {
            Out::Ok => (),
            Out::Fail(m) => {
                println!("FAIL {m}");
                return;
            }
        }
        println!("DONE {}ms", t.elapsed().as_millis());
        case += step;
    }
    println!("STATS {}", serde_json::json!({"evals": st.evals, "distinct": st.distinct.len(), "counters": st.counters, "events": st.events}));
}

fn finish(id: &str, o: Out) {
    match o {
        Out::Ok => println!("{id}: holds"),
        Out::Fail(m) => {
            println!("{id}: {m}");
            std::process::exit(1)
        }
    }
}
