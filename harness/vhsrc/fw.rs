//! The check runner: cases on all cores, panic classification, journalling, shrinking, replay and evidence.

use crate::gen::Gen;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub events: u64,
    pub judged: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub quiet: bool,
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
impl Stats {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// note an observation as distinct
    pub fn seen<T: Hash>(&mut self, t: &T) {
        self.judged += 1;
        if self.distinct.len() < 400_000 {
            self.distinct.insert(hash_of(t));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.quiet && self.samples.len() < 4 && self.evals % 97 == 5 {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.events += o.events;
        self.judged += o.judged;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Gen, &mut Stats) -> R;

pub struct Sub {
    pub name: &'static str,
    pub weight: u32,
    pub f: CaseFn,
    /// run this many times only (enumerations driven by the case number start with `Gen::case`)
    pub once: bool,
}
impl Sub {
    /// Reads /proc or runs very many steps.
    pub fn slow_under_miri(&self) -> bool {
        matches!(self.name, "adapters" | "buffers" | "deep" | "everypos" | "floats" | "table" | "truncated" | "tags" | "types")
    }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub subs: &'static [Sub],
    /// counters that must be non-zero for the run to count
    pub must_see: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Fail(String),
}

pub fn run_case(f: CaseFn, g: &mut Gen, st: &mut Stats) -> Out {
    PANIC.with(|p| *p.borrow_mut() = None);
    crate::tree::disarm();
    match catch_unwind(AssertUnwindSafe(|| f(g, st))) {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(m)) => {
            // A step the checks lean on (marked HARNESS) never fails on a tree where the property holds
            Out::Fail(m)
        }
        Err(_) => {
            let (m, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), "?".into()));
            Out::Fail(format!("panic at {loc}: {m}"))
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub secs: f64,
    pub max_cases: u64,
    pub threads: usize,
    pub dir: String,
    pub journal: Option<String>,
}

pub struct Failure {
    pub sub: usize,
    pub case: u64,
    pub msg: String,
    pub choices: Vec<u64>,
}

fn schedule(p: &Prop) -> Vec<usize> {
    let mut v = Vec::new();
    let max = p.subs.iter().map(|s| s.weight).max().unwrap_or(1);
    for round in 0..max {
        for (i, s) in p.subs.iter().enumerate() {
            if s.weight > round && !s.once {
                v.push(i);
            }
        }
    }
    v
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, case: u64) -> u64 {
    hash_of(&(seed, prop, sub, case))
}

fn pick(onces: &[usize], sched: &[usize], case: u64) -> usize {
    if (case as usize) < onces.len() {
        onces[case as usize]
    } else {
        sched[(case as usize - onces.len()) % sched.len()]
    }
}
pub fn sub_of(p: &Prop, case: u64) -> usize {
    let onces: Vec<usize> = p.subs.iter().enumerate().filter(|(_, s)| s.once).map(|(i, _)| i).collect();
    pick(&onces, &schedule(p), case)
}

/// Run a property's cases until the time or case budget is used.
pub fn run(p: &Prop, o: &Opts) -> (Stats, Option<Failure>, u64) {
    let sched = schedule(p);
    let onces: Vec<usize> = p.subs.iter().enumerate().filter(|(_, s)| s.once).map(|(i, _)| i).collect();
    let min_cases = sched.len() + onces.len();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let fail: Mutex<Option<Failure>> = Mutex::new(None);
    let start = Instant::now();
    let cur: Vec<(AtomicU64, AtomicU64)> = (0..o.threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let live = AtomicU64::new(o.threads as u64);
    let hang = Mutex::new(None::<u64>);

    let pick = |case: u64| -> usize { pick(&onces, &sched, case) };

    std::thread::scope(|sc| {
        for w in 0..o.threads {
            let (next, stop, total, fail, cur, live, pick) = (&next, &stop, &total, &fail, &cur, &live, &pick);
            let builder = std::thread::Builder::new().stack_size(64 << 20);
            builder
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let mut journal = o.journal.as_ref().map(|j| std::fs::File::create(format!("{j}/{w}")).expect("journal"));
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let case = next.fetch_add(1, Ordering::Relaxed);
                        if case >= o.max_cases || (start.elapsed().as_secs_f64() > o.secs && case as usize >= min_cases) {
                            break;
                        }
                        let sub = pick(case);
                        cur[w].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        cur[w].0.store(case, Ordering::Relaxed);
                        if let Some(j) = &mut journal {
                            use std::os::unix::fs::FileExt;
                            let _ = j.write_all_at(&case.to_le_bytes(), 0);
                        }
                        let mut g = Gen::seeded(case_seed(o.seed, p.id, p.subs[sub].name, case), case);
                        st.evals += 1;
                        match run_case(p.subs[sub].f, &mut g, &mut st) {
                            Out::Ok => (),
                            Out::Fail(msg) => {
                                let mut f = fail.lock().unwrap();
                                if f.is_none() {
                                    *f = Some(Failure { sub, case, msg, choices: g.rec.clone() });
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    cur[w].0.store(u64::MAX, Ordering::Relaxed);
                    total.lock().unwrap().merge(st);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .expect("spawn");
        }
        // watchdog: a case takes milliseconds; one that runs for minutes does not terminate
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if live.load(Ordering::Relaxed) == 0 {
                break;
            }
            let now = start.elapsed().as_millis() as u64;
            for c in &cur {
                let case = c.0.load(Ordering::Relaxed);
                if case != u64::MAX && now.saturating_sub(c.1.load(Ordering::Relaxed)) > 120_000 && c.0.load(Ordering::Relaxed) == case {
                    *hang.lock().unwrap() = Some(case);
                }
            }
            if let Some(case) = *hang.lock().unwrap() {
                // the thread cannot be stopped: report from here and leave
                let sub = pick(case);
                let path = write_replay(p, o, sub, case, &[], "did not finish within 120 s (normal cases take milliseconds)", true);
                println!("VIOLATION property={} replay={}", p.id, path);
                std::process::exit(1);
            }
        }
    });
    let n = next.load(Ordering::Relaxed);
    (total.into_inner().unwrap(), fail.into_inner().unwrap(), n)
}

/// Shrink a failing choice list.
pub fn shrink(f: CaseFn, first: &Failure, budget: Duration) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut best = first.choices.clone();
    let mut msg = first.msg.clone();
    let try_one = |c: &[u64]| -> Option<(Vec<u64>, String)> {
        let mut g = Gen::replay(c.to_vec());
        let mut st = Stats { quiet: true, ..Default::default() };
        match run_case(f, &mut g, &mut st) {
            Out::Fail(m) => {
                let used = g.rec.clone();
                Some((used, m))
            }
            _ => None,
        }
    };
    if try_one(&best).is_none() {
        return (best, msg);
    }
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        let mut chunk = (best.len() / 2).max(1);
        while chunk >= 1 && start.elapsed() < budget {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut c = best.clone();
                let e = (i + chunk).min(c.len());
                c.drain(i..e);
                match try_one(&c) {
                    Some((u, m)) if u.len() < best.len() => {
                        best = u;
                        msg = m;
                        improved = true;
                    }
                    _ => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            for nv in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    if let Some((u, m)) = try_one(&c) {
                        if u.len() < best.len() || (u.len() == best.len() && u < best) {
                            best = u;
                            msg = m;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg)
}

pub fn write_replay(p: &Prop, o: &Opts, sub: usize, case: u64, choices: &[u64], msg: &str, by_seed: bool) -> String {
    let dir = format!("{}/replay", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.json", p.id, p.subs[sub].name, case);
    let j = serde_json::json!({
        "property": p.id, "sub": p.subs[sub].name, "case": case, "seed": o.seed, "by_seed": by_seed,
        "choices": choices, "message": msg,
        "how": "run `vh replay <this file>` (cargo run --manifest-path /verif/harness/Cargo.toml -- replay FILE)",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}
