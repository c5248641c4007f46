//! The search engine: fixed-work parallel generation, deterministic choice of the failing case,
//! shrinking, replay files, evidence.

use crate::tape::*;
use crate::target;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub enum Outcome {
    /// The property held. `nontrivial` by the rule the property states in its evidence.
    Pass { nontrivial: bool, labels: Vec<String> },
    /// The generated value is outside the property's domain.
    Discard(String),
    /// The property is violated.
    Fail(String),
    /// The harness could not decide (never counted as a violation; the check exits 2).
    Harness(String),
}
pub fn pass(nontrivial: bool) -> Outcome {
    Outcome::Pass { nontrivial, labels: vec![] }
}
pub fn pass_l(nontrivial: bool, labels: Vec<&str>) -> Outcome {
    Outcome::Pass { nontrivial, labels: labels.into_iter().map(|s| s.to_string()).collect() }
}
pub fn discard(s: &str) -> Outcome {
    Outcome::Discard(s.into())
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Send + Sync;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Fixed cases every run evaluates before the random ones (exhaustive families, corner cases).
    fn fixed(&self) -> Vec<Self::Case> {
        vec![]
    }
    fn gen(&self, t: &mut Tape) -> Self::Case;
    fn check(&self, c: &Self::Case) -> Outcome;
    fn cases(&self, thorough: bool) -> u64;
    fn sample(&self, c: &Self::Case) -> serde_json::Value {
        serde_json::to_value(c).unwrap()
    }
    /// Once per run, before anything else (e.g. building the artefact under test).
    fn prepare(&self) -> Result<(), String> {
        Ok(())
    }
    fn threads(&self) -> usize {
        8
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    discards: BTreeMap<String, u64>,
    samples: BTreeMap<u64, serde_json::Value>,
}

thread_local! {
    /// When and on what this thread works: index of the case and start of its evaluation.
    static SLOT: std::cell::RefCell<Option<std::sync::Arc<Slot>>> = const { std::cell::RefCell::new(None) };
    /// Number of the random case this thread works on.
    static CASE_NO: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
struct Slot {
    since: Mutex<Option<Instant>>,
}
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
static SLOWEST_MS: AtomicU64 = AtomicU64::new(0);
/// A single case normally takes milliseconds.
const CASE_LIMIT_S: u64 = 90;
/// Exit status of a worker that is stuck in a case.
const STUCK: i32 = 99;

fn slot() -> std::sync::Arc<Slot> {
    SLOT.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let a = std::sync::Arc::new(Slot { since: Mutex::new(None) });
                SLOTS.lock().unwrap().push(a.clone());
                a
            })
            .clone()
    })
}
fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let stuck = SLOTS.lock().unwrap().iter().any(|s| s.since.lock().unwrap().is_some_and(|t| t.elapsed().as_secs() > CASE_LIMIT_S));
        if stuck {
            std::process::exit(STUCK);
        }
    });
}

fn safe_check<P: Prop>(p: &P, c: &P::Case) -> Outcome {
    // on disk, so that the supervisor finds it when this process dies
    let f = target::scratch().join("case.json");
    let _ = std::fs::write(&f, serde_json::json!({"case": c, "no": CASE_NO.get()}).to_string());
    let s = slot();
    let t0 = Instant::now();
    *s.since.lock().unwrap() = Some(t0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.check(c)));
    *s.since.lock().unwrap() = None;
    SLOWEST_MS.fetch_max(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
    let _ = std::fs::remove_file(&f);
    match r {
        Ok(o) => o,
        Err(_) => Outcome::Harness(format!("harness panic: {}", target::last_panic())),
    }
}

/// Time for shrinking.
fn shrink_s() -> u64 {
    std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60)
}

/// A worker process with bounded memory, so that a runaway allocation ends it and nothing else.
fn limited(exe: &Path) -> std::process::Command {
    let mut c = std::process::Command::new("bash");
    c.args(["-c", "ulimit -S -v 20000000; exec \"$0\" \"$@\""]).arg(exe);
    c
}
/// Does a stored case end the process that evaluates it?
fn died(exe: &Path, id: &str, f: &Path) -> bool {
    let null = std::process::Stdio::null;
    let Ok(mut c) = limited(exe).args(["replay-raw", id]).arg(f).stdout(null()).stderr(null()).spawn() else { return false };
    let st = c.wait();
    let _ = std::fs::remove_dir_all(target::scratch_root_of(c.id()));
    !matches!(st.ok().and_then(|s| s.code()), Some(0..=2))
}
/// Runs the check in a process of its own. Code under test that overflows the stack, exhausts the
/// memory or never returns takes that process down; the case it worked on is then the violation.
pub fn supervise<P: Prop>(p: &P) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("own path");
    let mut child = limited(&exe).args(["run", p.id()]).spawn().expect("spawn worker");
    let pid = child.id();
    let st = child.wait().expect("wait");
    if let Some(c @ 0..=2) = st.code() {
        return c;
    }
    let how = match (st.code(), st.signal()) {
        (Some(STUCK), _) => format!("does not come to an end within {CASE_LIMIT_S} s"),
        (_, Some(s)) => format!("kills the process (signal {s})"),
        (c, _) => format!("ends the process (status {c:?})"),
    };
    let root = target::scratch_root_of(pid);
    let mut found = None;
    let mut dirs: Vec<PathBuf> = std::fs::read_dir(&root).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    dirs.sort();
    for d in dirs {
        let f = d.join("case.json");
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) else { continue };
        let g = verif_dir().join("evidence/replay").join(format!("{}-died.json", p.id()));
        let _ = std::fs::create_dir_all(g.parent().unwrap());
        let dies = |case: &serde_json::Value| {
            let v = serde_json::json!({"property": p.id(), "why": how, "case": case});
            let _ = std::fs::write(&g, serde_json::to_string_pretty(&v).unwrap() + "\n");
            died(&exe, p.id(), &g)
        };
        if !dies(&v["case"]) {
            continue;
        }
        let mut best = v["case"].clone();
        if let (Some(no), None) = (v["no"].as_u64(), st.code()) {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut t = Tape::random(Rng::new(seed, hash_str(p.id()), no));
            if serde_json::to_value(p.gen(&mut t)).is_ok_and(|c| c == best) {
                let deadline = Instant::now() + std::time::Duration::from_secs(shrink_s());
                shrink(t.rec, 2000, |s| {
                    if Instant::now() > deadline {
                        return None;
                    }
                    let mut t = Tape::replay(s.to_vec());
                    let c = serde_json::to_value(p.gen(&mut t)).ok()?;
                    if !dies(&c) {
                        return None;
                    }
                    best = c;
                    Some(t.rec)
                });
                dies(&best);
            }
        }
        found = Some(g);
        break;
    }
    let _ = std::fs::remove_dir_all(&root);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let ev = serde_json::json!({
        "property": p.id(), "tier": if tier == "thorough" {"thorough"} else {"quick"},
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": found.is_some() as u64, "rule": p.rule(), "samples": [], "note": format!("the worker process died: a case {how}")},
        "assumptions": p.assumptions(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": found.is_some() as u64,
    });
    let _ = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    match found {
        Some(f) => {
            println!("  the case {how}");
            println!("VIOLATION property={} replay={}", p.id(), f.display());
            1
        }
        None => {
            println!("HARNESS-ERROR property={} a case {how}, but none of the stored ones does so again", p.id());
            2
        }
    }
}

fn write_replay<P: Prop>(p: &P, c: &P::Case, why: &str, tag: &str) -> PathBuf {
    let dir = verif_dir().join("evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}.json", p.id(), tag));
    let v = serde_json::json!({"property": p.id(), "why": why, "case": c});
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap() + "\n");
    f
}

/// Runs a property check; returns the process exit code.
pub fn run<P: Prop>(p: &P) -> i32 {
    let t0 = Instant::now();
    start_watchdog();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    if let Err(e) = p.prepare() {
        println!("HARNESS-ERROR property={} prepare: {e}", p.id());
        return 2;
    }
    let mut n = p.cases(thorough);
    if let Some(x) = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    let stream = hash_str(p.id());
    let mut violations: Vec<(String, PathBuf)> = vec![];
    let mut known: Vec<String> = vec![];
    let mut harness_errors: Vec<String> = vec![];

    // Pinned cases: known findings (reported, never alarming) and regressions of repaired defects.
    let kdir = verif_dir().join("known").join(p.id());
    for f in sorted_json(&kdir) {
        match load_case::<P>(&f) {
            Ok((c, what)) => match safe_check(p, &c) {
                Outcome::Fail(w) => known.push(format!("{} [{}]", if what.is_empty() { w } else { what }, f.display())),
                Outcome::Harness(e) => harness_errors.push(format!("{}: {e}", f.display())),
                _ => {}
            },
            Err(e) => harness_errors.push(e),
        }
    }
    let mut pinned = 0u64;
    let rdir = verif_dir().join("regress").join(p.id());
    for f in sorted_json(&rdir) {
        match load_case::<P>(&f) {
            Ok((c, _)) => {
                pinned += 1;
                match safe_check(p, &c) {
                    Outcome::Fail(w) => violations.push((w, f.clone())),
                    Outcome::Harness(e) => harness_errors.push(format!("{}: {e}", f.display())),
                    _ => {}
                }
            }
            Err(e) => harness_errors.push(e),
        }
    }

    let stats = Mutex::new(Stats::default());
    let fixed = p.fixed();
    let nfixed = fixed.len() as u64;
    let total = nfixed + n;
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
    let herr: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..p.threads() {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || i > first_fail.load(Ordering::SeqCst) {
                        return;
                    }
                    let (made, o);
                    CASE_NO.set(i.checked_sub(nfixed));
                    if i < nfixed {
                        o = safe_check(p, &fixed[i as usize]);
                        made = None;
                    } else {
                        let mut t = Tape::random(Rng::new(seed, stream, i - nfixed));
                        let c = p.gen(&mut t);
                        o = safe_check(p, &c);
                        made = Some(c);
                    }
                    let c = made.as_ref().unwrap_or_else(|| &fixed[i as usize]);
                    let mut s = stats.lock().unwrap();
                    s.evals += 1;
                    match o {
                        Outcome::Pass { nontrivial, labels } => {
                            for l in labels {
                                *s.labels.entry(l).or_default() += 1;
                            }
                            if nontrivial {
                                let h = hash_str(&serde_json::to_string(c).unwrap());
                                s.nontrivial.insert(h);
                                if s.samples.len() < 6 && i % 7 == 3 || s.samples.is_empty() {
                                    s.samples.insert(i, p.sample(c));
                                }
                            }
                        }
                        Outcome::Discard(d) => *s.discards.entry(d).or_default() += 1,
                        Outcome::Fail(w) => {
                            drop(s);
                            fails.lock().unwrap().insert(i, w);
                            first_fail.fetch_min(i, Ordering::SeqCst);
                        }
                        Outcome::Harness(e) => {
                            drop(s);
                            let mut h = herr.lock().unwrap();
                            if h.len() < 20 {
                                h.push(format!("case {i}: {e}; case: {}", serde_json::to_string(c).unwrap()));
                            }
                        }
                    }
                })
                .expect("spawn");
        }
    });
    harness_errors.extend(herr.into_inner().unwrap());
    if let Some((i, why)) = fails.into_inner().unwrap().into_iter().next() {
        if i < nfixed {
            let f = write_replay(p, &fixed[i as usize], &why, &format!("fixed{i}"));
            violations.push((why, f));
        } else {
            let (c, why) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || {
                        let mut t = Tape::random(Rng::new(seed, stream, i - nfixed));
                        let _ = p.gen(&mut t);
                        let deadline = Instant::now() + std::time::Duration::from_secs(shrink_s());
                        let (best, _) = shrink(t.rec, 4000, |s| {
                            if Instant::now() > deadline {
                                return None;
                            }
                            let mut t = Tape::replay(s.to_vec());
                            let c = p.gen(&mut t);
                            match safe_check(p, &c) {
                                Outcome::Fail(_) => Some(t.rec),
                                _ => None,
                            }
                        });
                        let mut t = Tape::replay(best);
                        let c = p.gen(&mut t);
                        match safe_check(p, &c) {
                            Outcome::Fail(w) => (c, w),
                            _ => {
                                let mut t = Tape::random(Rng::new(seed, stream, i - nfixed));
                                (p.gen(&mut t), why)
                            }
                        }
                    })
                    .expect("spawn")
                    .join()
                    .expect("shrinker")
            });
            let f = write_replay(p, &c, &why, &format!("seed{seed}-{}", i - nfixed));
            violations.push((why, f));
        }
    }
    let s = stats.into_inner().unwrap();
    let ev = serde_json::json!({
        "property": p.id(), "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.evals, "distinct_nontrivial": s.nontrivial.len(), "rule": p.rule(),
            "samples": s.samples.into_values().collect::<Vec<_>>(),
            "fixed_cases": nfixed, "pinned_regressions": pinned,
            "classes": s.labels, "discarded": s.discards,
        },
        "assumptions": p.assumptions(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let ed = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    let _ = std::fs::write(ed.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    for k in &known {
        println!("KNOWN-FINDING: property={} {k}", p.id());
    }
    for (why, f) in &violations {
        println!("  {why}");
        println!("VIOLATION property={} replay={}", p.id(), f.display());
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} pinned, {:.1}s",
        p.id(),
        s.evals,
        s.nontrivial.len(),
        pinned,
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
        println!("slowest case: {} ms", SLOWEST_MS.load(Ordering::Relaxed));
    }
    for e in &harness_errors {
        println!("HARNESS-ERROR property={} {e}", p.id());
    }
    if !violations.is_empty() {
        1
    } else if !harness_errors.is_empty() {
        2
    } else {
        0
    }
}

fn sorted_json(d: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(d)
        .map(|r| r.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn load_case<P: Prop>(f: &Path) -> Result<(P::Case, String), String> {
    let s = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
    let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| format!("{}: {e}", f.display()))?;
    let what = v["what"].as_str().unwrap_or("").to_string();
    let c = serde_json::from_value(v["case"].clone()).map_err(|e| format!("{}: {e}", f.display()))?;
    Ok((c, what))
}

/// Re-evaluates one stored case; a death of the process is the violation.
pub fn replay_supervised<P: Prop>(p: &P, f: &Path) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let mut c = limited(&exe).args(["replay-raw", p.id()]).arg(f).spawn().expect("spawn worker");
    let st = c.wait().expect("wait");
    if let Some(c @ 0..=2) = st.code() {
        return c;
    }
    let _ = std::fs::remove_dir_all(target::scratch_root_of(c.id()));
    println!("  the case ends the process ({st}) or runs for more than {CASE_LIMIT_S} s");
    println!("VIOLATION property={} replay={}", p.id(), f.display());
    1
}

/// Re-evaluates one stored case in this process.
pub fn replay<P: Prop>(p: &P, f: &Path) -> i32 {
    if let Err(e) = p.prepare() {
        println!("HARNESS-ERROR {e}");
        return 2;
    }
    let (c, _) = match load_case::<P>(f) {
        Ok(c) => c,
        Err(e) => {
            println!("HARNESS-ERROR {e}");
            return 2;
        }
    };
    start_watchdog();
    let o = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || safe_check(p, &c)).unwrap().join().unwrap()
    });
    match o {
        Outcome::Pass { nontrivial, labels } => {
            println!("holds (nontrivial: {nontrivial}, {labels:?})");
            0
        }
        Outcome::Discard(d) => {
            println!("outside the domain: {d}");
            0
        }
        Outcome::Fail(w) => {
            println!("  {w}");
            println!("VIOLATION property={} replay={}", p.id(), f.display());
            1
        }
        Outcome::Harness(e) => {
            println!("HARNESS-ERROR {e}");
            2
        }
    }
}
