//! Calls into the code under test, through its public API and its output files only.

use crate::circom::{self, CErr, Cache, Flat, Library};
use crate::model::Part;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

#[derive(Debug, Clone, PartialEq)]
pub enum Res<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Res<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Res::Ok(_) => "ok",
            Res::Err(_) => "err",
            Res::Panic(_) => "panic",
        }
    }
    pub fn msg(&self) -> String {
        match self {
            Res::Ok(_) => "ok".into(),
            Res::Err(e) => format!("error: {e}"),
            Res::Panic(e) => format!("panic: {e}"),
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SCRATCH: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
    static CACHE: RefCell<Cache> = RefCell::new(Cache::default());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// Runs `f`, turning a panic into `Res::Panic`.
pub fn guard<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Res::Ok(v),
        Ok(Err(e)) => Res::Err(e.to_string()),
        Err(_) => Res::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))
}
pub fn circom_root() -> PathBuf {
    repo().join("packages/circom")
}

pub fn scratch_root() -> PathBuf {
    scratch_root_of(std::process::id())
}
pub fn scratch_root_of(pid: u32) -> PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("vharness-{pid}"))
}
/// A scratch directory private to this thread.
pub fn scratch() -> PathBuf {
    SCRATCH.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            use std::sync::atomic::{AtomicUsize, Ordering};
            static N: AtomicUsize = AtomicUsize::new(0);
            let d = scratch_root().join(format!("t{}", N.fetch_add(1, Ordering::SeqCst)));
            std::fs::create_dir_all(&d).expect("scratch directory");
            *s = Some(d);
        }
        s.clone().unwrap()
    })
}
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch_root());
}

/// Everything one compilation wrote.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Output {
    pub circom: Option<String>,
    pub allstr: Option<String>,
    pub substrs: Vec<Option<String>>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Want {
    pub circom: bool,
    pub halo2: bool,
    pub gen_substrs: Option<bool>,
}
pub const BOTH: Want = Want { circom: true, halo2: true, gen_substrs: Some(true) };
pub const CIRCOM: Want = Want { circom: true, halo2: false, gen_substrs: Some(true) };
pub const HALO2: Want = Want { circom: false, halo2: true, gen_substrs: Some(true) };

pub const TEMPLATE: &str = "VerifRegex";
thread_local! {
    static NAME: RefCell<String> = RefCell::new(TEMPLATE.into());
}
/// The template name this thread asks the compiler for.
pub fn template() -> String {
    NAME.with(|n| n.borrow().clone())
}
/// Sets the template name until dropped.
pub struct Named;
impl Named {
    pub fn new(name: &str) -> Named {
        NAME.with(|n| *n.borrow_mut() = if name.is_empty() { TEMPLATE.into() } else { name.into() });
        Named
    }
}
impl Drop for Named {
    fn drop(&mut self) {
        NAME.with(|n| *n.borrow_mut() = TEMPLATE.into());
    }
}

fn fresh(dir: &std::path::Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let _ = std::fs::create_dir_all(dir);
}
fn collect(dir: &std::path::Path) -> Output {
    let rd = |n: String| std::fs::read(dir.join(n)).ok().map(|b| String::from_utf8_lossy(&b).into_owned());
    let mut o = Output { circom: rd("out.circom".into()), allstr: rd("allstr.txt".into()), substrs: vec![] };
    let mut i = 0;
    let mut gap = 0;
    while gap < 3 {
        let f = rd(format!("substr_{i}.txt"));
        if f.is_none() {
            gap += 1;
        } else {
            gap = 0;
        }
        o.substrs.push(f);
        i += 1;
    }
    while matches!(o.substrs.last(), Some(None)) {
        o.substrs.pop();
    }
    o
}

pub fn parts_json(parts: &[Part]) -> String {
    serde_json::json!({ "parts": parts }).to_string()
}

pub fn compile_decomposed(parts: &[Part], w: Want) -> Res<Output> {
    compile_decomposed_json(&parts_json(parts), w)
}
pub fn compile_decomposed_json(json: &str, w: Want) -> Res<Output> {
    let d = scratch().join("out");
    fresh(&d);
    let jp = scratch().join("in.json");
    std::fs::write(&jp, json).expect("scratch write");
    let r = guard(|| {
        zk_regex_compiler::gen_from_decomposed(
            jp.to_str().unwrap(),
            if w.halo2 { d.to_str() } else { None },
            if w.circom { Some(d.join("out.circom").to_str().unwrap().to_string()) } else { None }.as_deref(),
            if w.circom { Some(template()) } else { None }.as_deref(),
            w.gen_substrs,
        )
    });
    match r {
        Res::Ok(()) => Res::Ok(collect(&d)),
        Res::Err(e) => Res::Err(e),
        Res::Panic(e) => Res::Panic(e),
    }
}
/// `gen_circom_from_decomposed_regex` on a config value; also returns the config afterwards.
pub fn compile_value(parts: &[Part], gen_substrs: Option<bool>) -> (Res<Output>, Vec<Part>) {
    let d = scratch().join("out");
    fresh(&d);
    let mut cfg = zk_regex_compiler::DecomposedRegexConfig {
        parts: parts
            .iter()
            .map(|p| zk_regex_compiler::RegexPartConfig { is_public: p.is_public, regex_def: p.regex_def.clone() })
            .collect(),
    };
    let r = guard(|| {
        zk_regex_compiler::gen_circom_from_decomposed_regex(
            &mut cfg,
            Some(d.join("out.circom").to_str().unwrap()),
            Some(&template()),
            gen_substrs,
        )
    });
    let after = cfg.parts.iter().map(|p| Part { is_public: p.is_public, regex_def: p.regex_def.clone() }).collect();
    (
        match r {
            Res::Ok(()) => Res::Ok(collect(&d)),
            Res::Err(e) => Res::Err(e),
            Res::Panic(e) => Res::Panic(e),
        },
        after,
    )
}
pub fn compile_raw(regex: &str, transitions: Option<&[Vec<(usize, usize)>]>, w: Want) -> Res<Output> {
    let d = scratch().join("out");
    fresh(&d);
    let jp = scratch().join("substrs.json");
    if let Some(t) = transitions {
        std::fs::write(&jp, serde_json::json!({ "transitions": t }).to_string()).expect("scratch write");
    }
    let r = guard(|| {
        zk_regex_compiler::gen_from_raw(
            regex,
            transitions.map(|_| jp.to_str().unwrap()),
            if w.halo2 { d.to_str() } else { None },
            if w.circom { Some(d.join("out.circom").to_str().unwrap().to_string()) } else { None }.as_deref(),
            if w.circom { Some(template()) } else { None }.as_deref(),
            w.gen_substrs,
        )
    });
    match r {
        Res::Ok(()) => Res::Ok(collect(&d)),
        Res::Err(e) => Res::Err(e),
        Res::Panic(e) => Res::Panic(e),
    }
}

pub fn elaborate(src: &str, template: &str, n: usize) -> Result<Flat, CErr> {
    CACHE.with(|c| {
        let lib = Library::load_cached(src, &scratch(), &circom_root(), &mut c.borrow_mut())?;
        circom::elaborate(&lib, template, &[n as i128])
    })
}

pub fn to_inputs(msg: &[u8]) -> Vec<i128> {
    msg.iter().map(|b| *b as i128).collect()
}
