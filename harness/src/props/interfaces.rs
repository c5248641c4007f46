//! C16 wasm bindings, C17 totality and rejections of the compiler, C18 command line,
//! C19 determinism and agreement of the entry points.

use super::automata::{desc, short};
use super::circuits::{elab_t, pad, parse_substr, run, tri};
use super::extract::{config, header_case, idxes, named, substrs, Spans, EXTRACTORS};
use crate::engine::*;
use crate::gen::{self, Anchors};
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, guard, Res};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------------------------------ jobs

/// One request to the compiler, through whichever entry point.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Job {
    /// a raw regex, or the text of a decomposed definition file (None: the file does not exist)
    pub raw: bool,
    pub source: Option<String>,
    /// the substring definition file of a raw regex (Some(None): named but missing)
    pub substrs: Option<Option<String>>,
    pub halo2: bool,
    pub circom: bool,
    pub template: Option<String>,
    pub gen_substrs: Option<bool>,
}

fn arg_paths(job: &Job, d: &Path) -> (PathBuf, PathBuf, PathBuf, PathBuf) {
    let src = d.join("in.json");
    let sub = d.join("substrs.json");
    let out = d.join("out");
    let _ = std::fs::remove_file(&src);
    let _ = std::fs::remove_file(&sub);
    if !job.raw {
        if let Some(s) = &job.source {
            std::fs::write(&src, s).expect("scratch write");
        }
    }
    if let Some(Some(s)) = &job.substrs {
        std::fs::write(&sub, s).expect("scratch write");
    }
    let c = out.join("out.circom");
    (src, sub, out, c)
}
/// Every file of a directory, by name.
pub type Files = std::collections::BTreeMap<String, Vec<u8>>;
pub fn files_of(d: &Path) -> Files {
    let mut m = Files::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            if let Ok(b) = std::fs::read(e.path()) {
                m.insert(e.file_name().to_string_lossy().into_owned(), b);
            }
        }
    }
    m
}
fn wipe(d: &Path) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
    std::fs::create_dir_all(d).expect("scratch directory");
}
/// Runs the job through the library; `dirty` are files that are already in the output directory.
pub fn run_lib(job: &Job, dirty: &Files) -> (Res<()>, Files) {
    let d = target::scratch().join("lib");
    std::fs::create_dir_all(&d).expect("scratch directory");
    let (src, sub, out, circom) = arg_paths(job, &d);
    wipe(&out);
    for (n, b) in dirty {
        std::fs::write(out.join(n), b).expect("scratch write");
    }
    let h = if job.halo2 { out.to_str() } else { None };
    let c = if job.circom { circom.to_str() } else { None };
    let r = if job.raw {
        let raw = job.source.clone().unwrap_or_default();
        guard(|| {
            zk_regex_compiler::gen_from_raw(
                &raw,
                job.substrs.as_ref().map(|_| sub.to_str().unwrap()),
                h,
                c,
                job.template.as_deref(),
                job.gen_substrs,
            )
        })
    } else {
        guard(|| {
            zk_regex_compiler::gen_from_decomposed(src.to_str().unwrap(), h, c, job.template.as_deref(), job.gen_substrs)
        })
    };
    (r, files_of(&out))
}

/// The command-line program, built next to this one.
fn cli_path() -> PathBuf {
    std::env::current_exe().expect("own path").with_file_name("zk-regex")
}
pub struct CliOut {
    pub code: Option<i32>,
    pub stderr: String,
    pub files: Files,
}
/// Runs the job through the command line; `short` chooses the spelling of the flags.
pub fn run_cli(job: &Job, short: bool, dirty: &Files) -> Result<CliOut, String> {
    let d = target::scratch().join("cli");
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let (src, sub, out, circom) = arg_paths(job, &d);
    wipe(&out);
    for (n, b) in dirty {
        std::fs::write(out.join(n), b).expect("scratch write");
    }
    let mut a: Vec<String> = vec![];
    let mut opt = |s: &str, l: &str, v: String| {
        if short {
            a.push(format!("-{s}"));
            a.push(v);
        } else {
            a.push(format!("--{l}={v}"));
        }
    };
    let p = |p: &Path| p.to_str().unwrap().to_string();
    if job.raw {
        opt("r", "raw-regex", job.source.clone().unwrap_or_default());
        if job.substrs.is_some() {
            opt("s", "substrs-json-path", p(&sub));
        }
    } else {
        opt("d", "decomposed-regex-path", p(&src));
    }
    if job.halo2 {
        opt("h", "halo2-dir-path", p(&out));
    }
    if job.circom {
        opt("c", "circom-file-path", p(&circom));
    }
    if let Some(t) = &job.template {
        opt("t", "template-name", t.clone());
    }
    if let Some(g) = job.gen_substrs {
        opt("g", "gen-substrs", g.to_string());
    }
    a.insert(0, if job.raw { "raw".into() } else { "decomposed".into() });
    let o = Command::new(cli_path())
        .args(&a)
        .current_dir(&d)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("{}: {e}", cli_path().display()))?;
    Ok(CliOut {
        code: o.status.code(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
        files: files_of(&out),
    })
}

const NAMES: &[&str] = &["VerifRegex", "T", "Body_Hash2", "aB", "Regex123", "_x"];

fn def_json(t: &mut Tape, parts: &[Part]) -> String {
    // the same definition in several spellings of JSON
    let v = json!({ "parts": parts });
    match t.below(4) {
        0 => v.to_string(),
        1 => serde_json::to_string_pretty(&v).unwrap(),
        2 => {
            // other key order, further keys, escapes
            let ps: Vec<String> = parts
                .iter()
                .map(|p| {
                    let esc: String = p
                        .regex_def
                        .encode_utf16()
                        .map(|u| {
                            if (32..127).contains(&u) && u != 34 && u != 92 {
                                (u as u8 as char).to_string()
                            } else {
                                format!("\\u{u:04x}")
                            }
                        })
                        .collect();
                    format!("{{ \"regex_def\" : \"{esc}\" ,\n\t\"comment\": [1, {{}}], \"is_public\" : {} }}", p.is_public)
                })
                .collect();
            format!("{{\"note\": null, \"parts\": [ {} ], \"version\": 2}}\n", ps.join(" , "))
        }
        _ => json!({ "template_name": "Other", "parts": parts }).to_string(),
    }
}

/// A regex that no syntax accepts, by construction or by chance.
fn broken(t: &mut Tape, base: &str) -> String {
    let b = [
        "(", ")", "[", "[^", "a)(b", "a{", "*", "+a", "(?P<x", "(?P<x>a)(?P<x>b)", "\\", "[z-a]", "(?<", "a{3,1}", "(?:",
        "\\x{110000}", "\\p{Nope}", "a)|(b", "[[:nope:]]", "(?=a)", "a(?!b)", "\\1", "(?<=a)b", "a)?(b", "a|b)", "(a", "\\xg0",
        "(?z)a", "a)b", "x)|^(y",
    ];
    match t.below(3) {
        0 => t.pick(&b).to_string(),
        1 => format!("{base}{}", t.pick(&b)),
        _ => {
            let m = t.size(0, 8);
            (0..m)
                .map(|_| *t.pick(&['(', ')', '[', ']', '{', '}', '?', '*', '|', '\\', 'a', '1', ',', '^', '$', ':', '<', '=', '!', 'P', 'é']))
                .collect()
        }
    }
}

fn gen_job(t: &mut Tape) -> Job {
    let raw = t.chance(40);
    let parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 3);
    let regex: String = parts.iter().map(|p| p.regex_def.as_str()).collect();
    let source = if raw { regex } else { def_json(t, &parts) };
    let substrs = if raw && t.chance(60) {
        let k = t.size(0, 3);
        let tr: Vec<Vec<(usize, usize)>> =
            (0..k).map(|_| { let e = t.size(0, 3); (0..e).map(|_| { let a = t.size(0, 3); (a, a + 1) }).collect() }).collect();
        Some(Some(json!({ "transitions": tr }).to_string()))
    } else {
        None
    };
    let (halo2, circom) = *t.pick(&[(true, true), (false, true), (true, false), (true, true)]);
    Job {
        raw,
        source: Some(source),
        substrs,
        halo2,
        circom,
        template: if circom || t.chance(30) { Some(t.pick(NAMES).to_string()) } else { None },
        gen_substrs: *t.pick(&[None, Some(true), Some(false)]),
    }
}
/// Turns a good job into one that has to be refused (or at least may be).
fn spoil(t: &mut Tape, job: &mut Job) {
    match t.below(9) {
        0 => {
            if job.raw {
                let s = job.source.clone().unwrap_or_default();
                job.source = Some(broken(t, &s));
            } else {
                job.source = None;
            }
        }
        1 => {
            let s = job.source.clone().unwrap_or_default();
            if job.raw {
                job.source = Some(broken(t, &s));
            } else {
                let k = t.below(s.chars().count() as u64 + 1) as usize;
                job.source = Some(s.chars().take(k).collect());
            }
        }
        2 if !job.raw => {
            job.source = Some(
                t.pick(&[
                    "{}", "[]", "null", "", "{\"parts\":[]}", "{\"parts\":{}}", "{\"parts\":[{}]}",
                    "{\"parts\":[{\"is_public\":true}]}", "{\"parts\":[{\"regex_def\":\"a\"}]}",
                    "{\"parts\":[{\"is_public\":1,\"regex_def\":\"a\"}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":7}]}",
                    "{\"parts\":null}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"}]",
                ])
                .to_string(),
            );
        }
        2 => {
            job.substrs = Some(match t.below(4) {
                0 => None,
                1 => Some("{\"transitions\":[[[0,1]]".into()),
                2 => Some("{\"transitions\":[[[0]]]}".into()),
                _ => Some(t.pick(&["{}", "[]", "{\"transitions\":[[[-1,2]]]}", "{\"transitions\":3}"]).to_string()),
            });
        }
        3 => {
            job.circom = true;
            job.template = None;
        }
        _ => {
            // decomposed: spoil one part
            let al = gen::alphabet(t, 50);
            let n = t.size(1, 4);
            let mut parts: Vec<Part> =
                (0..n).map(|_| Part { is_public: t.chance(50), regex_def: gen::regex(t, &al, 1, gen::SMALL) }).collect();
            let i = t.below(n as u64) as usize;
            match t.below(6) {
                0 | 1 => parts[i].regex_def = broken(t, &parts[i].regex_def.clone()),
                2 => parts[i].regex_def += "$",
                3 => parts[i].regex_def = t.pick(&["[a&&b]", "\\b\\B", "a$b", "[^\\s\\S]", "$a"]).to_string(),
                4 => parts[n - 1].regex_def = t.pick(&["a*", "a|ab", "(ab?)c*", "a+b*", "ab?", "(a|bc*)"]).to_string(),
                _ => {
                    // valid only next to each other
                    let j = t.below(n as u64) as usize;
                    parts[i].regex_def = format!("{}(", parts[i].regex_def);
                    parts[j].regex_def = format!("){}", parts[j].regex_def);
                }
            }
            if job.raw {
                job.source = Some(parts.iter().map(|p| p.regex_def.as_str()).collect());
            } else {
                job.source = Some(json!({ "parts": parts }).to_string());
            }
        }
    }
}

#[derive(Debug, PartialEq)]
enum Verdict {
    /// must be compiled
    Good,
    /// must be refused
    Bad(&'static str),
    /// either
    Open,
}
/// The automaton of a part is out of proportion (the construction is exponential by nature).
fn huge(parts: &[Part]) -> bool {
    parts.iter().enumerate().any(|(i, p)| {
        parse(&p.regex_def).is_ok()
            && [false, true].iter().any(|e| {
                let lo = LookOpts { caret_is_sot: i == 0, drop_end: *e };
                nfa_of(&p.regex_def, lo).and_then(|n| n.dfa(MAX_DFA)).is_err_and(|e| e.contains("too large"))
            })
    })
}
fn huge_job(job: &Job) -> bool {
    let s = job.source.as_deref().unwrap_or("");
    if job.raw {
        huge(&[Part { is_public: false, regex_def: s.into() }])
    } else {
        parse_parts(s).is_some_and(|p| huge(&p))
    }
}
fn parse_parts(s: &str) -> Option<Vec<Part>> {
    #[derive(Deserialize)]
    struct D {
        parts: Vec<Part>,
    }
    serde_json::from_str::<D>(s).ok().map(|d| d.parts)
}
/// Whether a text is a configuration, in either spelling of the keys.
fn is_config(s: &str) -> bool {
    #[derive(Deserialize)]
    #[allow(dead_code)]
    struct P {
        #[serde(alias = "isPublic")]
        is_public: bool,
        #[serde(alias = "regexDef")]
        regex_def: String,
    }
    #[derive(Deserialize)]
    #[allow(dead_code)]
    struct D {
        parts: Vec<P>,
    }
    serde_json::from_str::<D>(s).is_ok()
}
/// What the documentation says about a request.
fn verdict(job: &Job) -> Verdict {
    if job.circom && job.template.is_none() {
        return Verdict::Bad("no template name");
    }
    match &job.substrs {
        Some(None) => return Verdict::Bad("missing substring file"),
        Some(Some(s)) if job.raw => {
            #[derive(Deserialize)]
            struct D {
                #[allow(dead_code)]
                transitions: Vec<Vec<(usize, usize)>>,
            }
            if serde_json::from_str::<D>(s).is_err() {
                return Verdict::Bad("malformed substring file");
            }
        }
        _ => {}
    }
    let parts = if job.raw {
        vec![Part { is_public: false, regex_def: job.source.clone().unwrap_or_default() }]
    } else {
        match &job.source {
            None => return Verdict::Bad("missing definition file"),
            Some(s) => match parse_parts(s) {
                Some(p) => p,
                None => return Verdict::Bad("malformed definition"),
            },
        }
    };
    if parts.is_empty() {
        return Verdict::Bad("no parts");
    }
    if parts.iter().any(|p| parse(&p.regex_def).is_err()) {
        return Verdict::Bad("a part is not a regex");
    }
    if parts[..parts.len() - 1].iter().any(|p| has_end_anchor(&p.regex_def)) {
        return Verdict::Bad("end anchor before the last part");
    }
    // an end anchor elsewhere than at the very end is undocumented
    let tidy = parts.iter().all(|p| p.regex_def.matches('$').count() == has_end_anchor(&p.regex_def) as usize);
    let no_sot = parts.iter().all(|p| caret_of(&p.regex_def) == Caret::None);
    if no_sot {
        for (i, p) in parts.iter().enumerate() {
            let lo = LookOpts { caret_is_sot: false, drop_end: i + 1 == parts.len() && has_end_anchor(&p.regex_def) };
            if let Ok(d) = nfa_of(&p.regex_def, lo).and_then(|n| n.dfa(MAX_DFA)) {
                if d.is_empty_language() {
                    return if job.circom || job.halo2 { Verdict::Bad("a part matches nothing") } else { Verdict::Open };
                }
            }
        }
        if job.raw && tidy {
            let lo = LookOpts { caret_is_sot: false, drop_end: has_end_anchor(&parts[0].regex_def) };
            if let Ok(d) = nfa_of(&parts[0].regex_def, lo).and_then(|n| n.dfa(MAX_DFA)) {
                if d.n_accept() > 1 && (job.circom || job.halo2) {
                    return Verdict::Bad("several accepting states");
                }
            }
        }
    }
    match Model::new(&parts) {
        Ok(m) if tidy => {
            if m.in_domain().is_ok() {
                Verdict::Good
            } else if m.in_domain() == Err("several accepting states") && m.dfa.n_accept() > 1 && (job.circom || job.halo2) {
                Verdict::Bad("several accepting states")
            } else {
                Verdict::Open
            }
        }
        _ => Verdict::Open,
    }
}

fn describe(job: &Job) -> String {
    format!(
        "{} {:?}{}{}{}{}{}",
        if job.raw { "raw regex" } else { "definition" },
        job.source,
        match &job.substrs {
            Some(s) => format!(", substrings {s:?}"),
            None => String::new(),
        },
        if job.halo2 { ", halo2" } else { "" },
        if job.circom { ", circom" } else { "" },
        match &job.template {
            Some(s) => format!(", template {s}"),
            None => String::new(),
        },
        match job.gen_substrs {
            Some(s) => format!(", substrings {s}"),
            None => String::new(),
        },
    )
}

// ------------------------------------------------------------------------------ C17

pub struct C17;
#[derive(Serialize, Deserialize, Clone)]
pub struct C17Case {
    pub job: Job,
    /// what the output files hold before
    pub dirty: bool,
}
fn dirt(job: &Job) -> Files {
    let mut m = Files::new();
    let junk = "previous content line\n".repeat(5000).into_bytes();
    if job.halo2 {
        for n in ["allstr.txt", "substr_0.txt", "substr_1.txt", "substr_2.txt"] {
            m.insert(n.into(), junk.clone());
        }
    }
    if job.circom {
        m.insert("out.circom".into(), junk);
    }
    m
}
impl Prop for C17 {
    type Case = C17Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "compile requests (decomposed files and raw regexes, all options) of which half are spoilt: missing and malformed files, no parts, syntax errors in every position, parts that are regexes only when joined, misplaced end anchors, empty languages, several accepting states, missing template name. The call never panics, a request of the documented domain succeeds, an invalid one is an error and leaves the output files as they were. Non-trivial: a request that has to be refused, or a good one over existing files"
    }
    fn gen(&self, t: &mut Tape) -> C17Case {
        let mut job = gen_job(t);
        if t.chance(55) {
            spoil(t, &mut job);
        }
        C17Case { job, dirty: t.chance(50) }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            600_000
        } else {
            30_000
        }
    }
    fn check(&self, c: &C17Case) -> Outcome {
        if huge_job(&c.job) {
            return discard("huge automaton");
        }
        let dirty = if c.dirty { dirt(&c.job) } else { Files::new() };
        let (r, files) = run_lib(&c.job, &dirty);
        let what = describe(&c.job);
        let v = verdict(&c.job);
        match (&r, &v) {
            (Res::Panic(p), _) => Outcome::Fail(format!("{what}: panic: {p}")),
            (Res::Ok(()), Verdict::Bad(w)) => Outcome::Fail(format!("{what}: compiled although it is invalid ({w})")),
            (Res::Err(e), Verdict::Good) => Outcome::Fail(format!("{what}: refused: {e}")),
            (Res::Err(_), Verdict::Bad(w)) => {
                // a missing template name or a bad path shows only when the files are written
                if *w != "no template name" && files != dirty {
                    return Outcome::Fail(format!("{what}: refused ({w}) but output files were written"));
                }
                pass_l(true, vec![w])
            }
            (Res::Ok(()), _) => {
                if c.job.circom && !files.contains_key("out.circom") || c.job.halo2 && !files.contains_key("allstr.txt") {
                    return Outcome::Fail(format!("{what}: succeeded without writing its output"));
                }
                pass_l(c.dirty && v == Verdict::Good, vec![if v == Verdict::Good { "compiled" } else { "open: compiled" }])
            }
            (Res::Err(_), Verdict::Open) => pass_l(false, vec!["open: refused"]),
        }
    }
}

// ------------------------------------------------------------------------------ C18

pub struct C18;
#[derive(Serialize, Deserialize, Clone)]
pub struct C18Case {
    pub job: Job,
    pub short: bool,
    pub dirty: bool,
}
impl Prop for C18 {
    type Case = C18Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "compile requests, a third of them invalid, run through the zk-regex program (short or long flags, in a process of its own) and through the library; the program exits 0 exactly when the library succeeds, otherwise with a non-zero status and a message on stderr, and the files it leaves are byte for byte those of the library. Non-trivial: files were written, or the request was refused"
    }
    fn gen(&self, t: &mut Tape) -> C18Case {
        let mut job = gen_job(t);
        if t.chance(30) {
            spoil(t, &mut job);
        }
        // arguments cannot hold a NUL, and a value may not look like a flag
        if job.raw {
            let s = job.source.clone().unwrap_or_default().replace('\0', "");
            job.source = Some(s);
        }
        let dash = job.raw && job.source.as_deref().is_some_and(|s| s.starts_with('-'));
        C18Case { short: !dash && t.chance(50), job, dirty: t.chance(40) }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            200_000
        } else {
            12_000
        }
    }
    fn prepare(&self) -> Result<(), String> {
        if cli_path().is_file() {
            Ok(())
        } else {
            Err(format!("{} is not built", cli_path().display()))
        }
    }
    fn check(&self, c: &C18Case) -> Outcome {
        if c.job.raw && c.job.source.as_deref().is_none_or(|s| s.contains('\0') || s.is_empty()) {
            return discard("not expressible as an argument");
        }
        if huge_job(&c.job) {
            return discard("huge automaton");
        }
        let dirty = if c.dirty { dirt(&c.job) } else { Files::new() };
        let (lib, want) = run_lib(&c.job, &dirty);
        let o = match run_cli(&c.job, c.short, &dirty) {
            Ok(o) => o,
            Err(e) => return Outcome::Harness(e),
        };
        let what = describe(&c.job);
        let say = || format!("{what}: zk-regex exits with {:?} ({})", o.code, short(&o.stderr));
        match (&lib, o.code) {
            (_, None) => return Outcome::Fail(format!("{}: ended by a signal", say())),
            (Res::Ok(()), Some(0)) => {}
            (Res::Ok(()), _) => return Outcome::Fail(format!("{} although the library succeeds", say())),
            (_, Some(0)) => return Outcome::Fail(format!("{} although the library gives {}", say(), lib.msg())),
            (_, Some(_)) => {
                if o.stderr.trim().is_empty() {
                    return Outcome::Fail(format!("{} without a message", say()));
                }
            }
        }
        if o.files != want {
            let n = want.keys().chain(o.files.keys()).find(|n| want.get(*n) != o.files.get(*n)).unwrap();
            return Outcome::Fail(format!(
                "{what}: file {n} is {} by the program and {} by the library",
                size(o.files.get(n)),
                size(want.get(n))
            ));
        }
        let mut l = vec![lib.kind(), if c.job.raw { "raw" } else { "decomposed" }];
        if c.short {
            l.push("short flags")
        }
        pass_l(want != dirty || lib.kind() != "ok", l)
    }
}
fn size(f: Option<&Vec<u8>>) -> String {
    match f {
        Some(b) => format!("{} bytes", b.len()),
        None => "absent".into(),
    }
}

// ------------------------------------------------------------------------------ C19

pub struct C19;
#[derive(Serialize, Deserialize, Clone)]
pub struct C19Case {
    pub parts: Vec<Part>,
    pub spelling: String,
    pub template: String,
    pub n: usize,
    pub msgs: Vec<Vec<u8>>,
}
impl Prop for C19 {
    type Case = C19Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "random configurations compiled repeatedly: again over the first result, from another spelling of the same JSON, from a configuration value, with the outputs requested separately, with the default option values, in another process. The files must be byte-identical each time and fully replace older ones; without substrings the table is the same and the circuit has the same `out` and no reveals. Non-trivial: all of it compiled and the configuration has a public part"
    }
    fn gen(&self, t: &mut Tape) -> C19Case {
        let parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 4);
        let spelling = def_json(t, &parts);
        let mut msgs = vec![];
        if let Ok(m) = Model::new(&parts) {
            let pool = gen::byte_pool(&m.dfa);
            for _ in 0..4 {
                msgs.push(gen::message(t, &m.dfa, &pool, 16));
            }
        }
        let n = msgs.iter().map(|m| m.len()).max().unwrap_or(0).max(1);
        C19Case { parts, spelling, template: t.pick(NAMES).to_string(), n, msgs }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            80_000
        } else {
            4_000
        }
    }
    fn sample(&self, c: &C19Case) -> Value {
        json!({"parts": desc(&c.parts), "spelling": c.spelling, "messages": c.msgs.iter().map(|m| show(m)).collect::<Vec<_>>()})
    }
    fn prepare(&self) -> Result<(), String> {
        C18.prepare()
    }
    fn check(&self, c: &C19Case) -> Outcome {
        let what = desc(&c.parts);
        if huge(&c.parts) {
            return discard("huge automaton");
        }
        let job = Job {
            raw: false,
            source: Some(json!({ "parts": c.parts }).to_string()),
            substrs: None,
            halo2: true,
            circom: true,
            template: Some(c.template.clone()),
            gen_substrs: Some(true),
        };
        let (r, base) = run_lib(&job, &Files::new());
        if let Res::Panic(p) = r {
            return Outcome::Fail(format!("{what}: panic: {p}"));
        }
        let ok = r.kind() == "ok";
        let same = |how: &str, r: &Res<()>, files: &Files, keep: &dyn Fn(&str) -> bool| -> Result<(), Outcome> {
            if (r.kind() == "ok") != ok {
                return Err(Outcome::Fail(format!("{what}: {how}: {} instead of {}", r.msg(), if ok { "ok" } else { "an error" })));
            }
            if !ok {
                return Ok(());
            }
            let want: Files = base.iter().filter(|(k, _)| keep(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            if *files != want {
                let n = want.keys().chain(files.keys()).find(|n| want.get(*n) != files.get(*n)).unwrap();
                let at = match (want.get(n), files.get(n)) {
                    (Some(a), Some(b)) => format!("differs at byte {}", a.iter().zip(b).take_while(|(a, b)| a == b).count()),
                    (a, b) => format!("is {} instead of {}", size(b), size(a)),
                };
                return Err(Outcome::Fail(format!("{what}: {how}: file {n} {at}")));
            }
            Ok(())
        };
        let all = |_: &str| true;
        // again, over the first result with something longer in its place
        let mut dirty = Files::new();
        for (k, v) in &base {
            dirty.insert(k.clone(), [v.clone(), b"\nleftover 1 2 3\n".repeat(50)].concat());
        }
        let (r2, f2) = run_lib(&job, &dirty);
        if ok {
            tri!(same("compiled a second time over longer files", &r2, &f2, &all));
        }
        // another spelling
        let j = Job { source: Some(c.spelling.clone()), ..job.clone() };
        let (r3, f3) = run_lib(&j, &Files::new());
        tri!(same("compiled from another spelling of the JSON", &r3, &f3, &all));
        // outputs on their own
        for (h, ci) in [(true, false), (false, true)] {
            let j = Job { halo2: h, circom: ci, ..job.clone() };
            let (r, f) = run_lib(&j, &Files::new());
            let keep = |n: &str| if n.ends_with(".circom") { ci } else { h };
            if ok {
                tri!(same(if h { "halo2 tables alone" } else { "circom alone" }, &r, &f, &keep));
            }
        }
        // from a value
        let d = target::scratch().join("value");
        wipe(&d);
        let mut cfg = zk_regex_compiler::DecomposedRegexConfig {
            parts: c
                .parts
                .iter()
                .map(|p| zk_regex_compiler::RegexPartConfig { is_public: p.is_public, regex_def: p.regex_def.clone() })
                .collect(),
        };
        let only_circom = |n: &str| n.ends_with(".circom");
        let rv = guard(|| {
            zk_regex_compiler::gen_circom_from_decomposed_regex(
                &mut cfg,
                d.join("out.circom").to_str(),
                Some(&c.template),
                Some(true),
            )
        });
        if ok {
            tri!(same("compiled from a configuration value", &rv, &files_of(&d), &only_circom));
        } else if rv.kind() == "panic" {
            return Outcome::Fail(format!("{what}: from a configuration value: {}", rv.msg()));
        }
        if !ok {
            return pass_l(false, vec!["refused"]);
        }
        // in another process
        match run_cli(&job, true, &Files::new()) {
            Ok(o) => {
                let r = if o.code == Some(0) { Res::Ok(()) } else { Res::Err(o.stderr.clone()) };
                tri!(same("compiled by another process", &r, &o.files, &all));
            }
            Err(e) => return Outcome::Harness(e),
        }
        // without substrings: the default of decomposed definitions
        let (r0, f0) = run_lib(&Job { gen_substrs: Some(false), ..job.clone() }, &Files::new());
        let (r1, f1) = run_lib(&Job { gen_substrs: None, ..job.clone() }, &Files::new());
        if r0.kind() != "ok" || r1.kind() != "ok" {
            return Outcome::Fail(format!("{what}: without substrings: {} and by default {}", r0.msg(), r1.msg()));
        }
        if f0 != f1 {
            return Outcome::Fail(format!("{what}: the default for decomposed definitions is not `no substrings`"));
        }
        let rv0 = guard(|| {
            zk_regex_compiler::gen_circom_from_decomposed_regex(&mut cfg, d.join("out.circom").to_str(), Some(&c.template), None)
        });
        if rv0.kind() != "ok" || files_of(&d).get("out.circom") != f0.get("out.circom") {
            return Outcome::Fail(format!(
                "{what}: the default for a configuration value is not `no substrings`: {}",
                rv0.msg()
            ));
        }
        // the default of raw regexes is with substrings, whether or not any are defined
        for substrs in [None, Some(Some(r#"{"transitions":[[[0,1]]]}"#.to_string()))] {
            let raw = |g: Option<bool>| {
                let j = Job {
                    raw: true,
                    source: Some(c.parts.iter().map(|p| p.regex_def.as_str()).collect()),
                    substrs: substrs.clone(),
                    gen_substrs: g,
                    ..job.clone()
                };
                let (r, f) = run_lib(&j, &Files::new());
                (r.kind(), if r.kind() == "ok" { f } else { Files::new() })
            };
            if raw(None) != raw(Some(true)) {
                return Outcome::Fail(format!("{what}: joined as a raw regex, with definitions {substrs:?}: the default is not `with substrings`"));
            }
        }
        if f0.get("allstr.txt") != base.get("allstr.txt") {
            return Outcome::Fail(format!("{what}: allstr.txt depends on whether substrings are generated"));
        }
        if f0.keys().any(|k| k.starts_with("substr_")) {
            return Outcome::Fail(format!("{what}: substring files although none were asked for"));
        }
        if !Model::new(&c.parts).is_ok_and(|m| m.in_domain().is_ok()) {
            return pass_l(false, vec!["compiled outside the domain"]);
        }
        let text = |f: &Files| f.get("out.circom").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
        let a = tri!(elab_t(&what, &text(&base), &c.template, c.n));
        let b = tri!(elab_t(&what, &text(&f0), &c.template, c.n));
        let mut accepted = false;
        for m in &c.msgs {
            if m.len() > c.n {
                continue;
            }
            let inp = pad(m, c.n);
            let (x, y) = (tri!(run(&what, &a, &inp)), tri!(run(&what, &b, &inp)));
            if x.out != y.out {
                return Outcome::Fail(format!(
                    "{what}: message {:?}: out={} with substrings, {} without",
                    show(m),
                    x.out,
                    y.out
                ));
            }
            if !y.reveals.is_empty() || x.reveals.len() != c.parts.iter().filter(|p| p.is_public).count() {
                return Outcome::Fail(format!(
                    "{what}: {} reveals with substrings, {} without",
                    x.reveals.len(),
                    y.reveals.len()
                ));
            }
            accepted |= x.out == 1;
        }
        pass_l(c.parts.iter().any(|p| p.is_public), vec![if accepted { "accepted" } else { "not accepted" }])
    }
}

// ------------------------------------------------------------------------------ C16

struct Node {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn target_dir() -> PathBuf {
    // <target>/debug/vharness
    std::env::current_exe().expect("own path").parent().unwrap().parent().unwrap().to_path_buf()
}
fn bindings() -> PathBuf {
    target_dir().join("wasm/bindings")
}
#[derive(Debug)]
enum Js {
    Ok(Value),
    Thrown(String),
}
fn call(pkg: &str, f: &str, args: Value) -> Result<Js, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let mut child = Command::new("bash")
                // node reserves more address space than the workers are allowed
                .args(["-c", "ulimit -S -v unlimited; exec node \"$0\" \"$@\""])
                .arg(verif_dir().join("harness/wasm/server.js"))
                .arg(bindings())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("node: {e}"))?;
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            *n = Some(Node { child, inp, out });
        }
        let node = n.as_mut().unwrap();
        let line = json!({"pkg": pkg, "fn": f, "args": args}).to_string() + "\n";
        let r = node.inp.write_all(line.as_bytes()).and_then(|_| node.inp.flush()).and_then(|_| {
            let mut s = String::new();
            node.out.read_line(&mut s).map(|k| (k, s))
        });
        match r {
            Ok((k, s)) if k > 0 => {
                let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                if let Some(m) = v.get("missing") {
                    return Err(format!("the package has no function {m}"));
                }
                match v.get("err") {
                    Some(e) => Ok(Js::Thrown(e.as_str().unwrap_or("").to_string())),
                    None => Ok(Js::Ok(v["ok"].clone())),
                }
            }
            _ => {
                *n = None;
                Err("node ended".into())
            }
        }
    })
}

#[derive(Serialize, Deserialize, Clone)]
pub enum C16Case {
    Decomposed { parts: Vec<Part>, template: String },
    Raw { regex: String, transitions: Vec<Vec<(usize, usize)>>, template: String },
    Text { json: String },
    /// `far` bytes of filler are put in front of the texts.
    Extract {
        parts: Vec<Part>,
        texts: Vec<String>,
        form: u8,
        #[serde(default)]
        far: usize,
    },
    Named {
        kind: String,
        text: String,
        #[serde(default)]
        far: usize,
    },
    Pad { text: String, extra: usize },
}

const JS_NAMES: &[(&str, &str)] = &[
    ("email_addr", "extractEmailAddrIdxes"),
    ("email_domain", "extractEmailDomainIdxes"),
    ("from_all", "extractFromAllIdxes"),
    ("from_addr", "extractFromAddrIdxes"),
    ("to_all", "extractToAllIdxes"),
    ("to_addr", "extractToAddrIdxes"),
    ("subject_all", "extractSubjectAllIdxes"),
    ("body_hash", "extractBodyHashIdxes"),
    ("timestamp", "extractTimestampIdxes"),
    ("message_id", "extractMessageIdIdxes"),
];

pub struct C16;
fn js_config(parts: &[Part], form: u8) -> Value {
    let alias = form % 2 == 1;
    let v = json!({"parts": parts.iter().map(|p| if alias {
        json!({"isPublic": p.is_public, "regexDef": p.regex_def})
    } else {
        json!({"is_public": p.is_public, "regex_def": p.regex_def})
    }).collect::<Vec<_>>()});
    if form >= 2 {
        Value::String(v.to_string())
    } else {
        v
    }
}
/// `want` against what the bindings gave.
fn agree(what: &str, want: &Res<Value>, got: &Js) -> Result<(), Outcome> {
    match (want, got) {
        (Res::Ok(w), Js::Ok(g)) if w == g => Ok(()),
        (Res::Ok(w), Js::Ok(g)) => {
            let (w, g) = (w.to_string(), g.to_string());
            let at = w.chars().zip(g.chars()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| s.chars().skip(at.saturating_sub(20)).take(60).collect::<String>();
            Err(Outcome::Fail(format!("{what}: the binding gives ..{:?}.. instead of ..{:?}..", cut(&g), cut(&w))))
        }
        (Res::Ok(_), Js::Thrown(e)) => Err(Outcome::Fail(format!("{what}: the binding throws {e:?}, the library succeeds"))),
        (r, Js::Ok(_)) => Err(Outcome::Fail(format!("{what}: the binding succeeds, the library gives {}", r.msg()))),
        (_, Js::Thrown(_)) => Ok(()),
    }
}
macro_rules! js {
    ($p:expr, $f:expr, $a:expr) => {
        match call($p, $f, $a) {
            Ok(v) => v,
            Err(e) => return Outcome::Harness(format!("{}: {e}", $f)),
        }
    };
}
/// The size of a filler: rarely as long as to push positions over 16 bits.
fn far(t: &mut Tape) -> usize {
    if t.chance(1) {
        65_500 + t.size(0, 100)
    } else {
        0
    }
}
impl Prop for C16 {
    type Case = C16Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "calls of every function of the two wasm packages, run by node, against the same request to the native library: circuits of decomposed and raw regexes with random template names (byte-identical text), the automaton description (the same transitions, accepting state, substring transitions and end anchor as the written tables), substring extraction with configurations as object or JSON text in both spellings of the keys, the named extractors on constructed headers, padding, and malformed configurations; an error on one side is an error on the other. Non-trivial: both sides succeeded"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["node and wasm-bindgen run the packages as a user's bundler would"]
    }
    fn gen(&self, t: &mut Tape) -> C16Case {
        match t.weighted(&[30, 14, 6, 30, 14, 6]) {
            0 => {
                let mut parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 3);
                if t.chance(15) {
                    let i = t.below(parts.len() as u64) as usize;
                    parts[i].regex_def = broken(t, &parts[i].regex_def.clone());
                }
                C16Case::Decomposed { parts, template: t.pick(NAMES).to_string() }
            }
            1 => {
                let parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 3);
                let mut regex: String = parts.iter().map(|p| p.regex_def.as_str()).collect();
                if t.chance(15) {
                    regex = broken(t, &regex);
                }
                // white space at the ends is part of the regex
                if t.chance(12) {
                    regex = format!("{}{regex}{}", t.pick(&["", " ", "\n", "\t "]), t.pick(&["", " ", "\r\n", "\n"]));
                }
                let k = t.size(0, 3);
                let transitions = (0..k)
                    .map(|_| {
                        let e = t.size(0, 3);
                        (0..e)
                            .map(|_| {
                                let a = t.size(0, 3);
                                (a, a + 1)
                            })
                            .collect()
                    })
                    .collect();
                C16Case::Raw { regex, transitions, template: t.pick(NAMES).to_string() }
            }
            2 => {
                let parts = gen::parts(t, Anchors::None, gen::SMALL);
                let s = def_json(t, &parts);
                let k = t.below(s.chars().count() as u64 + 1) as usize;
                let json = match t.below(4) {
                    0 => s,
                    1 => s.chars().take(k).collect(),
                    2 => s.replace("is_public", "isPublic").replace("regex_def", "regexDef"),
                    _ => t.pick(&["{}", "[]", "null", "", "{\"parts\":[]}", "{\"parts\":[{}]}",
                        "{\"parts\":[{\"regex_def\":\"a\"}]}", "{\"parts\":[{\"is_public\":true}]}", "{\"parts\":[{\"isPublic\":null,\"regexDef\":\"a\"}]}",
                        "{\"parts\":[{\"is_public\":true,\"regex_def\":null}]}", "{\"parts\":{\"is_public\":true,\"regex_def\":\"a\"}}", "{\"part\":[]}", "{\"parts\":[{\"is_public\":1,\"regex_def\":\"a\"}]}"]).to_string(),
                };
                C16Case::Text { json }
            }
            3 => {
                let al = gen::alphabet(t, 100);
                let mut parts: Vec<Part> = if t.chance(50) {
                    let n = t.size(1, 4);
                    (0..n).map(|_| Part { is_public: t.chance(60), regex_def: gen::regex(t, &al, 2, gen::SMALL) }).collect()
                } else {
                    gen::parts(t, Anchors::Any, gen::SMALL)
                };
                if t.chance(12) {
                    let i = t.below(parts.len() as u64) as usize;
                    parts[i].regex_def = broken(t, &parts[i].regex_def.clone());
                }
                let m = Model::new(&parts).ok();
                let texts = super::extract::gen_texts(t, m.as_ref(), 4);
                C16Case::Extract { parts, texts, form: t.below(4) as u8, far: far(t) }
            }
            4 => {
                let kind = *t.pick(EXTRACTORS);
                C16Case::Named { kind: kind.into(), text: header_case(t, kind).text, far: far(t) }
            }
            _ => {
                let n = t.size(0, 30);
                let text = (0..n).map(|_| *t.pick(&['a', 'Z', '0', ' ', '\0', '\n', 'é', '末', '😀', '\u{10ffff}'])).collect();
                C16Case::Pad { text, extra: if t.chance(4) { 65_500 + t.size(0, 100) } else { t.size(0, 100) } }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            300_000
        } else {
            12_000
        }
    }
    fn prepare(&self) -> Result<(), String> {
        let run = |c: &mut Command| -> Result<(), String> {
            let o = c.stdin(Stdio::null()).output().map_err(|e| format!("{c:?}: {e}"))?;
            if o.status.success() {
                Ok(())
            } else {
                Err(format!("{c:?}: {}", String::from_utf8_lossy(&o.stderr)))
            }
        };
        run(Command::new("cargo")
            .args(["build", "--offline", "-p", "zk-regex-compiler", "-p", "zk-regex-apis", "--lib"])
            .args(["--target", "wasm32-unknown-unknown", "--target-dir"])
            .arg(target_dir().join("wasm"))
            .current_dir(verif_dir().join("harness")))?;
        for p in ["compiler", "apis"] {
            run(Command::new(std::env::var("WASM_BINDGEN").unwrap_or("/opt/vp/tools/bin/wasm-bindgen".into()))
                .args(["--target", "nodejs", "--out-dir"])
                .arg(bindings())
                .arg(target_dir().join(format!("wasm/wasm32-unknown-unknown/debug/zk_regex_{p}.wasm"))))?;
        }
        Ok(())
    }
    fn check(&self, c: &C16Case) -> Outcome {
        let circom = |files: Files| Value::String(files.get("out.circom").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default());
        match c {
            C16Case::Decomposed { parts, template } => {
                let what = format!("{} as {template}", desc(parts));
                if huge(parts) {
                    return discard("huge automaton");
                }
                let text = json!({ "parts": parts });
                let job = Job {
                    raw: false,
                    source: Some(text.to_string()),
                    substrs: None,
                    halo2: false,
                    circom: true,
                    template: Some(template.clone()),
                    gen_substrs: Some(true),
                };
                let (r, f) = run_lib(&job, &Files::new());
                let want = match r {
                    Res::Ok(()) => Res::Ok(circom(f)),
                    Res::Err(e) => Res::Err(e),
                    Res::Panic(e) => return Outcome::Fail(format!("{what}: panic: {e}")),
                };
                tri!(agree(&format!("genFromDecomposed of {what}"), &want, &js!("compiler", "genFromDecomposed", json!([text.to_string(), template]))));
                tri!(agree(&format!("genCircom of {what}"), &want, &js!("compiler", "genCircom", json!([text, template]))));
                let g = js!("compiler", "genRegexAndDfa", json!([text]));
                if want.kind() == "ok" {
                    let (_, f) = run_lib(&Job { halo2: true, circom: false, ..job }, &Files::new());
                    if let Err(e) = same_automaton(&g, &f, parts) {
                        return Outcome::Fail(format!("genRegexAndDfa of {what}: {e}"));
                    }
                }
                pass_l(want.kind() == "ok", vec!["decomposed", want.kind()])
            }
            C16Case::Raw { regex, transitions, template } => {
                let sub = json!({ "transitions": transitions }).to_string();
                let job = Job {
                    raw: true,
                    source: Some(regex.clone()),
                    substrs: Some(Some(sub.clone())),
                    halo2: false,
                    circom: true,
                    template: Some(template.clone()),
                    gen_substrs: None,
                };
                if huge_job(&job) {
                    return discard("huge automaton");
                }
                let (r, f) = run_lib(&job, &Files::new());
                let what = format!("genFromRaw of {regex:?} with {sub} as {template}");
                let want = match r {
                    Res::Ok(()) => Res::Ok(circom(f)),
                    Res::Err(e) => Res::Err(e),
                    Res::Panic(e) => return Outcome::Fail(format!("{what}: panic: {e}")),
                };
                tri!(agree(&what, &want, &js!("compiler", "genFromRaw", json!([regex, sub, template]))));
                pass_l(want.kind() == "ok", vec!["raw", want.kind()])
            }
            C16Case::Text { json } => {
                // no configuration: a key is missing or of the wrong type
                let bad = !is_config(json);
                let job = Job {
                    raw: false,
                    source: Some(json.clone()),
                    substrs: None,
                    halo2: false,
                    circom: true,
                    template: Some("T".into()),
                    gen_substrs: Some(true),
                };
                let (r, f) = run_lib(&job, &Files::new());
                let want = match r {
                    Res::Ok(()) => Res::Ok(circom(f)),
                    r => Res::Err(r.msg()),
                };
                if bad && want.kind() == "ok" {
                    return Outcome::Fail(format!("{json:?} is no configuration but is compiled"));
                }
                tri!(agree(&format!("genFromDecomposed of {json:?}"), &want, &js!("compiler", "genFromDecomposed", json!([json, "T"]))));
                let ex: Res<Value> = match serde_json::from_str::<zk_regex_apis::extract_substrs::DecomposedRegexConfig>(json) {
                    Ok(cfg) => to_js(guard(|| zk_regex_apis::extract_substrs::extract_substr_idxes("abc", &cfg, true))),
                    Err(e) => Res::Err(e.to_string()),
                };
                if bad && ex.kind() == "ok" {
                    return Outcome::Fail(format!("{json:?} is no configuration but substrings are extracted with it"));
                }
                tri!(agree(&format!("extractSubstrIdxes with {json:?}"), &ex, &js!("apis", "extractSubstrIdxes", json!(["abc", json, true]))));
                pass_l(want.kind() == "ok", vec!["text", want.kind()])
            }
            C16Case::Extract { parts, texts, form, far } => {
                let texts = &texts.iter().take(if *far > 0 { 1 } else { texts.len() }).map(|x| format!("{}{x}", "~".repeat(*far))).collect::<Vec<_>>();
                let cfg = js_config(parts, *form);
                let _ = config(parts);
                let (mut found, mut defect) = (false, false);
                for text in texts {
                    // of all parts, by both sides
                    let all = idxes(text, parts, true);
                    let gall = js!("apis", "extractSubstrIdxes", json!([text, cfg, true]));
                    if let (Res::Ok(v), Js::Ok(g)) = (&all, &gall) {
                        let w: Spans = serde_json::from_value(g.clone()).unwrap_or_default();
                        if *v != w && (later_match(parts, text, v) || later_match(parts, text, &w)) {
                            defect = true;
                            continue;
                        }
                    }
                    for private in [false, true] {
                        let what = format!("{} (form {form}) on {text:?}, private {private}", desc(parts));
                        let i = idxes(text, parts, private);
                        let s = substrs(text, parts, private);
                        let gi = js!("apis", "extractSubstrIdxes", json!([text, cfg, private]));
                        let gs = js!("apis", "extractSubstr", json!([text, cfg, private]));
                        for (r, g) in [(i.msg(), &gi), (s.msg(), &gs)] {
                            if let (Some(e), Js::Thrown(m)) = (r.strip_prefix("error: "), g) {
                                if !m.contains(e) {
                                    return Outcome::Fail(format!("{what}: the binding throws {m:?} for {e:?}"));
                                }
                            }
                        }
                        found |= i.kind() == "ok";
                        tri!(agree(&format!("extractSubstrIdxes of {what}"), &to_js(i), &gi));
                        tri!(agree(&format!("extractSubstr of {what}"), &to_js(s), &gs));
                    }
                }
                let mut l = vec!["extract", if found { "found" } else { "not found" }];
                if defect {
                    l.push("regex library does not find the leftmost match")
                }
                pass_l(found, l)
            }
            C16Case::Named { kind, text, far } => {
                let filler = if *far > 0 { format!("x-filler:{}\r\n", "~".repeat(*far)) } else { String::new() };
                let text = &format!("{filler}{text}");
                let f = match JS_NAMES.iter().find(|x| x.0 == kind) {
                    Some(x) => x.1,
                    None => return discard("unknown extractor"),
                };
                let r = named(kind, text);
                let ok = r.kind() == "ok";
                tri!(agree(&format!("{f}({text:?})"), &to_js(r), &js!("apis", f, json!([text]))));
                pass_l(ok, vec!["named", if ok { "found" } else { "not found" }])
            }
            C16Case::Pad { text, extra } => {
                let n = text.len() + extra;
                let r: Res<Vec<u8>> = guard(|| Ok::<_, String>(zk_regex_apis::padding::pad_string(text, n)));
                tri!(agree(&format!("padString({text:?}, {n})"), &to_js(r), &js!("apis", "padString", json!([text, n]))));
                pass_l(true, vec!["pad"])
            }
        }
    }
}
/// The literal search of the regex library misses leftmost matches of some regexes, natively and
/// in wasm not the same ones.  True if `spans` (of all parts) are those of a match that is not the
/// leftmost one by the plain simulation, or if that cannot be told.
fn later_match(parts: &[Part], text: &str, spans: &[(usize, usize)]) -> bool {
    use regex_automata::{nfa::thompson::pikevm::PikeVM, Anchored, Input};
    let re: String = parts.iter().enumerate().map(|(i, p)| format!("(?P<vpart{i}>{})", p.regex_def)).collect();
    let Ok(vm) = PikeVM::new(&re) else { return true };
    let mut cache = vm.create_cache();
    let Some(first) = vm.find_iter(&mut cache, text).next() else { return false };
    if spans.len() != parts.len() || spans[0].0 <= first.start() || spans[0].0 > text.len() {
        return false;
    }
    let mut caps = vm.create_captures();
    vm.captures(&mut cache, Input::new(text).range(spans[0].0..).anchored(Anchored::Yes), &mut caps);
    (0..parts.len()).all(|i| caps.get_group_by_name(&format!("vpart{i}")).is_some_and(|g| (g.start, g.end) == spans[i]))
}
fn to_js<T: Serialize>(r: Res<T>) -> Res<Value> {
    match r {
        Res::Ok(v) => Res::Ok(serde_json::to_value(v).unwrap()),
        Res::Err(e) => Res::Err(e),
        Res::Panic(e) => Res::Panic(e),
    }
}
/// The description returned by `genRegexAndDfa` against the written tables.
fn same_automaton(g: &Js, files: &Files, parts: &[Part]) -> Result<(), String> {
    let v = match g {
        Js::Ok(Value::String(s)) => serde_json::from_str::<Value>(s).map_err(|e| format!("not JSON: {e}"))?,
        g => return Err(format!("{g:?}")),
    };
    let text = |n: &str| files.get(n).map(|b| String::from_utf8_lossy(b).into_owned()).ok_or(format!("{n} was not written"));
    let t = Table::parse(&text("allstr.txt")?)?;
    let mut edges = std::collections::BTreeMap::new();
    let mut accept = vec![];
    let bad = || "unexpected shape".to_string();
    for s in v["dfa"]["states"].as_array().ok_or_else(bad)? {
        let id = s["state_id"].as_u64().ok_or_else(bad)? as usize;
        if s["state_type"] == "accept" {
            accept.push(id);
        }
        for (k, bs) in s["transitions"].as_object().ok_or_else(bad)? {
            for b in bs.as_array().ok_or_else(bad)? {
                edges.insert((id, b.as_u64().ok_or_else(bad)? as u8), k.parse::<usize>().map_err(|_| bad())?);
            }
        }
    }
    if accept != [t.accept] || edges != t.edges {
        return Err(format!("accepting {accept:?}, {} transitions; the table has {} and {}", edges.len(), t.accept, t.edges.len()));
    }
    if v["has_end_anchor"].as_bool() != Some(has_end_anchor(&parts.last().unwrap().regex_def)) {
        return Err(format!("has_end_anchor is {}", v["has_end_anchor"]));
    }
    let ranges = v["substrings"]["substring_ranges"].as_array().ok_or_else(bad)?;
    if ranges.len() != parts.iter().filter(|p| p.is_public).count() {
        return Err(format!("{} substrings", ranges.len()));
    }
    for (i, r) in ranges.iter().enumerate() {
        let mut a: Vec<(usize, usize)> = serde_json::from_value(r.clone()).map_err(|e| e.to_string())?;
        let mut b = parse_substr(&text(&format!("substr_{i}.txt"))?)?.edges;
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("substring {i} has transitions {a:?}; the table has {b:?}"));
        }
    }
    Ok(())
}
