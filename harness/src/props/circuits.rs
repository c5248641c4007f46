//! C03..C11: what the generated circuit accepts and reveals.

use super::automata::{desc, table_of};
use crate::circom::{CErr, Flat, Run};
use crate::engine::*;
use crate::gen::{self, Anchors};
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, Res, Want};
use serde::{Deserialize, Serialize};

pub fn pad(m: &[u8], n: usize) -> Vec<i128> {
    let mut v = target::to_inputs(m);
    v.resize(n, 0);
    v
}
pub fn pad8(m: &[u8], n: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    v.resize(n, 0);
    v
}

/// NULs only as padding: what an end anchor presumes.
pub fn zero_padded(m: &[u8]) -> bool {
    let k = m.iter().position(|b| *b == 0).unwrap_or(m.len());
    m[k..].iter().all(|b| *b == 0)
}

/// Elaborates a generated circuit; an ill-formed one is a violation.
pub fn elab(what: &str, src: &str, n: usize) -> Result<Flat, Outcome> {
    elab_t(what, src, &target::template(), n)
}
pub fn elab_t(what: &str, src: &str, template: &str, n: usize) -> Result<Flat, Outcome> {
    match target::elaborate(src, template, n) {
        Ok(f) => Ok(f),
        Err(CErr::Ill(e)) => {
            Err(Outcome::Fail(format!("{what}: the generated circuit for msg_bytes={n} is not valid: {e}")))
        }
        Err(CErr::Unsupported(e)) => Err(Outcome::Harness(format!("{what}: {e}"))),
    }
}
pub fn circom_of(what: &str, r: &Res<target::Output>) -> Result<String, Outcome> {
    match r {
        Res::Ok(o) => match &o.circom {
            Some(s) => Ok(s.clone()),
            None => Err(Outcome::Fail(format!("{what}: no circom file was written"))),
        },
        r => Err(Outcome::Fail(format!("{what} is not compiled to a circuit: {}", r.msg()))),
    }
}

pub struct RunOut {
    pub out: i128,
    pub reveals: Vec<Vec<i128>>,
}
/// Runs the circuit; the reveal outputs in order.
pub fn run(what: &str, f: &Flat, input: &[i128]) -> Result<RunOut, Outcome> {
    match f.run(input) {
        Run::Unsat(e) => Err(Outcome::Fail(format!("{what}: no witness for message {:?}: {e}", showi(input)))),
        Run::Sat(o) => {
            let out = match o.get("out") {
                Some(v) if v.len() == 1 => v[0],
                _ => return Err(Outcome::Fail(format!("{what}: no single output `out`"))),
            };
            let mut reveals = vec![];
            while let Some(v) = o.get(&format!("reveal{}", reveals.len())) {
                reveals.push(v.clone());
            }
            Ok(RunOut { out, reveals })
        }
    }
}
pub fn showi(v: &[i128]) -> String {
    if v.iter().all(|x| (0..256).contains(x)) {
        show(&v.iter().map(|x| *x as u8).collect::<Vec<_>>())
    } else {
        format!("{v:?}")
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct MsgCase {
    pub parts: Vec<Part>,
    /// circuit size; 0: as large as the longest message
    pub n: usize,
    pub msgs: Vec<Vec<u8>>,
}
pub fn case_size(c: &MsgCase) -> usize {
    c.n.max(c.msgs.iter().map(|m| m.len()).max().unwrap_or(0)).max(1)
}

pub fn sample_msgs(c: &MsgCase) -> serde_json::Value {
    serde_json::json!({"parts": desc(&c.parts), "msg_bytes": case_size(c), "messages": c.msgs.iter().map(|m| show(m)).collect::<Vec<_>>()})
}

pub fn gen_msgs(t: &mut Tape, parts: Vec<Part>, nul: bool, count: usize) -> MsgCase {
    let mut msgs = vec![];
    if let Ok(m) = Model::new(&parts) {
        let pool = gen::byte_pool(&m.dfa);
        let big = m.dfa.len() > 40;
        let long = !big && m.dfa.len() < 15 && t.chance(4);
        let (maxlen, cap) = if big && m.dfa.dist()[0] < 20 {
            (30, 40)
        } else if big { (2 * m.dfa.len(), 3 * m.dfa.len()) } else { (22, 60) };
        for _ in 0..if big { count.min(3) } else { count } {
            let mut w = gen::message(t, &m.dfa, &pool, maxlen);
            if long {
                let k = t.size(3, 12);
                for _ in 0..k {
                    let more = gen::message(t, &m.dfa, &pool, maxlen);
                    w.extend(more);
                }
            }
            if !nul {
                w.retain(|b| *b != 0);
            }
            if long && !pool.is_empty() && t.chance(40) {
                // matches across the 256th byte and behind it
                let fill = *t.pick(&pool);
                let k = t.size(200, 280);
                w.splice(0..0, std::iter::repeat(fill).take(k));
            }
            w.truncate(if long { 420 } else { cap });
            msgs.push(w);
        }
    }
    let mut c = MsgCase { parts, n: 0, msgs };
    c.n = case_size(&c) + [0, 0, 1, 2, 5][t.below(5) as usize];
    c
}

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(o) => return o,
        }
    };
}
pub(crate) use tri;

/// Compiles a configuration of the domain; `Err` outside of it.
fn model_in_domain(parts: &[Part]) -> Result<Model, Outcome> {
    let m = Model::new(parts).map_err(|e| Outcome::Discard(super::automata::short(&e)))?;
    m.in_domain().map_err(discard)?;
    Ok(m)
}

// ---------------------------------------------------------------------------------- C03

pub struct C03;
impl Prop for C03 {
    type Case = MsgCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "random decomposed configurations (1-4 parts, anchors, classes, alternations, ambiguous boundaries) and messages built from their language (matches, near misses, restarts after partial matches, several matches, NULs, noise); the circuit's `out` is compared with a left-to-right scan of an independent automaton; configurations outside the documented domain that compile must still never accept a message without a match. Non-trivial: in the domain and the messages include both an accepted and a rejected one, or out of the domain and compiled"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["circomlib gates behave as modelled by the harness's circom interpreter"]
    }
    fn gen(&self, t: &mut Tape) -> MsgCase {
        let parts = if t.chance(15) {
            let al = gen::alphabet(t, 40);
            let n = t.size(1, 3);
            (0..n)
                .map(|_| {
                    let is_public = t.chance(50);
                    Part { is_public, regex_def: gen::regex(t, &al, 1, gen::SMALL) }
                })
                .collect()
        } else if t.chance(18) {
            gen::pool_parts(t)
        } else {
            gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 3)
        };
        gen_msgs(t, parts, true, 8)
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            120_000
        } else {
            8_000
        }
    }
    fn sample(&self, c: &MsgCase) -> serde_json::Value {
        sample_msgs(c)
    }
    fn check(&self, c: &MsgCase) -> Outcome {
        let m = match Model::new(&c.parts) {
            Ok(m) => m,
            Err(e) => return Outcome::Discard(super::automata::short(&e)),
        };
        if m.caret == Caret::Other {
            return discard("undocumented use of the start anchor");
        }
        let dom = m.in_domain().is_ok();
        let what = desc(&c.parts);
        let r = target::compile_decomposed(&c.parts, Want { circom: true, halo2: false, gen_substrs: Some(false) });
        if !dom {
            if m.dfa.accept[0] {
                return discard("matches the empty string");
            }
            match &r {
                Res::Err(_) => return discard("rejected by the compiler"),
                Res::Panic(p) => return Outcome::Fail(format!("{what}: panic: {p}")),
                _ => {}
            }
        }
        let src = tri!(circom_of(&what, &r));
        let n = case_size(c);
        let f = tri!(elab(&what, &src, n));
        let (mut yes, mut no, mut restarts) = (0, 0, 0);
        for msg in &c.msgs {
            let msg = pad8(msg, n);
            if m.end_anchor && !zero_padded(&msg) {
                continue;
            }
            let o = tri!(run(&what, &f, &pad(&msg, n)));
            if dom {
                let s = scan(&m.dfa, &msg, m.end_anchor);
                if o.out != s.out as i128 {
                    return Outcome::Fail(format!(
                        "{what}: message {:?}: out={} but {}",
                        show(&msg),
                        o.out,
                        if s.out { "it contains a match" } else { "it contains no match" }
                    ));
                }
                restarts += s.restarts;
            }
            if o.out != 0 && o.out != 1 {
                return Outcome::Fail(format!("{what}: message {:?}: out={} is not a bit", show(&msg), o.out));
            }
            if o.out == 1 && !contains_match(&m.dfa, &msg) {
                return Outcome::Fail(format!("{what}: message {:?}: accepted, but no part of it is a match", show(&msg)));
            }
            if o.out == 1 {
                yes += 1
            } else {
                no += 1
            }
        }
        let mut l = vec![if dom { "in-domain" } else { "out-of-domain:soundness" }];
        if dom && m.end_anchor {
            l.push("end-anchor")
        }
        if dom && m.caret != Caret::None {
            l.push("start-anchor")
        }
        if restarts > 0 {
            l.push("restart-after-partial-match")
        }
        if m.dfa.len() > 256 {
            l.push("over-256-states")
        }
        if n > 256 {
            l.push("over-256-bytes")
        }
        pass_l(!dom || (yes > 0 && no > 0), l)
    }
}

// ---------------------------------------------------------------------------------- C04

pub struct C04;
impl Prop for C04 {
    type Case = MsgCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "random decomposed configurations of the documented domain with at least one public part, and messages built from their language; every reveal output is compared, byte by byte, with the bytes an independent automaton attributes to that public part in each match of the message. Non-trivial: some message is accepted and a reveal holds a non-zero byte while some non-zero byte of the message stays hidden in that reveal"
    }
    fn gen(&self, t: &mut Tape) -> MsgCase {
        let mut parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 4);
        if parts.iter().all(|p| !p.is_public) {
            let k = t.below(parts.len() as u64) as usize;
            if !(k == 0 && parts[0].regex_def.contains('^')) {
                parts[k].is_public = true;
            } else if let Some(p) = parts.last_mut() {
                p.is_public = true;
            }
        }
        gen_msgs(t, parts, true, 8)
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            120_000
        } else {
            6_000
        }
    }
    fn sample(&self, c: &MsgCase) -> serde_json::Value {
        sample_msgs(c)
    }
    fn check(&self, c: &MsgCase) -> Outcome {
        let m = tri!(model_in_domain(&c.parts));
        if m.n_public() == 0 {
            return discard("no public part");
        }
        let what = desc(&c.parts);
        let src = tri!(circom_of(&what, &target::compile_decomposed(&c.parts, target::CIRCOM)));
        let n = case_size(c);
        let f = tri!(elab(&what, &src, n));
        let (mut revealed, mut hidden, mut multi) = (false, false, false);
        for msg in &c.msgs {
            let msg = pad8(msg, n);
            if m.end_anchor && !zero_padded(&msg) {
                continue;
            }
            let s = scan(&m.dfa, &msg, m.end_anchor);
            let want = match reveals(&m, &msg, &s) {
                Some(w) => w,
                None => continue,
            };
            let o = tri!(run(&what, &f, &pad(&msg, n)));
            if o.reveals.len() != want.len() {
                return Outcome::Fail(format!(
                    "{what}: {} reveal outputs for {} public parts",
                    o.reveals.len(),
                    want.len()
                ));
            }
            for (k, w) in want.iter().enumerate() {
                if &o.reveals[k] != w {
                    return Outcome::Fail(format!(
                        "{what}: message {:?}: reveal{k} is {:?} but the public part matched {:?}",
                        show(&msg),
                        showi(&o.reveals[k]),
                        showi(w)
                    ));
                }
                let nz = w.iter().filter(|b| **b != 0).count();
                if nz > 0 {
                    revealed = true;
                    hidden |= nz < msg.iter().filter(|b| **b != 0).count();
                }
            }
            multi |= s.out && s.matched.len() > 1;
        }
        let mut l = vec![];
        if m.n_public() > 1 {
            l.push("several-public-parts")
        }
        if multi {
            l.push("several-matches")
        }
        if m.end_anchor {
            l.push("end-anchor")
        }
        if m.caret != Caret::None {
            l.push("start-anchor")
        }
        pass_l(revealed && hidden, l)
    }
}

// ---------------------------------------------------------------------------------- C05

pub struct C05;
#[derive(Serialize, Deserialize, Clone)]
pub struct AnchorCase {
    /// the parts without anchors
    pub parts: Vec<Part>,
    /// compile the concatenation as a raw regex
    pub raw: bool,
    pub end: bool,
    pub n: usize,
    pub msgs: Vec<Vec<u8>>,
}
/// A NUL-free message around words of `d`, with shifts and truncations.
pub fn anchored_msg(t: &mut Tape, d: &Dfa, pool: &[u8]) -> Vec<u8> {
    let w = gen::word(t, d, 14);
    let junk = |t: &mut Tape, n: usize| -> Vec<u8> { (0..n).map(|_| *t.pick(pool)).collect() };
    let mut m = match t.weighted(&[30, 25, 20, 15, 10]) {
        0 => w,
        1 => {
            let k = t.size(1, 3);
            let mut m = junk(t, k);
            m.extend(&w);
            m
        }
        2 => {
            let mut m = w;
            let k = t.size(1, 3);
            let j = junk(t, k);
            m.extend(j);
            m
        }
        3 => {
            let mut m = w.clone();
            let k = t.size(0, 2);
            let j = junk(t, k);
            m.extend(j);
            m.extend(gen::word(t, d, 14));
            m
        }
        _ => {
            let mut m = w;
            if !m.is_empty() {
                let i = t.below(m.len() as u64) as usize;
                m[i] = *t.pick(pool);
            }
            m
        }
    };
    m.retain(|b| *b != 0 && *b != SOT);
    m.truncate(60);
    m
}
fn gen_anchor(t: &mut Tape, end: bool) -> AnchorCase {
    let parts = gen::parts_in_domain(t, Anchors::None, gen::SMALL, 4);
    let raw = t.chance(30);
    let mut msgs = vec![];
    if let Ok(m) = Model::new(&parts) {
        let pool = gen::byte_pool(&m.dfa);
        for _ in 0..8 {
            msgs.push(anchored_msg(t, &m.dfa, &pool));
        }
    }
    let n = msgs.iter().map(|m| m.len()).max().unwrap_or(0).max(1) + [0, 0, 1, 3][t.below(4) as usize];
    AnchorCase { parts, raw, end, n, msgs }
}
impl AnchorCase {
    fn size(&self) -> usize {
        self.n.max(self.msgs.iter().map(|m| m.len()).max().unwrap_or(0)).max(1)
    }
    fn anchored(&self, start: bool) -> Vec<Part> {
        let mut p = self.parts.clone();
        if self.raw {
            let s: String = p.iter().map(|x| format!("(?:{})", x.regex_def)).collect();
            p = vec![Part { is_public: false, regex_def: s }];
        }
        if start {
            // the anchor binds to the whole first part, not to its first alternative
            let g = match caret_top_alt(&p[0].regex_def) {
                true => format!("(?:{})", p[0].regex_def),
                false => p[0].regex_def.clone(),
            };
            p[0].regex_def = format!("^{g}");
        }
        if self.end {
            let l = p.last_mut().unwrap();
            let g = match caret_top_alt(&l.regex_def) {
                true => format!("(?:{})", l.regex_def),
                false => l.regex_def.clone(),
            };
            l.regex_def = format!("{g}$");
        }
        p
    }
    fn sample(&self) -> serde_json::Value {
        serde_json::json!({"parts": desc(&self.parts), "raw": self.raw, "end": self.end, "msg_bytes": self.size(), "messages": self.msgs.iter().map(|m| show(m)).collect::<Vec<_>>()})
    }
}
fn caret_top_alt(s: &str) -> bool {
    matches!(regex_syntax::ast::parse::Parser::new().parse(s), Ok(regex_syntax::ast::Ast::Alternation(_)))
}
fn compile_anchored(parts: &[Part], raw: bool) -> Res<target::Output> {
    if raw {
        target::compile_raw(&parts[0].regex_def, None, target::CIRCOM)
    } else {
        target::compile_decomposed(parts, target::CIRCOM)
    }
}
/// language of the un-anchored parts
fn plain_dfa(parts: &[Part]) -> Result<Dfa, Outcome> {
    let mut nfa = Nfa::new();
    let lo = LookOpts { caret_is_sot: false, drop_end: false };
    for p in parts {
        let h = parse(&p.regex_def).map_err(|_| discard("regex parse error"))?;
        nfa.append(&h, 0, lo).map_err(Outcome::Discard)?;
    }
    nfa.dfa(MAX_DFA).map_err(Outcome::Discard)
}
impl Prop for C05 {
    type Case = AnchorCase;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "random un-anchored configurations to which `^` is added in front (decomposed, or joined into a raw regex); out must be 1 exactly when some prefix of the message is in the language of the un-anchored regex, and with out=0 nothing may be revealed. Non-trivial: the messages include one accepted and one rejected although it contains a match elsewhere"
    }
    fn gen(&self, t: &mut Tape) -> AnchorCase {
        gen_anchor(t, false)
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            100_000
        } else {
            5_000
        }
    }
    fn sample(&self, c: &AnchorCase) -> serde_json::Value {
        c.sample()
    }
    fn check(&self, c: &AnchorCase) -> Outcome {
        let base = tri!(plain_dfa(&c.parts));
        let parts = c.anchored(true);
        let m = tri!(model_in_domain(&parts));
        let what = format!("{}{}", if c.raw { "raw, " } else { "" }, desc(&parts));
        let src = tri!(circom_of(&what, &compile_anchored(&parts, c.raw)));
        let n = c.size();
        let f = tri!(elab(&what, &src, n));
        let (mut yes, mut shifted) = (false, false);
        for msg in &c.msgs {
            if msg.contains(&0) {
                continue;
            }
            let o = tri!(run(&what, &f, &pad(msg, n)));
            let mut s = 0u32;
            let mut want = base.accept[0];
            for b in msg.iter() {
                s = base.go(s, *b);
                if s == DEAD {
                    break;
                }
                want |= base.accept[s as usize];
            }
            if m.end_anchor {
                want = base.accepts(msg);
            }
            if o.out != want as i128 {
                return Outcome::Fail(format!(
                    "{what}: message {:?}: out={} but the regex {} at its start",
                    show(msg),
                    o.out,
                    if want { "matches" } else { "does not match" }
                ));
            }
            if !want && o.reveals.iter().flatten().any(|b| *b != 0) {
                return Outcome::Fail(format!("{what}: message {:?}: bytes are revealed without a match", show(msg)));
            }
            yes |= want;
            shifted |= !want && contains_match(&base, msg);
        }
        pass_l(yes && shifted, vec![if c.raw { "raw" } else { "decomposed" }])
    }
}

// ---------------------------------------------------------------------------------- C06

pub struct C06;
#[derive(Serialize, Deserialize, Clone)]
pub struct EndCase {
    pub start: bool,
    #[serde(flatten)]
    pub c: AnchorCase,
}
impl Prop for C06 {
    type Case = EndCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "random un-anchored configurations to which `$` is added at the end, half of them with `^` in front (decomposed or raw), against NUL-free messages with and without room for padding; with both anchors out must be 1 exactly when the whole message is in the language, with `$` alone out=1 requires a match that ends with the last byte and the scan's own match there must be accepted; revealed bytes may only come from that last match. Non-trivial: the messages include one accepted and one rejected although it contains a match that does not reach the end"
    }
    fn gen(&self, t: &mut Tape) -> EndCase {
        EndCase { start: t.chance(50), c: gen_anchor(t, true) }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            100_000
        } else {
            5_000
        }
    }
    fn sample(&self, c: &EndCase) -> serde_json::Value {
        c.c.sample()
    }
    fn check(&self, ec: &EndCase) -> Outcome {
        let c = &ec.c;
        let base = tri!(plain_dfa(&c.parts));
        let parts = c.anchored(ec.start);
        let m = tri!(model_in_domain(&parts));
        if !m.end_anchor {
            return discard("no end anchor");
        }
        let what = format!("{}{}", if c.raw { "raw, " } else { "" }, desc(&parts));
        let src = tri!(circom_of(&what, &compile_anchored(&parts, c.raw)));
        let n = c.size();
        let f = tri!(elab(&what, &src, n));
        let (mut yes, mut early, mut full) = (false, false, false);
        for msg in &c.msgs {
            if msg.contains(&0) {
                continue;
            }
            let o = tri!(run(&what, &f, &pad(msg, n)));
            let s = scan(&m.dfa, &pad8(msg, n), true);
            let suffix = (0..=msg.len()).any(|i| base.accepts(&msg[i..]));
            if ec.start {
                let want = base.accepts(msg);
                if o.out != want as i128 {
                    return Outcome::Fail(format!(
                        "{what}: message {:?} (msg_bytes={n}): out={} but the whole message {} the regex",
                        show(msg),
                        o.out,
                        if want { "matches" } else { "does not match" }
                    ));
                }
            } else {
                if o.out == 1 && !suffix {
                    return Outcome::Fail(format!(
                        "{what}: message {:?} (msg_bytes={n}) is accepted but no match ends with its last byte",
                        show(msg)
                    ));
                }
                if o.out != s.out as i128 {
                    return Outcome::Fail(format!(
                        "{what}: message {:?} (msg_bytes={n}): out={} but the match read from left to right {} with its last byte",
                        show(msg),
                        o.out,
                        if s.out { "ends" } else { "does not end" }
                    ));
                }
            }
            // revealed bytes lie in the last match
            let from = if o.out == 1 {
                s.matched.last().map(|r| r.0.saturating_sub(1)).unwrap_or(n)
            } else {
                n
            };
            for (k, r) in o.reveals.iter().enumerate() {
                if let Some(i) = (0..r.len()).find(|i| r[*i] != 0 && (*i < from || *i >= msg.len())) {
                    return Outcome::Fail(format!(
                        "{what}: message {:?} (msg_bytes={n}): reveal{k} shows byte {i}, outside the match at the end",
                        show(msg)
                    ));
                }
            }
            if let Some(w) = reveals(&m, &pad8(msg, n), &s) {
                if !c.raw && w != o.reveals {
                    return Outcome::Fail(format!(
                        "{what}: message {:?} (msg_bytes={n}): the reveals are {:?} but the match at the end has {:?}",
                        show(msg),
                        o.reveals.iter().map(|r| showi(r)).collect::<Vec<_>>(),
                        w.iter().map(|r| showi(r)).collect::<Vec<_>>()
                    ));
                }
            }
            yes |= o.out == 1;
            early |= o.out == 0 && contains_match(&base, msg);
            full |= o.out == 1 && msg.len() == n;
        }
        let mut l = vec![if c.raw { "raw" } else { "decomposed" }, if ec.start { "both-anchors" } else { "end-only" }];
        if full {
            l.push("match-fills-the-message")
        }
        pass_l(yes && early, l)
    }
}

// ---------------------------------------------------------------------------------- C07

pub struct C07;
#[derive(Serialize, Deserialize, Clone)]
pub struct ShapeCase {
    pub parts: Vec<Part>,
    pub raw: bool,
    pub gen_substrs: Option<bool>,
    #[serde(default)]
    pub template: String,
    pub transitions: Vec<Vec<(usize, usize)>>,
    pub n: usize,
    pub msgs: Vec<Vec<u8>>,
}
impl Prop for C07 {
    type Case = ShapeCase;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "random configurations (decomposed, or raw with random transition lists over its states), every setting of the substring option, random template names and circuit sizes 1-30; each generated file must be a valid circuit (parsed and elaborated by the harness as circom does: names, indexes, each signal assigned exactly once, quadratic constraints, every component input driven), expose exactly `out` and one reveal array of msg_bytes per public part, be satisfiable for every message of bytes 0-254, and fix every signal it does not constrain. Non-trivial: a circuit with at least 3 states was elaborated and run on at least one message"
    }
    fn gen(&self, t: &mut Tape) -> ShapeCase {
        let raw = t.chance(35);
        let mut parts = match t.below(4) {
            0 => {
                let al = gen::alphabet(t, 60);
                let k = t.size(1, 2);
                (0..k).map(|_| Part { is_public: t.chance(60), regex_def: gen::regex(t, &al, 2, gen::SMALL) }).collect()
            }
            _ => gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 3),
        };
        let mut transitions = vec![];
        if raw {
            let s: String = parts.iter().map(|p| p.regex_def.as_str()).collect();
            parts = vec![Part { is_public: false, regex_def: s }];
            let k = t.size(0, 3);
            for _ in 0..k {
                let e = t.size(0, 4);
                transitions.push((0..e).map(|_| { let a = t.size(0, 4); (a, a + t.size(0, 1).max((a == 0) as usize)) }).collect());
            }
        }
        let gen_substrs = *t.pick(&[Some(true), None, Some(false)]);
        let n = match t.below(5) {
            0 => 1,
            1 => 2,
            _ => t.size(3, 30),
        };
        let mut msgs = vec![];
        if let Ok(m) = Model::new(&parts) {
            let pool = gen::byte_pool(&m.dfa);
            for _ in 0..4 {
                let mut w = gen::message(t, &m.dfa, &pool, n.min(20));
                w.truncate(n);
                msgs.push(w);
            }
        }
        let template = t.pick(&["VerifRegex", "T", "Regex123", "_x", "Body_Hash2", "aB", "X1", "R2D2", "a_", "from_addr0", "Regex"]).to_string();
        ShapeCase { parts, raw, gen_substrs, template, transitions, n, msgs }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            100_000
        } else {
            6_000
        }
    }
    fn sample(&self, c: &ShapeCase) -> serde_json::Value {
        serde_json::json!({"parts": desc(&c.parts), "raw": c.raw, "gen_substrs": c.gen_substrs, "template": c.template, "transitions": c.transitions, "msg_bytes": c.n})
    }
    fn check(&self, c: &ShapeCase) -> Outcome {
        let what = format!(
            "{}{} (template {:?}, substrings: {:?}{})",
            if c.raw { "raw, " } else { "" },
            desc(&c.parts),
            c.template,
            c.gen_substrs,
            if c.raw { format!(", transitions {:?}", c.transitions) } else { String::new() }
        );
        let _name = target::Named::new(&c.template);
        let comp = |g: Option<bool>| {
            let w = Want { circom: true, halo2: false, gen_substrs: g };
            if c.raw {
                // only transitions between existing states
                target::compile_raw(&c.parts[0].regex_def, Some(&c.transitions), w)
            } else {
                target::compile_decomposed(&c.parts, w)
            }
        };
        // bounds the size of the automaton
        match Model::new(&c.parts) {
            Ok(m) if m.start_loop => return discard("transition to the initial state"),
            Ok(_) => {}
            Err(e) => return Outcome::Discard(super::automata::short(&e)),
        }
        let w = Want { circom: false, halo2: true, gen_substrs: Some(false) };
        let t = if c.raw {
            target::compile_raw(&c.parts[0].regex_def, Some(&[]), w)
        } else {
            target::compile_decomposed(&c.parts, w)
        };
        if let Ok(t) = table_of(&t) {
            if t.accept == 0 || t.edges.values().any(|n| *n == 0) {
                return discard("transition to the initial state");
            }
            // a substring definition lists transitions of the automaton
            let known = |e: &(usize, usize)| t.edges.iter().any(|((a, _), b)| (*a, *b) == *e);
            if c.raw && !c.transitions.iter().flatten().all(known) {
                return discard("not a transition of the automaton");
            }
        }
        let r = comp(c.gen_substrs);
        match &r {
            Res::Err(_) => return discard("rejected by the compiler"),
            Res::Panic(p) => return Outcome::Fail(format!("{what}: panic: {p}")),
            _ => {}
        }
        let src = tri!(circom_of(&what, &r));
        let n = c.n.max(1);
        let f = tri!(elab(&what, &src, n));
        let on = c.gen_substrs.unwrap_or(c.raw);
        let n_reveal = match (on, c.raw) {
            (false, _) => 0,
            (true, true) => c.transitions.len(),
            (true, false) => c.parts.iter().filter(|p| p.is_public).count(),
        };
        let mut want: Vec<(String, usize)> = (0..n_reveal).map(|k| (format!("reveal{k}"), n)).collect();
        want.push(("out".into(), 1));
        want.sort();
        let have: Vec<(String, usize)> = f.outputs.iter().map(|(k, v)| (k.clone(), v.len())).collect();
        if have != want {
            return Outcome::Fail(format!("{what}: the outputs are {have:?} instead of {want:?}"));
        }
        if f.inputs.len() != 1 || f.inputs[0].0 != "msg" || f.inputs[0].1.len() != n {
            return Outcome::Fail(format!("{what}: the inputs are not msg[{n}]"));
        }
        // the substring option does not change what is accepted
        let f2 = if on {
            let s2 = tri!(circom_of(&what, &comp(Some(false))));
            Some(tri!(elab(&what, &s2, n)))
        } else {
            None
        };
        let mut ran = 0;
        for msg in &c.msgs {
            let mut msg = msg.clone();
            msg.truncate(n);
            let i = pad(&msg, n);
            let o = tri!(run(&what, &f, &i));
            if let Some(f2) = &f2 {
                let o2 = tri!(run(&what, f2, &i));
                if o2.out != o.out {
                    return Outcome::Fail(format!(
                        "{what}: message {:?}: out={} but {} without substrings",
                        show(&msg),
                        o.out,
                        o2.out
                    ));
                }
            }
            if let Some(e) = f.second_witness(&i, &[0, 1, 2, 255]) {
                return Outcome::Fail(format!("{what}: message {:?}: {e}", show(&msg)));
            }
            ran += 1;
        }
        pass_l(ran > 0 && f.n_constraints > 40, vec![if c.raw { "raw" } else { "decomposed" }, if on { "substrings" } else { "match-only" }])
    }
}

// ---------------------------------------------------------------------------------- C08

pub struct C08;
#[derive(Serialize, Deserialize, Clone)]
pub struct RangeCase {
    pub parts: Vec<Part>,
    pub gen_substrs: bool,
    pub msg: Vec<i64>,
}
impl Prop for C08 {
    type Case = RangeCase;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "random configurations and messages in which 0-3 elements are replaced by values outside 0-254 (255, 256, -1 and other negative ones, values congruent to matching bytes modulo 256, large ones); a message with such an element must have no witness and any other one must have one. Non-trivial: the message has an element outside 0-254"
    }
    fn gen(&self, t: &mut Tape) -> RangeCase {
        let parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 3);
        let mut msg: Vec<i64> = vec![];
        if let Ok(m) = Model::new(&parts) {
            let pool = gen::byte_pool(&m.dfa);
            msg = gen::message(t, &m.dfa, &pool, 20).iter().map(|b| *b as i64).collect();
        }
        if msg.is_empty() {
            msg.push(97);
        }
        let k = t.size(0, 3);
        for _ in 0..k {
            let i = t.below(msg.len() as u64) as usize;
            msg[i] = match t.below(9) {
                6 => -1,
                7 => -2 - t.size(0, 300) as i64,
                8 => msg[i] % 256 - 256 * t.size(1, 1 << 20) as i64,
                0 => 255,
                1 => 256,
                2 => msg[i] % 256 + 256,
                3 => t.size(255, 1023) as i64,
                4 => msg[i] % 256 + 256 * t.size(1, 1 << 20) as i64,
                _ => 254,
            };
        }
        let gen_substrs = t.chance(50);
        RangeCase { parts, gen_substrs, msg }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            60_000
        } else {
            4_000
        }
    }
    fn check(&self, c: &RangeCase) -> Outcome {
        tri!(model_in_domain(&c.parts));
        let what = desc(&c.parts);
        let w = Want { circom: true, halo2: false, gen_substrs: Some(c.gen_substrs) };
        let r = target::compile_decomposed(&c.parts, w);
        if let Res::Err(_) = r {
            return discard("rejected by the compiler");
        }
        let src = tri!(circom_of(&what, &r));
        let f = tri!(elab(&what, &src, c.msg.len()));
        let inp: Vec<i128> = c.msg.iter().map(|x| *x as i128).collect();
        let bad = c.msg.iter().find(|x| !(0..255).contains(*x));
        match (f.run(&inp), bad) {
            (Run::Sat(_), Some(b)) => {
                Outcome::Fail(format!("{what}: message {:?} has a witness although {b} is not a message byte", c.msg))
            }
            (Run::Unsat(e), None) => Outcome::Fail(format!("{what}: message {:?} has no witness: {e}", showi(&inp))),
            (Run::Sat(_), None) => pass(false),
            (Run::Unsat(_), Some(_)) => pass(true),
        }
    }
}

// ---------------------------------------------------------------------------------- C09

pub struct C09;
#[derive(Serialize, Deserialize, Clone)]
pub struct PadCase {
    pub parts: Vec<Part>,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub extra: usize,
}
impl Prop for C09 {
    type Case = PadCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "metamorphic: random configurations and two NUL-free messages a, b; (1) appending zero padding, in the same or a larger circuit, changes neither out nor the reveals; (2) without anchors, prepending zeros shifts the reveals and keeps out; (3) without anchors, the message a,NUL,b is accepted exactly when a or b is, and its reveals are those of the two sides. Non-trivial: at least one of a, b is accepted"
    }
    fn gen(&self, t: &mut Tape) -> PadCase {
        let an = if t.chance(35) { Anchors::Any } else { Anchors::None };
        let parts = gen::parts_in_domain(t, an, gen::SMALL, 4);
        let mut ab = vec![vec![], vec![]];
        if let Ok(m) = Model::new(&parts) {
            let pool = gen::byte_pool(&m.dfa);
            for x in ab.iter_mut() {
                *x = gen::message(t, &m.dfa, &pool, 14);
                x.retain(|b| *b != 0);
                x.truncate(40);
            }
        }
        let b = ab.pop().unwrap();
        let a = ab.pop().unwrap();
        PadCase { parts, a, b, extra: t.size(1, 6) }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            80_000
        } else {
            4_000
        }
    }
    fn sample(&self, c: &PadCase) -> serde_json::Value {
        serde_json::json!({"parts": desc(&c.parts), "a": show(&c.a), "b": show(&c.b), "extra": c.extra})
    }
    fn check(&self, c: &PadCase) -> Outcome {
        if c.a.contains(&0) || c.b.contains(&0) || c.a.is_empty() {
            return discard("not a NUL-free non-empty message");
        }
        let m = tri!(model_in_domain(&c.parts));
        let what = desc(&c.parts);
        let src = tri!(circom_of(&what, &target::compile_decomposed(&c.parts, target::CIRCOM)));
        let (na, nb, e) = (c.a.len(), c.b.len(), c.extra);
        let fa = tri!(elab(&what, &src, na));
        let big = na + nb + 1 + e;
        let fb = tri!(elab(&what, &src, big));
        let oa = tri!(run(&what, &fa, &pad(&c.a, na)));
        let oap = tri!(run(&what, &fb, &pad(&c.a, big)));
        if oa.out != oap.out {
            return Outcome::Fail(format!(
                "{what}: message {:?}: out={} for msg_bytes={na} but {} for msg_bytes={big} with zero padding",
                show(&c.a),
                oa.out,
                oap.out
            ));
        }
        for (k, (x, y)) in oa.reveals.iter().zip(&oap.reveals).enumerate() {
            if x[..] != y[..na] || y[na..].iter().any(|b| *b != 0) {
                return Outcome::Fail(format!(
                    "{what}: message {:?}: reveal{k} is {:?} without and {:?} with zero padding",
                    show(&c.a),
                    showi(x),
                    showi(y)
                ));
            }
        }
        let mut l = vec!["append-padding"];
        let mut nontrivial = oa.out == 1;
        if m.caret == Caret::None && !m.end_anchor {
            // shift
            let mut sh = vec![0u8; e];
            sh.extend(&c.a);
            let os = tri!(run(&what, &fb, &pad(&sh, big)));
            if os.out != oa.out {
                return Outcome::Fail(format!(
                    "{what}: message {:?}: out={} but {} after {e} leading zeros",
                    show(&c.a),
                    oa.out,
                    os.out
                ));
            }
            for (k, (x, y)) in oa.reveals.iter().zip(&os.reveals).enumerate() {
                if x[..] != y[e..e + na] || y[..e].iter().chain(&y[e + na..]).any(|b| *b != 0) {
                    return Outcome::Fail(format!(
                        "{what}: message {:?}: reveal{k} is {:?} but {:?} after {e} leading zeros",
                        show(&c.a),
                        showi(x),
                        showi(y)
                    ));
                }
            }
            // separation
            let ob = tri!(run(&what, &fb, &pad(&c.b, big)));
            let mut j = c.a.clone();
            j.push(0);
            j.extend(&c.b);
            let oj = tri!(run(&what, &fb, &pad(&j, big)));
            if (oj.out == 1) != (oa.out == 1 || ob.out == 1) {
                return Outcome::Fail(format!(
                    "{what}: {:?} gives out={}, {:?} gives out={}, joined by a NUL they give {}",
                    show(&c.a),
                    oa.out,
                    show(&c.b),
                    ob.out,
                    oj.out
                ));
            }
            for (k, y) in oj.reveals.iter().enumerate() {
                let mut want = oa.reveals[k].clone();
                want.push(0);
                want.extend(&ob.reveals[k]);
                want.truncate(big);
                want.resize(big, 0);
                if *y != want {
                    return Outcome::Fail(format!(
                        "{what}: reveal{k} of {:?} NUL {:?} is {:?} instead of {:?}",
                        show(&c.a),
                        show(&c.b),
                        showi(y),
                        showi(&want)
                    ));
                }
            }
            nontrivial |= ob.out == 1;
            l.push("shift-and-join");
        }
        pass_l(nontrivial, l)
    }
}

// ---------------------------------------------------------------------------------- C10

/// substr_i.txt: start states, end states, transitions.
#[derive(Debug, Clone, PartialEq)]
pub struct SubTable {
    pub starts: Vec<usize>,
    pub ends: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
}
pub fn parse_substr(s: &str) -> Result<SubTable, String> {
    let mut l = s.lines();
    let nums = |x: Option<&str>| -> Result<Vec<usize>, String> {
        x.ok_or("missing line")?
            .split(' ')
            .filter(|s| !s.is_empty())
            .map(|v| v.parse().map_err(|_| format!("bad state {v:?}")))
            .collect()
    };
    let starts = nums(l.next())?;
    let ends = nums(l.next())?;
    let mut edges = vec![];
    for x in l {
        let v = nums(Some(x))?;
        if v.len() != 2 {
            return Err(format!("bad line {x:?}"));
        }
        edges.push((v[0], v[1]));
    }
    Ok(SubTable { starts, ends, edges })
}

pub struct C10;
#[derive(Serialize, Deserialize, Clone)]
pub struct WordsCase {
    pub parts: Vec<Part>,
    pub words: Vec<Vec<u8>>,
}
impl Prop for C10 {
    type Case = WordsCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "random decomposed configurations of the documented domain with public parts, and accepted words (random walks of the automaton plus a covering set that takes every transition); reading each word through allstr.txt, the transitions listed in substr_i.txt must be exactly those that read the bytes of the i-th public part, the state before the part must be listed as a start and the one after it as an end, and nothing is listed that no word uses. Non-trivial: some word has bytes both inside and outside a public part"
    }
    fn gen(&self, t: &mut Tape) -> WordsCase {
        let mut parts = gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 4);
        if parts.iter().all(|p| !p.is_public) {
            parts.last_mut().unwrap().is_public = true;
        }
        let mut words = vec![];
        if let Ok(m) = Model::new(&parts) {
            for _ in 0..6 {
                words.push(gen::word(t, &m.dfa, 16));
            }
        }
        WordsCase { parts, words }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            150_000
        } else {
            8_000
        }
    }
    fn sample(&self, c: &WordsCase) -> serde_json::Value {
        serde_json::json!({"parts": desc(&c.parts), "words": c.words.iter().map(|m| show(m)).collect::<Vec<_>>()})
    }
    fn check(&self, c: &WordsCase) -> Outcome {
        let m = tri!(model_in_domain(&c.parts));
        let k = m.n_public();
        let what = desc(&c.parts);
        let r = target::compile_decomposed(&c.parts, target::HALO2);
        let t = match table_of(&r) {
            Ok(t) => t,
            Err(e) => return Outcome::Fail(format!("{what}: {e}")),
        };
        let subs = match &r {
            Res::Ok(o) => &o.substrs,
            _ => unreachable!(),
        };
        if subs.len() != k || subs.iter().any(|s| s.is_none()) {
            return Outcome::Fail(format!("{what}: {k} public parts but {} substring files", subs.len()));
        }
        let mut st = vec![];
        for (i, s) in subs.iter().enumerate() {
            match parse_substr(s.as_ref().unwrap()) {
                Ok(x) => st.push(x),
                Err(e) => return Outcome::Fail(format!("{what}: substr_{i}.txt: {e}")),
            }
        }
        let pubs: Vec<usize> = (0..c.parts.len()).filter(|i| c.parts[*i].is_public).collect();
        let td = t.raw_dfa(&[t.accept]);
        let perm = |s: u32| -> usize { t.state_of(s) };
        let mut used: Vec<SubTable> =
            vec![SubTable { starts: vec![], ends: vec![], edges: vec![] }; k];
        let (mut inside, mut outside) = (false, false);
        let mut words = c.words.clone();
        let cover = covering_words(&td, 3000);
        let mut all_attributed = cover.len() < 3000;
        words.extend(cover);
        for w in &words {
            if !m.dfa.accepts(w) || !td.accepts(w) {
                continue; // C02 decides the language
            }
            let tags = match m.nfa.tags_of(w) {
                // the start anchor reads no byte of the message
                Some(mut t) if t.iter().all(|x| x.len() == 1) => {
                    for (i, b) in w.iter().enumerate() {
                        if *b == SOT {
                            t[i] = vec![u16::MAX];
                        }
                    }
                    t
                }
                _ => {
                    all_attributed = false;
                    continue;
                }
            };
            let mut states = vec![0u32];
            for b in w {
                let s = td.go(*states.last().unwrap(), *b);
                states.push(s);
            }
            for (i, tg) in tags.iter().enumerate() {
                let e = (perm(states[i]), perm(states[i + 1]));
                let p = pubs.iter().position(|x| *x == tg[0] as usize);
                inside |= p.is_some();
                outside |= p.is_none();
                for (j, s) in st.iter().enumerate() {
                    let listed = s.edges.contains(&e);
                    if listed != (p == Some(j)) {
                        return Outcome::Fail(format!(
                            "{what}: in {:?} byte {i} {} public part {j} but transition {} {} is {}listed in substr_{j}.txt",
                            show(w),
                            if p == Some(j) { "belongs to" } else { "does not belong to" },
                            e.0,
                            e.1,
                            if listed { "" } else { "not " }
                        ));
                    }
                }
                if let Some(j) = p {
                    used[j].edges.push(e);
                    if i == 0 || tags[i - 1] != *tg {
                        used[j].starts.push(e.0);
                        if !st[j].starts.contains(&e.0) {
                            return Outcome::Fail(format!(
                                "{what}: in {:?} public part {j} starts in state {}, not listed in substr_{j}.txt ({:?})",
                                show(w),
                                e.0,
                                st[j].starts
                            ));
                        }
                    }
                    if i + 1 == w.len() || tags[i + 1] != *tg {
                        used[j].ends.push(e.1);
                        if !st[j].ends.contains(&e.1) {
                            return Outcome::Fail(format!(
                                "{what}: in {:?} public part {j} ends in state {}, not listed in substr_{j}.txt ({:?})",
                                show(w),
                                e.1,
                                st[j].ends
                            ));
                        }
                    }
                }
            }
        }
        if all_attributed {
            for (j, s) in st.iter().enumerate() {
                if let Some(e) = s.edges.iter().find(|e| !used[j].edges.contains(e)) {
                    return Outcome::Fail(format!(
                        "{what}: substr_{j}.txt lists transition {} {}, which no match uses for public part {j}",
                        e.0, e.1
                    ));
                }
            }
        }
        pass_l(inside && outside, vec![if k > 1 { "several-public-parts" } else { "one-public-part" }])
    }
}

/// Accepted words that together take every (state, state) transition of an automaton.
pub fn covering_words(d: &Dfa, max: usize) -> Vec<Vec<u8>> {
    let n = d.len();
    // shortest word to reach each state, shortest completion from each state
    let mut reach: Vec<Option<Vec<u8>>> = vec![None; n];
    reach[0] = Some(vec![]);
    let mut q = std::collections::VecDeque::from([0usize]);
    while let Some(s) = q.pop_front() {
        for b in 0..256usize {
            let t = d.next[s][b];
            if t != DEAD && reach[t as usize].is_none() {
                let mut w = reach[s].clone().unwrap();
                w.push(b as u8);
                reach[t as usize] = Some(w);
                q.push_back(t as usize);
            }
        }
    }
    let dist = d.dist();
    let complete = |mut s: usize| -> Option<Vec<u8>> {
        let mut w = vec![];
        while !d.accept[s] {
            let (b, t) = (0..256usize)
                .filter(|b| d.next[s][*b] != DEAD)
                .map(|b| (b, d.next[s][b] as usize))
                .min_by_key(|(_, t)| dist[*t])?;
            if dist[t] >= dist[s] {
                return None;
            }
            w.push(b as u8);
            s = t;
        }
        Some(w)
    };
    let mut out = vec![];
    for s in 0..n {
        let mut seen = vec![];
        for b in 0..256usize {
            let t = d.next[s][b];
            if t == DEAD || seen.contains(&t) {
                continue;
            }
            seen.push(t);
            if let (Some(r), Some(c)) = (&reach[s], complete(t as usize)) {
                let mut w = r.clone();
                w.push(b as u8);
                w.extend(c);
                out.push(w);
                if out.len() >= max {
                    return out;
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------- C11

/// The bytes of a message read by listed transitions inside of matches of the scan.
pub fn listed_bytes(t: &Table, td: &Dfa, s: &Scan, msg: &[u8], end_anchor: bool, sets: &[Vec<(usize, usize)>]) -> Vec<Vec<i128>> {
    let mut inp = vec![SOT];
    inp.extend_from_slice(msg);
    let nz = inp.iter().filter(|b| **b != 0).count();
    let mut want = vec![vec![0i128; msg.len()]; sets.len()];
    if !s.out {
        return want;
    }
    for (a, b) in &s.matched {
        if end_anchor && *b != nz {
            continue;
        }
        let mut q = 0u32;
        for i in *a..*b {
            let q2 = td.go(q, inp[i]);
            for (w, set) in want.iter_mut().zip(sets) {
                if i >= 1 && set.contains(&(t.state_of(q), t.state_of(q2))) {
                    w[i - 1] = inp[i] as i128;
                }
            }
            q = q2;
        }
    }
    want
}

pub struct C11;
#[derive(Serialize, Deserialize, Clone)]
pub struct RawCase {
    pub regex: String,
    /// picks, resolved against the table: substring -> edge numbers
    pub picks: Vec<Vec<usize>>,
    pub n: usize,
    pub msgs: Vec<Vec<u8>>,
}
impl Prop for C11 {
    type Case = RawCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "random raw regexes (with and without anchors), substring definitions that are random sets of the automaton's own transitions as numbered in allstr.txt, and messages built from the language; each reveal must hold exactly the bytes read by the listed transitions inside matches, the transitions of the halo2 substring file must be the given ones, and its start and end states must be where a run through them begins and ends. Non-trivial: some message is accepted, and some reveal shows some but not all of the matched bytes"
    }
    fn gen(&self, t: &mut Tape) -> RawCase {
        let big = t.chance(1);
        let parts = if big { gen::dictionary(t, 340, 390) } else { gen::parts_in_domain(t, Anchors::Any, gen::SMALL, 4) };
        let regex: String = parts.iter().map(|p| p.regex_def.clone()).collect();
        let one = vec![Part { is_public: false, regex_def: regex.clone() }];
        let k = if t.chance(8) { 0 } else { t.size(1, 3) };
        let picks = (0..k)
            .map(|_| {
                let e = t.size(0, 5);
                (0..e).map(|_| if big || t.chance(10) { t.below(1000) as usize } else { t.size(0, 40) }).collect()
            })
            .collect();
        let c = gen_msgs(t, one, true, 6);
        RawCase { regex, picks, n: c.n, msgs: c.msgs }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            100_000
        } else {
            5_000
        }
    }
    fn sample(&self, c: &RawCase) -> serde_json::Value {
        serde_json::json!({"regex": c.regex, "edge_picks": c.picks, "msg_bytes": c.n, "messages": c.msgs.iter().map(|m| show(m)).collect::<Vec<_>>()})
    }
    fn check(&self, c: &RawCase) -> Outcome {
        let one = vec![Part { is_public: false, regex_def: c.regex.clone() }];
        let m = tri!(model_in_domain(&one));
        let r0 = target::compile_raw(&c.regex, None, target::HALO2);
        let t = match table_of(&r0) {
            Ok(t) => t,
            Err(e) => return Outcome::Fail(format!("raw {:?}: {e}", c.regex)),
        };
        let mut edges: Vec<(usize, usize)> = vec![];
        for ((a, _), b) in &t.edges {
            if !edges.contains(&(*a, *b)) {
                edges.push((*a, *b));
            }
        }
        edges.sort();
        let mut tr: Vec<Vec<(usize, usize)>> = vec![];
        for p in &c.picks {
            let mut v: Vec<(usize, usize)> = vec![];
            for x in p {
                let e = edges[x % edges.len()];
                if !v.contains(&e) {
                    v.push(e);
                }
            }
            tr.push(v);
        }
        let what = format!("raw {:?} with transitions {:?}", c.regex, tr);
        // no definitions: no definition file either
        let r = target::compile_raw(&c.regex, Some(&tr[..]).filter(|t| !t.is_empty()), target::BOTH);
        let src = tri!(circom_of(&what, &r));
        let o = match &r {
            Res::Ok(o) => o,
            _ => unreachable!(),
        };
        match table_of(&r) {
            Ok(t2) if t2 == t => {}
            Ok(_) => return Outcome::Fail(format!("{what}: the substring definitions change allstr.txt")),
            Err(e) => return Outcome::Fail(format!("{what}: {e}")),
        }
        if o.substrs.len() != tr.len() {
            return Outcome::Fail(format!("{what}: {} substring files", o.substrs.len()));
        }
        for (k, s) in o.substrs.iter().enumerate() {
            let st = match s.as_ref().ok_or("missing".to_string()).and_then(|s| parse_substr(s)) {
                Ok(s) => s,
                Err(e) => return Outcome::Fail(format!("{what}: substr_{k}.txt: {e}")),
            };
            let sorted = |v: &[(usize, usize)]| {
                let mut v = v.to_vec();
                v.sort();
                v
            };
            if sorted(&st.edges) != sorted(&tr[k]) {
                return Outcome::Fail(format!("{what}: substr_{k}.txt lists {:?}", st.edges));
            }
            // a run through the listed transitions begins at 0 or after another transition
            for (a, b) in &tr[k] {
                let begins = *a == 0 || edges.iter().any(|e| e.1 == *a && !tr[k].contains(e));
                let ends = *b == t.accept || edges.iter().any(|e| e.0 == *b && !tr[k].contains(e));
                if st.starts.contains(a) != begins || st.ends.contains(b) != ends {
                    return Outcome::Fail(format!(
                        "{what}: substr_{k}.txt has starts {:?} and ends {:?}; transition {a} {b} {} begin and {} end a substring",
                        st.starts,
                        st.ends,
                        if begins { "can" } else { "cannot" },
                        if ends { "can" } else { "cannot" }
                    ));
                }
            }
        }
        let n = c.n.max(c.msgs.iter().map(|m| m.len()).max().unwrap_or(0)).max(1);
        let f = tri!(elab(&what, &src, n));
        let td = t.raw_dfa(&[t.accept]);
        let mut nontrivial = false;
        for msg in &c.msgs {
            let msg = pad8(msg, n);
            if m.end_anchor && !zero_padded(&msg) {
                continue;
            }
            let o = tri!(run(&what, &f, &pad(&msg, n)));
            let s = scan(&td, &msg, m.end_anchor);
            if o.out != s.out as i128 {
                return Outcome::Fail(format!("{what}: message {:?}: out={} but the scan gives {}", show(&msg), o.out, s.out));
            }
            if o.reveals.len() != tr.len() {
                return Outcome::Fail(format!("{what}: {} reveal outputs", o.reveals.len()));
            }
            let matched = s.matched.iter().map(|(a, b)| b - (*a).max(1)).sum::<usize>();
            for (k, want) in listed_bytes(&t, &td, &s, &msg, m.end_anchor, &tr).into_iter().enumerate() {
                if o.reveals[k] != want {
                    return Outcome::Fail(format!(
                        "{what}: message {:?}: reveal{k} is {:?} but the listed transitions read {:?}",
                        show(&msg),
                        showi(&o.reveals[k]),
                        showi(&want)
                    ));
                }
                let shown = want.iter().filter(|b| **b != 0).count();
                nontrivial |= shown > 0 && shown < matched;
            }
        }
        let mut l = vec![];
        if m.end_anchor {
            l.push("end-anchor")
        }
        if m.caret != Caret::None {
            l.push("start-anchor")
        }
        if tr.iter().flatten().any(|e| e.0.max(e.1) > 255) {
            l.push("states-over-255")
        }
        if tr.is_empty() {
            l.push("no-definitions")
        }
        pass_l(nontrivial, l)
    }
}
