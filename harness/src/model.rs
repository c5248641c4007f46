//! Reference model of what a compiled configuration means: the concatenated language of its
//! parts with part attribution, the documented domain restrictions, and the scan performed by a
//! circuit over a message.

use crate::rx::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Part {
    pub is_public: bool,
    pub regex_def: String,
}

pub struct Model {
    pub nfa: Nfa,
    pub dfa: Dfa,
    pub parts: Vec<Part>,
    pub end_anchor: bool,
    /// Every part can be told apart from the next by one byte: no accepting state of the parts so
    /// far can both continue and start the next part with the same byte.
    pub ll1: bool,
    /// Some part after the first returns to its own initial state.
    pub inner_loop: bool,
    /// The whole automaton returns to its initial state (README limitation 4).
    pub start_loop: bool,
    /// Accepting states of the automaton obtained by chaining the parts' minimal automata.
    pub n_accept: usize,
    /// How the start anchor is used, if at all.
    pub caret: Caret,
}

/// The two documented uses of `^`.
#[derive(Clone, Debug, PartialEq)]
pub enum Caret {
    None,
    /// `^rest`
    Pure { rest: String },
    /// `(x|^)rest`
    Alt { x: String, rest: String },
    /// anything else: outside the documented domain
    Other,
}

/// Classifies the use of `^` in a regex text.
pub fn caret_of(text: &str) -> Caret {
    use regex_syntax::ast::{parse::Parser, Ast, AssertionKind};
    fn has(a: &Ast) -> bool {
        match a {
            Ast::Assertion(x) => matches!(x.kind, AssertionKind::StartLine | AssertionKind::StartText),
            Ast::Group(g) => has(&g.ast),
            Ast::Repetition(r) => has(&r.ast),
            Ast::Alternation(v) => v.asts.iter().any(has),
            Ast::Concat(v) => v.asts.iter().any(has),
            _ => false,
        }
    }
    let is_caret = |a: &Ast| matches!(a, Ast::Assertion(x) if x.kind == AssertionKind::StartLine);
    let ast = match Parser::new().parse(text) {
        Ok(a) => a,
        Err(_) => return Caret::Other,
    };
    if !has(&ast) {
        return Caret::None;
    }
    let single;
    let children: &[Ast] = match &ast {
        Ast::Concat(c) => &c.asts,
        Ast::Alternation(_) => return Caret::Other,
        a => {
            single = [a.clone()];
            &single
        }
    };
    if children[1..].iter().any(has) {
        return Caret::Other;
    }
    let rest = text[children[0].span().end.offset..].to_string();
    if is_caret(&children[0]) {
        return Caret::Pure { rest };
    }
    let g = match &children[0] {
        Ast::Group(g) if g.flags().is_none_or(|f| f.items.is_empty()) => g,
        _ => return Caret::Other,
    };
    let branches: &[Ast] = match &*g.ast {
        Ast::Alternation(v) => &v.asts,
        a if is_caret(a) => return Caret::Pure { rest },
        _ => return Caret::Other,
    };
    let mut x = vec![];
    if branches.iter().filter(|b| is_caret(b)).count() > 1 {
        return Caret::Other;
    }
    for b in branches {
        if is_caret(b) {
            continue;
        }
        if has(b) {
            return Caret::Other;
        }
        x.push(format!("(?:{})", &text[b.span().start.offset..b.span().end.offset]));
    }
    if x.is_empty() {
        return Caret::Pure { rest };
    }
    Caret::Alt { x: x.join("|"), rest }
}

fn is_escaped_dollar(t: &str) -> bool {
    let b = t.as_bytes();
    let n = b.len() - 1;
    b[..n].iter().rev().take_while(|c| **c == b'\\').count() % 2 == 1
}
pub fn has_end_anchor(t: &str) -> bool {
    t.ends_with('$') && !is_escaped_dollar(t)
}

pub const MAX_DFA: usize = 400;

impl Model {
    pub fn new(parts: &[Part]) -> Result<Model, String> {
        if parts.is_empty() {
            return Err("no parts".into());
        }
        let end_anchor = has_end_anchor(&parts.last().unwrap().regex_def);
        let mut nfa = Nfa::new();
        let mut net: Option<Dfa> = None;
        let (mut ll1, mut inner_loop, mut start_loop) = (true, false, false);
        let mut caret = caret_of(&parts[0].regex_def);
        // the parts as they are chained: the anchor is a part of its own
        let mut chain: Vec<(String, LookOpts)> = vec![];
        for (i, p) in parts.iter().enumerate() {
            let last = i + 1 == parts.len() && end_anchor;
            let lo = LookOpts { caret_is_sot: i == 0, drop_end: last };
            nfa.append(&parse(&p.regex_def)?, i as u16, lo)?;
            let no = LookOpts { caret_is_sot: false, drop_end: last };
            match (i, &caret) {
                (0, Caret::Pure { rest }) => {
                    chain.push(("^".into(), LookOpts { caret_is_sot: true, drop_end: false }));
                    chain.push((rest.clone(), no));
                }
                (0, Caret::Alt { x, rest }) => {
                    chain.push((format!("{x}|^"), LookOpts { caret_is_sot: true, drop_end: false }));
                    chain.push((rest.clone(), no));
                }
                _ => chain.push((p.regex_def.clone(), lo)),
            }
        }
        if let Caret::Alt { x, .. } = &caret {
            // an alternative of the anchor that is empty or that loops is not expressible
            let no = LookOpts { caret_is_sot: false, drop_end: false };
            let dx = nfa_of(x, no)?.dfa(MAX_DFA)?;
            let de = nfa_of(&format!("(?:{x})?"), no)?.dfa(MAX_DFA)?;
            if dx.accept[0] || de.start_has_incoming() {
                caret = Caret::Other;
            }
        }
        for (text, lo) in &chain {
            let h = parse(text)?;
            let mut one = Nfa::new();
            one.append(&h, 0, *lo)?;
            let d = one.dfa(MAX_DFA)?;
            if d.is_empty_language() {
                return Err("a part matches nothing".into());
            }
            if let Some(n) = &net {
                start_loop |= n.start_has_incoming();
            }
            net = Some(match net {
                None => d,
                Some(mut n) => {
                    let inc = d.start_has_incoming();
                    inner_loop |= inc;
                    // new ids: states of d other than the start (which is kept when it loops)
                    let base = n.len() as u32;
                    let map = |s: u32| -> u32 {
                        if s == DEAD {
                            DEAD
                        } else if inc {
                            base + s
                        } else {
                            base + s - 1
                        }
                    };
                    let accs: Vec<usize> = (0..n.len()).filter(|s| n.accept[*s]).collect();
                    for q in accs {
                        for b in 0..256 {
                            let t = d.next[0][b];
                            if t != DEAD {
                                if n.next[q][b] != DEAD {
                                    ll1 = false;
                                }
                                n.next[q][b] = map(t);
                            }
                        }
                        n.accept[q] = d.accept[0];
                    }
                    for s in (if inc { 0 } else { 1 })..d.len() {
                        n.next.push(d.next[s].iter().map(|t| map(*t)).collect());
                        n.accept.push(d.accept[s]);
                    }
                    n
                }
            });
        }
        let net = net.unwrap();
        let dfa = nfa.dfa(MAX_DFA * 2)?;
        Ok(Model {
            nfa,
            start_loop: start_loop || net.start_has_incoming() || dfa.start_has_incoming(),
            n_accept: net.n_accept(),
            dfa,
            parts: parts.to_vec(),
            end_anchor,
            ll1,
            inner_loop,
            caret,
        })
    }
    /// The documented domain in which the circuit decides exactly the scan semantics.
    pub fn in_domain(&self) -> Result<(), &'static str> {
        if self.caret == Caret::Other {
            return Err("undocumented use of the start anchor");
        }
        if matches!(self.caret, Caret::Alt { .. }) && self.parts[0].is_public {
            return Err("public part holds the alternative of the start anchor");
        }
        if self.dfa.accept[0] {
            return Err("matches the empty string");
        }
        if !self.ll1 {
            return Err("ambiguous part boundary");
        }
        if self.start_loop {
            return Err("transition to the initial state");
        }
        if self.n_accept != 1 {
            return Err("several accepting states");
        }
        Ok(())
    }
    pub fn n_public(&self) -> usize {
        self.parts.iter().filter(|p| p.is_public).count()
    }
    pub fn uses_nul(&self) -> bool {
        self.dfa.next.iter().any(|r| r[0] != DEAD)
    }
}

/// Result of the left-to-right scan over `[255] ++ msg`.
#[derive(Debug, Clone, PartialEq)]
pub struct Scan {
    pub out: bool,
    /// Maximal runs: (first byte, one past the last byte at which the run was accepting), as
    /// indexes into `[255] ++ msg`; only runs that accepted somewhere.
    pub matched: Vec<(usize, usize)>,
    pub restarts: usize,
    /// accepting after each prefix of `[255] ++ msg`
    pub acc: Vec<bool>,
}

/// The scan: one active run; a NUL byte never continues or starts a run; when the run dies on a
/// byte a new run is tried at that same byte.
pub fn scan(d: &Dfa, msg: &[u8], end_anchor: bool) -> Scan {
    let mut inp = vec![SOT];
    inp.extend_from_slice(msg);
    let mut s = 0u32;
    let mut run_start = 0usize;
    let mut last_acc: Option<usize> = None;
    let mut matched = vec![];
    let mut acc = vec![d.accept[0]];
    let mut restarts = 0;
    for (i, b) in inp.iter().enumerate() {
        let t = if *b == 0 || s == 0 { DEAD } else { d.go(s, *b) };
        if t != DEAD {
            s = t;
        } else {
            if s != 0 {
                restarts += 1;
            }
            if let Some(e) = last_acc.take() {
                matched.push((run_start, e));
            }
            run_start = i;
            let t = if *b == 0 { DEAD } else { d.go(0, *b) };
            s = if t == DEAD { 0 } else { t };
        }
        let a = s != 0 && d.accept[s as usize];
        if a {
            last_acc = Some(i + 1);
        }
        acc.push(a);
    }
    if let Some(e) = last_acc {
        matched.push((run_start, e));
    }
    let out = if end_anchor {
        // the match must end with the last byte before the zero padding
        let nz = inp.iter().filter(|b| **b != 0).count();
        acc[nz]
    } else {
        acc.iter().any(|a| *a)
    };
    Scan { out, matched, restarts, acc }
}

/// Expected reveal arrays, one per public part. `None` if attribution is not unique.
pub fn reveals(m: &Model, msg: &[u8], sc: &Scan) -> Option<Vec<Vec<i128>>> {
    let pubs: Vec<usize> = (0..m.parts.len()).filter(|i| m.parts[*i].is_public).collect();
    let mut out = vec![vec![0i128; msg.len()]; pubs.len()];
    if !sc.out {
        return Some(out);
    }
    let mut inp = vec![SOT];
    inp.extend_from_slice(msg);
    for (a, b) in &sc.matched {
        if m.end_anchor {
            let nz = inp.iter().filter(|b| **b != 0).count();
            if *b != nz {
                continue;
            }
        }
        let w = &inp[*a..*b];
        let tags = m.nfa.tags_of(w)?;
        for (k, t) in tags.iter().enumerate() {
            if t.len() != 1 {
                return None;
            }
            if let Some(p) = pubs.iter().position(|x| *x == t[0] as usize) {
                let i = a + k;
                if i >= 1 {
                    out[p][i - 1] = inp[i] as i128;
                }
            }
        }
    }
    Some(out)
}

/// Does `[255] ++ msg` contain a word of the language as a NUL-free substring?
pub fn contains_match(d: &Dfa, msg: &[u8]) -> bool {
    if d.accept[0] {
        return true;
    }
    let mut inp = vec![SOT];
    inp.extend_from_slice(msg);
    for i in 0..inp.len() {
        let mut s = 0u32;
        for b in &inp[i..] {
            if *b == 0 {
                break;
            }
            s = d.go(s, *b);
            if s == DEAD {
                break;
            }
            if d.accept[s as usize] {
                return true;
            }
        }
    }
    false
}
