//! Reference semantics of regexes, independent of the code under test: regex-syntax's parser
//! gives the abstract syntax, and everything after that (byte NFA, determinisation, trimming,
//! minimisation, equivalence with counterexample, sampling) is written here.

use regex_syntax::hir::{Class, Hir, HirKind, Look};
use regex_syntax::utf8::Utf8Sequences;
use std::collections::{BTreeMap, HashMap, VecDeque};

pub const DEAD: u32 = u32::MAX;
/// The byte the circuits put in front of the message; `^` consumes it.
pub const SOT: u8 = 0xFF;

#[derive(Default, Clone)]
pub struct Nfa {
    pub eps: Vec<Vec<u32>>,
    pub tr: Vec<Vec<(u8, u8, u32)>>,
    pub tag: Vec<u16>,
    pub start: u32,
    pub accept: u32,
    cur_tag: u16,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct LookOpts {
    /// `^` becomes a transition on byte 0xFF (otherwise it is refused).
    pub caret_is_sot: bool,
    /// `$` is dropped (otherwise it is refused).
    pub drop_end: bool,
}

impl Nfa {
    pub fn new() -> Nfa {
        let mut n = Nfa::default();
        n.start = n.state();
        n.accept = n.start;
        n
    }
    fn state(&mut self) -> u32 {
        self.eps.push(vec![]);
        self.tr.push(vec![]);
        self.tag.push(self.cur_tag);
        (self.eps.len() - 1) as u32
    }
    /// Appends the language of `hir`, whose bytes are attributed to part `tag`.
    pub fn append(&mut self, hir: &Hir, tag: u16, lo: LookOpts) -> Result<(), String> {
        self.cur_tag = tag;
        let s = self.state();
        self.eps[self.accept as usize].push(s);
        let e = self.build(hir, s, lo)?;
        self.accept = e;
        if self.eps.len() > 60_000 {
            return Err("model NFA too large".into());
        }
        Ok(())
    }
    fn build(&mut self, h: &Hir, from: u32, lo: LookOpts) -> Result<u32, String> {
        if self.eps.len() > 60_000 {
            return Err("model NFA too large".into());
        }
        Ok(match h.kind() {
            HirKind::Empty => from,
            HirKind::Literal(l) => {
                let mut c = from;
                for b in l.0.iter() {
                    let n = self.state();
                    self.tr[c as usize].push((*b, *b, n));
                    c = n;
                }
                c
            }
            HirKind::Class(Class::Bytes(c)) => {
                let n = self.state();
                for r in c.iter() {
                    self.tr[from as usize].push((r.start(), r.end(), n));
                }
                n
            }
            HirKind::Class(Class::Unicode(c)) => {
                let n = self.state();
                // share prefixes a little: one chain per UTF-8 range sequence
                for r in c.iter() {
                    for seq in Utf8Sequences::new(r.start(), r.end()) {
                        let rs = seq.as_slice();
                        let mut cur = from;
                        for (i, x) in rs.iter().enumerate() {
                            let t = if i + 1 == rs.len() { n } else { self.state() };
                            self.tr[cur as usize].push((x.start, x.end, t));
                            cur = t;
                        }
                    }
                }
                n
            }
            HirKind::Look(Look::Start) if lo.caret_is_sot => {
                let n = self.state();
                self.tr[from as usize].push((SOT, SOT, n));
                n
            }
            HirKind::Look(Look::End) if lo.drop_end => from,
            HirKind::Look(l) => return Err(format!("look-around {l:?} outside the modelled subset")),
            HirKind::Repetition(r) => {
                let mut c = from;
                for _ in 0..r.min {
                    c = self.build(&r.sub, c, lo)?;
                }
                match r.max {
                    None => {
                        let s = self.state();
                        self.eps[c as usize].push(s);
                        let e = self.build(&r.sub, s, lo)?;
                        self.eps[e as usize].push(s);
                        let out = self.state();
                        self.eps[s as usize].push(out);
                        out
                    }
                    Some(m) => {
                        let out = self.state();
                        for _ in r.min..m {
                            self.eps[c as usize].push(out);
                            let s = self.state();
                            self.eps[c as usize].push(s);
                            c = self.build(&r.sub, s, lo)?;
                        }
                        self.eps[c as usize].push(out);
                        out
                    }
                }
            }
            HirKind::Capture(c) => self.build(&c.sub, from, lo)?,
            HirKind::Concat(v) => {
                let mut c = from;
                for x in v {
                    c = self.build(x, c, lo)?;
                }
                c
            }
            HirKind::Alternation(v) => {
                let out = self.state();
                for x in v {
                    let s = self.state();
                    self.eps[from as usize].push(s);
                    let e = self.build(x, s, lo)?;
                    self.eps[e as usize].push(out);
                }
                out
            }
        })
    }
    fn close(&self, set: &mut Vec<u32>) {
        let mut seen = vec![false; self.eps.len()];
        for s in set.iter() {
            seen[*s as usize] = true;
        }
        let mut i = 0;
        while i < set.len() {
            let s = set[i];
            i += 1;
            for t in &self.eps[s as usize] {
                if !seen[*t as usize] {
                    seen[*t as usize] = true;
                    set.push(*t);
                }
            }
        }
        set.sort_unstable();
    }
    fn step(&self, set: &[u32], b: u8) -> Vec<u32> {
        let mut out = vec![];
        for s in set {
            for (lo, hi, t) in &self.tr[*s as usize] {
                if *lo <= b && b <= *hi {
                    out.push(*t);
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        self.close(&mut out);
        out
    }
    /// Minimal trimmed DFA (a partial automaton: every state is useful).
    pub fn dfa(&self, max_states: usize) -> Result<Dfa, String> {
        let mut start = vec![self.start];
        self.close(&mut start);
        let mut ids: HashMap<Vec<u32>, u32> = HashMap::new();
        let mut d = Dfa { next: vec![], accept: vec![] };
        let mut todo = VecDeque::new();
        ids.insert(start.clone(), 0);
        todo.push_back(start);
        while let Some(set) = todo.pop_front() {
            d.accept.push(set.binary_search(&self.accept).is_ok());
            let mut row = vec![DEAD; 256];
            // boundaries of byte classes
            let mut cuts = [false; 257];
            let mut any = false;
            for s in &set {
                for (lo, hi, _) in &self.tr[*s as usize] {
                    cuts[*lo as usize] = true;
                    cuts[*hi as usize + 1] = true;
                    any = true;
                }
            }
            if any {
                let mut b = 0usize;
                while b < 256 {
                    let mut e = b + 1;
                    while e < 256 && !cuts[e] {
                        e += 1;
                    }
                    let t = self.step(&set, b as u8);
                    if !t.is_empty() {
                        let n = ids.len() as u32;
                        let id = match ids.get(&t) {
                            Some(i) => *i,
                            None => {
                                if ids.len() >= max_states {
                                    return Err("model DFA too large".into());
                                }
                                ids.insert(t.clone(), n);
                                todo.push_back(t);
                                n
                            }
                        };
                        row[b..e].iter_mut().for_each(|x| *x = id);
                    }
                    b = e;
                }
            }
            d.next.push(row);
        }
        Ok(d.trim_minimize())
    }
    /// For every byte of `w`, the set of parts that consume it on some accepting run.
    pub fn tags_of(&self, w: &[u8]) -> Option<Vec<Vec<u16>>> {
        let n = self.eps.len();
        let mut fwd: Vec<Vec<u32>> = vec![];
        let mut cur = vec![self.start];
        self.close(&mut cur);
        fwd.push(cur);
        for b in w {
            let nx = self.step(fwd.last().unwrap(), *b);
            fwd.push(nx);
        }
        // backward: states from which the rest is accepted
        let mut reps: Vec<Vec<u32>> = vec![vec![]; n];
        for (s, v) in self.eps.iter().enumerate() {
            for t in v {
                reps[*t as usize].push(s as u32);
            }
        }
        let bclose = |set: Vec<u32>| -> Vec<bool> {
            let mut seen = vec![false; n];
            let mut st = set;
            st.iter().for_each(|s| seen[*s as usize] = true);
            while let Some(s) = st.pop() {
                for t in &reps[s as usize] {
                    if !seen[*t as usize] {
                        seen[*t as usize] = true;
                        st.push(*t);
                    }
                }
            }
            seen
        };
        let mut good = bclose(vec![self.accept]);
        if !good[self.start as usize] && w.is_empty() {
            return None;
        }
        let mut out = vec![vec![]; w.len()];
        for i in (0..w.len()).rev() {
            let mut pre = vec![];
            for s in &fwd[i] {
                for (lo, hi, t) in &self.tr[*s as usize] {
                    if *lo <= w[i] && w[i] <= *hi && good[*t as usize] {
                        pre.push(*s);
                        let tag = self.tag[*s as usize];
                        if !out[i].contains(&tag) {
                            out[i].push(tag);
                        }
                    }
                }
            }
            if pre.is_empty() {
                return None;
            }
            good = bclose(pre);
        }
        Some(out)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dfa {
    pub next: Vec<Vec<u32>>,
    pub accept: Vec<bool>,
}

impl Dfa {
    pub fn empty() -> Dfa {
        Dfa { next: vec![vec![DEAD; 256]], accept: vec![false] }
    }
    pub fn len(&self) -> usize {
        self.next.len()
    }
    fn trim_minimize(&self) -> Dfa {
        let n = self.len();
        // useful states
        let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
        for (s, r) in self.next.iter().enumerate() {
            let mut last = DEAD;
            for t in r {
                if *t != DEAD && *t != last {
                    rev[*t as usize].push(s as u32);
                    last = *t;
                }
            }
        }
        let mut useful = vec![false; n];
        let mut st: Vec<u32> = (0..n as u32).filter(|s| self.accept[*s as usize]).collect();
        st.iter().for_each(|s| useful[*s as usize] = true);
        while let Some(s) = st.pop() {
            for t in &rev[s as usize] {
                if !useful[*t as usize] {
                    useful[*t as usize] = true;
                    st.push(*t);
                }
            }
        }
        if !useful[0] {
            return Dfa::empty();
        }
        // Moore refinement over useful states; class DEAD for the rest
        let mut class: Vec<u32> =
            (0..n).map(|s| if !useful[s] { DEAD } else { self.accept[s] as u32 }).collect();
        let mut count = 0;
        loop {
            let mut ids: HashMap<(u32, Vec<u32>), u32> = HashMap::new();
            let mut nc = vec![DEAD; n];
            for s in 0..n {
                if !useful[s] {
                    continue;
                }
                let sig: Vec<u32> =
                    self.next[s].iter().map(|t| if *t == DEAD { DEAD } else { class[*t as usize] }).collect();
                let k = ids.len() as u32;
                nc[s] = *ids.entry((class[s], sig)).or_insert(k);
            }
            let c = ids.len();
            class = nc;
            if c == count {
                break;
            }
            count = c;
        }
        // renumber in BFS order from the start
        let mut repr = vec![usize::MAX; count];
        for s in 0..n {
            if useful[s] && repr[class[s] as usize] == usize::MAX {
                repr[class[s] as usize] = s;
            }
        }
        let mut order = vec![DEAD; count];
        let mut q = VecDeque::from([class[0]]);
        order[class[0] as usize] = 0;
        let mut seq = vec![class[0]];
        while let Some(c) = q.pop_front() {
            for t in &self.next[repr[c as usize]] {
                if *t != DEAD && useful[*t as usize] {
                    let tc = class[*t as usize];
                    if order[tc as usize] == DEAD {
                        order[tc as usize] = seq.len() as u32;
                        seq.push(tc);
                        q.push_back(tc);
                    }
                }
            }
        }
        let mut d = Dfa { next: vec![], accept: vec![] };
        for c in seq {
            let s = repr[c as usize];
            d.accept.push(self.accept[s]);
            d.next.push(
                self.next[s]
                    .iter()
                    .map(|t| {
                        if *t == DEAD || !useful[*t as usize] {
                            DEAD
                        } else {
                            order[class[*t as usize] as usize]
                        }
                    })
                    .collect(),
            );
        }
        d
    }
    pub fn go(&self, s: u32, b: u8) -> u32 {
        if s == DEAD {
            DEAD
        } else {
            self.next[s as usize][b as usize]
        }
    }
    pub fn accepts(&self, w: &[u8]) -> bool {
        let s = w.iter().fold(0, |s, b| self.go(s, *b));
        s != DEAD && self.accept[s as usize]
    }
    pub fn n_accept(&self) -> usize {
        self.accept.iter().filter(|a| **a).count()
    }
    pub fn start_has_incoming(&self) -> bool {
        self.next.iter().any(|r| r.contains(&0))
    }
    pub fn is_empty_language(&self) -> bool {
        self.n_accept() == 0
    }
    /// Shortest word on which the two languages differ (all bytes except those in `skip`).
    /// `prefix` compares the sets of prefixes instead (both automata must be trim).
    pub fn difference(&self, o: &Dfa, prefix: bool, skip: &[u8]) -> Option<Vec<u8>> {
        self.search(o, skip, |a, b| {
            let f = |d: &Dfa, s: u32| s != DEAD && (if prefix { !d.is_empty_language() } else { d.accept[s as usize] });
            f(self, a) != f(o, b)
        })
    }
    /// Shortest word of `self` that `o` does not accept.
    pub fn not_subset(&self, o: &Dfa) -> Option<Vec<u8>> {
        self.search(o, &[], |a, b| {
            a != DEAD && self.accept[a as usize] && !(b != DEAD && o.accept[b as usize])
        })
    }
    fn search(&self, o: &Dfa, skip: &[u8], bad: impl Fn(u32, u32) -> bool) -> Option<Vec<u8>> {
        let mut seen: HashMap<(u32, u32), Option<((u32, u32), u8)>> = HashMap::new();
        let mut q = VecDeque::new();
        seen.insert((0, 0), None);
        q.push_back((0u32, 0u32));
        while let Some(p) = q.pop_front() {
            if bad(p.0, p.1) {
                let mut w = vec![];
                let mut c = p;
                while let Some((pr, b)) = seen[&c] {
                    w.push(b);
                    c = pr;
                }
                w.reverse();
                return Some(w);
            }
            for b in 0..=255u8 {
                if skip.contains(&b) {
                    continue;
                }
                let t = (self.go(p.0, b), o.go(p.1, b));
                if t != (DEAD, DEAD) && !seen.contains_key(&t) {
                    seen.insert(t, Some((p, b)));
                    q.push_back(t);
                }
            }
        }
        None
    }
    /// Length of the shortest accepted continuation from every state.
    pub fn dist(&self) -> Vec<usize> {
        let n = self.len();
        let mut d: Vec<usize> = self.accept.iter().map(|a| if *a { 0 } else { usize::MAX }).collect();
        loop {
            let mut ch = false;
            for s in 0..n {
                for t in &self.next[s] {
                    if *t != DEAD && d[*t as usize] != usize::MAX && d[*t as usize] + 1 < d[s] {
                        d[s] = d[*t as usize] + 1;
                        ch = true;
                    }
                }
            }
            if !ch {
                return d;
            }
        }
    }
}

pub fn parse(text: &str) -> Result<Hir, String> {
    regex_syntax::ParserBuilder::new().build().parse(text).map_err(|e| e.to_string())
}

pub fn nfa_of(text: &str, lo: LookOpts) -> Result<Nfa, String> {
    let mut n = Nfa::new();
    n.append(&parse(text)?, 0, lo)?;
    Ok(n)
}

/// A transition table written by the compiler (`cur next byte` lines), as a graph.
#[derive(Debug, Clone, PartialEq)]
pub struct Table {
    pub start: usize,
    pub accept: usize,
    pub max: usize,
    /// (cur, byte) -> next
    pub edges: BTreeMap<(usize, u8), usize>,
}

impl Table {
    pub fn parse(text: &str) -> Result<Table, String> {
        let mut it = text.lines();
        let mut num = |what: &str| -> Result<usize, String> {
            it.next().and_then(|l| l.trim().parse().ok()).ok_or(format!("table header: bad {what} line"))
        };
        let (start, accept, max) = (num("first-state")?, num("accept-state")?, num("max-state")?);
        let mut edges = BTreeMap::new();
        for l in it {
            if l.trim().is_empty() {
                continue;
            }
            let f: Vec<usize> = l
                .split_whitespace()
                .map(|x| x.parse::<usize>().map_err(|_| format!("table line {l:?} is not numeric")))
                .collect::<Result<_, _>>()?;
            if f.len() != 3 || f[2] > 255 {
                return Err(format!("table line {l:?} is not `cur next byte`"));
            }
            if f[0] > max || f[1] > max {
                return Err(format!("table line {l:?} names a state above the declared maximum {max}"));
            }
            if let Some(o) = edges.insert((f[0], f[2] as u8), f[1]) {
                return Err(format!("state {} has two transitions on byte {}: to {} and {}", f[0], f[2], o, f[1]));
            }
        }
        if accept > max || start > max {
            return Err("header state above the declared maximum".into());
        }
        Ok(Table { start, accept, max, edges })
    }
    /// The automaton of the table, with `accepts` as accepting states; not trimmed.
    pub fn raw_dfa(&self, accepts: &[usize]) -> Dfa {
        // state 0 of the result must be the start state: swap if needed
        let m = |s: usize| if s == self.start { 0 } else if s == 0 { self.start } else { s };
        let mut d = Dfa { next: vec![vec![DEAD; 256]; self.max + 1], accept: vec![false; self.max + 1] };
        for ((c, b), n) in &self.edges {
            d.next[m(*c)][*b as usize] = m(*n) as u32;
        }
        for a in accepts {
            d.accept[m(*a)] = true;
        }
        d
    }
    /// The number in the table of a state of `raw_dfa`.
    pub fn state_of(&self, s: u32) -> usize {
        let s = s as usize;
        if s == 0 { self.start } else if s == self.start { 0 } else { s }
    }
    pub fn dfa(&self) -> Dfa {
        self.raw_dfa(&[self.accept]).trim_minimize()
    }
    /// Automaton in which every reachable state accepts: the words the table can read.
    pub fn prefix_dfa(&self) -> Dfa {
        self.raw_dfa(&(0..=self.max).collect::<Vec<_>>()).trim_minimize()
    }
}

/// Words as readable text in messages.
pub fn show(w: &[u8]) -> String {
    w.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|c| c as char).collect()
}
