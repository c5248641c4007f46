//! A small circom front end: parser, elaborator and witness evaluator.
//!
//! circom itself is not installed here, so this module plays its role: it parses the generated
//! source together with the repository's own `regex_helpers.circom`, unrolls it the way circom
//! does (compile-time variables and loops, components, anonymous components, tuples) into a flat
//! list of signal assignments and constraints, rejects what circom rejects (syntax errors,
//! undeclared names, out-of-bounds indexes, non-quadratic constraints, signals assigned twice,
//! signals read but never assigned), and computes the unique witness for a given input.
//! The circomlib gates and comparators are modelled natively with circomlib's constraints.

use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum CErr {
    /// The source is not a valid circuit: circom would refuse it or leave it under-constrained.
    Ill(String),
    /// This interpreter does not implement the construct: no verdict.
    Unsupported(String),
}
type R<T> = Result<T, CErr>;
fn ill<T>(s: impl Into<String>) -> R<T> {
    Err(CErr::Ill(s.into()))
}
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(CErr::Unsupported(s.into()))
}

// ------------------------------------------------------------------------------------ lexer

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Num(i128),
    Str(String),
    P(&'static str),
    Eof,
}

const PUNCT: &[&str] = &[
    "<==", "==>", "===", "<--", "-->", "**=", "<<=", ">>=", "++", "--", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=",
    "^=", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+", "-", "*", "/", "\\", "%", "&", "|", "^", "~", "!",
    "<", ">", "=", "(", ")", "[", "]", "{", "}", ";", ",", ".", "?", ":",
];

fn lex(src: &str) -> R<Vec<(Tok, usize)>> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut line = 1;
    let mut out = vec![];
    'outer: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if src[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if src[i..].starts_with("/*") {
            match src[i + 2..].find("*/") {
                Some(e) => {
                    line += src[i..i + 2 + e].matches('\n').count();
                    i += e + 4;
                    continue;
                }
                None => return ill(format!("line {line}: unterminated comment")),
            }
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push((Tok::Id(src[s..i].to_string()), line));
            continue;
        }
        if c.is_ascii_digit() {
            let s = i;
            if src[i..].starts_with("0x") {
                i += 2;
                while i < b.len() && b[i].is_ascii_hexdigit() {
                    i += 1;
                }
                match i128::from_str_radix(&src[s + 2..i], 16) {
                    Ok(v) => out.push((Tok::Num(v), line)),
                    Err(_) => return unsup("big hex literal"),
                }
            } else {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                match src[s..i].parse::<i128>() {
                    Ok(v) => out.push((Tok::Num(v), line)),
                    Err(_) => return unsup("big literal"),
                }
            }
            continue;
        }
        if c == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1;
            }
            if i >= b.len() {
                return ill(format!("line {line}: unterminated string"));
            }
            out.push((Tok::Str(src[s..i].to_string()), line));
            i += 1;
            continue;
        }
        for p in PUNCT {
            if src.is_char_boundary(i) && src[i..].starts_with(p) {
                out.push((Tok::P(p), line));
                i += p.len();
                continue 'outer;
            }
        }
        return ill(format!("line {line}: illegal character {:?}", src[i..].chars().next()));
    }
    out.push((Tok::Eof, line));
    Ok(out)
}

// ------------------------------------------------------------------------------------ parser

#[derive(Debug, Clone)]
enum Ex {
    Num(i128),
    Id(String),
    Index(Box<Ex>, Box<Ex>),
    Member(Box<Ex>, String),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Un(&'static str, Box<Ex>),
    Tern(Box<Ex>, Box<Ex>, Box<Ex>),
    Call(String, Vec<Ex>),
    Anon(String, Vec<Ex>, Vec<(Option<String>, Ex)>),
    Arr(Vec<Ex>),
    Tuple(Vec<Ex>),
    Hole,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum SigKind {
    In,
    Out,
    Mid,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum DeclKind {
    Sig(SigKind),
    Var,
    Comp,
}

#[derive(Debug, Clone)]
enum St {
    Decl(DeclKind, Vec<(String, Vec<Ex>)>, Option<(&'static str, Ex)>, usize),
    Assign(Ex, &'static str, Ex, usize),
    Constraint(Ex, Ex, usize),
    For(Box<St>, Ex, Box<St>, Box<St>),
    While(Ex, Box<St>),
    If(Ex, Box<St>, Option<Box<St>>),
    Block(Vec<St>),
    Return(Ex),
    Expr(Ex, usize),
    Nop,
}

#[derive(Debug)]
pub struct Template {
    name: String,
    params: Vec<String>,
    body: Vec<St>,
    is_fn: bool,
}

struct Parser<'a> {
    t: &'a [(Tok, usize)],
    i: usize,
}

impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn line(&self) -> usize {
        self.t[self.i].1
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(q) if *q == p)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(q) if q == s)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            ill(format!("line {}: expected `{}`, found {:?}", self.line(), p, self.peek()))
        }
    }
    fn ident(&mut self) -> R<String> {
        let l = self.line();
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => ill(format!("line {l}: expected identifier, found {t:?}")),
        }
    }

    fn file(&mut self) -> R<(Vec<String>, Vec<Template>)> {
        let mut includes = vec![];
        let mut templates = vec![];
        loop {
            match self.peek().clone() {
                Tok::Eof => return Ok((includes, templates)),
                Tok::Id(s) if s == "pragma" => {
                    // `pragma circom A.B.C;`: the circuits are for circom 2.0 - 2.2
                    let version = self.t[self.i + 1..].iter().map(|x| &x.0).take_while(|x| **x != Tok::P(";")).collect::<Vec<_>>();
                    match version[..] {
                        [Tok::Id(c), Tok::Num(a), Tok::P("."), Tok::Num(b), Tok::P("."), Tok::Num(_)]
                            if c == "circom" =>
                        {
                            if *a != 2 || *b > 2 {
                                return ill(format!("line {}: circom version {a}.{b}", self.line()));
                            }
                        }
                        [Tok::Id(c)] if c == "custom_templates" => {}
                        _ => return ill(format!("line {}: bad pragma {version:?}", self.line())),
                    }
                    while !self.is(";") {
                        if *self.peek() == Tok::Eof {
                            return ill("unterminated pragma");
                        }
                        self.next();
                    }
                    self.next();
                }
                Tok::Id(s) if s == "include" => {
                    self.next();
                    match self.next() {
                        Tok::Str(s) => includes.push(s),
                        t => return ill(format!("bad include {t:?}")),
                    }
                    self.expect(";")?;
                }
                Tok::Id(s) if s == "template" || s == "function" => {
                    self.next();
                    let mut name = self.ident()?;
                    while name == "custom" || name == "parallel" {
                        name = self.ident()?;
                    }
                    self.expect("(")?;
                    let mut params = vec![];
                    while !self.eat(")") {
                        params.push(self.ident()?);
                        if !self.is(")") {
                            self.expect(",")?;
                        }
                    }
                    let body = match self.block()? {
                        St::Block(b) => b,
                        _ => unreachable!(),
                    };
                    templates.push(Template { name, params, body, is_fn: s == "function" });
                }
                Tok::Id(s) if s == "component" => {
                    // `component main {public [..]} = T(..);` -- ignored
                    while !self.is(";") {
                        if *self.peek() == Tok::Eof {
                            return ill("unterminated main component");
                        }
                        self.next();
                    }
                    self.next();
                }
                t => return ill(format!("line {}: unexpected {t:?} at top level", self.line())),
            }
        }
    }

    fn block(&mut self) -> R<St> {
        self.expect("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if *self.peek() == Tok::Eof {
                return ill("unexpected end of file: missing `}`");
            }
            v.push(self.stmt()?);
        }
        Ok(St::Block(v))
    }

    fn stmt(&mut self) -> R<St> {
        if self.is("{") {
            return self.block();
        }
        if self.eat(";") {
            return Ok(St::Nop);
        }
        if self.is_id("for") {
            self.next();
            self.expect("(")?;
            let init = self.simple()?;
            self.expect(";")?;
            let cond = self.expr()?;
            self.expect(";")?;
            let step = self.simple()?;
            self.expect(")")?;
            let body = self.stmt()?;
            return Ok(St::For(Box::new(init), cond, Box::new(step), Box::new(body)));
        }
        if self.is_id("while") {
            self.next();
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            let b = self.stmt()?;
            return Ok(St::While(c, Box::new(b)));
        }
        if self.is_id("if") {
            self.next();
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            let a = self.stmt()?;
            let b = if self.is_id("else") {
                self.next();
                Some(Box::new(self.stmt()?))
            } else {
                None
            };
            return Ok(St::If(c, Box::new(a), b));
        }
        if self.is_id("return") {
            self.next();
            let e = self.expr()?;
            self.expect(";")?;
            return Ok(St::Return(e));
        }
        if self.is_id("assert") || self.is_id("log") {
            let l = self.line();
            let is_assert = self.is_id("assert");
            self.next();
            self.expect("(")?;
            let mut e = Ex::Num(1);
            while !self.is(")") {
                if let Tok::Str(_) = self.peek() {
                    self.next();
                } else {
                    e = self.expr()?;
                }
                self.eat(",");
            }
            self.expect(")")?;
            self.expect(";")?;
            return Ok(if is_assert { St::Expr(Ex::Un("assert", Box::new(e)), l) } else { St::Nop });
        }
        let s = self.simple()?;
        self.expect(";")?;
        Ok(s)
    }

    /// Declaration, assignment, constraint or expression, without the final `;`.
    fn simple(&mut self) -> R<St> {
        let line = self.line();
        let kind = match self.peek() {
            Tok::Id(s) if s == "signal" => {
                self.next();
                if self.is_id("input") {
                    self.next();
                    Some(DeclKind::Sig(SigKind::In))
                } else if self.is_id("output") {
                    self.next();
                    Some(DeclKind::Sig(SigKind::Out))
                } else {
                    Some(DeclKind::Sig(SigKind::Mid))
                }
            }
            Tok::Id(s) if s == "var" => {
                self.next();
                Some(DeclKind::Var)
            }
            Tok::Id(s) if s == "component" => {
                self.next();
                Some(DeclKind::Comp)
            }
            _ => None,
        };
        if let Some(kind) = kind {
            if self.is("{") {
                // signal tags
                while !self.eat("}") {
                    if *self.peek() == Tok::Eof {
                        return ill("unterminated tag list");
                    }
                    self.next();
                }
            }
            if self.eat("(") {
                // tuple declaration
                let mut items = vec![];
                while !self.eat(")") {
                    let n = self.ident()?;
                    items.push((n, self.dims()?));
                    if !self.is(")") {
                        self.expect(",")?;
                    }
                }
                let init = self.init()?;
                return Ok(St::Decl(kind, items, init, line));
            }
            let mut stmts = vec![];
            loop {
                let n = self.ident()?;
                let d = self.dims()?;
                let init = self.init()?;
                stmts.push(St::Decl(kind, vec![(n, d)], init, line));
                if !self.eat(",") {
                    break;
                }
            }
            // declarations must stay in the enclosing scope, so they are spliced by `exec`
            return Ok(if stmts.len() == 1 {
                stmts.pop().unwrap()
            } else {
                St::Block(
                    std::iter::once(St::Expr(Ex::Hole, line)).chain(stmts).collect(), // Hole marks "no new scope"
                )
            });
        }
        let e = self.expr()?;
        for op in ["<==", "<--", "=", "+=", "-=", "*=", "/=", "\\=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^="] {
            if self.eat(op) {
                let op: &'static str = PUNCT.iter().find(|p| **p == op).unwrap();
                let r = self.expr()?;
                return Ok(St::Assign(e, op, r, line));
            }
        }
        if self.eat("==>") {
            let r = self.expr()?;
            return Ok(St::Assign(r, "<==", e, line));
        }
        if self.eat("-->") {
            let r = self.expr()?;
            return Ok(St::Assign(r, "<--", e, line));
        }
        if self.eat("===") {
            let r = self.expr()?;
            return Ok(St::Constraint(e, r, line));
        }
        if self.eat("++") {
            return Ok(St::Assign(e, "+=", Ex::Num(1), line));
        }
        if self.eat("--") {
            return Ok(St::Assign(e, "-=", Ex::Num(1), line));
        }
        Ok(St::Expr(e, line))
    }

    fn dims(&mut self) -> R<Vec<Ex>> {
        let mut d = vec![];
        while self.eat("[") {
            d.push(self.expr()?);
            self.expect("]")?;
        }
        Ok(d)
    }

    fn init(&mut self) -> R<Option<(&'static str, Ex)>> {
        for op in ["<==", "<--", "="] {
            if self.eat(op) {
                let op: &'static str = PUNCT.iter().find(|p| **p == op).unwrap();
                return Ok(Some((op, self.expr()?)));
            }
        }
        Ok(None)
    }

    fn expr(&mut self) -> R<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.expect(":")?;
            let b = self.expr()?;
            return Ok(Ex::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }

    fn bin(&mut self, lvl: usize) -> R<Ex> {
        const L: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["==", "!=", "<", ">", "<=", ">="],
            &["|"],
            &["^"],
            &["&"],
            &["<<", ">>"],
            &["+", "-"],
            &["*", "/", "\\", "%"],
            &["**"],
        ];
        if lvl == L.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        'o: loop {
            for op in L[lvl] {
                if self.is(op) {
                    self.next();
                    let r = self.bin(lvl + 1)?;
                    l = Ex::Bin(op, Box::new(l), Box::new(r));
                    continue 'o;
                }
            }
            return Ok(l);
        }
    }

    fn unary(&mut self) -> R<Ex> {
        for op in ["-", "!", "~"] {
            if self.eat(op) {
                let op: &'static str = PUNCT.iter().find(|p| **p == op).unwrap();
                return Ok(Ex::Un(op, Box::new(self.unary()?)));
            }
        }
        self.postfix()
    }

    fn args(&mut self) -> R<Vec<Ex>> {
        // after "("
        let mut v = vec![];
        while !self.eat(")") {
            v.push(self.expr()?);
            if !self.is(")") {
                self.expect(",")?;
            }
        }
        Ok(v)
    }

    fn postfix(&mut self) -> R<Ex> {
        let line = self.line();
        let mut e = match self.next() {
            Tok::Num(n) => Ex::Num(n),
            Tok::Id(s) if s == "_" => Ex::Hole,
            Tok::Id(s) if s == "parallel" => return self.postfix(),
            Tok::Id(s) => {
                if self.eat("(") {
                    let a = self.args()?;
                    if self.eat("(") {
                        let mut v = vec![];
                        while !self.eat(")") {
                            let named = matches!(self.peek(), Tok::Id(_))
                                && matches!(self.t[self.i + 1].0, Tok::P("<==") | Tok::P("<--"));
                            if named {
                                let n = self.ident()?;
                                if self.is("<--") {
                                    return unsup("<-- in anonymous component");
                                }
                                self.next();
                                v.push((Some(n), self.expr()?));
                            } else {
                                v.push((None, self.expr()?));
                            }
                            if !self.is(")") {
                                self.expect(",")?;
                            }
                        }
                        Ex::Anon(s, a, v)
                    } else {
                        Ex::Call(s, a)
                    }
                } else {
                    Ex::Id(s)
                }
            }
            Tok::P("(") => {
                let mut v = self.args()?;
                if v.len() == 1 {
                    v.pop().unwrap()
                } else {
                    Ex::Tuple(v)
                }
            }
            Tok::P("[") => {
                let mut v = vec![];
                while !self.eat("]") {
                    v.push(self.expr()?);
                    if !self.is("]") {
                        self.expect(",")?;
                    }
                }
                Ex::Arr(v)
            }
            t => return ill(format!("line {line}: unexpected {t:?}")),
        };
        loop {
            if self.eat("[") {
                let i = self.expr()?;
                self.expect("]")?;
                e = Ex::Index(Box::new(e), Box::new(i));
            } else if self.eat(".") {
                let n = self.ident()?;
                e = Ex::Member(Box::new(e), n);
            } else {
                return Ok(e);
            }
        }
    }
}

// ------------------------------------------------------------------------------------ library

pub struct Library {
    templates: HashMap<String, Rc<Template>>,
}

impl Library {
    /// Parses `src` and everything it includes. `circom_root` is /repo/packages/circom.
    pub fn load(src: &str, dir: &Path, circom_root: &Path) -> R<Library> {
        let mut lib = Library { templates: HashMap::new() };
        let mut seen = std::collections::HashSet::new();
        lib.add(src, dir, circom_root, &mut seen, None)?;
        Ok(lib)
    }
    /// Like `load`, sharing already parsed include files (regex_helpers) through `cache`.
    pub fn load_cached(src: &str, dir: &Path, circom_root: &Path, cache: &mut Cache) -> R<Library> {
        let mut lib = Library { templates: HashMap::new() };
        let mut seen = std::collections::HashSet::new();
        lib.add(src, dir, circom_root, &mut seen, Some(cache))?;
        Ok(lib)
    }
    fn add(
        &mut self,
        src: &str,
        dir: &Path,
        root: &Path,
        seen: &mut std::collections::HashSet<PathBuf>,
        mut cache: Option<&mut Cache>,
    ) -> R<()> {
        let toks = lex(src)?;
        let (incs, ts) = Parser { t: &toks, i: 0 }.file()?;
        for t in ts {
            if self.templates.insert(t.name.clone(), Rc::new(t)).is_some() {
                return ill("template defined twice");
            }
        }
        self.includes(incs, dir, root, seen, cache.as_deref_mut())
    }
    fn includes(
        &mut self,
        incs: Vec<String>,
        dir: &Path,
        root: &Path,
        seen: &mut std::collections::HashSet<PathBuf>,
        mut cache: Option<&mut Cache>,
    ) -> R<()> {
        for inc in incs {
            if inc.starts_with("circomlib/") {
                continue; // modelled natively
            }
            let p = if let Some(r) = inc.strip_prefix("@zk-email/zk-regex-circom/") { root.join(r) } else { dir.join(&inc) };
            let p = match p.canonicalize() {
                Ok(p) => p,
                Err(_) => return ill(format!("include {inc:?} not found")),
            };
            if !seen.insert(p.clone()) {
                continue;
            }
            if let Some(c) = cache.as_deref_mut() {
                if !c.files.contains_key(&p) {
                    let s = std::fs::read_to_string(&p).map_err(|e| CErr::Unsupported(e.to_string()))?;
                    let toks = lex(&s)?;
                    let (incs, ts) = Parser { t: &toks, i: 0 }.file()?;
                    c.files.insert(p.clone(), (incs, ts.into_iter().map(Rc::new).collect()));
                }
                let (incs, ts) = c.files[&p].clone();
                for t in ts {
                    if self.templates.insert(t.name.clone(), t).is_some() {
                        return ill("template defined twice");
                    }
                }
                self.includes(incs, p.parent().unwrap(), root, seen, Some(c))?;
            } else {
                let s = std::fs::read_to_string(&p).map_err(|e| CErr::Unsupported(e.to_string()))?;
                self.add(&s, p.parent().unwrap(), root, seen, None)?;
            }
        }
        Ok(())
    }
    pub fn has(&self, t: &str) -> bool {
        self.templates.contains_key(t)
    }
}

#[derive(Default)]
pub struct Cache {
    files: HashMap<PathBuf, (Vec<String>, Vec<Rc<Template>>)>,
}

// ------------------------------------------------------------------------------------ elaboration

#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
enum Deg {
    Const,
    Lin,
    Quad,
    Non,
}

#[derive(Debug, Clone, Copy)]
enum E {
    C(i128),
    S(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
}

#[derive(Debug, Clone)]
enum Val {
    Num(i128),
    E(u32, Deg),
    Arr(Vec<Val>),
    Tuple(Vec<Val>),
    Comp(usize),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Gate {
    IsZero,
    IsEqual,
    LessThan(u32),
    LessEqThan(u32),
    GreaterThan(u32),
    GreaterEqThan(u32),
    And,
    Or,
    Xor,
    Nand,
    Nor,
    Not,
    MultiAnd,
    Num2Bits,
}

#[derive(Debug, Clone)]
enum Node {
    Assign { sig: u32, e: u32, hint: bool },
    Check { e: u32, line: usize },
    Gate { g: Gate, ins: Vec<u32>, outs: Vec<u32> },
}

struct Comp {
    sigs: HashMap<String, (SigKind, Vec<usize>, u32)>,
    ins: Vec<String>,
    outs: Vec<String>,
}

#[derive(Clone)]
enum Bind {
    Var(Val),
    Sig(SigKind, Vec<usize>, u32),
    Comp(Vec<usize>, Vec<Option<usize>>),
}

pub struct Flat {
    nodes: Vec<Node>,
    exprs: Vec<E>,
    n: usize,
    names: Vec<String>,
    order: Vec<usize>,
    pub inputs: Vec<(String, Vec<u32>)>,
    pub outputs: BTreeMap<String, Vec<u32>>,
    pub n_constraints: usize,
    hints: Vec<usize>,
}

struct El<'a> {
    lib: &'a Library,
    nodes: Vec<Node>,
    exprs: Vec<E>,
    names: Vec<String>,
    defined: Vec<bool>,
    comps: Vec<Comp>,
    steps: u64,
    depth: usize,
}

struct Frame {
    scopes: Vec<HashMap<String, Bind>>,
    prefix: String,
    is_fn: bool,
}

impl Frame {
    fn get(&self, n: &str) -> Option<&Bind> {
        self.scopes.iter().rev().find_map(|s| s.get(n))
    }
    fn get_mut(&mut self, n: &str) -> Option<&mut Bind> {
        self.scopes.iter_mut().rev().find_map(|s| s.get_mut(n))
    }
}

enum Flow {
    Go,
    Ret(Val),
}

/// An assignable place.
enum Place {
    Var(String, Vec<usize>),
    Sig { kind: SigKind, own: bool, dims: Vec<usize>, base: u32 },
    CompSlot(String, Vec<usize>),
    Hole,
}

const LIMIT: usize = 6_000_000;

impl<'a> El<'a> {
    fn new_sigs(&mut self, name: &str, count: usize) -> R<u32> {
        let b = self.names.len() as u32;
        if self.names.len() + count > LIMIT {
            return unsup("too many signals");
        }
        for i in 0..count {
            self.names.push(if count == 1 { name.to_string() } else { format!("{name}#{i}") });
            self.defined.push(false);
        }
        Ok(b)
    }
    fn ex(&mut self, e: E) -> u32 {
        self.exprs.push(e);
        (self.exprs.len() - 1) as u32
    }
    fn to_e(&mut self, v: &Val) -> R<(u32, Deg)> {
        match v {
            Val::Num(n) => Ok((self.ex(E::C(*n)), Deg::Const)),
            Val::E(e, d) => Ok((*e, *d)),
            _ => ill("array or component used where a single value is needed"),
        }
    }
    fn arith(&mut self, op: &str, a: Val, b: Val) -> R<Val> {
        if let (Val::Num(x), Val::Num(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let bool2 = |c: bool| Val::Num(c as i128);
            return Ok(match op {
                "+" => Val::Num(x.checked_add(y).ok_or(CErr::Unsupported("overflow".into()))?),
                "-" => Val::Num(x.checked_sub(y).ok_or(CErr::Unsupported("overflow".into()))?),
                "*" => Val::Num(x.checked_mul(y).ok_or(CErr::Unsupported("overflow".into()))?),
                "\\" if y > 0 && x >= 0 => Val::Num(x / y),
                "/" if y > 0 && x >= 0 && x % y == 0 => Val::Num(x / y),
                "%" if y > 0 && x >= 0 => Val::Num(x % y),
                "**" if (0..100).contains(&y) => {
                    Val::Num(x.checked_pow(y as u32).ok_or(CErr::Unsupported("overflow".into()))?)
                }
                "<<" if (0..100).contains(&y) && x >= 0 => {
                    Val::Num(x.checked_mul(1i128 << y).ok_or(CErr::Unsupported("overflow".into()))?)
                }
                ">>" if (0..127).contains(&y) && x >= 0 => Val::Num(x >> y),
                "&" if x >= 0 && y >= 0 => Val::Num(x & y),
                "|" if x >= 0 && y >= 0 => Val::Num(x | y),
                "^" if x >= 0 && y >= 0 => Val::Num(x ^ y),
                "==" => bool2(x == y),
                "!=" => bool2(x != y),
                "<" => bool2(x < y),
                ">" => bool2(x > y),
                "<=" => bool2(x <= y),
                ">=" => bool2(x >= y),
                "&&" => bool2(x != 0 && y != 0),
                "||" => bool2(x != 0 || y != 0),
                _ => return unsup(format!("constant operator {op} on {x},{y}")),
            });
        }
        let (ea, da) = self.to_e(&a)?;
        let (eb, db) = self.to_e(&b)?;
        match op {
            "+" | "-" => {
                let d = if da == Deg::Quad && db == Deg::Quad { Deg::Non } else if da > db { da } else { db };
                let e = if op == "+" { self.ex(E::Add(ea, eb)) } else { self.ex(E::Sub(ea, eb)) };
                Ok(Val::E(e, d))
            }
            "*" => {
                let d = match (da, db) {
                    (Deg::Const, d) | (d, Deg::Const) => d,
                    (Deg::Lin, Deg::Lin) => Deg::Quad,
                    _ => Deg::Non,
                };
                let e = self.ex(E::Mul(ea, eb));
                Ok(Val::E(e, d))
            }
            _ => unsup(format!("operator {op} on signals")),
        }
    }
    fn num(&mut self, f: &mut Frame, e: &Ex) -> R<i128> {
        match self.eval(f, e)? {
            Val::Num(n) => Ok(n),
            _ => ill("compile-time constant expected, found a signal expression"),
        }
    }
    fn idx(&mut self, f: &mut Frame, e: &Ex) -> R<usize> {
        let n = self.num(f, e)?;
        if n < 0 {
            return ill(format!("negative index {n}"));
        }
        Ok(n as usize)
    }
    fn sig_val(&mut self, dims: &[usize], base: u32) -> Val {
        if dims.is_empty() {
            let e = self.ex(E::S(base));
            return Val::E(e, Deg::Lin);
        }
        let stride: usize = dims[1..].iter().product();
        Val::Arr((0..dims[0]).map(|i| self.sig_val(&dims[1..], base + (i * stride) as u32)).collect())
    }

    /// Resolves a path expression to (root binding, remaining) and evaluates it.
    fn path(&mut self, f: &mut Frame, e: &Ex) -> R<Option<Place>> {
        // flatten
        let mut chain: Vec<Result<usize, String>> = vec![];
        let mut cur = e;
        loop {
            match cur {
                Ex::Index(b, i) => {
                    let i = self.idx(f, i)?;
                    chain.push(Ok(i));
                    cur = b;
                }
                Ex::Member(b, m) => {
                    chain.push(Err(m.clone()));
                    cur = b;
                }
                Ex::Id(_) => break,
                Ex::Hole => return Ok(Some(Place::Hole)),
                _ => return Ok(None),
            }
        }
        chain.reverse();
        let name = match cur {
            Ex::Id(n) => n.clone(),
            _ => unreachable!(),
        };
        let b = match f.get(&name) {
            None => return ill(format!("undeclared symbol `{name}`")),
            Some(b) => b,
        };
        match b {
            Bind::Var(_) => {
                let mut ix = vec![];
                for c in chain {
                    match c {
                        Ok(i) => ix.push(i),
                        Err(m) => return ill(format!("member .{m} of variable {name}")),
                    }
                }
                Ok(Some(Place::Var(name, ix)))
            }
            Bind::Sig(k, dims, base) => {
                let (mut dims, mut base, k) = (dims.clone(), *base, *k);
                for c in chain {
                    match c {
                        Ok(i) => {
                            if dims.is_empty() {
                                return ill(format!("too many indexes on signal {name}"));
                            }
                            if i >= dims[0] {
                                return ill(format!("index {i} out of bounds for signal {name} (size {})", dims[0]));
                            }
                            let stride: usize = dims[1..].iter().product();
                            base += (i * stride) as u32;
                            dims.remove(0);
                        }
                        Err(m) => return ill(format!("member .{m} of signal {name}")),
                    }
                }
                Ok(Some(Place::Sig { kind: k, own: true, dims, base }))
            }
            Bind::Comp(dims, slots) => {
                let mut ix = vec![];
                let mut it = chain.into_iter().peekable();
                while let Some(Ok(_)) = it.peek() {
                    ix.push(it.next().unwrap().unwrap());
                }
                if ix.len() > dims.len() {
                    return ill(format!("too many indexes on component {name}"));
                }
                for (i, d) in ix.iter().zip(dims.iter()) {
                    if i >= d {
                        return ill(format!("index {i} out of bounds for component {name} (size {d})"));
                    }
                }
                match it.next() {
                    None => Ok(Some(Place::CompSlot(name, ix))),
                    Some(Err(m)) => {
                        if ix.len() != dims.len() {
                            return ill(format!("missing index on component {name}"));
                        }
                        let flat = flat_index(dims, &ix);
                        let cid = match slots[flat] {
                            Some(c) => c,
                            None => return ill(format!("component {name}{ix:?} used before it is instantiated")),
                        };
                        let (k, mut dims, mut base) = match self.comps[cid].sigs.get(&m) {
                            Some(x) => x.clone(),
                            None => return ill(format!("component {name} has no signal {m}")),
                        };
                        for c in it {
                            match c {
                                Ok(i) => {
                                    if dims.is_empty() {
                                        return ill(format!("too many indexes on {name}.{m}"));
                                    }
                                    if i >= dims[0] {
                                        return ill(format!(
                                            "index {i} out of bounds for {name}{ix:?}.{m} (size {})",
                                            dims[0]
                                        ));
                                    }
                                    let stride: usize = dims[1..].iter().product();
                                    base += (i * stride) as u32;
                                    dims.remove(0);
                                }
                                Err(m2) => return ill(format!("member .{m2} of signal")),
                            }
                        }
                        Ok(Some(Place::Sig { kind: k, own: false, dims, base }))
                    }
                    Some(Ok(_)) => unreachable!(),
                }
            }
        }
    }

    fn read(&mut self, f: &mut Frame, p: Place) -> R<Val> {
        match p {
            Place::Hole => ill("`_` read"),
            Place::Sig { kind, own, dims, base } => {
                if !own && kind == SigKind::Mid {
                    return ill("intermediate signal of a subcomponent read");
                }
                Ok(self.sig_val(&dims, base))
            }
            Place::Var(n, ix) => {
                let mut v = match f.get(&n) {
                    Some(Bind::Var(v)) => v,
                    _ => unreachable!(),
                };
                for i in ix {
                    match v {
                        Val::Arr(xs) => match xs.get(i) {
                            Some(x) => v = x,
                            None => return ill(format!("index {i} out of bounds for variable {n}")),
                        },
                        _ => return ill(format!("variable {n} is not an array")),
                    }
                }
                Ok(v.clone())
            }
            Place::CompSlot(n, ix) => match f.get(&n) {
                Some(Bind::Comp(dims, slots)) if ix.len() == dims.len() => match slots[flat_index(dims, &ix)] {
                    Some(c) => Ok(Val::Comp(c)),
                    None => ill(format!("component {n} used before instantiation")),
                },
                _ => unsup("component array as value"),
            },
        }
    }

    fn eval(&mut self, f: &mut Frame, e: &Ex) -> R<Val> {
        match e {
            Ex::Num(n) => Ok(Val::Num(*n)),
            Ex::Id(_) | Ex::Index(..) | Ex::Member(..) => match self.path(f, e)? {
                Some(p) => self.read(f, p),
                None => {
                    if let Ex::Index(b, i) = e {
                        let b = self.eval(f, b)?;
                        let i = self.idx(f, i)?;
                        return match b {
                            Val::Arr(xs) => match xs.get(i) {
                                Some(x) => Ok(x.clone()),
                                None => ill("index out of bounds"),
                            },
                            _ => ill("indexing a scalar"),
                        };
                    }
                    if let Ex::Member(b, m) = e {
                        if let Val::Comp(c) = self.eval(f, b)? {
                            return match self.comps[c].sigs.get(m).cloned() {
                                Some((_, dims, base)) => Ok(self.sig_val(&dims, base)),
                                None => ill("no such signal"),
                            };
                        }
                    }
                    unsup("expression path")
                }
            },
            Ex::Bin(op, a, b) => {
                let a = self.eval(f, a)?;
                let b = self.eval(f, b)?;
                self.arith(op, a, b)
            }
            Ex::Un("-", a) => {
                let a = self.eval(f, a)?;
                self.arith("-", Val::Num(0), a)
            }
            Ex::Un("!", a) => {
                let n = self.num(f, a)?;
                Ok(Val::Num((n == 0) as i128))
            }
            Ex::Un("assert", a) => match self.eval(f, a)? {
                Val::Num(0) => ill("assertion fails"),
                v => Ok(v),
            },
            Ex::Un(op, _) => unsup(format!("operator {op}")),
            Ex::Tern(c, a, b) => {
                let c = self.num(f, c)?;
                if c != 0 {
                    self.eval(f, a)
                } else {
                    self.eval(f, b)
                }
            }
            Ex::Arr(v) => Ok(Val::Arr(v.iter().map(|x| self.eval(f, x)).collect::<R<_>>()?)),
            Ex::Tuple(v) => Ok(Val::Tuple(v.iter().map(|x| self.eval(f, x)).collect::<R<_>>()?)),
            Ex::Hole => unsup("`_` in expression"),
            Ex::Call(n, a) => {
                let args = a.iter().map(|x| self.eval(f, x)).collect::<R<Vec<_>>>()?;
                if let Some(t) = self.lib.templates.get(n).cloned() {
                    if t.is_fn {
                        return self.call_fn(&t, args);
                    }
                }
                let pre = format!("{}{}@{}", f.prefix, n, self.comps.len());
                Ok(Val::Comp(self.instantiate(n, args, pre)?))
            }
            Ex::Anon(n, params, args) => {
                let ps = params.iter().map(|x| self.eval(f, x)).collect::<R<Vec<_>>>()?;
                let pre = format!("{}{}@{}", f.prefix, n, self.comps.len());
                let mut vals = vec![];
                for (nm, a) in args {
                    vals.push((nm.clone(), self.eval(f, a)?));
                }
                let c = self.instantiate(n, ps, pre)?;
                let ins = self.comps[c].ins.clone();
                if ins.len() != vals.len() {
                    return ill(format!("anonymous component {n}: {} inputs given, {} expected", vals.len(), ins.len()));
                }
                for (i, (nm, v)) in vals.into_iter().enumerate() {
                    let nm = nm.unwrap_or_else(|| ins[i].clone());
                    let (k, dims, base) = match self.comps[c].sigs.get(&nm) {
                        Some(x) => x.clone(),
                        None => return ill(format!("{n} has no input {nm}")),
                    };
                    if k != SigKind::In {
                        return ill("assignment to a non-input of an anonymous component");
                    }
                    self.assign_sig(&dims, base, v, false, 0)?;
                }
                let outs = self.comps[c].outs.clone();
                let mut ov = vec![];
                for o in outs {
                    let (_, dims, base) = self.comps[c].sigs[&o].clone();
                    ov.push(self.sig_val(&dims, base));
                }
                Ok(if ov.len() == 1 { ov.pop().unwrap() } else { Val::Tuple(ov) })
            }
        }
    }

    fn call_fn(&mut self, t: &Rc<Template>, args: Vec<Val>) -> R<Val> {
        if args.len() != t.params.len() {
            return ill("wrong number of arguments");
        }
        let mut f = Frame { scopes: vec![HashMap::new()], prefix: String::new(), is_fn: true };
        for (p, a) in t.params.iter().zip(args) {
            f.scopes[0].insert(p.clone(), Bind::Var(a));
        }
        match self.exec_all(&mut f, &t.body)? {
            Flow::Ret(v) => Ok(v),
            Flow::Go => ill("function without return"),
        }
    }

    fn assign_sig(&mut self, dims: &[usize], base: u32, v: Val, hint: bool, line: usize) -> R<()> {
        if dims.is_empty() {
            let (e, d) = self.to_e(&v)?;
            if !hint && d == Deg::Non {
                return ill(format!("line {line}: non-quadratic constraint assigned to {}", self.names[base as usize]));
            }
            if self.defined[base as usize] {
                return ill(format!("line {line}: signal {} assigned twice", self.names[base as usize]));
            }
            self.defined[base as usize] = true;
            self.nodes.push(Node::Assign { sig: base, e, hint });
            return Ok(());
        }
        match v {
            Val::Arr(xs) => {
                if xs.len() != dims[0] {
                    return ill(format!("line {line}: array of {} assigned to array of {}", xs.len(), dims[0]));
                }
                let stride: usize = dims[1..].iter().product();
                for (i, x) in xs.into_iter().enumerate() {
                    self.assign_sig(&dims[1..], base + (i * stride) as u32, x, hint, line)?;
                }
                Ok(())
            }
            _ => ill(format!("line {line}: scalar assigned to an array signal")),
        }
    }

    fn assign_var(v: &mut Val, ix: &[usize], new: Val) -> R<()> {
        if ix.is_empty() {
            *v = new;
            return Ok(());
        }
        match v {
            Val::Arr(xs) => match xs.get_mut(ix[0]) {
                Some(x) => Self::assign_var(x, &ix[1..], new),
                None => ill("variable index out of bounds"),
            },
            _ => ill("variable is not an array"),
        }
    }

    fn assign(&mut self, f: &mut Frame, lhs: &Ex, op: &'static str, rhs: Val, line: usize) -> R<()> {
        if let Ex::Tuple(ls) = lhs {
            return match rhs {
                Val::Tuple(vs) if vs.len() == ls.len() => {
                    for (l, v) in ls.iter().zip(vs) {
                        self.assign(f, l, op, v, line)?;
                    }
                    Ok(())
                }
                _ => ill(format!("line {line}: tuple arity mismatch")),
            };
        }
        let p = match self.path(f, lhs)? {
            Some(p) => p,
            None => return ill(format!("line {line}: not assignable")),
        };
        match p {
            Place::Hole => Ok(()),
            Place::Var(n, ix) => {
                let nv = if op == "=" {
                    rhs
                } else if op == "<==" || op == "<--" {
                    return ill(format!("line {line}: {op} on a variable"));
                } else {
                    let cur = self.read(f, Place::Var(n.clone(), ix.clone()))?;
                    self.arith(&op[..op.len() - 1], cur, rhs)?
                };
                match f.get_mut(&n) {
                    Some(Bind::Var(v)) => Self::assign_var(v, &ix, nv),
                    _ => unreachable!(),
                }
            }
            Place::CompSlot(n, ix) => {
                if op != "=" {
                    return ill(format!("line {line}: {op} on a component"));
                }
                let c = match rhs {
                    Val::Comp(c) => c,
                    _ => return ill(format!("line {line}: component expected")),
                };
                match f.get_mut(&n) {
                    Some(Bind::Comp(dims, slots)) => {
                        if ix.len() != dims.len() {
                            return ill(format!("line {line}: component array assigned as a whole"));
                        }
                        let k = flat_index(dims, &ix);
                        if slots[k].is_some() {
                            // circom accepts re-instantiating with the same template only when no
                            // signal of it was touched; it is an error otherwise.
                            return ill(format!("line {line}: component {n}{ix:?} instantiated twice"));
                        }
                        slots[k] = Some(c);
                        Ok(())
                    }
                    _ => unreachable!(),
                }
            }
            Place::Sig { kind, own, dims, base } => {
                let hint = match op {
                    "<==" => false,
                    "<--" => true,
                    _ => return ill(format!("line {line}: `{op}` on a signal")),
                };
                if own && kind == SigKind::In {
                    return ill(format!("line {line}: assignment to an input signal"));
                }
                if !own && kind != SigKind::In {
                    return ill(format!("line {line}: assignment to a subcomponent's output"));
                }
                self.assign_sig(&dims, base, rhs, hint, line)
            }
        }
    }

    fn exec_all(&mut self, f: &mut Frame, b: &[St]) -> R<Flow> {
        for s in b {
            if let Flow::Ret(v) = self.exec(f, s)? {
                return Ok(Flow::Ret(v));
            }
        }
        Ok(Flow::Go)
    }

    fn exec(&mut self, f: &mut Frame, s: &St) -> R<Flow> {
        self.steps += 1;
        if self.steps > 40_000_000 {
            return unsup("elaboration step limit");
        }
        match s {
            St::Nop => {}
            St::Block(b) => {
                if matches!(b.first(), Some(St::Expr(Ex::Hole, _))) {
                    return self.exec_all(f, &b[1..]);
                }
                f.scopes.push(HashMap::new());
                let r = self.exec_all(f, b);
                f.scopes.pop();
                return r;
            }
            St::Decl(kind, items, init, line) => {
                for (n, dims) in items {
                    let mut ds = vec![];
                    for d in dims {
                        ds.push(self.idx(f, d)?);
                    }
                    let count: usize = ds.iter().product();
                    if count > LIMIT {
                        return unsup("array too large");
                    }
                    if f.scopes.last().unwrap().contains_key(n) {
                        return ill(format!("line {line}: `{n}` declared twice"));
                    }
                    let b = match kind {
                        DeclKind::Var => Bind::Var(zeros(&ds)),
                        DeclKind::Sig(k) => {
                            if f.is_fn {
                                return ill("signal in a function");
                            }
                            let nm = format!("{}{}", f.prefix, n);
                            Bind::Sig(*k, ds.clone(), self.new_sigs(&nm, count)?)
                        }
                        DeclKind::Comp => Bind::Comp(ds.clone(), vec![None; count]),
                    };
                    f.scopes.last_mut().unwrap().insert(n.clone(), b);
                }
                if let Some((op, e)) = init {
                    let v = self.eval(f, e)?;
                    let lhs = if items.len() == 1 {
                        Ex::Id(items[0].0.clone())
                    } else {
                        Ex::Tuple(items.iter().map(|i| Ex::Id(i.0.clone())).collect())
                    };
                    self.assign(f, &lhs, op, v, *line)?;
                }
            }
            St::Assign(l, op, r, line) => {
                let v = self.eval(f, r)?;
                self.assign(f, l, op, v, *line)?;
            }
            St::Constraint(l, r, line) => {
                let a = self.eval(f, l)?;
                let b = self.eval(f, r)?;
                self.constrain(a, b, *line)?;
            }
            St::For(init, cond, step, body) => {
                f.scopes.push(HashMap::new());
                self.exec(f, init)?;
                loop {
                    if self.num(f, cond)? == 0 {
                        break;
                    }
                    f.scopes.push(HashMap::new());
                    let r = self.exec(f, body);
                    f.scopes.pop();
                    if let Flow::Ret(v) = r? {
                        f.scopes.pop();
                        return Ok(Flow::Ret(v));
                    }
                    self.exec(f, step)?;
                }
                f.scopes.pop();
            }
            St::While(cond, body) => loop {
                if self.num(f, cond)? == 0 {
                    break;
                }
                if let Flow::Ret(v) = self.exec(f, body)? {
                    return Ok(Flow::Ret(v));
                }
            },
            St::If(c, a, b) => {
                if self.num(f, c)? != 0 {
                    return self.exec(f, a);
                } else if let Some(b) = b {
                    return self.exec(f, b);
                }
            }
            St::Return(e) => {
                let v = self.eval(f, e)?;
                return Ok(Flow::Ret(v));
            }
            St::Expr(e, _) => {
                self.eval(f, e)?;
            }
        }
        Ok(Flow::Go)
    }

    fn constrain(&mut self, a: Val, b: Val, line: usize) -> R<()> {
        match (a, b) {
            (Val::Arr(x), Val::Arr(y)) => {
                if x.len() != y.len() {
                    return ill(format!("line {line}: === on arrays of different size"));
                }
                for (p, q) in x.into_iter().zip(y) {
                    self.constrain(p, q, line)?;
                }
                Ok(())
            }
            (a, b) => {
                let v = self.arith("-", a, b)?;
                let (e, d) = self.to_e(&v)?;
                if d == Deg::Non {
                    return ill(format!("line {line}: non-quadratic constraint"));
                }
                self.nodes.push(Node::Check { e, line });
                Ok(())
            }
        }
    }

    fn gate(&mut self, g: Gate, pre: String, ins: &[(&str, usize, bool)], outs: &[(&str, usize, bool)]) -> R<usize> {
        let mut c = Comp { sigs: HashMap::new(), ins: vec![], outs: vec![] };
        let (mut iv, mut ov) = (vec![], vec![]);
        for (n, k, arr) in ins {
            let b = self.new_sigs(&format!("{pre}.{n}"), *k)?;
            c.sigs.insert(n.to_string(), (SigKind::In, if *arr { vec![*k] } else { vec![] }, b));
            c.ins.push(n.to_string());
            iv.extend((0..*k as u32).map(|i| b + i));
        }
        for (n, k, arr) in outs {
            let b = self.new_sigs(&format!("{pre}.{n}"), *k)?;
            c.sigs.insert(n.to_string(), (SigKind::Out, if *arr { vec![*k] } else { vec![] }, b));
            c.outs.push(n.to_string());
            for i in 0..*k as u32 {
                ov.push(b + i);
                self.defined[(b + i) as usize] = true;
            }
        }
        self.nodes.push(Node::Gate { g, ins: iv, outs: ov });
        self.comps.push(c);
        Ok(self.comps.len() - 1)
    }

    fn instantiate(&mut self, n: &str, args: Vec<Val>, pre: String) -> R<usize> {
        if let Some(t) = self.lib.templates.get(n).cloned() {
            if t.is_fn {
                return ill("function used as a template");
            }
            if args.len() != t.params.len() {
                return ill(format!("template {n}: {} parameters given, {} expected", args.len(), t.params.len()));
            }
            self.depth += 1;
            if self.depth > 64 {
                return unsup("template recursion too deep");
            }
            let mut f = Frame { scopes: vec![HashMap::new()], prefix: format!("{pre}."), is_fn: false };
            for (p, a) in t.params.iter().zip(args) {
                f.scopes[0].insert(p.clone(), Bind::Var(a));
            }
            // Inputs must be known to be assigned from outside: mark after declaration.
            self.exec_all(&mut f, &t.body)?;
            self.depth -= 1;
            let mut c = Comp { sigs: HashMap::new(), ins: vec![], outs: vec![] };
            // order of declaration = order of base signal
            let mut sigs: Vec<(u32, String, SigKind, Vec<usize>)> = vec![];
            for (name, b) in &f.scopes[0] {
                if let Bind::Sig(k, d, base) = b {
                    sigs.push((*base, name.clone(), *k, d.clone()));
                }
            }
            let mut decl_order: Vec<String> = vec![];
            collect_decls(&t.body, &mut decl_order);
            sigs.sort_by_key(|s| (decl_order.iter().position(|d| *d == s.1), s.0));
            for (base, name, k, d) in sigs {
                match k {
                    SigKind::In => c.ins.push(name.clone()),
                    SigKind::Out => c.outs.push(name.clone()),
                    SigKind::Mid => {}
                }
                c.sigs.insert(name, (k, d, base));
            }
            self.comps.push(c);
            return Ok(self.comps.len() - 1);
        }
        let nums: Vec<i128> = args
            .iter()
            .map(|a| match a {
                Val::Num(n) => Ok(*n),
                _ => ill("template parameter is not a constant"),
            })
            .collect::<R<_>>()?;
        let p0 = || -> R<u32> {
            match nums.as_slice() {
                [n] if (1..=252).contains(n) => Ok(*n as u32),
                _ => ill(format!("bad parameters {nums:?} for {n}")),
            }
        };
        let no = || -> R<()> {
            if nums.is_empty() {
                Ok(())
            } else {
                ill(format!("template {n} takes no parameters"))
            }
        };
        let two = [("in", 2, true)];
        let ab = [("a", 1, false), ("b", 1, false)];
        let o = [("out", 1, false)];
        match n {
            "IsZero" => no().and_then(|_| self.gate(Gate::IsZero, pre, &[("in", 1, false)], &o)),
            "IsEqual" => no().and_then(|_| self.gate(Gate::IsEqual, pre, &two, &o)),
            "LessThan" => p0().and_then(|k| self.gate(Gate::LessThan(k), pre, &two, &o)),
            "LessEqThan" => p0().and_then(|k| self.gate(Gate::LessEqThan(k), pre, &two, &o)),
            "GreaterThan" => p0().and_then(|k| self.gate(Gate::GreaterThan(k), pre, &two, &o)),
            "GreaterEqThan" => p0().and_then(|k| self.gate(Gate::GreaterEqThan(k), pre, &two, &o)),
            "AND" => no().and_then(|_| self.gate(Gate::And, pre, &ab, &o)),
            "OR" => no().and_then(|_| self.gate(Gate::Or, pre, &ab, &o)),
            "XOR" => no().and_then(|_| self.gate(Gate::Xor, pre, &ab, &o)),
            "NAND" => no().and_then(|_| self.gate(Gate::Nand, pre, &ab, &o)),
            "NOR" => no().and_then(|_| self.gate(Gate::Nor, pre, &ab, &o)),
            "NOT" => no().and_then(|_| self.gate(Gate::Not, pre, &[("in", 1, false)], &o)),
            "MultiAND" => {
                let k = p0()?;
                self.gate(Gate::MultiAnd, pre, &[("in", k as usize, true)], &o)
            }
            "Num2Bits" => {
                let k = p0()?;
                self.gate(Gate::Num2Bits, pre, &[("in", 1, false)], &[("out", k as usize, true)])
            }
            _ => ill(format!("unknown template {n}")),
        }
    }
}

fn collect_decls(b: &[St], out: &mut Vec<String>) {
    for s in b {
        match s {
            St::Decl(DeclKind::Sig(_), items, _, _) => out.extend(items.iter().map(|i| i.0.clone())),
            St::Block(b) if matches!(b.first(), Some(St::Expr(Ex::Hole, _))) => collect_decls(b, out),
            _ => {}
        }
    }
}

fn zeros(d: &[usize]) -> Val {
    if d.is_empty() {
        Val::Num(0)
    } else {
        Val::Arr((0..d[0]).map(|_| zeros(&d[1..])).collect())
    }
}

fn flat_index(dims: &[usize], ix: &[usize]) -> usize {
    dims.iter().zip(ix).fold(0, |a, (d, i)| a * d + i)
}

/// Elaborates `template(params)` as the main component.
pub fn elaborate(lib: &Library, template: &str, params: &[i128]) -> R<Flat> {
    let mut el = El {
        lib,
        nodes: vec![],
        exprs: vec![],
        names: vec![],
        defined: vec![],
        comps: vec![],
        steps: 0,
        depth: 0,
    };
    if !lib.has(template) {
        return ill(format!("template {template} is not defined"));
    }
    let c = el.instantiate(template, params.iter().map(|p| Val::Num(*p)).collect(), "main".into())?;
    let El { nodes, exprs, names, mut defined, mut comps, .. } = el;
    let main = comps.swap_remove(c);
    let mut inputs = vec![];
    for i in &main.ins {
        let (_, d, b) = &main.sigs[i];
        let n: usize = d.iter().product();
        let ids: Vec<u32> = (0..n as u32).map(|k| b + k).collect();
        for s in &ids {
            defined[*s as usize] = true;
        }
        inputs.push((i.clone(), ids));
    }
    let mut outputs = BTreeMap::new();
    for o in &main.outs {
        let (_, d, b) = &main.sigs[o];
        let n: usize = d.iter().product();
        let ids: Vec<u32> = (0..n as u32).map(|k| b + k).collect();
        for s in &ids {
            if !defined[*s as usize] {
                return ill(format!("output {} is never assigned", names[*s as usize]));
            }
        }
        outputs.insert(o.clone(), ids);
    }
    // dependency order
    let n = names.len();
    let mut def_by: Vec<u32> = vec![u32::MAX; n];
    for (i, nd) in nodes.iter().enumerate() {
        match nd {
            Node::Assign { sig, .. } => def_by[*sig as usize] = i as u32,
            Node::Gate { outs, .. } => outs.iter().for_each(|o| def_by[*o as usize] = i as u32),
            Node::Check { .. } => {}
        }
    }
    let mut users: Vec<Vec<u32>> = vec![vec![]; nodes.len()];
    let mut indeg: Vec<u32> = vec![0; nodes.len()];
    let mut stack = vec![];
    for (i, nd) in nodes.iter().enumerate() {
        let mut deps: Vec<u32> = vec![];
        match nd {
            Node::Assign { e, .. } | Node::Check { e, .. } => {
                stack.push(*e);
                while let Some(x) = stack.pop() {
                    match exprs[x as usize] {
                        E::C(_) => {}
                        E::S(s) => deps.push(s),
                        E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
                            stack.push(a);
                            stack.push(b);
                        }
                    }
                }
            }
            Node::Gate { ins, .. } => deps.extend(ins),
        }
        for s in deps {
            if !defined[s as usize] {
                return ill(format!("signal {} is used but never assigned", names[s as usize]));
            }
            let d = def_by[s as usize];
            if d != u32::MAX {
                users[d as usize].push(i as u32);
                indeg[i] += 1;
            }
        }
    }
    let mut order: Vec<usize> = (0..nodes.len()).filter(|i| indeg[*i] == 0).collect();
    let mut k = 0;
    while k < order.len() {
        let i = order[k];
        k += 1;
        for u in &users[i] {
            indeg[*u as usize] -= 1;
            if indeg[*u as usize] == 0 {
                order.push(*u as usize);
            }
        }
    }
    if order.len() != nodes.len() {
        return ill("cyclic signal dependencies");
    }
    let hints = nodes
        .iter()
        .enumerate()
        .filter_map(|(i, n)| if let Node::Assign { hint: true, .. } = n { Some(i) } else { None })
        .collect();
    Ok(Flat { n_constraints: nodes.len(), nodes, exprs, n, names, order, inputs, outputs, hints })
}

// ------------------------------------------------------------------------------------ witness

pub type Outputs = BTreeMap<String, Vec<i128>>;

#[derive(Debug, Clone, PartialEq)]
pub enum Run {
    /// All constraints hold; the outputs.
    Sat(Outputs),
    /// No witness: some constraint fails for this input.
    Unsat(String),
}

impl Flat {
    fn ev(&self, vals: &[i128], e: u32) -> i128 {
        match self.exprs[e as usize] {
            E::C(c) => c,
            E::S(s) => vals[s as usize],
            E::Add(a, b) => self.ev(vals, a).checked_add(self.ev(vals, b)).expect("field overflow in model"),
            E::Sub(a, b) => self.ev(vals, a).checked_sub(self.ev(vals, b)).expect("field overflow in model"),
            E::Mul(a, b) => self.ev(vals, a).checked_mul(self.ev(vals, b)).expect("field overflow in model"),
        }
    }
    /// `inputs`: values of the single main input array.
    pub fn run(&self, msg: &[i128]) -> Run {
        self.run_with(msg, None)
    }
    fn run_with(&self, msg: &[i128], over: Option<(usize, i128)>) -> Run {
        let mut v = vec![0i128; self.n];
        let ids: Vec<u32> = self.inputs.iter().flat_map(|(_, s)| s.iter().copied()).collect();
        assert_eq!(ids.len(), msg.len(), "input arity");
        for (s, x) in ids.iter().zip(msg) {
            v[*s as usize] = *x;
        }
        let lt = |k: u32, a: i128, b: i128| -> Result<i128, String> {
            let t = a + (1i128 << k) - b;
            if t < 0 || t >= (1i128 << (k + 1)) {
                return Err(format!("LessThan({k}) range check on {a} < {b}"));
            }
            Ok(1 - ((t >> k) & 1))
        };
        for &i in &self.order {
            match &self.nodes[i] {
                Node::Assign { sig, e, .. } => {
                    v[*sig as usize] = match over {
                        Some((n, x)) if n == i => x,
                        _ => self.ev(&v, *e),
                    }
                }
                Node::Check { e, line } => {
                    if self.ev(&v, *e) != 0 {
                        return Run::Unsat(format!("constraint at line {line}"));
                    }
                }
                Node::Gate { g, ins, outs } => {
                    let x = |k: usize| v[ins[k] as usize];
                    let r: Result<i128, String> = match g {
                        Gate::IsZero => Ok((x(0) == 0) as i128),
                        Gate::IsEqual => Ok((x(0) == x(1)) as i128),
                        Gate::LessThan(k) => lt(*k, x(0), x(1)),
                        Gate::LessEqThan(k) => lt(*k, x(0), x(1) + 1),
                        Gate::GreaterThan(k) => lt(*k, x(1), x(0)),
                        Gate::GreaterEqThan(k) => lt(*k, x(1), x(0) + 1),
                        Gate::And => Ok(x(0) * x(1)),
                        Gate::Or => Ok(x(0) + x(1) - x(0) * x(1)),
                        Gate::Xor => Ok(x(0) + x(1) - 2 * x(0) * x(1)),
                        Gate::Nand => Ok(1 - x(0) * x(1)),
                        Gate::Nor => Ok(x(0) * x(1) + 1 - x(0) - x(1)),
                        Gate::Not => Ok(1 - x(0)),
                        Gate::MultiAnd => Ok(ins.iter().map(|s| v[*s as usize]).product()),
                        Gate::Num2Bits => {
                            let t = x(0);
                            if t < 0 || (outs.len() < 126 && t >> outs.len() != 0) {
                                return Run::Unsat("Num2Bits range".into());
                            }
                            for (k, o) in outs.iter().enumerate() {
                                v[*o as usize] = (t >> k) & 1;
                            }
                            continue;
                        }
                    };
                    match r {
                        Ok(y) => v[outs[0] as usize] = y,
                        Err(e) => return Run::Unsat(e),
                    }
                }
            }
        }
        Run::Sat(
            self.outputs.iter().map(|(n, s)| (n.clone(), s.iter().map(|k| v[*k as usize]).collect())).collect(),
        )
    }
    /// Looks for a second witness with different outputs by letting a dishonest prover choose
    /// other values for signals assigned without a constraint (`<--`).
    pub fn second_witness(&self, msg: &[i128], tries: &[i128]) -> Option<String> {
        if self.hints.is_empty() {
            return None;
        }
        let honest = match self.run(msg) {
            Run::Sat(o) => o,
            Run::Unsat(_) => return None,
        };
        for &h in &self.hints {
            if let Node::Assign { sig, .. } = &self.nodes[h] {
                for t in tries {
                    if let Run::Sat(o) = self.run_with(msg, Some((h, *t))) {
                        if o != honest {
                            return Some(format!(
                                "signal {} is assigned but not constrained: setting it to {t} satisfies every constraint and changes the outputs",
                                self.names[*sig as usize]
                            ));
                        }
                    }
                }
            }
        }
        None
    }
    pub fn n_hints(&self) -> usize {
        self.hints.len()
    }
}
