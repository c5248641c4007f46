//! C01, C02: the transition tables decide exactly the language of the regex.

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, Res, Want};
use serde::{Deserialize, Serialize};

const TABLE: Want = Want { circom: false, halo2: true, gen_substrs: Some(false) };

pub fn table_of(r: &Res<target::Output>) -> Result<Table, String> {
    match r {
        Res::Ok(o) => match &o.allstr {
            Some(s) => Table::parse(s),
            None => Err("allstr.txt was not written".into()),
        },
        r => Err(r.msg()),
    }
}

pub struct C01;
#[derive(Serialize, Deserialize, Clone)]
pub struct C01Case {
    pub regex: String,
    pub raw: bool,
}
impl Prop for C01 {
    type Case = C01Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "random regex texts (literals in several spellings, classes, groups, alternation, quantifiers, flags, Unicode) compiled as a raw regex or as the only part of a decomposed one, plus every ASCII range [lo-hi]; the written table is compared with an independently built minimal automaton by exhaustive product search. a regex whose minimal automaton has several accepting states has to be refused or compiled exactly. Non-trivial: a table was written and compared, and the automaton has at least 3 states or a class of several bytes"
    }
    fn fixed(&self) -> Vec<C01Case> {
        let mut v = vec![];
        for a in 0..128u32 {
            for b in a..128u32 {
                v.push(C01Case { regex: format!("[\\x{a:02x}-\\x{b:02x}]"), raw: (a + b) % 2 == 0 });
            }
        }
        // two separated bytes: two edges between the same pair of states
        for a in 0..126u32 {
            for step in [2u32, 3, 17, 33, 64] {
                if a + step < 128 {
                    v.push(C01Case { regex: format!("[\\x{a:02x}\\x{:02x}]", a + step), raw: a % 2 == 0 });
                    v.push(C01Case { regex: format!("\\x{a:02x}(x|\\x{:02x}y)", a + step), raw: a % 2 == 1 });
                }
            }
        }
        for b in [0x80u32, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff] {
            v.push(C01Case { regex: format!("[^\\x{{{b:x}}}]"), raw: true });
            v.push(C01Case { regex: format!("[a-\\x{{{b:x}}}]+b"), raw: false });
        }
        for r in ["a|b", "ab|cd", "a|b$", "(a|b)c|d", "a$", "(ab)+$", "a\\$", "\\$", "a\\\\$"] {
            v.push(C01Case { regex: r.into(), raw: true });
            v.push(C01Case { regex: r.into(), raw: false });
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> C01Case {
        let al = gen::alphabet(t, 100);
        let raw = t.chance(50);
        if t.chance(2) {
            // many states: more than a byte can number
            let (a, b) = (gen::class(t, &al, &[]), gen::class(t, &al, &[]));
            let n = t.size(90, 330);
            let regex = match t.below(4) {
                0 => format!("{a}{{{n}}}"),
                1 => format!("{a}{{{},{n}}}{b}", n / 2),
                2 => format!("{b}{a}{{{n}}}{b}+{a}"),
                _ => format!("({a}{b}){{{}}}", n / 2),
            };
            return C01Case { regex, raw };
        }
        let depth = t.size(0, 3);
        let regex = gen::regex(t, &al, depth, gen::FULL);
        C01Case { regex, raw }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            400_000
        } else {
            12_000
        }
    }
    fn check(&self, c: &C01Case) -> Outcome {
        // a trailing unescaped `$` is an end anchor: it does not change the language
        let lo = LookOpts { caret_is_sot: false, drop_end: has_end_anchor(&c.regex) };
        if c.regex.is_empty() || parse(&c.regex).is_err() {
            return discard("not a regex");
        }
        let d = match nfa_of(&c.regex, lo).and_then(|n| n.dfa(MAX_DFA)) {
            Ok(d) => d,
            Err(e) => return Outcome::Discard(e),
        };
        if d.is_empty_language() {
            return discard("empty language");
        }
        let r = if c.raw {
            target::compile_raw(&c.regex, Some(&[]), TABLE)
        } else {
            target::compile_decomposed(&[Part { is_public: false, regex_def: c.regex.clone() }], TABLE)
        };
        let one = d.n_accept() == 1;
        let t = match (table_of(&r), &r) {
            (Ok(t), _) => t,
            // a table holds one accepting state: anything else has to be refused
            (Err(_), Res::Err(_)) if !one => return pass_l(false, vec!["several-accepts:refused"]),
            (Err(e), _) => return Outcome::Fail(format!("regex {:?} is not compiled to a table: {e}", c.regex)),
        };
        if t.start != 0 {
            return Outcome::Fail(format!("regex {:?}: first state is {}", c.regex, t.start));
        }
        let td = t.dfa();
        if let Some(w) = td.difference(&d, false, &[]) {
            return Outcome::Fail(format!(
                "regex {:?}: {:?} is {} by the table but {} by the regex",
                c.regex,
                show(&w),
                if td.accepts(&w) { "accepted" } else { "rejected" },
                if d.accepts(&w) { "accepted" } else { "rejected" }
            ));
        }
        let wide = d.next.iter().any(|r| (1..256).any(|b| r[b] != DEAD && r[b] == r[b - 1]));
        let multi_byte = d.next.iter().any(|r| (128..256).any(|b| r[b] != DEAD));
        let mut l = vec![if c.raw { "raw" } else { "decomposed" }];
        if multi_byte {
            l.push("utf8-multibyte")
        }
        if d.start_has_incoming() {
            l.push("start-loop")
        }
        if d.len() > 256 {
            l.push("over-256-states")
        }
        pass_l(d.len() >= 3 || wide, l)
    }
}

pub struct C02;
#[derive(Serialize, Deserialize, Clone)]
pub struct PartsCase {
    pub parts: Vec<Part>,
}
impl Prop for C02 {
    type Case = PartsCase;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "random decomposed configurations of 1-4 parts with optional anchors; the written table is compared with the minimal automaton of the concatenated parts (byte 255 standing for ^) by exhaustive product search. Non-trivial: at least two parts, unambiguous boundaries and one accepting state (exact comparison), or an ambiguous boundary (soundness comparison only)"
    }
    fn gen(&self, t: &mut Tape) -> PartsCase {
        let p = if t.chance(25) {
            // free-form parts, boundaries often ambiguous
            let al = gen::alphabet(t, 40);
            let n = t.size(2, 3);
            (0..n)
                .map(|_| {
                    let is_public = t.chance(50);
                    Part { is_public, regex_def: gen::regex(t, &al, 1, gen::SMALL) }
                })
                .collect()
        } else {
            gen::parts(t, gen::Anchors::Any, gen::SMALL)
        };
        PartsCase { parts: p }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            300_000
        } else {
            12_000
        }
    }
    fn check(&self, c: &PartsCase) -> Outcome {
        let m = match Model::new(&c.parts) {
            Ok(m) => m,
            Err(e) => return Outcome::Discard(short(&e)),
        };
        if m.caret == Caret::Other {
            return discard("undocumented use of the start anchor");
        }
        let exact = m.ll1 && m.n_accept == 1;
        let r = target::compile_decomposed(&c.parts, TABLE);
        let t = match table_of(&r) {
            Ok(t) => t,
            Err(e) => {
                if exact {
                    return Outcome::Fail(format!("{} is not compiled to a table: {e}", desc(&c.parts)));
                }
                if let Res::Err(_) = r {
                    return discard("rejected by the compiler");
                }
                return Outcome::Fail(format!("{}: {e}", desc(&c.parts)));
            }
        };
        let td = t.dfa();
        if exact {
            if let Some(w) = td.difference(&m.dfa, false, &[]) {
                return Outcome::Fail(format!(
                    "{}: {:?} is {} by the table but {} by the concatenated parts",
                    desc(&c.parts),
                    show(&w),
                    if td.accepts(&w) { "accepted" } else { "rejected" },
                    if m.dfa.accepts(&w) { "accepted" } else { "rejected" }
                ));
            }
        } else if let Some(w) = td.not_subset(&m.dfa) {
            return Outcome::Fail(format!(
                "{}: the table accepts {:?}, which the concatenated parts do not",
                desc(&c.parts),
                show(&w)
            ));
        }
        let mut l = vec![if exact { "exact" } else if !m.ll1 { "ambiguous:soundness" } else { "several-accepts:soundness" }];
        if m.inner_loop {
            l.push("part-loops-to-its-start")
        }
        if c.parts[0].regex_def.contains('^') {
            l.push("caret")
        }
        pass_l(c.parts.len() >= 2 && (exact || !m.ll1), l)
    }
}

pub fn desc(p: &[Part]) -> String {
    let v: Vec<String> =
        p.iter().map(|x| format!("{}{:?}", if x.is_public { "public " } else { "" }, x.regex_def)).collect();
    format!("parts [{}]", v.join(", "))
}

/// A discard reason without the details of the individual case.
pub fn short(e: &str) -> String {
    if e.starts_with("regex parse error") {
        "not a regex".into()
    } else {
        e.lines().next().unwrap_or("").to_string()
    }
}
