//! C23: anchors and word boundaries wherever they are written.

use super::automata::{desc, table_of};
use super::circuits::{anchored_msg, circom_of, elab, pad, run, tri};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, Res};
use serde::{Deserialize, Serialize};

pub struct C23;
#[derive(Serialize, Deserialize, Clone)]
pub struct LookCase {
    pub parts: Vec<Part>,
    /// compile the concatenation as a raw regex
    pub raw: bool,
    pub msgs: Vec<Vec<u8>>,
}

/// A text with assertions in it, and the same text without them.
type Two = (String, String);

fn token(t: &mut Tape) -> Two {
    let s = match t.weighted(&[45, 25, 30]) {
        0 => "^",
        1 => "$",
        _ => t.pick(&[
            "\\A", "\\z", "(?m:^)", "(?m:$)", "(?-u:\\b)", "(?-u:\\B)", "\\b", "\\B", "(?-u:\\b{start})", "(?-u:\\b{end})", "(?R:$)",
        ]),
    };
    (s.into(), String::new())
}
fn node(t: &mut Tape, al: &[char], depth: usize, p: u64) -> Two {
    let n = t.size(1, 3);
    let mut v: Two = Default::default();
    for _ in 0..n {
        let (a, b) = match t.weighted(&[45, 15, if depth > 0 { 25 } else { 0 }, p]) {
            0 => {
                let c = *t.pick(al);
                let s = gen::lit(t, c);
                (s.clone(), s)
            }
            1 => {
                let s = gen::class(t, al, &[]);
                (s.clone(), s)
            }
            2 => {
                let k = t.size(1, 3);
                let bs: Vec<Two> = (0..k)
                    .map(|_| if t.chance(p / 2) { token(t) } else { node(t, al, depth - 1, p) })
                    .collect();
                let open = *t.pick(&["(", "(?:", "(", "(?i:"]);
                let q = *t.pick(&["", "", "", "?", "*", "+", "{2}"]);
                let j = |f: fn(&Two) -> &str| bs.iter().map(f).collect::<Vec<_>>().join("|");
                (format!("{open}{}){q}", j(|x| &x.0)), format!("{open}{}){q}", j(|x| &x.1)))
            }
            _ => token(t),
        };
        v.0 += &a;
        v.1 += &b;
    }
    v
}
/// The form the documentation allows, or one that looks like it.
fn front(t: &mut Tape, al: &[char], rest: Two) -> Two {
    let w = |t: &mut Tape| {
        let c = *t.pick(al);
        let d = *t.pick(al);
        if t.chance(50) {
            gen::lit(t, c)
        } else {
            gen::lit(t, c) + &gen::lit(t, d)
        }
    };
    let (x, y) = (w(t), w(t));
    let (a, b) = match if t.chance(50) { t.below(3) } else { t.below(13) } {
        0 => ("^".to_string(), String::new()),
        1 => (format!("({x}|^)"), format!("({x}|)")),
        2 => (format!("(^|{x})"), format!("(|{x})")),
        3 => (format!("(^{x}|{y})"), format!("({x}|{y})")),
        4 => (format!("({x}|^{y})"), format!("({x}|{y})")),
        5 => (format!("{y}({x}|^)"), format!("{y}({x}|)")),
        6 => (format!("(({x}|^){y}|{x})"), format!("(({x}|){y}|{x})")),
        7 => (format!("({x}|^|{y})"), format!("({x}||{y})")),
        8 => (format!("{y}*({x}|^)"), format!("{y}*({x}|)")),
        9 => (format!("(?i)({x}|^)"), format!("(?i)({x}|)")),
        10 => (format!("(?:^|{x})(?:^|{y})"), format!("(|{x})(|{y})")),
        11 => (format!("{x}|^"), format!("{x}|")),
        _ => (format!("(^{x}?|{y})"), format!("({x}?|{y})")),
    };
    (a + &rest.0, b + &rest.1)
}

impl Prop for C23 {
    type Case = LookCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "random configurations and raw regexes with anchors, absolute and multi-line anchors and word boundaries at arbitrary places (start, middle and end of any part, inside groups, alternatives and repetitions, and variants of the documented forms); each is refused, or its circuit accepts only messages in which the regex library finds a match of the whole regex. The messages are words of the regex with its assertions taken out, with text before and after: what a compiler that takes an assertion for granted would accept. Non-trivial: an assertion is present and the configuration is refused, or some message is accepted, or some message matches only without the assertions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the regex crate decides what a regex with assertions matches", "circomlib gates behave as modelled by the harness's circom interpreter"]
    }
    fn gen(&self, t: &mut Tape) -> LookCase {
        let al = gen::alphabet(t, 30);
        let n = t.size(1, 3);
        let hot = t.below(n as u64) as usize;
        // half of the cases have assertions in the documented places only, or in what looks like them
        let plain = t.chance(50);
        let mut two: Vec<Two> = vec![];
        for i in 0..n {
            let p = if plain { 0 } else if i == hot { 22 } else { 2 };
            let mut v = node(t, &al, if plain { 1 } else { 2 }, p);
            if i == 0 && t.chance(if plain { 80 } else { 40 }) {
                v = front(t, &al, v);
            }
            if plain && i + 1 == n && t.chance(25) {
                v.0 += "$";
            }
            if i == hot && !plain && t.chance(10) {
                let x = token(t);
                v = if t.chance(50) { (x.0 + &v.0, v.1) } else { (v.0 + &x.0, v.1) };
            }
            two.push(v);
        }
        let raw = t.chance(35);
        let parts: Vec<Part> = if raw {
            vec![Part { is_public: false, regex_def: two.iter().map(|x| x.0.as_str()).collect() }]
        } else {
            two.iter().map(|x| Part { is_public: t.chance(40), regex_def: x.0.clone() }).collect()
        };
        let plain: String = if raw {
            two.iter().map(|x| x.1.as_str()).collect()
        } else {
            two.iter().map(|x| format!("(?:{})", x.1)).collect()
        };
        let mut msgs = vec![];
        if let Ok(d) = nfa_of(&plain, LookOpts { caret_is_sot: false, drop_end: false }).and_then(|n| n.dfa(MAX_DFA)) {
            if !d.is_empty_language() {
                let pool = gen::byte_pool(&d);
                for _ in 0..8 {
                    msgs.push(anchored_msg(t, &d, &pool));
                }
            }
        }
        LookCase { parts, raw, msgs }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            250_000
        } else {
            12_000
        }
    }
    fn sample(&self, c: &LookCase) -> serde_json::Value {
        serde_json::json!({"parts": desc(&c.parts), "raw": c.raw, "messages": c.msgs.iter().map(|m| show(m)).collect::<Vec<_>>()})
    }
    fn check(&self, c: &LookCase) -> Outcome {
        let looks = c.parts.iter().any(|p| parse(&p.regex_def).is_ok_and(|h| !h.properties().look_set().is_empty()));
        if !looks {
            return discard("no assertion");
        }
        let whole: String = if c.raw {
            c.parts[0].regex_def.clone()
        } else {
            c.parts.iter().map(|p| format!("(?:{})", p.regex_def)).collect()
        };
        let re = match regex::bytes::Regex::new(&whole) {
            Ok(r) => r,
            Err(_) => return discard("not a regex"),
        };
        let what = format!("{}{}", if c.raw { "raw, " } else { "" }, desc(&c.parts));
        let r = if c.raw {
            target::compile_raw(&c.parts[0].regex_def, None, target::BOTH)
        } else {
            target::compile_decomposed(&c.parts, target::BOTH)
        };
        match &r {
            Res::Err(_) => return pass_l(true, vec!["refused"]),
            Res::Panic(p) => return Outcome::Fail(format!("{what}: panic: {p}")),
            _ => {}
        }
        let table = tri!(table_of(&r).map_err(|e| Outcome::Fail(format!("{what}: {e}"))));
        if table.edges.values().any(|t| *t == table.start) {
            return discard("transition to the initial state");
        }
        let src = tri!(circom_of(&what, &r));
        let n = c.msgs.iter().map(|m| m.len()).max().unwrap_or(0) + 1;
        let f = tri!(elab(&what, &src, n));
        let (mut yes, mut no) = (false, false);
        for msg in &c.msgs {
            if msg.contains(&0) || msg.contains(&SOT) {
                continue;
            }
            let o = tri!(run(&what, &f, &pad(msg, n)));
            let want = re.is_match(msg);
            if o.out == 1 && !want {
                return Outcome::Fail(format!(
                    "{what}: message {:?} is accepted although the regex, with its anchors and boundaries, matches nowhere in it",
                    show(msg)
                ));
            }
            yes |= o.out == 1;
            no |= !want;
        }
        pass_l(yes || no, vec!["compiled", if yes { "accepting" } else { "rejecting" }])
    }
}
