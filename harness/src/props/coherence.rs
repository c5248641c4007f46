//! C24: the files of one compilation describe one machine, inside and outside of the documented domain.

use super::automata::{desc, table_of};
use super::circuits::*;
use crate::engine::*;
use crate::gen::{self, Anchors};
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, Res};
use serde::{Deserialize, Serialize};

pub struct C24;
#[derive(Serialize, Deserialize, Clone)]
pub struct CohCase {
    #[serde(flatten)]
    pub c: MsgCase,
    /// the same configuration with other public parts
    pub flip: Vec<bool>,
}

impl Prop for C24 {
    type Case = CohCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "random decomposed configurations without regard to the documented domain (ambiguous boundaries, nullable parts, anchors, shared classes, many parts) and messages; the circuit is executed and compared with the scan on the written allstr.txt (`out`) and with the transitions listed in the written substr_i.txt (reveals); recompiled with other public parts, allstr.txt and the file of a part that stays public must be the same. Non-trivial: compiled, some message is accepted, and a reveal shows something"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["circomlib gates behave as modelled by the harness's circom interpreter"]
    }
    fn gen(&self, t: &mut Tape) -> CohCase {
        let mut parts = match t.weighted(&[50, 20, 30]) {
            0 => {
                let al = gen::alphabet(t, 40);
                let n = t.size(1, 4);
                let mut v: Vec<Part> = (0..n)
                    .map(|_| {
                        let is_public = t.chance(60);
                        Part { is_public, regex_def: gen::regex(t, &al, 1, gen::SMALL) }
                    })
                    .collect();
                // a fixed byte behind makes for one accepting state
                if t.chance(60) {
                    let c = *t.pick(&al);
                    v.push(Part { is_public: t.chance(30), regex_def: gen::lit(t, c) });
                }
                if t.chance(12) {
                    v[0].regex_def = format!("^{}", v[0].regex_def);
                }
                if t.chance(12) {
                    v.last_mut().unwrap().regex_def += "$";
                }
                v
            }
            1 => gen::pool_parts(t),
            _ => gen::parts(t, Anchors::Any, gen::SMALL),
        };
        if parts.iter().all(|p| !p.is_public) && t.chance(80) {
            let k = t.size(0, parts.len() - 1);
            parts[k].is_public = true;
        }
        let flip = parts.iter().map(|_| t.chance(50)).collect();
        CohCase { c: gen_msgs(t, parts, true, 6), flip }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            120_000
        } else {
            4_500
        }
    }
    fn sample(&self, c: &CohCase) -> serde_json::Value {
        sample_msgs(&c.c)
    }
    fn check(&self, c: &CohCase) -> Outcome {
        let parts = &c.c.parts;
        let what = desc(parts);
        let r = target::compile_decomposed(parts, target::BOTH);
        let o = match &r {
            Res::Ok(o) => o,
            Res::Err(_) => return discard("refused"),
            Res::Panic(p) => return Outcome::Fail(format!("{what}: panic: {p}")),
        };
        let src = tri!(circom_of(&what, &r));
        let t = match table_of(&r) {
            Ok(t) => t,
            Err(e) => return Outcome::Fail(format!("{what}: {e}")),
        };
        let k = parts.iter().filter(|p| p.is_public).count();
        if o.substrs.len() != k {
            return Outcome::Fail(format!("{what}: {} substring files", o.substrs.len()));
        }
        let mut subs = vec![];
        for (i, s) in o.substrs.iter().enumerate() {
            match s.as_ref().ok_or("missing".to_string()).and_then(|s| parse_substr(s)) {
                Ok(s) => {
                    let known = |e: &(usize, usize)| t.edges.iter().any(|((a, _), b)| (*a, *b) == *e);
                    if let Some(e) = s.edges.iter().find(|e| !known(e)) {
                        return Outcome::Fail(format!(
                            "{what}: substr_{i}.txt lists transition {} {}, which is not in allstr.txt",
                            e.0, e.1
                        ));
                    }
                    subs.push(s)
                }
                Err(e) => return Outcome::Fail(format!("{what}: substr_{i}.txt: {e}")),
            }
        }

        // the same parts with others public
        let mut other = parts.clone();
        for (p, f) in other.iter_mut().zip(&c.flip) {
            p.is_public = *f;
        }
        match target::compile_decomposed(&other, target::HALO2) {
            Res::Ok(o2) => {
                if o2.allstr != o.allstr {
                    return Outcome::Fail(format!("{what}: allstr.txt changes with the public parts {:?}", c.flip));
                }
                let rank = |ps: &[Part], i: usize| ps[..i].iter().filter(|p| p.is_public).count();
                for i in 0..parts.len() {
                    if parts[i].is_public && other[i].is_public {
                        let (a, b) = (&o.substrs[rank(parts, i)], o2.substrs.get(rank(&other, i)).unwrap_or(&None));
                        if a != b {
                            return Outcome::Fail(format!(
                                "{what}: the substring file of part {i} changes with the other public parts {:?}: {a:?} {b:?}",
                                c.flip
                            ));
                        }
                    }
                }
            }
            r2 => return Outcome::Fail(format!("{what}: with public parts {:?}: {}", c.flip, r2.msg())),
        }

        // transitions back to the initial state: a documented limitation
        if t.edges.values().any(|b| *b == t.start) {
            return pass_l(false, vec!["tables-only"]);
        }
        let n = case_size(&c.c);
        let f = tri!(elab(&what, &src, n));
        let td = t.raw_dfa(&[t.accept]);
        if td.accept[0] {
            return discard("accepts the empty string");
        }
        let end_anchor = parts.last().is_some_and(|p| has_end_anchor(&p.regex_def));
        let (mut yes, mut shown) = (false, false);
        for msg in &c.c.msgs {
            let msg = pad8(msg, n);
            if end_anchor && !zero_padded(&msg) {
                continue;
            }
            let o = tri!(super::circuits::run(&what, &f, &pad(&msg, n)));
            let s = scan(&td, &msg, end_anchor);
            if o.out != s.out as i128 {
                return Outcome::Fail(format!("{what}: message {:?}: out={} but allstr.txt gives {}", show(&msg), o.out, s.out));
            }
            yes |= s.out;
            if o.reveals.len() != k {
                return Outcome::Fail(format!("{what}: {} reveal outputs", o.reveals.len()));
            }
            let edges: Vec<Vec<(usize, usize)>> = subs.iter().map(|s| s.edges.clone()).collect();
            let want = listed_bytes(&t, &td, &s, &msg, end_anchor, &edges);
            for i in 0..k {
                if o.reveals[i] != want[i] {
                    return Outcome::Fail(format!(
                        "{what}: message {:?}: reveal{i} is {:?} but the transitions of substr_{i}.txt read {:?}",
                        show(&msg),
                        showi(&o.reveals[i]),
                        showi(&want[i])
                    ));
                }
                shown |= want[i].iter().any(|b| *b != 0);
            }
        }
        let mut l = vec![];
        match Model::new(parts) {
            Ok(m) => l.push(m.in_domain().err().unwrap_or("documented domain")),
            Err(_) => l.push("no model"),
        }
        if end_anchor {
            l.push("end-anchor")
        }
        pass_l(yes && (shown || k == 0), l)
    }
}
