//! C15: the circuits that are shipped ready-made. C21: the helper templates.

use super::circuits::{elab_t, pad, run, showi, tri, RunOut};
use super::extract::{address, header_case, idxes, named};
use crate::circom::{self, CErr, Cache, Flat, Library, Run};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, Res, Want};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// (file stem, template, extractor of the public API with the same meaning)
pub const SHIPPED: &[(&str, &str, &str)] = &[
    ("body_hash", "BodyHashRegex", "body_hash"),
    ("email_addr", "EmailAddrRegex", "email_addr"),
    ("email_domain", "EmailDomainRegex", "email_domain"),
    ("from_all", "FromAllRegex", "from_all"),
    ("message_id", "MessageIdRegex", "message_id"),
    ("subject_all", "SubjectAllRegex", "subject_all"),
    ("timestamp", "TimestampRegex", "timestamp"),
    ("to_all", "ToAllRegex", "to_all"),
    ("reversed_bracket", "ReversedBracketRegex", ""),
    ("from_addr", "FromAddrRegex", "from_addr"),
    ("to_addr", "ToAddrRegex", "to_addr"),
    ("email_addr_with_name", "EmailAddrWithNameRegex", ""),
    ("reversed_email_addr_with_name", "ReversedEmailAddrWithNameRegex", ""),
];

fn common() -> std::path::PathBuf {
    target::circom_root().join("circuits/common")
}
/// The decomposed definition next to a shipped circuit, if there is one.
fn json_of(stem: &str) -> Option<String> {
    if stem == "reversed_email_addr_with_name" {
        // shipped without one; this is the regex its comment names
        let p = |is_public, r: &str| Part { is_public, regex_def: r.to_string() };
        let parts = [
            p(false, ">"),
            p(true, r"[a-zA-Z0-9.\-]+@[A-Za-z0-9!#$%&'*+=?\-\^_`{|}~./@]+"),
            p(false, "<.*"),
        ];
        return Some(target::parts_json(&parts));
    }
    std::fs::read_to_string(common().join(format!("{stem}.json"))).ok()
}
fn parts_of(json: &str) -> Result<Vec<Part>, String> {
    let v: serde_json::Value = serde_json::from_str(json).map_err(|e| e.to_string())?;
    serde_json::from_value(v["parts"].clone()).map_err(|e| e.to_string())
}
type Key = (String, usize);
/// Both the shipped circuit and the one the compiler makes of its definition.
type Pair = Result<(Arc<Flat>, Option<Arc<Flat>>), (bool, String)>;
static CIRCUITS: OnceLock<Mutex<HashMap<Key, Arc<OnceLock<Pair>>>>> = OnceLock::new();

fn load(stem: &str, template: &str, n: usize) -> Result<Flat, CErr> {
    let f = common().join(format!("{stem}_regex.circom"));
    let src = std::fs::read_to_string(&f).map_err(|e| CErr::Ill(format!("{}: {e}", f.display())))?;
    let mut c = Cache::default();
    let lib = Library::load_cached(&src, &common(), &target::circom_root(), &mut c)?;
    circom::elaborate(&lib, template, &[n as i128])
}
fn pair(stem: &str, template: &str, n: usize) -> Pair {
    let cell = CIRCUITS
        .get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry((stem.to_string(), n))
        .or_insert_with(|| Arc::new(OnceLock::new()))
        .clone();
    cell.get_or_init(|| {
        let f = match load(stem, template, n) {
            Ok(f) => f,
            Err(CErr::Ill(e)) => return Err((true, format!("{stem}_regex.circom is not a valid circuit: {e}"))),
            Err(CErr::Unsupported(e)) => return Err((false, e)),
        };
        let mut fresh = None;
        if let Some(j) = json_of(stem) {
            let r = target::compile_decomposed_json(&j, Want { circom: true, halo2: false, gen_substrs: Some(true) });
            let src = match &r {
                Res::Ok(o) => o.circom.clone().unwrap_or_default(),
                r => return Err((true, format!("{stem}.json is not compiled: {}", r.msg()))),
            };
            match target::elaborate(&src, target::TEMPLATE, n) {
                Ok(f) => fresh = Some(Arc::new(f)),
                Err(CErr::Ill(e)) => return Err((true, format!("the circuit of {stem}.json is not valid: {e}"))),
                Err(CErr::Unsupported(e)) => return Err((false, e)),
            }
        }
        Ok((Arc::new(f), fresh))
    })
    .clone()
}

pub struct C15;
#[derive(Serialize, Deserialize, Clone)]
pub struct ShipCase {
    pub stem: String,
    pub text: String,
    /// where the field is, when the text was built around one
    pub want: Option<(usize, usize)>,
    /// the text holds exactly one such field, or none
    pub built: bool,
    pub n: usize,
    /// one element replaced by a value that is no byte
    pub poison: Option<(usize, i64)>,
    /// bytes instead of a text: words that take (or just fail to take) one transition
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bytes: Option<Vec<u8>>,
}
const SIZES: &[usize] = &[48, 110, 200];

/// Words that take each transition on each byte, and words that miss one by a byte next to its class.
fn transition_words(d: &Dfa) -> Vec<Vec<u8>> {
    let n = d.len();
    let mut reach: Vec<Option<Vec<u8>>> = vec![None; n];
    reach[0] = Some(vec![]);
    let mut q = std::collections::VecDeque::from([0usize]);
    // letters first
    let order: Vec<usize> = (97..123).chain(0..97).chain(123..256).collect();
    while let Some(s) = q.pop_front() {
        for b in &order {
            let t = d.next[s][*b];
            if t != DEAD && reach[t as usize].is_none() {
                let mut w = reach[s].clone().unwrap();
                w.push(*b as u8);
                reach[t as usize] = Some(w);
                q.push_back(t as usize);
            }
        }
    }
    let dist = d.dist();
    let complete = |mut s: usize| -> Vec<u8> {
        let mut w = vec![];
        while !d.accept[s] {
            match order.iter().filter(|b| d.next[s][**b] != DEAD).min_by_key(|b| dist[d.next[s][**b] as usize]) {
                Some(b) if dist[d.next[s][*b] as usize] < dist[s] => {
                    w.push(*b as u8);
                    s = d.next[s][*b] as usize;
                }
                _ => break,
            }
        }
        w
    };
    let mut out = vec![];
    for s in 0..n {
        let Some(r) = &reach[s] else { continue };
        for b in 1..256usize {
            let t = match d.next[s][b] {
                DEAD => {
                    let beside = [b - 1, (b + 1).min(255)].iter().map(|x| d.next[s][*x]).find(|t| *t != DEAD);
                    match beside {
                        Some(t) => t as usize,
                        None => continue,
                    }
                }
                t => t as usize,
            };
            let mut w = r.clone();
            w.push(b as u8);
            w.extend(complete(t));
            out.push(w);
        }
    }
    out
}

impl Prop for C15 {
    type Case = ShipCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "email texts built around one field (as for C14), damaged variants of them and words of the definition's own language, given to the 13 shipped circuits at three sizes; compared with the circuit the compiler makes today of the JSON definition next to it (out and reveals), with the independent scan where the definition is in the documented domain, with the field's constructed position and with the extraction function of the same name; values that are no bytes must have no witness. Non-trivial: the circuit accepts and reveals something"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["circomlib gates behave as modelled by the harness's circom interpreter"]
    }
    fn fixed(&self) -> Vec<ShipCase> {
        let mut v = vec![];
        for (stem, _, _) in SHIPPED {
            let Some(m) = json_of(stem).and_then(|j| parts_of(&j).ok()).and_then(|p| Model::new(&p).ok()) else {
                continue;
            };
            for mut w in transition_words(&m.dfa) {
                // the marker in front of the message is not part of it
                if w.first() == Some(&SOT) {
                    w.remove(0);
                }
                if w.contains(&SOT) || w.len() > 100 {
                    continue;
                }
                let n = w.len().next_multiple_of(8).max(8);
                let (stem, text) = (stem.to_string(), String::new());
                v.push(ShipCase { stem, text, want: None, built: false, n, poison: None, bytes: Some(w) });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> ShipCase {
        let (stem, _, kind) = *t.pick(SHIPPED);
        let mut built = true;
        let (mut text, mut want);
        match stem {
            "reversed_bracket" | "reversed_email_addr_with_name" | "email_addr_with_name" => {
                let a = address(t);
                let name = *t.pick(&["", "x ", "A B ", "\"q\" ", "u@v.w ", "é "]);
                text = format!("{name}<{a}>");
                want = Some((text.len() - 1 - a.len(), text.len() - 1));
                if stem != "email_addr_with_name" {
                    let (s, e) = want.unwrap();
                    let n = text.len();
                    // reversal of a multi-byte name is not text
                    if !text.is_ascii() {
                        text = text.replace('é', "e ");
                    }
                    want = Some((n - e, n - s));
                    text = text.chars().rev().collect();
                }
                if stem == "reversed_bracket" && t.chance(30) {
                    built = false;
                }
            }
            _ => {
                let h = header_case(t, kind);
                text = h.text;
                want = h.want;
            }
        }
        if t.chance(35) {
            // damage, or a text from the language of the definition
            built = false;
            want = None;
            let src = if t.chance(60) { json_of(stem) } else { None };
            match src.and_then(|j| parts_of(&j).ok()).and_then(|p| Model::new(&p).ok()) {
                Some(m) => {
                    let pool = gen::byte_pool(&m.dfa);
                    text = String::from_utf8_lossy(&gen::message(t, &m.dfa, &pool, 60)).replace('\u{fffd}', "é");
                }
                None => {
                    let mut cs: Vec<char> = text.chars().collect();
                    let k = t.size(1, 3);
                    for _ in 0..k {
                        if cs.is_empty() {
                            break;
                        }
                        let i = t.below(cs.len() as u64) as usize;
                        match t.below(3) {
                            0 => {
                                cs.remove(i);
                            }
                            1 => cs.insert(i, *t.pick(&['\r', '\n', '<', '>', ';', '@', 'a', '=', ' ', 'é', '\0'])),
                            _ => cs[i] = *t.pick(&['\r', '\n', '<', '>', ';', '@', 'a', '=', ' ', '0', 'z']),
                        }
                    }
                    text = cs.into_iter().collect();
                }
            }
        }
        while text.len() > 200 {
            text.pop();
            built = false;
        }
        let mut n = *SIZES.iter().find(|s| **s >= text.len()).unwrap();
        if n == 48 && t.chance(10) {
            n = 110;
        }
        let poison = if t.chance(8) && !text.is_empty() {
            let i = t.below(text.len() as u64) as usize;
            let b = text.as_bytes()[i] as i64;
            Some((i, *t.pick(&[255, 256, b + 256, b + 512, 300, -1, -2, b - 256])))
        } else {
            None
        };
        ShipCase { stem: stem.into(), text, want, built, n, poison, bytes: None }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            200_000
        } else {
            5_000
        }
    }
    fn check(&self, c: &ShipCase) -> Outcome {
        let Some((stem, template, kind)) = SHIPPED.iter().find(|s| s.0 == c.stem) else {
            return discard("unknown circuit");
        };
        let (f, fresh) = match pair(stem, template, c.n) {
            Ok(p) => p,
            Err((true, e)) => return Outcome::Fail(e),
            Err((false, e)) => return Outcome::Harness(e),
        };
        let what = format!("{stem}_regex.circom (msg_bytes={})", c.n);
        let msg = match &c.bytes {
            Some(b) => &b[..],
            None => c.text.as_bytes(),
        };
        let mut inp = pad(msg, c.n);
        if let Some((i, v)) = c.poison {
            inp[i] = v as i128;
            return match f.run(&inp) {
                Run::Sat(_) => Outcome::Fail(format!("{what}: a message with {v} at {i} has a witness: {:?}", c.text)),
                Run::Unsat(_) => pass_l(false, vec!["not a byte"]),
            };
        }
        let composite = matches!(*stem, "from_addr" | "to_addr");
        let o = match f.run(&inp) {
            Run::Unsat(e) => {
                // the composite circuits have no witness without the header
                if composite && !(c.built && c.want.is_some()) {
                    if let Some(all) = header_reveal(stem, c) {
                        match all {
                            Ok(true) => {
                                return Outcome::Fail(format!("{what}: no witness for {:?}, which has the header", c.text))
                            }
                            Ok(false) => {}
                            Err(o) => return o,
                        }
                    }
                    return pass_l(false, vec!["no witness without the header"]);
                }
                return Outcome::Fail(format!("{what}: no witness for {:?}: {e}", c.text));
            }
            Run::Sat(_) => tri!(run(&what, &f, &inp)),
        };
        if o.reveals.len() != 1 || o.reveals[0].len() != c.n {
            return Outcome::Fail(format!("{what}: does not have one reveal array of msg_bytes"));
        }
        if let Some(e) = f.second_witness(&inp, &[0, 1, 2, 255]) {
            return Outcome::Fail(format!("{what}: message {:?}: {e}", show(msg)));
        }
        let mut l: Vec<String> = vec![stem.to_string()];
        if let Some(fr) = fresh {
            let w = tri!(run(&format!("the circuit of {stem}.json"), &fr, &inp));
            if w.out != o.out || w.reveals != o.reveals {
                return Outcome::Fail(format!(
                    "{what}: {:?} gives out={} reveal {:?}, but its definition compiles to out={} reveal {:?}",
                    show(msg),
                    o.out,
                    showi(&o.reveals[0]),
                    w.out,
                    w.reveals.first().map(|r| showi(r))
                ));
            }
            if c.bytes.is_some() {
                return Outcome::Pass { nontrivial: o.out == 1, labels: vec![stem.to_string(), "one-transition".into()] };
            }
            // the definition's own meaning
            if let Some(m) = json_of(stem).and_then(|j| parts_of(&j).ok()).and_then(|p| Model::new(&p).ok()) {
                let mut pm = msg.to_vec();
                pm.resize(c.n, 0);
                if m.in_domain().is_ok() {
                    let s = scan(&m.dfa, &pm, m.end_anchor);
                    if o.out != s.out as i128 {
                        return Outcome::Fail(format!("{what}: {:?}: out={} but the scan gives {}", c.text, o.out, s.out));
                    }
                    if let Some(r) = reveals(&m, &pm, &s) {
                        if r != o.reveals {
                            return Outcome::Fail(format!(
                                "{what}: {:?} reveals {:?} instead of {:?}",
                                c.text,
                                showi(&o.reveals[0]),
                                showi(&r[0])
                            ));
                        }
                    }
                    l.push("scan".into());
                }
                if o.out == 1 && !contains_match(&m.dfa, &pm) {
                    return Outcome::Fail(format!("{what}: accepts {:?}, which holds no match", c.text));
                }
                if o.out == 1 && !c.text.contains('\0') && matches!(idxes(&c.text, &m.parts, false), Res::Err(_)) {
                    return Outcome::Fail(format!("{what}: accepts {:?} but extraction finds nothing", c.text));
                }
            }
        }
        if c.built {
            let mut exp = vec![0i128; c.n];
            if let Some((a, b)) = c.want {
                for i in a..b {
                    exp[i] = msg[i] as i128;
                }
            }
            if o.out != c.want.is_some() as i128 || o.reveals[0] != exp {
                return Outcome::Fail(format!(
                    "{what}: {:?} gives out={} reveal {:?} but the field is {:?}",
                    c.text,
                    o.out,
                    showi(&o.reveals[0]),
                    c.want.map(|(a, b)| &c.text[a..b])
                ));
            }
            if !kind.is_empty() {
                let e = named(kind, &c.text);
                let agree = match (&e, c.want) {
                    (Res::Ok(v), Some(w)) => v.len() == 1 && v[0] == w,
                    (Res::Err(_), None) => true,
                    _ => false,
                };
                if !agree {
                    return Outcome::Fail(format!(
                        "{what}: {:?}: the circuit and the extraction function disagree: {}",
                        c.text,
                        match e {
                            Res::Ok(v) => format!("spans {v:?}"),
                            e => e.msg(),
                        }
                    ));
                }
                l.push("agrees-with-extraction".into());
            }
        } else if composite && o.out == 1 {
            // what is revealed comes from the header's own line
            if let Err(x) = from_line(stem, &c.text, &o) {
                return Outcome::Fail(format!("{what}: {:?}: {x}", c.text));
            }
        }
        let shown = o.reveals[0].iter().any(|b| *b != 0);
        if shown && o.out != 1 {
            return Outcome::Fail(format!("{what}: {:?} reveals bytes with out={}", c.text, o.out));
        }
        Outcome::Pass { nontrivial: o.out == 1 && shown, labels: l }
    }
}

/// Does the `from_all`/`to_all` circuit accept the text?
fn header_reveal(stem: &str, c: &ShipCase) -> Option<Result<bool, Outcome>> {
    let (s, t) = if stem == "from_addr" { ("from_all", "FromAllRegex") } else { ("to_all", "ToAllRegex") };
    let (f, _) = pair(s, t, c.n).ok()?;
    Some(run(s, &f, &pad(c.text.as_bytes(), c.n)).map(|o| o.out == 1))
}
fn from_line(stem: &str, text: &str, o: &RunOut) -> Result<(), String> {
    let field = if stem == "from_addr" { "from:" } else { "to:" };
    let b = text.as_bytes();
    for i in 0..b.len() {
        if o.reveals[0][i] == 0 {
            continue;
        }
        let start = b[..i].windows(2).rposition(|w| w == b"\r\n").map(|p| p + 2).unwrap_or(0);
        if !b[start..].starts_with(field.as_bytes()) {
            return Err(format!("byte {i} is revealed but is not in a {field} line"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C21

pub struct C21;
#[derive(Serialize, Deserialize, Clone)]
pub struct HelperCase {
    pub template: String,
    pub inputs: Vec<i64>,
}
impl Prop for C21 {
    type Case = HelperCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "the helper templates of regex_helpers.circom, instantiated by themselves: MultiOR and MultiNOR on all bit vectors of 1 to 10 bits and random ones up to 60, MultiOR also on small counts, ORAnd on all triples of bits, IsNotZeroAcc on all bytes and random accumulators; the output is the Boolean function and no other value of any signal satisfies the constraints. Non-trivial: at least two inputs, of which at least one is not zero"
    }
    fn fixed(&self) -> Vec<HelperCase> {
        let mut v = vec![];
        for n in 1..=10usize {
            for x in 0..(1u32 << n) {
                let inputs: Vec<i64> = (0..n).map(|i| (x >> i & 1) as i64).collect();
                for t in ["MultiOR", "MultiNOR"] {
                    if n <= 8 || t == "MultiOR" {
                        v.push(HelperCase { template: t.into(), inputs: inputs.clone() });
                    }
                }
                if n == 3 {
                    v.push(HelperCase { template: "ORAnd".into(), inputs: inputs.clone() });
                }
            }
        }
        for b in 0..256 {
            for a in [0, 1, 7, b] {
                v.push(HelperCase { template: "IsNotZeroAcc".into(), inputs: vec![a, b] });
            }
        }
        v
    }
    fn gen(&self, t: &mut Tape) -> HelperCase {
        let template = t.pick(&["MultiOR", "MultiNOR", "IsNotZeroAcc"]).to_string();
        let inputs = if template == "IsNotZeroAcc" {
            vec![t.size(0, 1 << 16) as i64, t.size(0, 255) as i64]
        } else {
            let n = t.size(1, 60);
            let d = *t.pick(&[0u64, 2, 10, 50, 100]);
            (0..n).map(|_| t.chance(d) as i64).collect()
        };
        HelperCase { template, inputs }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            200_000
        } else {
            8_000
        }
    }
    fn check(&self, c: &HelperCase) -> Outcome {
        let n = c.inputs.len();
        let x: Vec<i128> = c.inputs.iter().map(|v| *v as i128).collect();
        let any = c.inputs.iter().any(|v| *v != 0);
        let (body, want): (&str, i128) = match c.template.as_str() {
            "MultiOR" => ("out <== MultiOR(n)(msg);", any as i128),
            "MultiNOR" => ("out <== MultiNOR(n)(msg);", !any as i128),
            "ORAnd" => ("out <== ORAnd()([msg[0], msg[1], msg[2]]);", ((x[0] | x[1]) & x[2]) as i128),
            "IsNotZeroAcc" => ("out <== IsNotZeroAcc()(msg[0], msg[1]);", x[0] + (x[1] != 0) as i128),
            _ => return discard("unknown template"),
        };
        let src = format!("pragma circom 2.1.5;\n\ninclude \"@zk-email/zk-regex-circom/circuits/regex_helpers.circom\";\n\ntemplate T(n) {{\n\tsignal input msg[n];\n\tsignal output out;\n\t{body}\n}}\n");
        let f = tri!(elab_t(&c.template, &src, "T", n));
        let o = tri!(run(&c.template, &f, &x));
        if o.out != want {
            return Outcome::Fail(format!("{}({:?}) is {} instead of {want}", c.template, c.inputs, o.out));
        }
        if let Some(e) = f.second_witness(&x, &[0, 1, 2, 255]) {
            return Outcome::Fail(format!("{}({:?}): {e}", c.template, c.inputs));
        }
        pass_l(n >= 2 && any, vec![])
    }
}
