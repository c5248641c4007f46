//! C12, C13, C14, C20, C22: extraction of substrings and padding.

use super::automata::{desc, short};
use super::circuits::{circom_of, elab, pad, run, showi, tri};
use crate::engine::*;
use crate::gen::{self, Anchors};
use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;
use crate::target::{self, guard, Res};
use serde::{Deserialize, Serialize};
use zk_regex_apis::extract_substrs as ex;

pub type Spans = Vec<(usize, usize)>;

pub fn config(parts: &[Part]) -> ex::DecomposedRegexConfig {
    ex::DecomposedRegexConfig {
        parts: parts
            .iter()
            .map(|p| ex::RegexPartConfig { is_public: p.is_public, regex_def: p.regex_def.clone() })
            .collect(),
    }
}
pub fn idxes(text: &str, parts: &[Part], private: bool) -> Res<Spans> {
    let c = config(parts);
    guard(|| ex::extract_substr_idxes(text, &c, private))
}
pub fn substrs(text: &str, parts: &[Part], private: bool) -> Res<Vec<String>> {
    let c = config(parts);
    guard(|| ex::extract_substr(text, &c, private))
}

enum Oracle {
    Plain(regex::Regex),
    Fancy(fancy_regex::Regex),
}
/// The spans of all parts in the leftmost-first match, by named groups around the parts.
fn oracle(parts: &[Part], fancy: bool) -> Result<Oracle, String> {
    let s: String = parts.iter().enumerate().map(|(i, p)| format!("(?P<vpart{i}>(?:{}))", p.regex_def)).collect();
    if fancy {
        fancy_regex::Regex::new(&s).map(Oracle::Fancy).map_err(|e| e.to_string())
    } else {
        regex::Regex::new(&s).map(Oracle::Plain).map_err(|e| e.to_string())
    }
}
impl Oracle {
    fn spans(&self, text: &str, n: usize) -> Result<Option<Spans>, String> {
        Ok(match self {
            Oracle::Plain(r) => r.captures(text).map(|c| {
                (0..n)
                    .map(|i| {
                        let m = c.name(&format!("vpart{i}")).expect("part takes part in the match");
                        (m.start(), m.end())
                    })
                    .collect()
            }),
            Oracle::Fancy(r) => r.captures(text).map_err(|e| e.to_string())?.map(|c| {
                (0..n)
                    .map(|i| {
                        let m = c.name(&format!("vpart{i}")).expect("part takes part in the match");
                        (m.start(), m.end())
                    })
                    .collect()
            }),
        })
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct TextCase {
    pub parts: Vec<Part>,
    pub texts: Vec<String>,
}
impl TextCase {
    fn sample(&self) -> serde_json::Value {
        serde_json::json!({"parts": desc(&self.parts), "texts": self.texts})
    }
}

fn text_of(bytes: &[u8]) -> String {
    String::from_utf8_lossy(bytes).replace('\u{fffd}', "é")
}

pub fn gen_texts(t: &mut Tape, m: Option<&Model>, count: usize) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..count {
        let mut s = match m {
            Some(m) => {
                let pool = gen::byte_pool(&m.dfa);
                text_of(&gen::message(t, &m.dfa, &pool, 20))
            }
            None => {
                let n = t.size(0, 8);
                (0..n).map(|_| *t.pick(&['a', 'b', 'é', '\n', '=', 'x', '末'])).collect()
            }
        };
        if t.chance(25) {
            s = format!("{}{s}", t.pick(&["é", "末神", "😀 ", "ab", "\r\n", "ß=", "\u{0}"]));
        }
        if t.chance(15) {
            s += *t.pick(&["é", "末", "\n", "a", "\r\n"]);
        }
        v.push(s);
    }
    v
}

// ---------------------------------------------------------------------------------- C12

pub struct C12;
impl Prop for C12 {
    type Case = TextCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "random configurations (groups, named groups, escaped parentheses, lazy quantifiers, flags, anchors, look-aheads) and texts around their language with multi-byte characters; the spans of all parts and of the public parts are compared with the leftmost-first match of the regex crate with one named group per part; the spans tile the match and the strings are the slices. Non-trivial: the text matches and the configuration has at least two parts or a part with a group"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the regex crate (and, for look-aheads, fancy-regex) implements leftmost-first matching with named groups"]
    }
    fn gen(&self, t: &mut Tape) -> TextCase {
        let o = gen::RxOpts { big: 2, flags: true, lazy: true, captures: true };
        let mut parts: Vec<Part> = if t.chance(45) {
            let al = gen::alphabet(t, 100);
            let n = t.size(1, 5);
            let depth = t.size(0, 3);
            (0..n).map(|_| Part { is_public: t.chance(50), regex_def: gen::regex(t, &al, depth, o) }).collect()
        } else {
            gen::parts(t, Anchors::Any, o)
        };
        let m = Model::new(&parts).ok();
        let texts = gen_texts(t, m.as_ref(), 6);
        let n = parts.len();
        for (i, p) in parts.iter_mut().enumerate() {
            match t.below(20) {
                0 => p.regex_def = format!("(?P<g{i}>{})", p.regex_def),
                1 => p.regex_def = format!("({})", p.regex_def),
                2 => p.regex_def += "\\(?",
                3 => p.regex_def += "[(]?",
                4 if i + 1 == n => p.regex_def += "(?=(.|\\n)|$)",
                5 if i + 1 == n => p.regex_def = format!("(?:{})(?!b)", p.regex_def),
                6 => p.regex_def = format!("(?:{})?", p.regex_def),
                _ => {}
            }
        }
        TextCase { parts, texts }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000
        } else {
            25_000
        }
    }
    fn sample(&self, c: &TextCase) -> serde_json::Value {
        c.sample()
    }
    fn check(&self, c: &TextCase) -> Outcome {
        if c.parts.iter().any(|p| fancy_regex::Regex::new(&p.regex_def).is_err()) {
            return discard("a part is not a regex of the extraction library");
        }
        let fancy = c.parts.iter().any(|p| p.regex_def.contains("(?=") || p.regex_def.contains("(?!"));
        let or = match oracle(&c.parts, fancy) {
            Ok(o) => o,
            Err(_) => return discard("the reference does not compile the regex"),
        };
        let what = desc(&c.parts);
        let mut matched = false;
        let mut wide = false;
        for text in &c.texts {
            let want = match or.spans(text, c.parts.len()) {
                Ok(w) => w,
                Err(_) => continue,
            };
            for private in [false, true] {
                let got = idxes(text, &c.parts, private);
                let strs = substrs(text, &c.parts, private);
                match (&want, &got) {
                    (_, Res::Panic(p)) => return Outcome::Fail(format!("{what}: text {text:?}: panic: {p}")),
                    (None, Res::Ok(v)) => {
                        return Outcome::Fail(format!("{what}: text {text:?}: spans {v:?} although nothing matches"))
                    }
                    (None, Res::Err(_)) => {
                        if strs.kind() != "err" {
                            return Outcome::Fail(format!("{what}: text {text:?}: strings although nothing matches"));
                        }
                    }
                    (Some(w), Res::Err(e)) => {
                        return Outcome::Fail(format!("{what}: text {text:?}: error {e:?} although it matches at {w:?}"))
                    }
                    (Some(w), Res::Ok(v)) => {
                        let sel: Spans = w
                            .iter()
                            .zip(&c.parts)
                            .filter(|(_, p)| p.is_public || private)
                            .map(|(s, _)| *s)
                            .collect();
                        if *v != sel {
                            return Outcome::Fail(format!(
                                "{what}: text {text:?} (private parts {}): spans {v:?} instead of {sel:?}",
                                if private { "revealed" } else { "hidden" }
                            ));
                        }
                        if private && v.windows(2).any(|p| p[0].1 != p[1].0) {
                            return Outcome::Fail(format!("{what}: text {text:?}: spans {v:?} do not tile the match"));
                        }
                        let slices: Vec<String> = v.iter().map(|(a, b)| text[*a..*b].to_string()).collect();
                        match strs {
                            Res::Ok(s) if s == slices => {}
                            s => {
                                return Outcome::Fail(format!(
                                    "{what}: text {text:?} (private parts {}): strings {s:?} for spans {v:?}",
                                    if private { "revealed" } else { "hidden" }
                                ))
                            }
                        }
                        matched = true;
                        wide |= v.iter().any(|(a, _)| !text[..*a].is_ascii());
                    }
                }
            }
        }
        let mut l = vec![if matched { "match" } else { "no-match" }];
        if wide {
            l.push("after-multi-byte")
        }
        if fancy {
            l.push("look-ahead")
        }
        pass_l(matched && (c.parts.len() > 1 || c.parts[0].regex_def.contains('(')), l)
    }
}

// ---------------------------------------------------------------------------------- C13

pub struct C13;
impl Prop for C13 {
    type Case = TextCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "random configurations of the documented domain compiled to a circuit and used for extraction on the same NUL-free texts: an accepted text must be one the extraction finds a match in; when the text has a single run of the scan, starting where the leftmost match starts and with one possible end, the reveals must be exactly the extracted public substrings at the extracted positions and zero elsewhere. Non-trivial: the two were compared on an accepted text with a public part"
    }
    fn gen(&self, t: &mut Tape) -> TextCase {
        let o = gen::RxOpts { big: 0, flags: false, lazy: false, captures: true };
        let mut parts = gen::parts_in_domain(t, Anchors::Any, o, 4);
        if parts.iter().all(|p| !p.is_public) {
            parts.last_mut().unwrap().is_public = true;
        }
        let m = Model::new(&parts).ok();
        let mut texts: Vec<String> = gen_texts(t, m.as_ref(), 6);
        texts.iter_mut().for_each(|s| s.retain(|c| c != '\0'));
        texts.retain(|s| !s.is_empty());
        TextCase { parts, texts }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            100_000
        } else {
            6_000
        }
    }
    fn sample(&self, c: &TextCase) -> serde_json::Value {
        c.sample()
    }
    fn check(&self, c: &TextCase) -> Outcome {
        let m = match Model::new(&c.parts) {
            Ok(m) => m,
            Err(e) => return Outcome::Discard(short(&e)),
        };
        if let Err(e) = m.in_domain() {
            return discard(e);
        }
        if c.parts.iter().any(|p| fancy_regex::Regex::new(&p.regex_def).is_err()) {
            return discard("a part is not a regex of the extraction library");
        }
        let what = desc(&c.parts);
        let n = c.texts.iter().map(|s| s.len()).max().unwrap_or(0).max(1);
        let src = tri!(circom_of(&what, &target::compile_decomposed(&c.parts, target::CIRCOM)));
        let f = tri!(elab(&what, &src, n));
        let mut compared = false;
        let mut libdefect = false;
        let mut accepted = false;
        for text in &c.texts {
            if text.contains('\0') || text.is_empty() {
                continue;
            }
            let msg = text.as_bytes();
            let o = tri!(run(&what, &f, &pad(msg, n)));
            let e = idxes(text, &c.parts, false);
            if o.out == 1 {
                accepted = true;
                if let Res::Err(_) | Res::Panic(_) = e {
                    return Outcome::Fail(format!(
                        "{what}: text {text:?} is accepted by the circuit but extraction gives {}",
                        e.msg()
                    ));
                }
            }
            // is there one possible match only?
            let mut padded = msg.to_vec();
            padded.resize(n, 0);
            let s = scan(&m.dfa, &padded, m.end_anchor);
            let mut inp = vec![SOT];
            inp.extend(msg);
            let ends = |i: usize| -> Vec<usize> {
                let mut q = 0u32;
                let mut v = vec![];
                for (k, b) in inp[i..].iter().enumerate() {
                    q = m.dfa.go(q, *b);
                    if q == DEAD {
                        break;
                    }
                    if m.dfa.accept[q as usize] && (!m.end_anchor || i + k + 1 == inp.len()) {
                        v.push(i + k + 1);
                    }
                }
                v
            };
            // position 0 is the start anchor's byte; a word that uses it starts at text offset 0
            let first = (0..inp.len()).find(|i| !ends(*i).is_empty());
            let Some(first) = first else { continue };
            let en = ends(first);
            let runs: Vec<(usize, usize)> =
                s.matched.iter().copied().filter(|r| !m.end_anchor || r.1 == inp.len()).collect();
            if en.len() != 1 || runs != [(first, en[0])] {
                continue;
            }
            if m.caret != Caret::None && first == 0 && !ends(1).is_empty() {
                continue; // a match at offset 0 both with and without the anchor
            }
            // the regex library has a defect in its literal search: `(a|Aaa)` finds "a" at 4 in
            // "\x01\x01\x01Aaa"; where its own answer is not the leftmost match, nothing is compared
            if let Ok(or) = oracle(&c.parts, false) {
                let lib = or.spans(text, c.parts.len()).ok().flatten();
                let start = lib.as_ref().and_then(|v| v.first()).map(|s| s.0);
                let first_text = if m.caret != Caret::None && first == 0 { 0 } else { first - 1 };
                if start != Some(first_text) {
                    libdefect = true;
                    continue;
                }
            }
            let Res::Ok(v) = e else { continue };
            if v.len() != o.reveals.len() {
                return Outcome::Fail(format!(
                    "{what}: text {text:?}: {} substrings but {} reveals",
                    v.len(),
                    o.reveals.len()
                ));
            }
            for (k, (a, b)) in v.iter().enumerate() {
                let mut want = vec![0i128; n];
                for i in *a..*b {
                    want[i] = msg[i] as i128;
                }
                if o.reveals[k] != want {
                    return Outcome::Fail(format!(
                        "{what}: text {text:?}: the circuit reveals {:?} but the extracted substring {k} is {:?} at {a}..{b}",
                        showi(&o.reveals[k]),
                        &text[*a..*b]
                    ));
                }
            }
            compared = true;
        }
        let mut l = vec![];
        if accepted {
            l.push("accepted")
        }
        if compared {
            l.push("compared")
        }
        if libdefect {
            l.push("regex library does not find the leftmost match")
        }
        pass_l(compared, l)
    }
}

// ---------------------------------------------------------------------------------- C14

pub const EXTRACTORS: &[&str] = &[
    "email_addr", "email_domain", "from_all", "from_addr", "to_all", "to_addr", "subject_all", "body_hash", "timestamp",
    "message_id",
];
pub fn named(kind: &str, text: &str) -> Res<Spans> {
    guard(|| match kind {
        "email_addr" => ex::extract_email_addr_idxes(text),
        "email_domain" => ex::extract_email_domain_idxes(text),
        "from_all" => ex::extract_from_all_idxes(text),
        "from_addr" => ex::extract_from_addr_idxes(text),
        "to_all" => ex::extract_to_all_idxes(text),
        "to_addr" => ex::extract_to_addr_idxes(text),
        "subject_all" => ex::extract_subject_all_idxes(text),
        "body_hash" => ex::extract_body_hash_idxes(text),
        "timestamp" => ex::extract_timestamp_idxes(text),
        "message_id" => ex::extract_message_id_idxes(text),
        k => panic!("unknown extractor {k}"),
    })
}

#[derive(Serialize, Deserialize, Clone)]
pub struct HeaderCase {
    pub kind: String,
    pub text: String,
    /// where the field is, by construction
    pub want: Option<(usize, usize)>,
    /// other texts, for the comparison with the definition
    #[serde(default)]
    pub more: Vec<String>,
}
/// The definition of a named extractor, as the repository has it.
fn definition(kind: &str) -> Option<Vec<Part>> {
    #[derive(Deserialize)]
    struct D {
        parts: Vec<Part>,
    }
    let f = crate::target::repo().join(format!("packages/apis/src/decomposed_defs/{kind}.json"));
    serde_json::from_str::<D>(&std::fs::read_to_string(f).ok()?).ok().map(|d| d.parts)
}
/// A text with a few characters put in, taken out or replaced.
fn edited(t: &mut Tape, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let k = t.size(1, 3);
    for _ in 0..k {
        let i = match t.below(4) {
            0 => 0,
            1 => v.len(),
            _ => t.below(v.len() as u64 + 1) as usize,
        };
        let c = *t.pick(&['\n', '\r', ' ', '\0', 'é', '@', '<', '>', ':', ';', '=', 'a', '末', '\t', '"', '.']);
        match t.below(3) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 if i < v.len() => v[i] = c,
            _ => v.insert(i, c),
        }
    }
    v.into_iter().collect()
}

const LOCAL: &[u8] = b"ABCXYZabcxyz0189!#$%&'*+=?-^_`{|}~./";
const DOMAIN: &[u8] = b"ABCXYZabcxyz0189.-";
fn some(t: &mut Tape, al: &[u8], lo: usize, hi: usize) -> String {
    let n = t.size(lo, hi);
    (0..n).map(|_| *t.pick(al) as char).collect()
}
pub fn address(t: &mut Tape) -> String {
    format!("{}@{}", some(t, LOCAL, 1, 8), some(t, DOMAIN, 1, 8))
}
fn prose(t: &mut Tape) -> String {
    let n = t.size(0, 4);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s += *t.pick(&[
            "hello", "末神", "奏宙", "from:", "to:x", "subject:", "\"A B\"", "(c)", "bh=", "t=1;", "é", "a,b", "re:", "1=1;", "message-id:",
        ]);
    }
    s
}
/// A display name without angle brackets; not empty.
fn display(t: &mut Tape) -> String {
    let mut s = prose(t);
    if t.chance(30) {
        s += &address(t);
    }
    s.push(' ');
    s
}
/// A display name that may also hold angle brackets; not empty.
fn odd_display(t: &mut Tape) -> String {
    let mut s = display(t);
    let k = t.size(1, 3);
    for _ in 0..k {
        s += *t.pick(&["<3 ", "a<b", ">", "< ", "<x> ", "->", "~", "{|}", "\t", "<a@b> "]);
        if t.chance(30) {
            s += &prose(t);
        }
    }
    s
}
/// Other header lines, none of them of kind `not`.
fn others(t: &mut Tape, not: &str, max: usize) -> String {
    let n = t.size(0, max);
    let mut s = String::new();
    for _ in 0..n {
        let k = *t.pick(&["from", "to", "subject", "date", "message-id", "x-from", "received", "mime-version", "reply-to"]);
        if k == not {
            continue;
        }
        let v = match t.below(4) {
            0 => address(t),
            1 => format!("{}<{}>", display(t), address(t)),
            2 => format!("<{}>", address(t)),
            _ => prose(t),
        };
        s += &format!("{k}:{v}\r\n");
    }
    s
}

pub fn header_case(t: &mut Tape, kind: &str) -> HeaderCase {
    header_case_of(t, kind, false)
}
/// `odd`: also values that only the extractors are meant to handle.
pub fn header_case_of(t: &mut Tape, kind: &str, odd: bool) -> HeaderCase {
    let field = match kind {
        "from_all" | "from_addr" => "from",
        "to_all" | "to_addr" => "to",
        "subject_all" => "subject",
        "message_id" => "message-id",
        "body_hash" | "timestamp" => "dkim-signature",
        _ => "",
    };
    let absent = t.chance(15);
    let (mut text, mut want) = (String::new(), None);
    match kind {
        "email_addr" => {
            let noise: &[&str] = &["hello ", "(", "\"末神\" <", ",", "from:", "; ", "\r\n", "é", "a b ", "<x>", ":"];
            let k = t.size(0, 3);
            for _ in 0..k {
                text += *t.pick(noise);
            }
            // the address begins after a byte that no local part holds
            if !text.is_empty() && !text.ends_with([' ', '(', '<', '>', ',', ':', 'é', '\n']) {
                text.push(' ');
            }
            if !absent {
                let a = address(t);
                want = Some((text.len(), text.len() + a.len()));
                text += &a;
            }
            text += *t.pick(&["", ">", " ", "\r\n", ",", "末", ">\r\n"]);
            if text.ends_with([' ', '\n', ',']) {
                text += &prose(t);
            }
        }
        "email_domain" => {
            if !absent {
                let l = some(t, LOCAL, 1, 8);
                let d = some(t, DOMAIN, 1, 8);
                want = Some((l.len() + 1, l.len() + 1 + d.len()));
                text = format!("{l}@{d}");
                if t.chance(40) {
                    text += *t.pick(&[">", " x", "\r\n", ",", "末"]);
                }
            } else {
                text = prose(t);
            }
        }
        _ => {
            text = others(t, field, 3);
            if !absent {
                text += &format!("{field}:");
                let at = text.len();
                match kind {
                    "from_all" | "to_all" | "subject_all" => {
                        let v = match t.below(4) {
                            0 => address(t),
                            1 => format!("{}<{}>", display(t), address(t)),
                            2 => format!("{}x", prose(t)),
                            _ => format!(" {}", prose(t)),
                        };
                        text += &v;
                        want = Some((at, text.len()));
                    }
                    "from_addr" | "to_addr" => {
                        if t.chance(60) {
                            text += &if odd && t.chance(30) { odd_display(t) } else { display(t) };
                            text += "<";
                            let a = address(t);
                            want = Some((text.len(), text.len() + a.len()));
                            text += &a;
                            text += ">";
                        } else {
                            let a = address(t);
                            want = Some((at, at + a.len()));
                            text += &a;
                        }
                    }
                    "message_id" => {
                        let id = some(t, b"ABCabc0189=@.+_-", 1, 12);
                        text += &format!("<{id}>");
                        want = Some((at, text.len()));
                    }
                    _ => {
                        // dkim-signature, the last header of the block
                        let tags = ["v=1", "a=rsa-sha256", "c=relaxed/relaxed", "d=gmail.com", "s=20230601", "x=1695594612", "h=to:subject:from", "dara=google.com", "i=@x.org"];
                        let mut list: Vec<String> = vec![];
                        let k = t.size(1, 5);
                        for _ in 0..k {
                            list.push(t.pick(&tags).to_string());
                        }
                        let bh = some(t, b"ABCZabcz0189+/=", 1, 44);
                        let ts = some(t, b"0123456789", 1, 11);
                        let (bt, tt) = (format!("bh={bh}"), format!("t={ts}"));
                        let both = t.chance(70);
                        let mine = if kind == "body_hash" { bt.clone() } else { tt.clone() };
                        let at1 = t.size(1, list.len());
                        list.insert(at1, mine.clone());
                        if both {
                            let other = if kind == "body_hash" { tt } else { bt };
                            let at2 = t.size(1, list.len());
                            list.insert(at2, other);
                        }
                        list.push("b=".into());
                        let mut pos = 0;
                        let mut seen = false;
                        for x in &list {
                            if !seen && *x == mine {
                                let off = x.find('=').unwrap() + 1;
                                want = Some((at + pos + off, at + pos + x.len()));
                                seen = true;
                            }
                            pos += x.len() + 2;
                        }
                        text += &list.join("; ");
                    }
                }
                if !matches!(kind, "body_hash" | "timestamp") {
                    text += "\r\n";
                    text += &others(t, field, 2);
                }
            }
        }
    }
    HeaderCase { kind: kind.into(), text, want, more: vec![] }
}

pub struct C14;
impl Prop for C14 {
    type Case = HeaderCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "email texts built around one field whose position is known (other header lines before and after, decoys in names and values, multi-byte names, field first or later in the block), for each of the ten named extractors; the returned span must be the constructed one, and without the field there must be an error; on these texts and edited ones the extractor agrees with extraction by its shipped definition. Non-trivial: the field is present and something precedes it or follows it"
    }
    fn gen(&self, t: &mut Tape) -> HeaderCase {
        let k = *t.pick(EXTRACTORS);
        let mut c = header_case_of(t, k, true);
        let n = t.size(0, 3);
        for _ in 0..n {
            let s = match t.below(4) {
                0 => format!("{}{}", t.pick(&["\n", "\r\n", " ", "\0", "\n\n", "\r"]), c.text),
                1 => format!("{}{}", c.text, t.pick(&["\n", "\r\n", " ", "\0", "\n\n", "\r"])),
                _ => edited(t, &c.text),
            };
            c.more.push(s);
        }
        c
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            2_000_000
        } else {
            40_000
        }
    }
    fn check(&self, c: &HeaderCase) -> Outcome {
        if let Some(parts) = definition(&c.kind) {
            for s in c.more.iter().chain([&c.text]) {
                let (a, b) = (named(&c.kind, s), idxes(s, &parts, false));
                if matches!(a, Res::Panic(_)) || a.kind() != b.kind() || matches!((&a, &b), (Res::Ok(x), Res::Ok(y)) if x != y) {
                    let tell = |r: Res<Spans>| match r {
                        Res::Ok(v) => format!("{v:?}"),
                        r => r.msg(),
                    };
                    return Outcome::Fail(format!(
                        "{} on {s:?} gives {} but its definition gives {}",
                        c.kind,
                        tell(a),
                        tell(b)
                    ));
                }
            }
        }
        match (named(&c.kind, &c.text), &c.want) {
            (Res::Panic(p), _) => Outcome::Fail(format!("{} on {:?}: panic: {p}", c.kind, c.text)),
            (Res::Ok(v), Some(w)) if v == [*w] => Outcome::Pass { nontrivial: w.0 > 0, labels: vec![c.kind.clone()] },
            (Res::Err(_), None) => Outcome::Pass { nontrivial: false, labels: vec![format!("{}: absent", c.kind)] },
            (r, w) => Outcome::Fail(format!(
                "{} on {:?}: {} but the field is {}",
                c.kind,
                c.text,
                match r {
                    Res::Ok(v) => format!("spans {v:?}"),
                    r => r.msg(),
                },
                match w {
                    Some((a, b)) => format!("at {a}..{b} ({:?})", &c.text[*a..*b]),
                    None => "absent".into(),
                }
            )),
        }
    }
}

// ---------------------------------------------------------------------------------- C20

pub struct C20;
impl Prop for C20 {
    type Case = TextCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "random configurations of 1-5 parts some of which are broken (unbalanced groups and classes, bad repetitions, valid only between other parentheses, random character soup) and texts; when a part is not a regex by itself the error must name the first such part by index and text, whatever the text; otherwise extraction ends in spans or an error and the strings agree with the spans. It never panics. Non-trivial: a part is broken"
    }
    fn gen(&self, t: &mut Tape) -> TextCase {
        let al = gen::alphabet(t, 60);
        let n = t.size(1, 5);
        let mut parts: Vec<Part> =
            (0..n).map(|_| Part { is_public: t.chance(50), regex_def: gen::regex(t, &al, 1, gen::FULL) }).collect();
        let k = t.size(0, 2);
        for _ in 0..k {
            let i = t.below(n as u64) as usize;
            let broken = ["(", ")", "[", "[^", "a)(b", "a{", "*", "+a", "a**", "(?P<x", "(?P<x>a)(?P<x>b)", "\\", "[z-a]", "(?<", "a{3,1}", "(?:", "\\x{110000}", "\\p{Nope}", "a)|(b", "[[:nope:]]"];
            parts[i].regex_def = match t.below(3) {
                0 => t.pick(&broken).to_string(),
                1 => format!("{}{}", parts[i].regex_def, t.pick(&broken)),
                _ => {
                    let m = t.size(0, 8);
                    (0..m).map(|_| *t.pick(&['(', ')', '[', ']', '{', '}', '?', '*', '|', '\\', 'a', '1', ',', '^', '$', ':', '<', '=', '!', 'P', 'é'])).collect()
                }
            };
        }
        if t.below(250) == 0 {
            // the search gives up
            let (a, b) = (*t.pick(&['a', 'b', 'é']), *t.pick(&["c", "(?=c)", "\\1", "$"]));
            let bad = t.pick(&["(?=A)(A|A)*", "(?=A)(A+)+", "(?<=|A)(A*)*", "(A|AA)+(?!A)"]).replace('A', &a.to_string());
            let i = t.below(n as u64) as usize;
            parts[i].regex_def = bad + b;
            let len = t.size(20, 60);
            return TextCase { parts, texts: vec![format!("{}d", a.to_string().repeat(len))] };
        }
        let texts = gen_texts(t, None, 3);
        TextCase { parts, texts }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            2_000_000
        } else {
            60_000
        }
    }
    fn sample(&self, c: &TextCase) -> serde_json::Value {
        c.sample()
    }
    fn check(&self, c: &TextCase) -> Outcome {
        let what = desc(&c.parts);
        let mut bad = None;
        for (i, p) in c.parts.iter().enumerate() {
            match std::panic::catch_unwind(|| fancy_regex::Regex::new(&p.regex_def).is_err()) {
                Ok(true) => {
                    bad = Some(i);
                    break;
                }
                Ok(false) => {}
                Err(_) => return discard("the regex library itself panics on the part"),
            }
        }
        for text in &c.texts {
            for private in [false, true] {
                let r = idxes(text, &c.parts, private);
                let s = substrs(text, &c.parts, private);
                if let (Res::Panic(p), _) = (&r, 0) {
                    return Outcome::Fail(format!("{what}: text {text:?}: panic: {p}"));
                }
                if let Res::Panic(p) = &s {
                    return Outcome::Fail(format!("{what}: text {text:?}: panic: {p}"));
                }
                match (&r, &s, bad) {
                    (Res::Err(e), Res::Err(e2), Some(i)) => {
                        let def = &c.parts[i].regex_def;
                        for e in [e, e2] {
                            if !e.contains(&format!("index {i}")) || !e.contains(def.as_str()) {
                                return Outcome::Fail(format!(
                                    "{what}: part {i} ({def:?}) is not a regex but the error is {e:?}"
                                ));
                            }
                        }
                    }
                    (_, _, Some(i)) => {
                        return Outcome::Fail(format!(
                            "{what}: text {text:?}: part {i} is not a regex but extraction gives {} and {}",
                            r.kind(),
                            s.kind()
                        ))
                    }
                    (Res::Ok(v), Res::Ok(s), None) => {
                        let pubs = c.parts.iter().filter(|p| p.is_public || private).count();
                        let ok = v.len() == pubs
                            && v.len() == s.len()
                            && v.iter().zip(s).all(|((a, b), s)| text.get(*a..*b) == Some(s.as_str()));
                        if !ok {
                            return Outcome::Fail(format!("{what}: text {text:?}: spans {v:?} and strings {s:?}"));
                        }
                    }
                    (Res::Err(_), Res::Err(_), None) => {}
                    _ => {
                        return Outcome::Fail(format!(
                            "{what}: text {text:?}: the spans are {} but the strings {}",
                            r.msg(),
                            s.msg()
                        ))
                    }
                }
            }
        }
        pass_l(bad.is_some(), vec![if bad.is_some() { "broken-part" } else { "valid" }])
    }
}

// ---------------------------------------------------------------------------------- C22

pub struct C22;
#[derive(Serialize, Deserialize, Clone)]
pub struct PadStringCase {
    pub text: String,
    pub extra: usize,
}
impl Prop for C22 {
    type Case = PadStringCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "random strings (ASCII, multi-byte, with NULs, empty) and sizes from their byte length upwards; the result has exactly that size, begins with the bytes of the string and is zero after them. Non-trivial: a non-empty string and at least one byte of padding"
    }
    fn fixed(&self) -> Vec<PadStringCase> {
        (0..70).flat_map(|n| ["", "a", "é", "末神", "a\0b"].map(|s| PadStringCase { text: s.into(), extra: n })).collect()
    }
    fn gen(&self, t: &mut Tape) -> PadStringCase {
        let n = t.size(0, 60);
        let text = (0..n).map(|_| *t.pick(&['a', 'Z', '0', ' ', '\0', '\n', 'é', '末', '😀', '\u{7f}', '\u{10ffff}'])).collect();
        let extra = match t.below(3) {
            0 => 0,
            1 => t.size(1, 64),
            _ => t.size(0, 5000),
        };
        PadStringCase { text, extra }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            1_000_000
        } else {
            50_000
        }
    }
    fn check(&self, c: &PadStringCase) -> Outcome {
        let n = c.text.len() + c.extra;
        let r: Res<Vec<u8>> = guard(|| Ok::<_, String>(zk_regex_apis::padding::pad_string(&c.text, n)));
        let mut want = c.text.as_bytes().to_vec();
        want.resize(n, 0);
        match r {
            Res::Ok(v) if v == want => pass(!c.text.is_empty() && c.extra > 0),
            Res::Ok(v) => {
                let i = (0..n.max(v.len())).find(|i| v.get(*i) != want.get(*i)).unwrap_or(0);
                Outcome::Fail(format!(
                    "pad_string({:?}, {n}) has {} bytes and byte {i} is {:?} instead of {:?}",
                    c.text,
                    v.len(),
                    v.get(i),
                    want.get(i)
                ))
            }
            r => Outcome::Fail(format!("pad_string({:?}, {n}): {}", c.text, r.msg())),
        }
    }
}
