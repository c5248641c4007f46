//! Generators: regex texts, decomposed configurations, words and messages.

use crate::model::*;
use crate::rx::*;
use crate::tape::Tape;

const LETTERS: &[char] = &['a', 'b', 'c', 'd', 'e', 'k', 's', 't', 'x', 'z', 'A', 'B', 'Z', '0', '1', '7', '9'];
const PUNCT: &[char] = &[
    '=', '-', ',', '>', ' ', '"', '\'', '\\', ':', ';', '<', '@', '.', '/', '_', '+', '*', '(', ')', '[', ']', '{', '}',
    '^', '$', '|', '?', '!', '#', '%', '&', '~', '`',
];
const CTRL: &[char] = &['\n', '\r', '\t', '\x0b', '\x0c', '\x01', '\x1b', '\x7f', '\x08'];
const WIDE: &[char] = &['é', 'ß', 'ÿ', '\u{80}', '\u{a0}', '\u{7ff}', '\u{800}', '末', 'あ', '\u{ffff}', '😀', '\u{10ffff}', 'Ω', 'К'];

/// A small alphabet, so that parts overlap and near misses are common.
pub fn alphabet(t: &mut Tape, wide_pct: u64) -> Vec<char> {
    let n = t.size(2, 6);
    let mut v = vec![];
    for _ in 0..n {
        let c = match t.weighted(&[55, 28, 9, 8]) {
            0 => *t.pick(LETTERS),
            1 => *t.pick(PUNCT),
            2 => *t.pick(CTRL),
            _ => {
                if t.chance(wide_pct) {
                    *t.pick(WIDE)
                } else {
                    *t.pick(LETTERS)
                }
            }
        };
        if !v.contains(&c) {
            v.push(c);
        }
    }
    if v.len() < 2 {
        v.push(if v[0] == 'a' { 'b' } else { 'a' });
    }
    v
}

const META: &str = r"\.+*?()|[]{}^$#&-~";

/// One literal character in pattern syntax, in one of several spellings.
pub fn lit(t: &mut Tape, c: char) -> String {
    if t.chance(8) {
        return match t.below(3) {
            0 if (c as u32) < 256 => format!("\\x{:02x}", c as u32),
            1 => format!("\\x{{{:X}}}", c as u32),
            _ => format!("\\u{{{:x}}}", c as u32),
        };
    }
    match c {
        '\n' if t.chance(60) => "\\n".into(),
        '\r' if t.chance(60) => "\\r".into(),
        '\t' if t.chance(60) => "\\t".into(),
        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | '{' | '^' | '$' => format!("\\{c}"),
        ']' | '}' if t.chance(70) => format!("\\{c}"),
        c if META.contains(c) && c != '-' && t.chance(15) => format!("\\{c}"),
        c => c.to_string(),
    }
}
fn class_lit(t: &mut Tape, c: char, first: bool) -> String {
    match c {
        // a bracket right after the opening one is a literal
        ']' if first && t.chance(50) => "]".into(),
        '\\' | '[' | ']' => format!("\\{c}"),
        '^' if first || t.chance(50) => format!("\\{c}"),
        '-' | '&' | '~' => format!("\\{c}"),
        '\n' if t.chance(60) => "\\n".into(),
        '\r' if t.chance(60) => "\\r".into(),
        '(' | ')' | '.' | '*' | '+' | '?' | '|' | '$' | '{' | '}' if t.chance(30) => format!("\\{c}"),
        c => c.to_string(),
    }
}

/// A character class over the alphabet; `avoid` are characters it must not match.
pub fn class(t: &mut Tape, al: &[char], avoid: &[char]) -> String {
    if t.chance(40) || al.iter().all(|c| avoid.contains(c)) {
        // negated
        let mut s = String::from("[^");
        let mut first = true;
        for c in avoid {
            s += &class_lit(t, *c, first);
            first = false;
        }
        let extra = t.size(if avoid.is_empty() { 1 } else { 0 }, 2);
        for _ in 0..extra {
            let c = *t.pick(al);
            s += &class_lit(t, c, first);
            first = false;
        }
        return s + "]";
    }
    let mut s = String::from("[");
    let mut n = 0;
    let k = t.size(1, 4);
    for _ in 0..k {
        if t.chance(35) && avoid.is_empty() {
            let (a, b) = (*t.pick(al), *t.pick(al));
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            s += &format!("{}-{}", class_lit(t, a, n == 0), class_lit(t, b, false));
            n += 1;
        } else if t.chance(15) && avoid.iter().all(|c| !c.is_ascii_alphanumeric()) {
            s += t.pick(&["a-z", "0-9", "A-Z", "a-zA-Z0-9", "A-Za-z"]).to_owned();
            n += 1;
        } else {
            let c = *t.pick(al);
            if !avoid.contains(&c) {
                s += &class_lit(t, c, n == 0);
                n += 1;
            }
        }
    }
    if n == 0 {
        let c = *al.iter().find(|c| !avoid.contains(c)).unwrap();
        s += &class_lit(t, c, true);
    }
    s + "]"
}

/// A class of runs of characters with gaps between them, as long as the ASCII characters reach:
/// many single characters, and runs around the length from which they are compared as ranges.
fn runs_class(t: &mut Tape) -> String {
    let (mut at, end) = (t.size(1, 60), t.size(70, 128));
    let (runs, gaps): (&[usize], &[usize]) =
        [(&[1usize][..], &[1usize][..]), (&[1, 2], &[1, 2, 3]), (&[15, 16, 17, 18, 19], &[1, 2]), (&[1, 2, 16, 17, 30], &[1, 1, 5])]
            [t.below(4) as usize];
    let mut s = String::new();
    while at < end {
        let to = (at + t.pick(runs) - 1).min(127);
        s += &if to == at { format!("\\x{at:02x}") } else { format!("\\x{at:02x}-\\x{to:02x}") };
        at = to + 1 + t.pick(gaps);
    }
    format!("[{s}]")
}

/// Classes put together from a few shared ranges and single characters, so that the sets of
/// different transitions have much in common.
fn class_pool(t: &mut Tape) -> Vec<String> {
    const SINGLE: &[&str] = &["1", "2", "3", "5", "7", "a", "x", "=", "A"];
    const RANGE: &[&str] = &["a-e", "a-z", "g-k", "0-4", "A-D", "A-Z", "b-w"];
    let n = t.size(2, 4);
    let singles: Vec<&str> = (0..n).map(|_| *t.pick(SINGLE)).collect();
    let n = t.size(1, 3);
    let ranges: Vec<&str> = (0..n).map(|_| *t.pick(RANGE)).collect();
    let k = t.size(2, 5);
    (0..k)
        .map(|_| {
            if t.chance(5) {
                return runs_class(t);
            }
            let m = t.size(1, 3);
            let s: String = (0..m).map(|_| if t.chance(65) { *t.pick(&singles) } else { *t.pick(&ranges) }).collect();
            format!("[{s}]")
        })
        .collect()
}

#[derive(Clone, Copy)]
pub struct RxOpts {
    /// Big Unicode classes (`\w`, `\d`, `\pL`), per cent of atoms.
    pub big: u64,
    /// Inline flags.
    pub flags: bool,
    /// Lazy quantifiers.
    pub lazy: bool,
    pub captures: bool,
}
pub const FULL: RxOpts = RxOpts { big: 2, flags: true, lazy: true, captures: true };
pub const SMALL: RxOpts = RxOpts { big: 0, flags: true, lazy: false, captures: true };

fn group(t: &mut Tape, s: String, o: RxOpts) -> String {
    if o.captures && t.chance(55) {
        format!("({s})")
    } else {
        format!("(?:{s})")
    }
}

fn atom(t: &mut Tape, al: &[char], depth: usize, o: RxOpts) -> String {
    let w: [u64; 6] = [50, 20, 5, if depth > 0 { 20 } else { 0 }, o.big, if o.flags && depth > 0 { 3 } else { 0 }];
    match t.weighted(&w) {
        0 => {
            let c = *t.pick(al);
            lit(t, c)
        }
        1 => class(t, al, &[]),
        2 => ".".into(),
        3 => {
            let s = alt(t, al, depth - 1, o);
            group(t, s, o)
        }
        4 => t.pick(&["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\pL", "\\p{Greek}"]).to_string(),
        _ => {
            let s = alt(t, al, depth - 1, o);
            let f = *t.pick(&["(?i:", "(?s:", "(?x:", "(?U:", "(?-u:"]);
            if f == "(?x:" && s.contains([' ', '#', '\n', '\r', '\t', '\x0b', '\x0c', '\u{85}', '\u{a0}']) {
                format!("(?:{s})")
            } else {
                format!("{f}{s})")
            }
        }
    }
}
fn piece(t: &mut Tape, al: &[char], depth: usize, o: RxOpts) -> String {
    let a = atom(t, al, depth, o);
    let lazy = |t: &mut Tape| if o.lazy && t.chance(12) { "?" } else { "" };
    match t.weighted(&[60, 9, 8, 12, 6, 5]) {
        0 => a,
        1 => format!("{a}?{}", lazy(t)),
        2 => format!("{a}*{}", lazy(t)),
        3 => format!("{a}+{}", lazy(t)),
        4 => format!("{a}{{{}}}", t.size(1, 4)),
        _ => {
            let m = t.size(0, 2);
            if t.chance(25) {
                format!("{a}{{{m},}}{}", lazy(t))
            } else {
                format!("{a}{{{m},{}}}{}", m + t.size(0, 2).max(if m == 0 { 1 } else { 0 }), lazy(t))
            }
        }
    }
}
fn cat(t: &mut Tape, al: &[char], depth: usize, o: RxOpts) -> String {
    let n = t.size(1, 3);
    (0..n).map(|_| piece(t, al, depth, o)).collect()
}
fn alt(t: &mut Tape, al: &[char], depth: usize, o: RxOpts) -> String {
    let n = if t.chance(30) { t.size(2, 3) } else { 1 };
    (0..n).map(|_| cat(t, al, depth, o)).collect::<Vec<_>>().join("|")
}
/// An arbitrary regex without anchors.
pub fn regex(t: &mut Tape, al: &[char], depth: usize, o: RxOpts) -> String {
    alt(t, al, depth, o)
}

fn word_lit(t: &mut Tape, al: &[char], n: usize) -> String {
    (0..n)
        .map(|_| {
            let c = *t.pick(al);
            lit(t, c)
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Anchors {
    None,
    Start,
    End,
    Any,
}

/// Parts made of classes that share characters and ranges.
pub fn pool_parts(t: &mut Tape) -> Vec<Part> {
    let pool = class_pool(t);
    let n = t.size(2, 8);
    (0..n)
        .map(|_| {
            let mut s = t.pick(&pool).clone();
            match t.weighted(&[60, 20, 10, 10]) {
                0 => {}
                1 => s += t.pick(&pool).as_str(),
                2 => s = format!("({s}|{})", t.pick(&pool)),
                _ => s += &format!("{{{}}}", t.size(1, 3)),
            }
            Part { is_public: t.chance(50), regex_def: s }
        })
        .collect()
}

/// Many states close to the first one: about `lo` to `hi` before minimization.
pub fn dictionary(t: &mut Tape, lo: usize, hi: usize) -> Vec<Part> {
    let len = t.size(5, 14);
    let n = t.size(lo, hi) / len + 1;
    let words: Vec<String> = (0..n).map(|_| (0..len).map(|_| (b'a' + t.below(26) as u8) as char).collect()).collect();
    let mut v = vec![t.pick(&["k=", "", "^k="]).to_string(), format!("({})", words.join("|")), ";".into()];
    v.retain(|d| !d.is_empty());
    v.into_iter().map(|regex_def| Part { is_public: t.chance(50), regex_def }).collect()
}

/// Configurations of unusual shape or size.
fn odd_parts(t: &mut Tape, o: RxOpts) -> Vec<Part> {
    let al = alphabet(t, 60);
    let mut v: Vec<String> = vec![];
    match t.weighted(&[47, 20, 12, 17, 4]) {
        0 => {
            return pool_parts(t);
        }
        4 => {
            return dictionary(t, 8, 330);
        }
        1 => {
            // many parts
            let n = t.size(5, 12);
            for _ in 0..n {
                v.push(match t.weighted(&[60, 25, 15]) {
                    0 => word_lit(t, &al, 1),
                    1 => class(t, &al, &[]),
                    _ => {
                        let (a, b) = (word_lit(t, &al, 1), word_lit(t, &al, 2));
                        group(t, format!("{a}|{b}"), o)
                    }
                });
            }
        }
        2 => {
            // many states
            let n = t.size(1, 3);
            let k = t.below(n as u64) as usize;
            for i in 0..n {
                v.push(if i == k {
                    match t.below(3) {
                        0 => {
                            let m = t.size(60, 120);
                            word_lit(t, &al, m)
                        }
                        1 => class(t, &al, &[]) + &format!("{{{}}}", t.size(60, 120)),
                        _ => {
                            let (a, m) = (word_lit(t, &al, 2), t.size(20, 60));
                            format!("({a}){{{m}}}")
                        }
                    }
                } else {
                    word_lit(t, &al, 2)
                });
            }
        }
        _ => {
            // inline flags of a whole part
            let n = t.size(1, 3);
            for _ in 0..n {
                let f = *t.pick(&["(?i)", "(?s)", "(?is)", "(?i)", ""]);
                let m = t.size(1, 3);
                let s = if t.chance(70) { word_lit(t, &al, m) } else { cat(t, &al, 1, o) };
                v.push(format!("{f}{s}"));
            }
        }
    }
    v.into_iter().map(|regex_def| Part { is_public: t.chance(50), regex_def }).collect()
}

/// A decomposed configuration of the usual shape: literal delimiters around variable fields.
pub fn parts(t: &mut Tape, anchors: Anchors, o: RxOpts) -> Vec<Part> {
    if matches!(anchors, Anchors::None | Anchors::Any) && t.chance(12) {
        return odd_parts(t, o);
    }
    let al = alphabet(t, 60);
    let mut v: Vec<Part> = vec![];
    let (st, en) = match anchors {
        Anchors::None => (false, false),
        Anchors::Start => (true, t.chance(25)),
        Anchors::End => (t.chance(30), true),
        Anchors::Any => (t.chance(25), t.chance(20)),
    };
    let np = t.size(1, 4);
    // delimiter characters, each starting the next literal part
    let mut prev_open: Option<char> = None; // next part must begin with this character
    for i in 0..np {
        let is_public = t.chance(50);
        let mut text;
        if let Some(d) = prev_open.take() {
            let n = t.size(0, 2);
            text = lit(t, d) + &word_lit(t, &al, n);
        } else {
            match t.weighted(&[30, 40, 14, 16]) {
                0 => {
                    let n = t.size(1, 3);
                    text = word_lit(t, &al, n);
                }
                1 => {
                    let d = *t.pick(&al);
                    let c = class(t, &al, &[d]);
                    let q = match t.weighted(&[60, 20, 10, 10]) {
                        0 => "+".to_string(),
                        1 => format!("{{{}}}", t.size(1, 3)),
                        2 => format!("{{{},{}}}", 1, t.size(2, 3)),
                        _ => "*".to_string(),
                    };
                    text = c + &q;
                    if t.chance(25) {
                        let n = t.size(1, 2);
                        text = word_lit(t, &al, n) + &text;
                    }
                    if i + 1 < np {
                        prev_open = Some(d);
                    } else if t.chance(60) {
                        text += &lit(t, d);
                    }
                }
                2 => {
                    let k = t.size(2, 3);
                    let ws: Vec<String> = (0..k)
                        .map(|_| {
                            let n = t.size(1, 3);
                            word_lit(t, &al, n)
                        })
                        .collect();
                    text = group(t, ws.join("|"), o);
                    if t.chance(30) {
                        text += "+";
                    }
                }
                _ => text = cat(t, &al, 2, o),
            }
        }
        if i == 0 && st {
            let n = t.size(1, 2);
            match t.weighted(&[40, 30, 10, 10, 10]) {
                0 => text = format!("^{text}"),
                1 => text = format!("({}|^){text}", word_lit(t, &al, n)),
                2 => text = format!("(^|{}){text}", word_lit(t, &al, n)),
                3 => text = format!("({}|{}|^){text}", word_lit(t, &al, 1), word_lit(t, &al, n)),
                _ => text = format!("({}|^){text}", cat(t, &al, 1, o)),
            }
        }
        if i + 1 == np && en {
            text += "$";
        }
        // README: the part holding `(..|^)` is private
        let is_public = is_public && !(i == 0 && st && !text.starts_with('^'));
        v.push(Part { is_public, regex_def: text });
    }
    v
}

/// Like `parts`, retried a few times until the model accepts it.
pub fn parts_in_domain(t: &mut Tape, anchors: Anchors, o: RxOpts, tries: usize) -> Vec<Part> {
    let mut p = parts(t, anchors, o);
    for _ in 1..tries {
        match Model::new(&p) {
            Ok(m) if m.in_domain().is_ok() => break,
            _ => p = parts(t, anchors, o),
        }
    }
    p
}

/// A random accepted word (may begin with the start-of-text byte).
pub fn word(t: &mut Tape, d: &Dfa, max: usize) -> Vec<u8> {
    let dist = d.dist();
    let mut s = 0u32;
    let mut w = vec![];
    if d.is_empty_language() {
        return w;
    }
    loop {
        let si = s as usize;
        let has_next = d.next[si].iter().any(|x| *x != DEAD);
        if d.accept[si] && (!has_next || t.chance(50) || w.len() >= max) {
            return w;
        }
        // group bytes by target
        let mut tg: Vec<(u32, Vec<u8>)> = vec![];
        for b in 0..=255u8 {
            let x = d.next[si][b as usize];
            if x == DEAD || (w.len() >= max && dist[x as usize] >= dist[si]) {
                continue;
            }
            match tg.iter_mut().find(|g| g.0 == x) {
                Some(g) => g.1.push(b),
                None => tg.push((x, vec![b])),
            }
        }
        if tg.is_empty() {
            return w;
        }
        let (x, bs) = t.pick(&tg).clone();
        let printable: Vec<u8> = bs.iter().copied().filter(|b| (32..127).contains(b)).collect();
        let edge = t.chance(30);
        let b = if edge {
            if t.chance(50) {
                bs[0]
            } else {
                *bs.last().unwrap()
            }
        } else if !printable.is_empty() && t.chance(80) {
            *t.pick(&printable)
        } else {
            *t.pick(&bs)
        };
        w.push(b);
        s = x;
        if w.len() > max + 200 {
            return w;
        }
    }
}

/// Bytes that matter to an automaton: those at the borders of its transition sets.
pub fn byte_pool(d: &Dfa) -> Vec<u8> {
    let mut v = vec![];
    for r in &d.next {
        for b in 1..255usize {
            let here = r[b];
            if (here != r[b - 1] || (b < 254 && here != r[b + 1])) && !v.contains(&(b as u8)) {
                v.push(b as u8);
            }
        }
    }
    v.sort_unstable();
    if v.is_empty() {
        v.push(b'a');
    }
    v
}

fn junk(t: &mut Tape, pool: &[u8], max: usize) -> Vec<u8> {
    let n = t.size(0, max);
    (0..n)
        .map(|_| {
            if t.chance(75) {
                *t.pick(pool)
            } else {
                t.size(1, 254) as u8
            }
        })
        .collect()
}

/// A message likely to be close to the language: matches, near misses, several matches, noise.
pub fn message(t: &mut Tape, d: &Dfa, pool: &[u8], maxlen: usize) -> Vec<u8> {
    let wmax = maxlen / 2;
    let w0 = word(t, d, wmax);
    let strip = |w: &[u8]| -> Vec<u8> { w.iter().copied().filter(|b| *b != SOT).collect() };
    let at_start = w0.first() == Some(&SOT);
    let mut w = strip(&w0);
    let mut m: Vec<u8>;
    match t.weighted(&[20, 14, 20, 10, 12, 8, 8, 8]) {
        0 => {
            m = if at_start && t.chance(70) { vec![] } else { junk(t, pool, 4) };
            m.extend(&w);
            let j = junk(t, pool, 4);
            m.extend(j);
        }
        1 => m = w,
        2 => {
            // mutate
            let k = t.size(1, 2);
            for _ in 0..k {
                if w.is_empty() {
                    break;
                }
                let i = t.below(w.len() as u64) as usize;
                match t.below(5) {
                    0 => {
                        w.remove(i);
                    }
                    1 => {
                        let b = *t.pick(pool);
                        w.insert(i, b);
                    }
                    2 => w[i] = *t.pick(pool),
                    3 => w[i] = if t.chance(50) { w[i].wrapping_add(1) } else { w[i].wrapping_sub(1) },
                    _ => w.truncate(i),
                }
            }
            m = if at_start || t.chance(50) { vec![] } else { junk(t, pool, 3) };
            m.extend(&w);
            let j = junk(t, pool, 3);
            m.extend(j);
        }
        3 => {
            let k = t.below(w.len() as u64 + 1) as usize;
            m = w[..k].to_vec();
            m.extend(&w);
        }
        4 => {
            m = w.clone();
            let j = junk(t, pool, 2);
            m.extend(j);
            let w2 = strip(&word(t, d, wmax));
            m.extend(w2);
            if t.chance(30) {
                let w3 = strip(&word(t, d, wmax));
                m.extend(w3);
            }
        }
        5 => m = junk(t, pool, maxlen),
        6 => {
            m = w.clone();
            let k = t.size(1, 2);
            for _ in 0..k {
                let i = t.below(m.len() as u64 + 1) as usize;
                m.insert(i, 0);
            }
            if t.chance(50) {
                m.extend(&w);
            }
        }
        _ => {
            m = junk(t, pool, 5);
            m.extend(&w);
        }
    }
    m.iter_mut().for_each(|b| {
        if *b == SOT {
            *b = 254
        }
    });
    m
}
