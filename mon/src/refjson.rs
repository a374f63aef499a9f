//! Independent reference reader for RFC 8259 texts: a pushdown automaton over chars that knows
//! nothing of the code under test. Produces the event sequence a document calls for and, for
//! documents that must be refused, the events of its valid beginning.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    U(u64),
    I(i64),
    /// Correctly rounded value of the literal (std's parser), possibly infinite.
    F(f64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub raw: String,
    pub class: Class,
    /// So close to the largest finite f64 that rounding decides whether it is representable.
    pub near_max: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Null,
    Bool(bool),
    Num(Num),
    Str(String),
    ArrOpen,
    ArrClose,
    ObjOpen,
    Key(String),
    ObjClose,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    /// A literal within rounding distance of the largest finite f64: both outcomes are right.
    Either,
}

pub struct Outcome {
    pub events: Vec<Ev>,
    pub verdict: Verdict,
    /// Byte position of the offending token and a word for it (empty when accepted).
    pub pos: usize,
    pub why: &'static str,
    pub depth: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Value,
    ArrFirst,
    ArrNext,
    ObjFirst,
    ObjKey,
    Colon,
    ObjNext,
    End,
}

struct Lex<'a> {
    s: &'a str,
    at: usize,
}

impl<'a> Lex<'a> {
    fn peek(&self) -> Option<char> {
        self.s[self.at..].chars().next()
    }
    fn take(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.at += c.len_utf8();
        Some(c)
    }
    fn ws(&mut self) {
        while let Some('\u{20}' | '\u{9}' | '\u{a}' | '\u{d}') = self.peek() {
            self.at += 1;
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if self.s[self.at..].starts_with(w) {
            self.at += w.len();
            true
        } else {
            false
        }
    }
    fn hex4(&mut self) -> Result<u32, &'static str> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.take().and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None });
            v = v * 16 + d.ok_or("bad hex digit")?;
        }
        Ok(v)
    }
    /// After the opening quote.
    fn string(&mut self) -> Result<String, &'static str> {
        let mut out = String::new();
        loop {
            match self.take().ok_or("unterminated string")? {
                '"' => return Ok(out),
                '\\' => match self.take().ok_or("unterminated escape")? {
                    '"' => out.push('"'),
                    '\\' => out.push('\\'),
                    '/' => out.push('/'),
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'n' => out.push('\u{a}'),
                    'r' => out.push('\u{d}'),
                    't' => out.push('\u{9}'),
                    'u' => {
                        let a = self.hex4()?;
                        if (0xDC00..0xE000).contains(&a) {
                            return Err("unpaired low surrogate");
                        }
                        let code = if (0xD800..0xDC00).contains(&a) {
                            if self.take() != Some('\\') || self.take() != Some('u') {
                                return Err("unpaired high surrogate");
                            }
                            let b = self.hex4()?;
                            if !(0xDC00..0xE000).contains(&b) {
                                return Err("unpaired high surrogate");
                            }
                            0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)
                        } else {
                            a
                        };
                        out.push(char::from_u32(code).ok_or("not a scalar")?);
                    }
                    _ => return Err("bad escape"),
                },
                c if (c as u32) < 0x20 => return Err("control character"),
                c => out.push(c),
            }
        }
    }
    /// Maximal number token at the current position. An invalid one is an error.
    fn number(&mut self) -> Result<Num, &'static str> {
        let from = self.at;
        let neg = self.word("-");
        let int_from = self.at;
        while matches!(self.peek(), Some('0'..='9')) {
            self.at += 1;
        }
        let int = &self.s[int_from..self.at];
        if int.is_empty() {
            return Err("no digit");
        }
        if int.len() > 1 && int.starts_with('0') {
            return Err("leading zero");
        }
        let mut integer = true;
        if self.word(".") {
            integer = false;
            let f = self.at;
            while matches!(self.peek(), Some('0'..='9')) {
                self.at += 1;
            }
            if self.at == f {
                return Err("no digit after the point");
            }
        }
        if let Some('e' | 'E') = self.peek() {
            integer = false;
            self.at += 1;
            if let Some('+' | '-') = self.peek() {
                self.at += 1;
            }
            let f = self.at;
            while matches!(self.peek(), Some('0'..='9')) {
                self.at += 1;
            }
            if self.at == f {
                return Err("no digit in the exponent");
            }
        }
        let raw = &self.s[from..self.at];
        Ok(classify(raw, neg, int, integer))
    }
}

fn classify(raw: &str, neg: bool, int: &str, integer: bool) -> Num {
    let mut class = None;
    if integer && int.len() <= 20 {
        let v: u128 = int.parse().unwrap();
        if !neg && v <= u128::from(u64::MAX) {
            class = Some(Class::U(v as u64));
        } else if neg && v <= 1 << 63 {
            class = Some(Class::I((-(v as i128)) as i64));
        }
    }
    let class = class.unwrap_or_else(|| Class::F(raw.parse::<f64>().unwrap()));
    let near_max = match class {
        Class::F(_) => near_max(raw),
        _ => false,
    };
    Num { raw: raw.to_owned(), class, near_max }
}

/// Whether |literal| lies within 1e-14 relative of f64::MAX = 1.7976931348623157e308.
fn near_max(raw: &str) -> bool {
    let s = raw.trim_start_matches('-');
    let (mant, exp) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], &s[i + 1..]),
        None => (s, "0"),
    };
    let exp: i64 = exp.parse::<i64>().map(|e| e.clamp(i64::MIN / 4, i64::MAX / 4)).unwrap_or(if exp.starts_with('-') { i64::MIN / 4 } else { i64::MAX / 4 });
    let (ip, fp) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..]),
        None => (mant, ""),
    };
    let digits = format!("{ip}{fp}");
    let lead = digits.len() - digits.trim_start_matches('0').len();
    let sig = &digits[lead..];
    if sig.is_empty() {
        return false;
    }
    // value = 0.sig * 10^point
    let point = ip.len() as i64 - lead as i64 + exp;
    if point != 309 {
        return false;
    }
    let head: String = sig.chars().chain(std::iter::repeat('0')).take(16).collect();
    let head: u64 = head.parse().unwrap();
    (1_797_693_134_862_310..=1_797_693_134_862_320).contains(&head)
}

pub fn parse(s: &str) -> Outcome {
    let mut lx = Lex { s, at: 0 };
    let mut events = Vec::new();
    let mut stack: Vec<bool> = Vec::new(); // true: object
    let mut st = St::Value;
    let mut either = false;
    let mut depth = 0;
    macro_rules! refuse {
        ($pos:expr, $why:expr) => {
            return Outcome {
                events,
                verdict: Verdict::Reject,
                pos: $pos,
                why: $why,
                depth,
            }
        };
    }
    loop {
        lx.ws();
        let pos = lx.at;
        let Some(c) = lx.peek() else {
            if st == St::End {
                return Outcome {
                    events,
                    verdict: if either { Verdict::Either } else { Verdict::Accept },
                    pos,
                    why: "",
                    depth,
                };
            }
            refuse!(pos, "unexpected end");
        };
        let after = |stack: &Vec<bool>| match stack.last() {
            None => St::End,
            Some(false) => St::ArrNext,
            Some(true) => St::ObjNext,
        };
        match (st, c) {
            (St::End, _) => refuse!(pos, "trailing data"),
            (St::ArrFirst | St::ArrNext, ']') => {
                lx.take();
                stack.pop();
                events.push(Ev::ArrClose);
                st = after(&stack);
            }
            (St::ObjFirst | St::ObjNext, '}') => {
                lx.take();
                stack.pop();
                events.push(Ev::ObjClose);
                st = after(&stack);
            }
            (St::ArrNext, ',') => {
                lx.take();
                st = St::Value;
            }
            (St::ObjNext, ',') => {
                lx.take();
                st = St::ObjKey;
            }
            (St::Colon, ':') => {
                lx.take();
                st = St::Value;
            }
            (St::ObjFirst | St::ObjKey, '"') => {
                lx.take();
                match lx.string() {
                    Ok(k) => events.push(Ev::Key(k)),
                    Err(e) => refuse!(pos, e),
                }
                st = St::Colon;
            }
            (St::Value | St::ArrFirst, _) => {
                match c {
                    '[' => {
                        lx.take();
                        stack.push(false);
                        depth = depth.max(stack.len());
                        events.push(Ev::ArrOpen);
                        st = St::ArrFirst;
                        continue;
                    }
                    '{' => {
                        lx.take();
                        stack.push(true);
                        depth = depth.max(stack.len());
                        events.push(Ev::ObjOpen);
                        st = St::ObjFirst;
                        continue;
                    }
                    '"' => {
                        lx.take();
                        match lx.string() {
                            Ok(s) => events.push(Ev::Str(s)),
                            Err(e) => refuse!(pos, e),
                        }
                    }
                    '-' | '0'..='9' => match lx.number() {
                        Ok(n) => {
                            either |= n.near_max;
                            if let Class::F(f) = n.class {
                                if f.is_infinite() && !n.near_max {
                                    refuse!(pos, "number too large");
                                }
                            }
                            events.push(Ev::Num(n));
                        }
                        Err(e) => refuse!(pos, e),
                    },
                    _ if lx.word("null") => events.push(Ev::Null),
                    _ if lx.word("true") => events.push(Ev::Bool(true)),
                    _ if lx.word("false") => events.push(Ev::Bool(false)),
                    _ => refuse!(pos, "not a value"),
                }
                st = after(&stack);
            }
            _ => refuse!(pos, "unexpected token"),
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// Document tree in an arena, root at index 0.
#[derive(Clone, Debug)]
pub enum Node {
    Null,
    Bool(bool),
    Num(Num),
    Str(String),
    Arr(Vec<usize>),
    /// All members in document order, repetitions included.
    Obj(Vec<(String, usize)>),
}

#[derive(Clone, Debug)]
pub struct Dom {
    pub nodes: Vec<Node>,
}

impl Dom {
    /// From the events of one complete value.
    pub fn build(events: &[Ev]) -> Dom {
        let mut nodes: Vec<Node> = Vec::new();
        let mut open: Vec<usize> = Vec::new();
        let mut keys: Vec<String> = Vec::new();
        for ev in events {
            let node = match ev {
                Ev::Key(k) => {
                    keys.push(k.clone());
                    continue;
                }
                Ev::ArrClose | Ev::ObjClose => {
                    open.pop();
                    continue;
                }
                Ev::Null => Node::Null,
                Ev::Bool(b) => Node::Bool(*b),
                Ev::Num(n) => Node::Num(n.clone()),
                Ev::Str(s) => Node::Str(s.clone()),
                Ev::ArrOpen => Node::Arr(Vec::new()),
                Ev::ObjOpen => Node::Obj(Vec::new()),
            };
            let id = nodes.len();
            nodes.push(node);
            if let Some(&p) = open.last() {
                match &mut nodes[p] {
                    Node::Arr(v) => v.push(id),
                    Node::Obj(v) => v.push((keys.pop().unwrap(), id)),
                    _ => unreachable!(),
                }
            }
            if matches!(ev, Ev::ArrOpen | Ev::ObjOpen) {
                open.push(id);
            }
        }
        Dom { nodes }
    }

    /// Canonical events: members sorted by key, the last of equal keys only.
    pub fn canon(&self) -> Vec<Ev> {
        self.canon_at(0)
    }

    pub fn canon_at(&self, root: usize) -> Vec<Ev> {
        enum Job<'a> {
            Node(usize),
            Key(&'a str),
            Close(bool),
        }
        let mut out = Vec::new();
        let mut jobs = vec![Job::Node(root)];
        while let Some(j) = jobs.pop() {
            match j {
                Job::Key(k) => out.push(Ev::Key(k.to_owned())),
                Job::Close(obj) => out.push(if obj { Ev::ObjClose } else { Ev::ArrClose }),
                Job::Node(i) => match &self.nodes[i] {
                    Node::Null => out.push(Ev::Null),
                    Node::Bool(b) => out.push(Ev::Bool(*b)),
                    Node::Num(n) => out.push(Ev::Num(n.clone())),
                    Node::Str(s) => out.push(Ev::Str(s.clone())),
                    Node::Arr(v) => {
                        out.push(Ev::ArrOpen);
                        jobs.push(Job::Close(false));
                        jobs.extend(v.iter().rev().map(|&c| Job::Node(c)));
                    }
                    Node::Obj(v) => {
                        out.push(Ev::ObjOpen);
                        jobs.push(Job::Close(true));
                        let mut m: BTreeMap<&str, usize> = BTreeMap::new();
                        for (k, c) in v {
                            m.insert(k, *c);
                        }
                        for (k, c) in m.into_iter().rev() {
                            jobs.push(Job::Node(c));
                            jobs.push(Job::Key(k));
                        }
                    }
                },
            }
        }
        out
    }
}

/// Distance in units in the last place, counting through zero.
pub fn ulps(a: f64, b: f64) -> u64 {
    fn key(f: f64) -> i128 {
        let b = f.to_bits();
        let m = i128::from(b & 0x7fff_ffff_ffff_ffff);
        if b >> 63 == 1 {
            -m
        } else {
            m
        }
    }
    if a.is_nan() || b.is_nan() {
        return u64::MAX;
    }
    u64::try_from((key(a) - key(b)).unsigned_abs()).unwrap_or(u64::MAX)
}

pub fn ulps32(a: f32, b: f32) -> u64 {
    fn key(f: f32) -> i64 {
        let b = f.to_bits();
        let m = i64::from(b & 0x7fff_ffff);
        if b >> 31 == 1 {
            -m
        } else {
            m
        }
    }
    if a.is_nan() || b.is_nan() {
        return u64::MAX;
    }
    (key(a) - key(b)).unsigned_abs()
}

pub const MAX_ULPS: u64 = 5;

/// Is `got` an acceptable f64 for a literal whose correctly rounded value is `exact`?
pub fn float_ok(exact: f64, near_max: bool, got: f64) -> bool {
    if !got.is_finite() {
        return false;
    }
    if near_max && exact.is_infinite() {
        return exact.is_sign_negative() == got.is_sign_negative() && got.abs() > 1.797_693_134_862e308;
    }
    if near_max {
        return ulps(exact, got) <= 64;
    }
    exact.is_sign_negative() == got.is_sign_negative() && ulps(exact, got) <= MAX_ULPS
}
