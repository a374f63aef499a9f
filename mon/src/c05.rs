//! C05: to_string yields one compact JSON text that denotes the value.

use crate::ctx::Ctx;
use crate::gen;
use crate::refjson::{self, Ev, Verdict};
use crate::rng::Rng;
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::ser::{Fragment, Map, Seq, Serialize};
use miniserde::Serialize as DeriveSerialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hasher};

/// What the text must denote, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Null,
    Bool(bool),
    Int(String),
    Float(f64),
    Str(String),
    Seq(Vec<X>),
    Map(Vec<(String, X)>),
}

pub type Dyn = Box<dyn Serialize>;

fn flatten(x: &X, out: &mut Vec<Flat>) {
    enum Job<'a> {
        X(&'a X),
        Key(&'a str),
        Close(bool),
    }
    let mut jobs = vec![Job::X(x)];
    while let Some(j) = jobs.pop() {
        match j {
            Job::Key(k) => out.push(Flat::Key(k.to_owned())),
            Job::Close(m) => out.push(Flat::Close(m)),
            Job::X(x) => match x {
                X::Null => out.push(Flat::Null),
                X::Bool(b) => out.push(Flat::Bool(*b)),
                X::Int(s) => out.push(Flat::Int(s.clone())),
                X::Float(f) => out.push(Flat::Float(*f)),
                X::Str(s) => out.push(Flat::Str(s.clone())),
                X::Seq(v) => {
                    out.push(Flat::Open(false));
                    jobs.push(Job::Close(false));
                    jobs.extend(v.iter().rev().map(Job::X));
                }
                X::Map(v) => {
                    out.push(Flat::Open(true));
                    jobs.push(Job::Close(true));
                    for (k, x) in v.iter().rev() {
                        jobs.push(Job::X(x));
                        jobs.push(Job::Key(k));
                    }
                }
            },
        }
    }
}

#[derive(Debug)]
enum Flat {
    Null,
    Bool(bool),
    Int(String),
    Float(f64),
    Str(String),
    Key(String),
    Open(bool),
    Close(bool),
}

/// Judge one text against what it must denote.
pub fn judge(cx: &mut Ctx, text: &str, want: &X) {
    if std::str::from_utf8(text.as_bytes()).is_err() {
        return cx.violation("output is not UTF-8", String::new());
    }
    let out = refjson::parse(text);
    if out.verdict == Verdict::Reject {
        return cx.violation("output is not a JSON text", format!("{} at {}: {}", out.why, out.pos, crate::ctx::show(text)));
    }
    // whitespace outside strings
    let (mut inside, mut esc) = (false, false);
    for b in text.bytes() {
        if inside {
            if esc {
                esc = false;
            } else if b == b'\\' {
                esc = true;
            } else if b == b'"' {
                inside = false;
            }
        } else if b == b'"' {
            inside = true;
        } else if matches!(b, b' ' | b'\n' | b'\t' | b'\r') {
            return cx.violation("output is not compact", crate::ctx::show(text));
        }
    }
    let mut flat = Vec::new();
    flatten(want, &mut flat);
    for i in 0..flat.len().max(out.events.len()) {
        let ok = match (flat.get(i), out.events.get(i)) {
            (Some(Flat::Null), Some(Ev::Null)) => true,
            (Some(Flat::Bool(a)), Some(Ev::Bool(b))) => a == b,
            (Some(Flat::Int(a)), Some(Ev::Num(n))) => *a == n.raw,
            (Some(Flat::Float(a)), Some(Ev::Num(n))) => {
                n.raw.contains(['.', 'e', 'E']) && n.raw.parse::<f64>().map(f64::to_bits) == Ok(a.to_bits())
            }
            (Some(Flat::Float(a)), Some(Ev::Null)) => !a.is_finite(),
            (Some(Flat::Str(a)), Some(Ev::Str(b))) | (Some(Flat::Key(a)), Some(Ev::Key(b))) => a == b,
            (Some(Flat::Open(false)), Some(Ev::ArrOpen)) | (Some(Flat::Open(true)), Some(Ev::ObjOpen)) => true,
            (Some(Flat::Close(false)), Some(Ev::ArrClose)) | (Some(Flat::Close(true)), Some(Ev::ObjClose)) => true,
            _ => false,
        };
        if !ok {
            return cx.violation(
                "output denotes something else",
                format!("item {i}: value holds {:?}, text says {:?}; text {}", flat.get(i), out.events.get(i), crate::ctx::show(text)),
            );
        }
    }
    cx.seen("items compared", flat.len() as u64);
}

pub fn emit(cx: &mut Ctx, v: &dyn Serialize, want: &X) {
    cx.heap_cap(1 << 16);
    if let Some(s) = cx.call(|| json::to_string(v)) {
        judge(cx, &s, want);
    }
}

// ---- generated values ------------------------------------------------------------------------

/// A hasher whose iteration order differs from the usual one.
#[derive(Clone, Copy)]
pub struct Odd(pub u64);
pub struct OddHasher(u64);
impl BuildHasher for Odd {
    type Hasher = OddHasher;
    fn build_hasher(&self) -> OddHasher {
        OddHasher(self.0)
    }
}
impl Hasher for OddHasher {
    fn finish(&self) -> u64 {
        crate::rng::mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(0x100_0000_01b3) ^ u64::from(*x);
        }
    }
}

#[derive(DeriveSerialize)]
struct Pair<A, B> {
    first: A,
    #[serde(rename = "the \"second\"\n")]
    second: B,
}

#[derive(DeriveSerialize)]
struct Empty {}

#[derive(DeriveSerialize)]
struct Wide<'a, T: ?Sized> {
    z: i8,
    a: &'a T,
    r#type: bool,
    b: Option<&'a T>,
    ünï: (),
}

#[derive(DeriveSerialize, Clone, Copy)]
enum Unit {
    A,
    #[serde(rename = "b\\\u{1}")]
    B,
    LongName,
}

/// Hand-written: entries of any keys, repeated ones included; keys owned or borrowed; values
/// computed by next() and lent from the stream itself.
struct Custom {
    entries: Vec<(String, Dyn)>,
    owned: bool,
}

struct CustomStream<'a> {
    of: &'a Custom,
    i: usize,
    lent: Option<&'a dyn Serialize>,
}

impl Serialize for Custom {
    fn begin(&self) -> Fragment {
        Fragment::Map(Box::new(CustomStream { of: self, i: 0, lent: None }))
    }
}

impl Map for CustomStream<'_> {
    fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
        let (k, v) = self.of.entries.get(self.i)?;
        self.i += 1;
        self.lent = Some(&**v);
        let k = if self.of.owned { Cow::Owned(k.clone()) } else { Cow::Borrowed(k.as_str()) };
        Some((k, self.lent.as_ref().unwrap()))
    }
}

struct Counter {
    upto: u64,
}
struct CounterStream {
    now: u64,
    upto: u64,
    text: String,
}
impl Serialize for Counter {
    fn begin(&self) -> Fragment {
        Fragment::Seq(Box::new(CounterStream { now: 0, upto: self.upto, text: String::new() }))
    }
}
impl Seq for CounterStream {
    fn next(&mut self) -> Option<&dyn Serialize> {
        if self.now == self.upto {
            return None;
        }
        self.now += 1;
        self.text = format!("#{}", self.now);
        Some(&self.text)
    }
}

struct Raw(fn(&Raw) -> Fragment<'static>);
impl Serialize for Raw {
    fn begin(&self) -> Fragment {
        self.0(self)
    }
}

struct OwnedStr(String);
impl Serialize for OwnedStr {
    fn begin(&self) -> Fragment {
        Fragment::Str(Cow::Owned(self.0.clone()))
    }
}

/// `Cow<T>` where T is serializable but Cow is borrowed from a leaked-free owner.
struct Borrowing<T: Serialize + Clone>(T);
impl<T: Serialize + Clone> Serialize for Borrowing<T> {
    fn begin(&self) -> Fragment {
        Serialize::begin(&self.0)
    }
}

fn finite_or_any(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => f64::from_bits(r.u64()),
        1 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, 1e21, 1e22, -1e-5, 1e-6, 1e-7, 123456789.0, 5e-324, f64::MAX, f64::MIN_POSITIVE]),
        2 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        3 => r.below(100_000) as f64,
        4 => r.below(100_000) as f64 / 128.0,
        5 => (r.u64() >> r.below(64)) as f64,
        6 => -(10f64.powi(r.below(640) as i32 - 320)),
        7 => f64::from(f32::from_bits(r.u64() as u32)),
        _ => r.u64() as i64 as f64 / 1e6,
    }
}

fn int(r: &mut Rng) -> (Dyn, X) {
    let v = gen::gen_int(r);
    macro_rules! pick {
        ($($n:literal $t:ty),*) => {
            match r.below(10) {
                $($n => { let x = v as $t; (Box::new(x) as Dyn, X::Int(x.to_string())) })*
                _ => unreachable!(),
            }
        };
    }
    pick!(0 i8, 1 i16, 2 i32, 3 i64, 4 isize, 5 u8, 6 u16, 7 u32, 8 u64, 9 usize)
}

fn float(f: f64) -> X {
    if f.is_finite() {
        X::Float(f)
    } else {
        X::Null
    }
}

pub fn number(r: &mut Rng) -> (Number, X) {
    match r.below(3) {
        0 => {
            let n = r.u64() >> r.below(64);
            (Number::U64(n), X::Int(n.to_string()))
        }
        1 => {
            let n = (r.u64() as i64) >> r.below(64);
            (Number::I64(n), X::Int(n.to_string()))
        }
        _ => {
            let f = finite_or_any(r);
            (Number::F64(f), float(f))
        }
    }
}

pub fn gen_json(r: &mut Rng, depth: usize) -> (Value, X) {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => (Value::Null, X::Null),
        1 => {
            let b = r.bool();
            (Value::Bool(b), X::Bool(b))
        }
        2 | 3 => {
            let (n, x) = number(r);
            (Value::Number(n), x)
        }
        4 => {
            let t = gen::gen_text(r, 30);
            (Value::String(t.clone()), X::Str(t))
        }
        5 | 6 => {
            let n = r.size(9);
            let (v, x): (Array, Vec<X>) = {
                let all: Vec<(Value, X)> = (0..n).map(|_| gen_json(r, depth - 1)).collect();
                let mut a = Array::new();
                let mut xs = Vec::new();
                for (v, x) in all {
                    a.push(v);
                    xs.push(x);
                }
                (a, xs)
            };
            (Value::Array(v), X::Seq(x))
        }
        _ => {
            let n = r.size(9);
            let mut o = Object::new();
            let mut xs = BTreeMap::new();
            for _ in 0..n {
                let k = gen::gen_text(r, 10);
                let (v, x) = gen_json(r, depth - 1);
                o.insert(k.clone(), v);
                xs.insert(k, x);
            }
            (Value::Object(o), X::Map(xs.into_iter().collect()))
        }
    }
}

/// A random value of a random (composed) type, and what its text must denote.
pub fn gen_dyn(r: &mut Rng, depth: usize) -> (Dyn, X) {
    if depth == 0 || r.chance(1, 4) {
        return match r.below(13) {
            0 => (Box::new(()), X::Null),
            1 => {
                let b = r.bool();
                (Box::new(b), X::Bool(b))
            }
            2 | 3 => int(r),
            4 => {
                let f = finite_or_any(r);
                (Box::new(f), float(f))
            }
            5 => {
                let f = finite_or_any(r) as f32;
                (Box::new(f), float(f64::from(f)))
            }
            6 => {
                let t = gen::gen_text(r, 200);
                (Box::new(t.clone()), X::Str(t))
            }
            7 => {
                let t = gen::gen_text(r, 30);
                (Box::new(OwnedStr(t.clone())), X::Str(t))
            }
            8 => {
                let t = gen::gen_text(r, 30);
                let c: Cow<'static, str> = Cow::Owned(t.clone());
                (Box::new(c), X::Str(t))
            }
            9 => {
                let t = gen::gen_text(r, 30);
                (Box::new(t.clone().into_boxed_str()), X::Str(t))
            }
            10 => (Box::new(None::<u8>), X::Null),
            11 => {
                let (n, x) = number(r);
                (Box::new(n), x)
            }
            _ => match r.below(4) {
                0 => (Box::new(Unit::A), X::Str("A".into())),
                1 => (Box::new(Unit::B), X::Str("b\\\u{1}".into())),
                2 => (Box::new(Some(Unit::LongName)), X::Str("LongName".into())),
                _ => (Box::new(Raw(|_| Fragment::Null)), X::Null),
            },
        };
    }
    let d = depth - 1;
    let many = |r: &mut Rng, n: usize| -> (Vec<Dyn>, Vec<X>) { (0..n).map(|_| gen_dyn(r, d)).unzip() };
    match r.below(22) {
        0 | 1 => {
            let n = r.size(20);
            let (v, x) = many(r, n);
            (Box::new(v), X::Seq(x))
        }
        2 => {
            let n = r.size(6);
            let (v, x) = many(r, n);
            (Box::new(v.into_boxed_slice()), X::Seq(x))
        }
        3 => {
            let (mut v, x) = many(r, 2);
            let b = v.pop().unwrap();
            let a = v.pop().unwrap();
            (Box::new((a, b)), X::Seq(x))
        }
        4 => {
            let (v, x) = many(r, 3);
            let a: [Dyn; 3] = v.try_into().ok().unwrap();
            (Box::new(a), X::Seq(x))
        }
        5 => (Box::new([0u8; 0]), X::Seq(vec![])),
        6 => {
            let (v, x) = gen_dyn(r, d);
            (Box::new(Some(v)), x)
        }
        7 => {
            let (v, x) = gen_dyn(r, d);
            (Box::new(Box::new(Box::new(v))), x)
        }
        8 | 9 => {
            // HashMap: in the map's own iteration order
            let n = r.size(30);
            let mut m: HashMap<String, Dyn, Odd> = HashMap::with_hasher(Odd(r.u64()));
            let mut xs: HashMap<String, X> = HashMap::new();
            for _ in 0..n {
                let k = gen::gen_text(r, 12);
                let (v, x) = gen_dyn(r, d);
                m.insert(k.clone(), v);
                xs.insert(k, x);
            }
            let x = m.keys().map(|k| (k.clone(), xs[k].clone())).collect();
            (Box::new(m), X::Map(x))
        }
        10 => {
            let mut m: HashMap<i32, Dyn> = HashMap::new();
            let mut xs: HashMap<i32, X> = HashMap::new();
            for _ in 0..r.size(10) {
                let k = gen::gen_int(r) as i32;
                let (v, x) = gen_dyn(r, d);
                m.insert(k, v);
                xs.insert(k, x);
            }
            let x = m.keys().map(|k| (k.to_string(), xs[k].clone())).collect();
            (Box::new(m), X::Map(x))
        }
        11 => {
            let mut m: BTreeMap<char, Dyn> = BTreeMap::new();
            let mut xs: BTreeMap<char, X> = BTreeMap::new();
            for _ in 0..r.size(10) {
                let k = gen::gen_char(r);
                let (v, x) = gen_dyn(r, d);
                m.insert(k, v);
                xs.insert(k, x);
            }
            (Box::new(m), X::Map(xs.into_iter().map(|(k, x)| (k.to_string(), x)).collect()))
        }
        12 | 13 => {
            let mut m: BTreeMap<String, Dyn> = BTreeMap::new();
            let mut xs: BTreeMap<String, X> = BTreeMap::new();
            for _ in 0..r.size(30) {
                let k = gen::gen_text(r, 12);
                let (v, x) = gen_dyn(r, d);
                m.insert(k.clone(), v);
                xs.insert(k, x);
            }
            (Box::new(m), X::Map(xs.into_iter().collect()))
        }
        14 => {
            let mut m: BTreeMap<(bool, u8), ()> = BTreeMap::new();
            m.insert((r.bool(), 1), ());
            let m: BTreeMap<bool, Dyn> = m.into_keys().map(|k| (k.0, gen_dyn(r, 0).0)).take(0).collect();
            (Box::new(m), X::Map(vec![]))
        }
        15 => {
            let (a, x) = gen_dyn(r, d);
            let (b, y) = gen_dyn(r, d);
            (
                Box::new(Pair { first: a, second: b }),
                X::Map(vec![("first".into(), x), ("the \"second\"\n".into(), y)]),
            )
        }
        16 => (Box::new(Empty {}), X::Map(vec![])),
        17 => {
            // a borrowing struct, written while its owner is alive
            let (a, x) = gen_dyn(r, d);
            struct Own(Dyn, i8);
            impl Serialize for Own {
                fn begin(&self) -> Fragment {
                    Fragment::Seq(Box::new(OwnStream { of: self, wide: None }))
                }
            }
            struct OwnStream<'a> {
                of: &'a Own,
                wide: Option<Wide<'a, dyn Serialize>>,
            }
            impl Seq for OwnStream<'_> {
                fn next(&mut self) -> Option<&dyn Serialize> {
                    if self.wide.is_some() {
                        return None;
                    }
                    let t: &dyn Serialize = &*self.of.0;
                    self.wide = Some(Wide { z: self.of.1, a: t, r#type: true, b: Some(t), ünï: () });
                    Some(self.wide.as_ref().unwrap())
                }
            }
            let z = r.u64() as i8;
            let w = X::Map(vec![
                ("z".into(), X::Int(z.to_string())),
                ("a".into(), x.clone()),
                ("type".into(), X::Bool(true)),
                ("b".into(), x),
                ("ünï".into(), X::Null),
            ]);
            (Box::new(Own(a, z)), X::Seq(vec![w]))
        }
        18 | 19 => {
            let mut entries = Vec::new();
            let mut xs = Vec::new();
            for i in 0..r.size(8) {
                let k = if i > 0 && r.chance(1, 4) { String::from("dup") } else { gen::gen_text(r, 8) };
                let (v, x) = gen_dyn(r, d);
                entries.push((k.clone(), v));
                xs.push((k, x));
            }
            (Box::new(Custom { entries, owned: r.bool() }), X::Map(xs))
        }
        20 => {
            let n = r.size(40) as u64;
            (Box::new(Counter { upto: n }), X::Seq((1..=n).map(|i| X::Str(format!("#{i}"))).collect()))
        }
        _ => {
            let (v, x) = gen_json(r, d.min(3));
            match r.below(4) {
                0 => match v {
                    Value::Array(a) => (Box::new(a), x),
                    Value::Object(o) => (Box::new(o), x),
                    v => (Box::new(Borrowing(v)), x),
                },
                1 => {
                    let c: Cow<'static, Value2> = Cow::Owned(Value2(v));
                    (Box::new(c), x)
                }
                _ => (Box::new(v), x),
            }
        }
    }
}

#[derive(Clone)]
struct Value2(Value);
impl Serialize for Value2 {
    fn begin(&self) -> Fragment {
        Serialize::begin(&self.0)
    }
}

fn enumerate(cx: &mut Ctx) {
    // every scalar value, alone, doubled and between escapes; as text and as key
    for c in (0..0x11_0000u32).step_by(cx.n(30_000, 1, 1)) {
        let Some(ch) = char::from_u32(c) else { continue };
        if !cx.mine(c as usize / 64) {
            continue;
        }
        let s = ch.to_string();
        cx.enumerated("scalar", &s);
        if c < 0x3000 || c % 8 == 0 {
            let t = format!("{ch}{ch}\n{ch}é\"{ch}");
            let mut m = BTreeMap::new();
            m.insert(t.clone(), s.clone());
            emit(cx, &m, &X::Map(vec![(t, X::Str(s))]));
        } else {
            emit(cx, &s.as_str(), &X::Str(s.clone()));
        }
        if cx.stop() {
            return;
        }
    }
    // all pairs of ASCII characters; all triples of interesting ones
    for a in 0..128u8 {
        if !cx.mine(a as usize) || cx.tier == crate::ctx::Tier::Mini && a % 40 != 0 {
            continue;
        }
        for b in 0..128u8 {
            let s = String::from_utf8(vec![a, b]).unwrap();
            cx.enumerated("pair", &s);
            emit(cx, &s, &X::Str(s.clone()));
        }
    }
    let some: Vec<char> = "\u{0}\u{8}\t\n\u{b}\u{c}\r\u{1f} \"/\\a\u{7f}\u{80}é\u{2028}\u{ffff}😀".chars().collect();
    for (i, a) in some.iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        for b in &some {
            for c in &some {
                let s: String = [*a, *b, *c].into_iter().collect();
                cx.enumerated("triple", &s);
                emit(cx, &s, &X::Str(s.clone()));
            }
        }
    }
    // a special character at every offset of every length
    let n = cx.n(4, 72, 150);
    let mut index = 0;
    for len in 0..n {
        for at in 0..=len {
            index += 1;
            if !cx.mine(index) {
                continue;
            }
            for c in ["\"", "\\", "\n", "\u{1}", "\u{1f}", "é", "\u{7f}"] {
                let s = format!("{}{c}{}", "a".repeat(at), "b".repeat(len - at));
                cx.enumerated("offset", &s);
                emit(cx, &s, &X::Str(s.clone()));
            }
        }
    }
    // 8- and 16-bit integers, and every type around its limits
    macro_rules! all {
        ($($t:ty)*) => { $(
            for v in <$t>::MIN..=<$t>::MAX {
                let Ok(i) = usize::try_from(i64::from(v) + 40_000) else { continue };
                if cx.mine(i / 64) && (cx.tier != crate::ctx::Tier::Mini || i % 7000 == 0) {
                    let s = v.to_string();
                    cx.enumerated(concat!("every ", stringify!($t)), &s);
                    emit(cx, &v, &X::Int(s));
                }
            }
        )* };
    }
    all!(i8 u8 i16 u16);
    for p in 0..64 {
        for d in -3i128..=3 {
            for base in [1i128 << p, 10i128.pow(p as u32 % 19), -(1i128 << p), -(10i128.pow(p as u32 % 19))] {
                let v = base + d;
                if !cx.mine(p) {
                    continue;
                }
                cx.enumerated("integer near an edge", &v.to_string());
                macro_rules! each {
                    ($($t:ty)*) => { $( if let Ok(x) = <$t>::try_from(v) { emit(cx, &x, &X::Int(v.to_string())); } )* };
                }
                each!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
                if let Ok(x) = u64::try_from(v) {
                    emit(cx, &Number::U64(x), &X::Int(v.to_string()));
                }
                if let Ok(x) = i64::try_from(v) {
                    emit(cx, &Value::Number(Number::I64(x)), &X::Int(v.to_string()));
                }
            }
        }
    }
    // floats: every exponent with several mantissas, both widths
    for e in 0..2048u64 {
        if !cx.mine(e as usize) || cx.tier == crate::ctx::Tier::Mini && e % 500 != 47 {
            continue;
        }
        for m in [0, 1, 2, 3, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0xf_ffff_ffff_fffe, cx.rng.u64() >> 12, cx.rng.u64() >> 40] {
            for s in [0, 1u64 << 63] {
                let f = f64::from_bits(s | e << 52 | m);
                cx.enumerated("f64", &format!("{:016x}", f.to_bits()));
                emit(cx, &f, &float(f));
                emit(cx, &Number::F64(f), &float(f));
            }
        }
        if e < 256 {
            for m in [0u32, 1, 0x40_0000, 0x7f_ffff, cx.rng.u64() as u32 >> 9] {
                let f = f32::from_bits((e as u32) << 23 | m);
                cx.enumerated("f32", &format!("{:08x}", f.to_bits()));
                emit(cx, &f, &float(f64::from(f)));
                emit(cx, &-f, &float(f64::from(-f)));
            }
        }
    }
    // long texts
    let (shard, nshards, mini) = (cx.shard, cx.nshards, cx.tier == crate::ctx::Tier::Mini);
    let top = cx.n(4, 15, 20) as u32;
    gen::long_texts(top, |i| i % nshards == shard && (!mini || i % 101 == 0), |t| {
        cx.enumerated("long text", t);
        emit(cx, &t, &X::Str(t.to_owned()));
        let m = BTreeMap::from([(t, t)]);
        emit(cx, &m, &X::Map(vec![(t.to_owned(), X::Str(t.to_owned()))]));
    });
    // sizes of sequences, maps and strings
    let mut sizes: Vec<usize> = (0..cx.n(5, 66, 130)).collect();
    for p in 7..cx.n(8, 16, 20) {
        sizes.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    for (i, n) in sizes.into_iter().enumerate() {
        if !cx.mine(i) || cx.done() {
            continue;
        }
        cx.enumerated("size", &format!("{n} items"));
        let v: Vec<u64> = (0..n as u64).map(|i| i * 0x9e37_79b9).collect();
        emit(cx, &v, &X::Seq(v.iter().map(|i| X::Int(i.to_string())).collect()));
        let m: BTreeMap<u64, bool> = v.iter().map(|i| (*i, i % 2 == 0)).collect();
        emit(cx, &m, &X::Map(m.iter().map(|(k, b)| (k.to_string(), X::Bool(*b))).collect()));
        let s: String = (0..n).map(|i| if i % 5 == 4 { '\u{3}' } else { 'x' }).collect();
        emit(cx, &s, &X::Str(s.clone()));
        // nested to this depth
        let mut v = Value::Null;
        let mut x = X::Null;
        for k in 0..n.min(4096) {
            if k % 3 == 0 {
                let mut o = Object::new();
                o.insert("k".into(), v);
                v = Value::Object(o);
                x = X::Map(vec![("k".into(), x)]);
            } else {
                let mut a = Array::new();
                a.push(v);
                v = Value::Array(a);
                x = X::Seq(vec![x]);
            }
        }
        emit(cx, &v, &x);
    }
}

pub fn run(cx: &mut Ctx) {
    enumerate(cx);
    let rounds = cx.share(150, 6_000_000, 30_000_000);
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        let seed = cx.rng.u64();
        let mut r = Rng::new(seed);
        let d = r.range(0, 5);
        let (v, x) = gen_dyn(&mut r, d);
        cx.case("random typed value", &format!("{:?}", x).chars().take(4000).collect::<String>());
        emit(cx, &v, &x);
    }
}
