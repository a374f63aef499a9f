//! Types with a model: a schema (what documents fit), a dump (what a value holds), a generator.

use crate::gen;
use crate::refjson::{float_ok, ulps, Class, Dom, Ev, Node, Num};
use crate::rng::Rng;
use crate::value::{self, Got};
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::hash::{BuildHasher, Hash};
use std::str::FromStr;

#[derive(Clone)]
pub enum Schema {
    Unit,
    Bool,
    Int(i128, i128),
    F32,
    F64,
    Str,
    Opt(Box<Schema>),
    Seq(Box<Schema>),
    Arr(Box<Schema>, usize),
    Pair(Box<Schema>, Box<Schema>),
    /// Key parser to a canonical form, sample keys, value.
    Map(fn(&str) -> Option<String>, fn(&mut Rng) -> String, Box<Schema>),
    Struct(Vec<(&'static str, Schema)>),
    Enum(Vec<&'static str>),
    Json,
    JsonArr,
    JsonObj,
    JsonNum,
    Lazy(fn() -> Schema),
    /// The same documents, but a member of this type may not be left out.
    Pinned(Box<Schema>),
}

/// What a value holds (or what a document says it must hold).
#[derive(Clone, Debug)]
pub enum M {
    Unit,
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Str(String),
    None,
    Some(Box<M>),
    Seq(Vec<M>),
    Map(BTreeMap<String, M>),
    Struct(Vec<M>),
    Variant(usize),
    Json(Vec<Got>),
    // only on the document's side
    Lit32(Num),
    Lit64(Num),
    JsonDoc(Vec<Ev>),
}

pub enum Fit {
    Yes(M),
    No(&'static str),
    /// Either outcome is right.
    Free,
}

pub fn fit(s: &Schema, dom: &Dom, at: usize) -> Fit {
    let node = &dom.nodes[at];
    macro_rules! sub {
        ($s:expr, $at:expr) => {
            match fit($s, dom, $at) {
                Fit::Yes(m) => m,
                other => return other,
            }
        };
    }
    match (s, node) {
        (Schema::Lazy(f), _) => fit(&f(), dom, at),
        (Schema::Pinned(s), _) => fit(s, dom, at),
        (Schema::Opt(_), Node::Null) => Fit::Yes(M::None),
        (Schema::Opt(s), _) => Fit::Yes(M::Some(Box::new(sub!(s, at)))),
        (Schema::Unit, Node::Null) => Fit::Yes(M::Unit),
        (Schema::Bool, Node::Bool(b)) => Fit::Yes(M::Bool(*b)),
        (Schema::Int(lo, hi), Node::Num(n)) => match n.class {
            Class::I(0) if *lo == 0 => Fit::Free,
            Class::U(v) if i128::from(v) <= *hi => Fit::Yes(M::Int(v.into())),
            Class::I(v) if i128::from(v) >= *lo => Fit::Yes(M::Int(v.into())),
            Class::F(_) => Fit::No("float for an integer"),
            _ => Fit::No("integer out of range"),
        },
        (Schema::F32, Node::Num(n)) => Fit::Yes(M::Lit32(n.clone())),
        (Schema::F64, Node::Num(n)) => Fit::Yes(M::Lit64(n.clone())),
        (Schema::Str, Node::Str(t)) => Fit::Yes(M::Str(t.clone())),
        (Schema::Seq(s), Node::Arr(v)) => {
            let mut out = Vec::new();
            for c in v {
                out.push(sub!(s, *c));
            }
            Fit::Yes(M::Seq(out))
        }
        (Schema::Arr(s, n), Node::Arr(v)) => {
            if v.len() != *n {
                return Fit::No("wrong number of elements");
            }
            let mut out = Vec::new();
            for c in v {
                out.push(sub!(s, *c));
            }
            Fit::Yes(M::Seq(out))
        }
        (Schema::Pair(a, b), Node::Arr(v)) => {
            if v.len() != 2 {
                return Fit::No("wrong number of elements");
            }
            let x = sub!(a, v[0]);
            let y = sub!(b, v[1]);
            Fit::Yes(M::Seq(vec![x, y]))
        }
        (Schema::Map(key, _, s), Node::Obj(ms)) => {
            let mut out = BTreeMap::new();
            for (k, c) in ms {
                let Some(k) = key(k) else { return Fit::No("bad key") };
                out.insert(k, sub!(s, *c));
            }
            Fit::Yes(M::Map(out))
        }
        (Schema::Struct(fields), Node::Obj(ms)) => {
            let mut got: Vec<Option<M>> = fields
                .iter()
                .map(|f| if is_opt(&f.1) { Some(M::None) } else { None })
                .collect();
            for (k, c) in ms {
                // the first field of that name
                if let Some(i) = fields.iter().position(|f| f.0 == k) {
                    got[i] = Some(sub!(&fields[i].1, *c));
                }
            }
            let mut out = Vec::new();
            for g in got {
                match g {
                    Some(m) => out.push(m),
                    None => return Fit::No("missing member"),
                }
            }
            Fit::Yes(M::Struct(out))
        }
        (Schema::Enum(names), Node::Str(t)) => match names.iter().position(|n| n == t) {
            Some(i) => Fit::Yes(M::Variant(i)),
            None => Fit::No("unknown variant"),
        },
        (Schema::Json, _) | (Schema::JsonArr, Node::Arr(_)) | (Schema::JsonObj, Node::Obj(_)) | (Schema::JsonNum, Node::Num(_)) => {
            Fit::Yes(M::JsonDoc(subtree(dom, at)))
        }
        _ => Fit::No("kind of value"),
    }
}

fn is_opt(s: &Schema) -> bool {
    match s {
        Schema::Opt(_) => true,
        Schema::Lazy(f) => is_opt(&f()),
        _ => false,
    }
}

fn subtree(dom: &Dom, at: usize) -> Vec<Ev> {
    dom.canon_at(at)
}

/// Does the value hold what is wanted?
pub fn same(want: &M, got: &M) -> bool {
    match (want, got) {
        (M::Unit, M::Unit) | (M::None, M::None) => true,
        (M::Bool(a), M::Bool(b)) => a == b,
        (M::Int(a), M::Int(b)) => a == b,
        (M::F32(a), M::F32(b)) => a.to_bits() == b.to_bits(),
        (M::F64(a), M::F64(b)) => ulps(*a, *b) <= 5,
        (M::Lit64(n), M::F64(b)) => match n.class {
            Class::U(a) => (a as f64).to_bits() == b.to_bits(),
            Class::I(a) => (a as f64).to_bits() == b.to_bits(),
            Class::F(a) => float_ok(a, n.near_max, *b),
        },
        (M::Lit32(n), M::F32(b)) => match n.class {
            Class::U(a) => (a as f32).to_bits() == b.to_bits(),
            Class::I(a) => (a as f32).to_bits() == b.to_bits(),
            // off by at most one f32: the f64 in between may be a few ulps off
            Class::F(a) => crate::refjson::ulps32(a as f32, *b) <= 1,
        },
        (M::Str(a), M::Str(b)) => a == b,
        (M::Some(a), M::Some(b)) => same(a, b),
        (M::Seq(a), M::Seq(b)) | (M::Struct(a), M::Struct(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (M::Map(a), M::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y)),
        (M::Variant(a), M::Variant(b)) => a == b,
        (M::JsonDoc(w), M::Json(g)) => value::differ(w, g).is_none(),
        (M::Json(a), M::Json(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| match (a, b) {
                    (value::Got::F(a), value::Got::F(b)) => ulps(*a, *b) <= 5,
                    (a, b) => a == b,
                })
        }
        _ => false,
    }
}

pub trait Modeled: Deserialize + Serialize + Sized + 'static {
    fn schema() -> Schema;
    fn dump(&self) -> M;
    /// `d` bounds the nesting.
    fn gen(r: &mut Rng, d: usize) -> Self;
    /// Written as null (so that an Option of it cannot tell Some from None).
    fn nullish(&self) -> bool {
        false
    }
}

impl Modeled for () {
    fn schema() -> Schema {
        Schema::Unit
    }
    fn dump(&self) -> M {
        M::Unit
    }
    fn gen(_: &mut Rng, _: usize) {}
    fn nullish(&self) -> bool {
        true
    }
}

impl Modeled for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn dump(&self) -> M {
        M::Bool(*self)
    }
    fn gen(r: &mut Rng, _: usize) -> bool {
        r.bool()
    }
}

impl Modeled for String {
    fn schema() -> Schema {
        Schema::Str
    }
    fn dump(&self) -> M {
        M::Str(self.clone())
    }
    fn gen(r: &mut Rng, _: usize) -> String {
        gen::gen_text(r, 60)
    }
}

macro_rules! ints {
    ($($t:ty)*) => { $(
        impl Modeled for $t {
            fn schema() -> Schema {
                Schema::Int(<$t>::MIN as i128, <$t>::MAX as i128)
            }
            fn dump(&self) -> M {
                M::Int(*self as i128)
            }
            fn gen(r: &mut Rng, _: usize) -> $t {
                match r.below(8) {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    2 => r.u64() as $t,
                    _ => gen::gen_int(r) as $t,
                }
            }
        }
    )* };
}
ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);

impl Modeled for f64 {
    fn schema() -> Schema {
        Schema::F64
    }
    fn dump(&self) -> M {
        M::F64(*self)
    }
    fn gen(r: &mut Rng, _: usize) -> f64 {
        loop {
            let f = match r.below(6) {
                0 => f64::from_bits(r.u64()),
                1 => *r.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e23, 1e22, 0.1, 1e16, 1e-7]),
                2 => (r.u64() >> r.below(64)) as f64,
                3 => r.below(1 << 20) as f64 / 1024.0,
                4 => f64::from(f32::from_bits(r.u64() as u32)),
                _ => format!("{}e{}", r.u64() as i64, r.below(600) as i32 - 300).parse().unwrap(),
            };
            if f.is_finite() {
                return f;
            }
        }
    }
}

impl Modeled for f32 {
    fn schema() -> Schema {
        Schema::F32
    }
    fn dump(&self) -> M {
        M::F32(*self)
    }
    fn gen(r: &mut Rng, _: usize) -> f32 {
        loop {
            let f = match r.below(4) {
                0..=1 => f32::from_bits(r.u64() as u32),
                2 => *r.pick(&[0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 16777217.0, 0.1, 3.4e38]),
                _ => r.below(1 << 26) as f32,
            };
            if f.is_finite() {
                return f;
            }
        }
    }
}

impl<T: Modeled> Modeled for Option<T> {
    fn schema() -> Schema {
        Schema::Opt(Box::new(Schema::Lazy(T::schema)))
    }
    fn dump(&self) -> M {
        match self {
            None => M::None,
            Some(t) => M::Some(Box::new(t.dump())),
        }
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        if d == 0 || r.chance(1, 3) {
            None
        } else {
            Some(T::gen(r, d - 1)).filter(|t| !t.nullish())
        }
    }
    fn nullish(&self) -> bool {
        self.as_ref().is_none_or(T::nullish)
    }
}

impl<T: Modeled> Modeled for Box<T> {
    fn schema() -> Schema {
        // transparent, but never optional itself
        match T::schema() {
            s @ Schema::Opt(_) => Schema::Pinned(Box::new(s)),
            _ => Schema::Lazy(T::schema),
        }
    }
    fn dump(&self) -> M {
        (**self).dump()
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Box::new(T::gen(r, d.saturating_sub(1)))
    }
    fn nullish(&self) -> bool {
        (**self).nullish()
    }
}

fn many<T: Modeled>(r: &mut Rng, d: usize) -> Vec<T> {
    if d == 0 {
        return Vec::new();
    }
    let n = r.size(if d > 2 { 12 } else { 40 });
    (0..n).map(|_| T::gen(r, d - 1)).collect()
}

impl<T: Modeled> Modeled for Vec<T> {
    fn schema() -> Schema {
        Schema::Seq(Box::new(Schema::Lazy(T::schema)))
    }
    fn dump(&self) -> M {
        M::Seq(self.iter().map(T::dump).collect())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        many(r, d)
    }
}

impl<T: Modeled, const N: usize> Modeled for [T; N] {
    fn schema() -> Schema {
        Schema::Arr(Box::new(Schema::Lazy(T::schema)), N)
    }
    fn dump(&self) -> M {
        M::Seq(self.iter().map(T::dump).collect())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::gen(r, d.saturating_sub(1)))
    }
}

impl<A: Modeled, B: Modeled> Modeled for (A, B) {
    fn schema() -> Schema {
        Schema::Pair(Box::new(Schema::Lazy(A::schema)), Box::new(Schema::Lazy(B::schema)))
    }
    fn dump(&self) -> M {
        M::Seq(vec![self.0.dump(), self.1.dump()])
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        (A::gen(r, d.saturating_sub(1)), B::gen(r, d.saturating_sub(1)))
    }
}

/// Map keys: ToString + FromStr, with samples (valid and not).
pub trait Key: FromStr + Display + Debug + Ord + Hash + 'static {
    fn gen(r: &mut Rng) -> Self;
    fn sample(r: &mut Rng) -> String {
        Self::gen(r).to_string()
    }
}

impl Key for String {
    fn gen(r: &mut Rng) -> String {
        if r.bool() {
            (*r.pick(&["", "a", "b", "ab", "\"", "é"])).to_owned()
        } else {
            gen::gen_text(r, 20)
        }
    }
}
impl Key for bool {
    fn gen(r: &mut Rng) -> bool {
        r.bool()
    }
    fn sample(r: &mut Rng) -> String {
        (*r.pick(&["true", "false", "true", "false", "True", ""])).to_owned()
    }
}
impl Key for char {
    fn gen(r: &mut Rng) -> char {
        gen::gen_char(r)
    }
    fn sample(r: &mut Rng) -> String {
        if r.chance(1, 20) {
            gen::gen_text(r, 3)
        } else {
            gen::gen_char(r).to_string()
        }
    }
}
macro_rules! int_keys {
    ($($t:ty)*) => { $(
        impl Key for $t {
            fn gen(r: &mut Rng) -> $t {
                gen::gen_int(r) as $t
            }
            fn sample(r: &mut Rng) -> String {
                match r.below(20) {
                    0 => gen::gen_int(r).to_string(),
                    1 => format!("+{}", r.below(9)),
                    2 => format!("0{}", r.below(9)),
                    3 => gen::gen_text(r, 3),
                    4 => String::from(" 1"),
                    _ => <$t as Key>::gen(r).to_string(),
                }
            }
        }
    )* };
}
int_keys!(i8 u8 i32 u64 i64);

/// A user-written key: lower-case letters only.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Clone)]
pub struct Word(String);
impl FromStr for Word {
    type Err = String;
    fn from_str(s: &str) -> Result<Word, String> {
        if !s.is_empty() && s.bytes().all(|b| b.is_ascii_lowercase()) {
            Ok(Word(s.to_owned()))
        } else {
            Err(format!("not a word: {s}"))
        }
    }
}
impl Display for Word {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Key for Word {
    fn gen(r: &mut Rng) -> Word {
        Word((0..r.range(1, 5)).map(|_| (b'a' + r.below(26) as u8) as char).collect())
    }
    fn sample(r: &mut Rng) -> String {
        if r.chance(1, 15) {
            gen::gen_text(r, 5)
        } else {
            Word::gen(r).0
        }
    }
}

fn canon_key<K: Key>(s: &str) -> Option<String> {
    K::from_str(s).ok().map(|k| k.to_string())
}

impl<K: Key, V: Modeled> Modeled for BTreeMap<K, V> {
    fn schema() -> Schema {
        Schema::Map(canon_key::<K>, K::sample, Box::new(Schema::Lazy(V::schema)))
    }
    fn dump(&self) -> M {
        M::Map(self.iter().map(|(k, v)| (k.to_string(), v.dump())).collect())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        many::<()>(r, d).into_iter().map(|()| (K::gen(r), V::gen(r, d - 1))).collect()
    }
}

#[cfg(feature = "std")]
impl<K: Key, V: Modeled, H: BuildHasher + Default + 'static> Modeled for HashMap<K, V, H> {
    fn schema() -> Schema {
        Schema::Map(canon_key::<K>, K::sample, Box::new(Schema::Lazy(V::schema)))
    }
    fn dump(&self) -> M {
        M::Map(self.iter().map(|(k, v)| (k.to_string(), v.dump())).collect())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        many::<()>(r, d).into_iter().map(|()| (K::gen(r), V::gen(r, d - 1))).collect()
    }
}

pub fn gen_number(r: &mut Rng) -> Number {
    match r.below(3) {
        0 => Number::U64(r.u64() >> r.below(64)),
        1 => Number::I64(-((r.u64() >> r.range(1, 63)) as i64) - 1),
        _ => Number::F64(f64::gen(r, 0)),
    }
}

pub fn gen_value(r: &mut Rng, d: usize, float: bool) -> Value {
    match r.below(if d == 0 { 5 } else { 8 }) {
        0 => Value::Null,
        1 => Value::Bool(r.bool()),
        2 | 3 => Value::Number(loop {
            let n = gen_number(r);
            if float || !matches!(n, Number::F64(_)) {
                break n;
            }
        }),
        4 => Value::String(gen::gen_text(r, 30)),
        5 | 6 => Value::Array((0..r.size(9)).map(|_| gen_value(r, d - 1, float)).collect()),
        _ => Value::Object((0..r.size(9)).map(|_| (gen::gen_text(r, 9), gen_value(r, d - 1, float))).collect()),
    }
}

impl Modeled for Value {
    fn schema() -> Schema {
        Schema::Json
    }
    fn dump(&self) -> M {
        M::Json(value::walk(self))
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        gen_value(r, d.min(3), true)
    }
    fn nullish(&self) -> bool {
        matches!(self, Value::Null)
    }
}
impl Modeled for Array {
    fn schema() -> Schema {
        Schema::JsonArr
    }
    fn dump(&self) -> M {
        M::Json(value::walk_array(self))
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..r.size(6)).map(|_| gen_value(r, d.min(2), true)).collect()
    }
}
impl Modeled for Object {
    fn schema() -> Schema {
        Schema::JsonObj
    }
    fn dump(&self) -> M {
        M::Json(value::walk_object(self))
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..r.size(6)).map(|_| (gen::gen_text(r, 9), gen_value(r, d.min(2), true))).collect()
    }
}
impl Modeled for Number {
    fn schema() -> Schema {
        Schema::JsonNum
    }
    fn dump(&self) -> M {
        M::Json(vec![value::number(self)])
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        gen_number(r)
    }
}

// ---- documents for a schema --------------------------------------------------------------------

pub struct DocGen {
    /// Break something at this node (counting in document order), if any.
    pub break_at: Option<usize>,
    pub count: usize,
    pub esc: usize,
    pub ws: usize,
    pub unknown: usize,
    pub dup: usize,
    pub skip_opt: usize,
}

impl DocGen {
    pub fn random(r: &mut Rng) -> DocGen {
        let reach = *r.pick(&[2, 6, 20, 60]);
        DocGen {
            break_at: if r.chance(2, 5) { Some(r.below(reach)) } else { None },
            count: 0,
            esc: *r.pick(&[0, 0, 30]),
            ws: *r.pick(&[0, 0, 20]),
            unknown: *r.pick(&[0, 10, 50]),
            dup: *r.pick(&[0, 0, 15, 40]),
            skip_opt: *r.pick(&[0, 30, 80]),
        }
    }

    fn w(&self, r: &mut Rng, out: &mut String) {
        while self.ws > 0 && r.below(100) < self.ws {
            out.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }

    /// Any JSON at all.
    pub fn any(&self, r: &mut Rng, out: &mut String) {
        let st = gen::Style {
            ws: self.ws,
            esc: self.esc,
            max_width: 4,
            max_depth: *r.pick(&[0, 0, 1, 3]),
            dup: 10,
            no_float: false,
            max_str: 10,
            max_len: out.len() + 2000,
        };
        gen::gen_value(r, &st, 0, out);
    }

    /// A document in which the first list or map there is has `n` items; false if there is none.
    pub fn crowd(&mut self, r: &mut Rng, s: &Schema, n: usize, out: &mut String) -> bool {
        let d = usize::from(n < 100);
        match s {
            Schema::Lazy(f) => self.crowd(r, &f(), n, out),
            Schema::Pinned(s) | Schema::Opt(s) => self.crowd(r, s, n, out),
            Schema::Seq(s) => {
                self.list(r, n, d + 1, out, |_| (**s).clone());
                true
            }
            Schema::Json | Schema::JsonArr => {
                self.list(r, n, 1, out, |i| Schema::Int(i as i128, i as i128));
                true
            }
            Schema::Arr(s, len) if *len > 0 => {
                out.push('[');
                let mut ok = true;
                for i in 0..*len {
                    if i > 0 {
                        out.push(',');
                    }
                    ok &= self.crowd(r, s, n, out);
                }
                out.push(']');
                ok
            }
            Schema::Pair(a, b) => {
                out.push('[');
                let at = out.len();
                let first = self.crowd(r, a, n, out);
                if !first {
                    out.truncate(at);
                    self.doc(r, a, 1, out);
                }
                out.push(',');
                if first {
                    self.doc(r, b, 1, out);
                }
                let ok = first || self.crowd(r, b, n, out);
                out.push(']');
                ok
            }
            Schema::Map(canon, _, s) => {
                if canon("10").is_none() {
                    return false;
                }
                out.push('{');
                for i in 0..n {
                    if i > 0 {
                        out.push(',');
                    }
                    // in steps that reach all places of a sorted map
                    let k = if n < 100 { i } else { i * 7919 % n };
                    let k = if canon(&k.to_string()).is_some() { k.to_string() } else { (k % 100).to_string() };
                    out.push_str(&format!("\"{k}\":"));
                    self.doc(r, s, d, out);
                }
                out.push('}');
                true
            }
            Schema::JsonObj => {
                out.push('{');
                for i in 0..n {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(&format!("\"{}\":{i}", i * 7919 % n));
                }
                out.push('}');
                true
            }
            Schema::Struct(fields) => {
                let mut ok = false;
                out.push('{');
                for (i, (name, s)) in fields.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    gen::write_string(r, name, 0, out);
                    out.push(':');
                    let at = out.len();
                    if !ok && !is_opt(s) && self.crowd(r, s, n, out) {
                        ok = true;
                        continue;
                    }
                    out.truncate(at);
                    self.doc(r, s, 1, out);
                }
                out.push('}');
                ok
            }
            _ => false,
        }
    }

    pub fn doc(&mut self, r: &mut Rng, s: &Schema, d: usize, out: &mut String) {
        self.count += 1;
        let broken = self.break_at == Some(self.count - 1);
        if broken && r.chance(1, 2) {
            return self.any(r, out);
        }
        match s {
            Schema::Lazy(f) => {
                self.count -= 1;
                self.doc(r, &f(), d, out)
            }
            Schema::Pinned(s) => {
                self.count -= 1;
                self.doc(r, s, d, out)
            }
            Schema::Unit => out.push_str("null"),
            Schema::Bool => out.push_str(if r.bool() { "true" } else { "false" }),
            Schema::Int(lo, hi) => {
                let v = match r.below(8) {
                    0 => *lo,
                    1 => *hi,
                    2 if broken => *hi + 1 + r.below(3) as i128,
                    3 if broken => *lo - 1 - r.below(3) as i128,
                    4 if broken => gen::gen_int(r),
                    _ => {
                        let v = gen::gen_int(r);
                        if v < *lo || v > *hi {
                            (r.below(128)) as i128
                        } else {
                            v
                        }
                    }
                };
                out.push_str(&v.to_string());
                if broken && r.chance(1, 3) {
                    out.push_str(*r.pick(&[".0", "e0", ".5", "e1"]));
                }
            }
            Schema::F32 | Schema::F64 | Schema::JsonNum => gen::gen_number(r, false, out),
            Schema::Str => {
                let t = gen::gen_text(r, 30);
                gen::write_string(r, &t, self.esc, out);
            }
            Schema::Opt(s) => {
                if d == 0 || r.chance(1, 3) {
                    out.push_str("null");
                } else {
                    self.doc(r, s, d - 1, out);
                }
            }
            Schema::Seq(s) => {
                let n = if d == 0 { 0 } else { r.size(if d > 3 { 8 } else { 30 }) };
                self.list(r, n, d, out, |_| (**s).clone());
            }
            Schema::Arr(s, n) => {
                let n = if broken { (n + 2).saturating_sub(r.below(5)) } else { *n };
                self.list(r, n, d, out, |_| (**s).clone());
            }
            Schema::Pair(a, b) => {
                let n = if broken { r.below(4) } else { 2 };
                self.list(r, n, d, out, |i| if i == 0 { (**a).clone() } else { (**b).clone() });
            }
            Schema::Map(_, sample, s) => {
                let n = if d == 0 { 0 } else { r.size(if d > 3 { 6 } else { 20 }) };
                out.push('{');
                self.w(r, out);
                let mut seen: Vec<String> = Vec::new();
                for i in 0..n {
                    if i > 0 {
                        out.push(',');
                        self.w(r, out);
                    }
                    let k = if !seen.is_empty() && r.below(100) < self.dup { r.pick(&seen).clone() } else { sample(r) };
                    gen::write_string(r, &k, self.esc, out);
                    seen.push(k);
                    self.w(r, out);
                    out.push(':');
                    self.w(r, out);
                    self.doc(r, s, d.saturating_sub(1), out);
                    self.w(r, out);
                }
                out.push('}');
            }
            Schema::Struct(fields) => {
                // order, repetitions, unknown members, left-out options, a missing one if broken
                let mut items: Vec<Option<usize>> = Vec::new();
                for (i, f) in fields.iter().enumerate() {
                    let leave = is_opt(&f.1) && r.below(100) < self.skip_opt;
                    if !leave {
                        items.push(Some(i));
                    }
                    if r.below(100) < self.dup {
                        items.push(Some(i));
                    }
                    if r.below(100) < self.unknown {
                        items.push(None);
                    }
                }
                if r.below(100) < self.unknown {
                    items.push(None);
                }
                if r.bool() {
                    r.shuffle(&mut items);
                }
                if broken && !items.is_empty() {
                    let k = r.below(items.len());
                    items.remove(k);
                }
                out.push('{');
                self.w(r, out);
                for (n, it) in items.iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                        self.w(r, out);
                    }
                    let (k, s) = match it {
                        Some(i) => (fields[*i].0.to_owned(), Some(&fields[*i].1)),
                        None => (near_miss(r, fields), None),
                    };
                    gen::write_string(r, &k, self.esc, out);
                    self.w(r, out);
                    out.push(':');
                    self.w(r, out);
                    match s {
                        Some(s) => self.doc(r, s, d.saturating_sub(1), out),
                        None => self.any(r, out),
                    }
                    self.w(r, out);
                }
                out.push('}');
            }
            Schema::Enum(names) => {
                let mut t = (*r.pick(names)).to_owned();
                if broken {
                    t = gen::mutate(r, &t);
                }
                gen::write_string(r, &t, self.esc, out);
            }
            Schema::Json => self.any(r, out),
            Schema::JsonArr => {
                let n = r.size(6);
                self.list(r, n, d, out, |_| Schema::Json);
            }
            Schema::JsonObj => {
                out.push('{');
                for i in 0..r.size(6) {
                    if i > 0 {
                        out.push(',');
                    }
                    let k = <String as Key>::gen(r);
                    gen::write_string(r, &k, self.esc, out);
                    out.push(':');
                    self.any(r, out);
                }
                out.push('}');
            }
        }
    }

    fn list(&mut self, r: &mut Rng, n: usize, d: usize, out: &mut String, s: impl Fn(usize) -> Schema) {
        out.push('[');
        self.w(r, out);
        for i in 0..n {
            if i > 0 {
                out.push(',');
                self.w(r, out);
            }
            self.doc(r, &s(i), d.saturating_sub(1), out);
            self.w(r, out);
        }
        out.push(']');
    }
}

/// A member name that is not a field (but may look like one).
fn near_miss(r: &mut Rng, fields: &[(&'static str, Schema)]) -> String {
    let k = match r.below(6) {
        0 => gen::gen_text(r, 8),
        1 => String::from("unknown"),
        _ if fields.is_empty() => String::from("x"),
        2 => {
            let f = r.pick(fields).0;
            f.chars().take(f.chars().count().saturating_sub(1)).collect()
        }
        3 => format!("{}{}", r.pick(fields).0, r.pick(&["_", "a", " ", "\u{0}"])),
        4 => r.pick(fields).0.to_uppercase(),
        _ => {
            let f = r.pick(fields).0;
            gen::mutate(r, f)
        }
    };
    k
}
