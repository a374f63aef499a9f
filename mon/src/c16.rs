//! C16: random histories of operations on Values, Arrays and Objects next to plain collections.

use crate::alloc;
use crate::ctx::{guarded, Ctx, Ended, Injected};
use crate::gen;
use crate::rng::Rng;
use miniserde::json::{self, Array, Number, Object, Value};
use std::collections::{btree_map, BTreeMap};
use std::fmt::{self, Debug};

#[derive(Clone, Copy)]
enum N {
    U(u64),
    I(i64),
    F(f64),
}

/// The plain counterpart.
#[derive(Clone)]
enum P {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Arr(Vec<P>),
    Obj(BTreeMap<String, P>),
}

fn float_text(f: f64) -> String {
    // shortest text that reads back, in the form the writer uses
    json::to_string(&f)
}

impl Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            P::Null => f.write_str("Null"),
            P::Bool(b) => write!(f, "Bool({b})"),
            P::Num(N::U(n)) => write!(f, "Number({n})"),
            P::Num(N::I(n)) => write!(f, "Number({n})"),
            P::Num(N::F(n)) => write!(f, "Number({})", float_text(*n)),
            P::Str(s) => write!(f, "String({s:?})"),
            P::Arr(v) => {
                f.write_str("Array ")?;
                v.fmt(f)
            }
            P::Obj(m) => {
                f.write_str("Object ")?;
                m.fmt(f)
            }
        }
    }
}

fn same(v: &Value, p: &P) -> bool {
    match (v, p) {
        (Value::Null, P::Null) => true,
        (Value::Bool(a), P::Bool(b)) => a == b,
        (Value::Number(a), P::Num(b)) => same_num(a, b),
        (Value::String(a), P::Str(b)) => a == b,
        (Value::Array(a), P::Arr(b)) => same_arr(a, b),
        (Value::Object(a), P::Obj(b)) => same_obj(a, b),
        _ => false,
    }
}

fn same_num(a: &Number, b: &N) -> bool {
    match (a, b) {
        (Number::U64(a), N::U(b)) => a == b,
        (Number::I64(a), N::I(b)) => a == b,
        (Number::F64(a), N::F(b)) => a.to_bits() == b.to_bits(),
        _ => false,
    }
}

fn same_arr(a: &[Value], b: &[P]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

fn same_obj(a: &BTreeMap<String, Value>, b: &BTreeMap<String, P>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
}

fn make(r: &mut Rng, d: usize) -> (Value, P) {
    match r.below(if d == 0 { 5 } else { 9 }) {
        0 => (Value::Null, P::Null),
        1 => {
            let b = r.bool();
            (Value::Bool(b), P::Bool(b))
        }
        2 => match r.below(3) {
            0 => {
                let n = r.u64() >> r.below(64);
                (Value::Number(Number::U64(n)), P::Num(N::U(n)))
            }
            1 => {
                let n = (r.u64() >> r.below(64)) as i64;
                (Value::Number(Number::I64(n)), P::Num(N::I(n)))
            }
            _ => {
                let n = *r.pick(&[0.0, -0.0, 0.1, 1e300, -2.5e-7, f64::MIN_POSITIVE, f64::MAX]);
                (Value::Number(Number::F64(n)), P::Num(N::F(n)))
            }
        },
        3 | 4 => {
            let s = gen::gen_text(r, 30);
            (Value::String(s.clone()), P::Str(s))
        }
        5 | 6 => {
            let (a, p) = make_arr(r, d - 1);
            (Value::Array(a), P::Arr(p))
        }
        _ => {
            let (a, p) = make_obj(r, d - 1);
            (Value::Object(a), P::Obj(p))
        }
    }
}

fn make_arr(r: &mut Rng, d: usize) -> (Array, Vec<P>) {
    let n = r.size(12);
    let mut p = Vec::new();
    let a = match r.below(3) {
        0 => {
            let mut a = Array::new();
            for _ in 0..n {
                let (x, y) = make(r, d);
                a.push(x);
                p.push(y);
            }
            a
        }
        1 => (0..n)
            .map(|_| {
                let (x, y) = make(r, d);
                p.push(y);
                x
            })
            .collect(),
        _ => {
            let mut a = Array::default();
            let items: Vec<(Value, P)> = (0..n).map(|_| make(r, d)).collect();
            a.reserve(r.below(20));
            a.extend(items.into_iter().map(|(x, y)| {
                p.push(y);
                x
            }));
            a
        }
    };
    (a, p)
}

fn key(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        (*r.pick(&["", "a", "b", "c", "d", "é", "\n", "aa", "ab", "zz"])).to_owned()
    } else {
        gen::gen_text(r, 9)
    }
}

fn make_obj(r: &mut Rng, d: usize) -> (Object, BTreeMap<String, P>) {
    let n = r.size(12);
    let mut p = BTreeMap::new();
    let a = match r.below(3) {
        0 => {
            let mut a = Object::new();
            for _ in 0..n {
                let k = key(r);
                let (x, y) = make(r, d);
                a.insert(k.clone(), x);
                p.insert(k, y);
            }
            a
        }
        1 => (0..n)
            .map(|_| {
                let k = key(r);
                let (x, y) = make(r, d);
                p.insert(k.clone(), y);
                (k, x)
            })
            .collect(),
        _ => {
            let mut a = Object::default();
            let items: Vec<(String, Value, P)> = (0..n)
                .map(|_| {
                    let k = key(r);
                    let (x, y) = make(r, d);
                    (k, x, y)
                })
                .collect();
            a.extend(items.into_iter().map(|(k, x, y)| {
                p.insert(k.clone(), y);
                (k, x)
            }));
            a
        }
    };
    (a, p)
}

type Slot = (Value, P);

macro_rules! agree {
    ($c:expr, $($why:tt)*) => {
        if !$c {
            return Err(format!($($why)*));
        }
    };
}

fn pair(v: Option<Value>, p: Option<P>) -> Result<Option<Slot>, String> {
    match (v, p) {
        (None, None) => Ok(None),
        (Some(v), Some(p)) => {
            agree!(same(&v, &p), "element moved out is {v:?}, should be {p:?}");
            Ok(Some((v, p)))
        }
        (v, p) => Err(format!("{v:?} moved out, should be {p:?}")),
    }
}

/// One operation on an array; whatever it moves out goes to `out`.
fn array_op(r: &mut Rng, a: &mut Array, p: &mut Vec<P>, out: &mut Vec<Slot>) -> Result<&'static str, String> {
    let n = p.len();
    Ok(match r.below(32) {
        0..=3 => {
            let (x, y) = out.pop().unwrap_or_else(|| make(r, 2));
            a.push(x);
            p.push(y);
            "push"
        }
        4 => {
            out.extend(pair(a.pop(), p.pop())?);
            "pop"
        }
        5 if n > 0 => {
            let i = r.below(n + 1);
            let (x, y) = make(r, 2);
            a.insert(i, x);
            p.insert(i, y);
            "insert"
        }
        6 if n > 0 => {
            let i = r.below(n);
            out.extend(pair(Some(a.remove(i)), Some(p.remove(i)))?);
            "remove"
        }
        7 if n > 0 => {
            let i = r.below(n);
            out.extend(pair(Some(a.swap_remove(i)), Some(p.swap_remove(i)))?);
            "swap_remove"
        }
        8 => {
            let k = r.below(n + 2);
            a.truncate(k);
            p.truncate(k);
            "truncate"
        }
        9 => {
            a.clear();
            p.clear();
            "clear"
        }
        10 => {
            let k = r.below(n + 1);
            let b: Vec<Value> = a.split_off(k);
            let q = p.split_off(k);
            agree!(same_arr(&b, &q), "split_off: {b:?}, should be {q:?}");
            out.push((Value::Array(b.into_iter().collect()), P::Arr(q)));
            "split_off"
        }
        11 => {
            let (mut b, mut q) = make_arr(r, 1);
            a.append(&mut b);
            p.append(&mut q);
            agree!(b.is_empty(), "append leaves elements");
            "append"
        }
        12 => {
            let lo = r.below(n + 1);
            let hi = lo + r.below(n - lo + 1);
            let taken = r.below(4);
            let mut d = a.drain(lo..hi);
            let mut e = p.drain(lo..hi);
            for _ in 0..taken {
                out.extend(pair(d.next(), e.next())?);
            }
            "drain"
        }
        13 => {
            let m = r.range(2, 4);
            let (mut i, mut j) = (0, 0);
            a.retain(|_| {
                i += 1;
                i % m == 0
            });
            p.retain(|_| {
                j += 1;
                j % m == 0
            });
            "retain"
        }
        14 => {
            a.reverse();
            p.reverse();
            "reverse"
        }
        15 if n > 0 => {
            let (i, j) = (r.below(n), r.below(n));
            a.swap(i, j);
            p.swap(i, j);
            "swap"
        }
        16 if n > 0 => {
            let i = r.below(n);
            let (x, y) = make(r, 2);
            out.extend(pair(Some(std::mem::replace(&mut a[i], x)), Some(std::mem::replace(&mut p[i], y)))?);
            "index, replace"
        }
        17 => {
            let mut i = 0;
            for x in &mut *a {
                if i % 2 == 0 {
                    *x = Value::Bool(true);
                }
                i += 1;
            }
            for (i, y) in p.iter_mut().enumerate() {
                if i % 2 == 0 {
                    *y = P::Bool(true);
                }
            }
            agree!(i == p.len(), "iteration by &mut: {i} elements");
            "iterate by &mut"
        }
        18 => {
            let mut i = 0;
            for x in &*a {
                agree!(p.get(i).is_some_and(|y| same(x, y)), "iteration by &: element {i} is {x:?}");
                i += 1;
            }
            agree!(i == p.len(), "iteration by &: {i} elements");
            agree!(a.iter().rev().zip(p.iter().rev()).all(|(x, y)| same(x, y)), "reverse iteration");
            "iterate by &"
        }
        // by value, in many ways
        19..=22 => {
            let a = std::mem::take(a);
            let p = std::mem::take(p);
            let (mut i, mut j) = (a.into_iter(), p.into_iter());
            for _ in 0..r.size(20) {
                agree!(i.len() == j.len(), "iterator length {} should be {}", i.len(), j.len());
                match r.below(6) {
                    0..=2 => out.extend(pair(i.next(), j.next())?),
                    3 => out.extend(pair(i.next_back(), j.next_back())?),
                    4 => {
                        let k = r.below(3);
                        out.extend(pair(i.nth(k), j.nth(k))?)
                    }
                    _ => agree!(same_arr(i.as_slice(), j.as_slice()), "rest of the iterator"),
                }
            }
            match r.below(4) {
                0 => {
                    out.extend(pair(i.last(), j.last())?);
                }
                1 => {
                    let b: Array = i.collect();
                    let q: Vec<P> = j.collect();
                    agree!(same_arr(&b, &q), "collected rest");
                    out.push((Value::Array(b), P::Arr(q)));
                }
                2 => {
                    // the clone of a partly consumed iterator
                    let (b, q): (Array, Vec<P>) = (i.clone().collect(), j.clone().collect());
                    agree!(same_arr(&b, &q), "cloned rest");
                    drop(i);
                    out.push((Value::Array(b), P::Arr(q)));
                }
                _ => drop(i),
            }
            "into_iter"
        }
        23 => {
            let b = a.clone();
            let mut q = p.clone();
            agree!(same_arr(&b, &q), "clone is {b:?}, should be {q:?}");
            // independent
            let (x, y) = make(r, 1);
            a.push(x);
            p.push(y);
            let mut b = b;
            if let Some(l) = b.last_mut() {
                *l = Value::Null;
                *q.last_mut().unwrap() = P::Null;
            }
            agree!(same_arr(&b, &q) && same_arr(a, p), "clone and original are not independent");
            out.push((Value::Array(b), P::Arr(q)));
            "clone"
        }
        24 => {
            let (b, q) = make_arr(r, 2);
            a.clone_from(&b);
            p.clone_from(&q);
            agree!(same_arr(&b, &q), "clone_from changed its source");
            "clone_from"
        }
        25 => {
            let v: Vec<Value> = std::mem::take(&mut **a);
            agree!(same_arr(&v, p) && a.is_empty(), "taken Vec");
            out.push((Value::Array(Array::from_iter(v)), P::Arr(std::mem::take(p))));
            "take Vec"
        }
        26 => {
            agree!(a.len() == n && a.is_empty() == (n == 0), "len");
            agree!(a.get(n).is_none(), "get past the end");
            match (a.first(), p.first()) {
                (None, None) => {}
                (Some(x), Some(y)) => agree!(same(x, y), "first"),
                _ => return Err("first".into()),
            }
            "len, get, first"
        }
        27 => {
            // collect from an iterator that panics
            let k = r.below(6);
            let e = guarded(|| {
                let mut i = 0;
                (0..9)
                    .map(|_| {
                        i += 1;
                        if i > k {
                            std::panic::panic_any(Injected);
                        }
                        Value::String("heap".repeat(i))
                    })
                    .collect::<Array>()
                    .len()
            });
            agree!(matches!(e, Ended::Injected), "panic lost");
            "collect, panic"
        }
        28 => {
            let k = r.below(n + 1);
            let mut seen = 0;
            let e = guarded(|| {
                a.retain(|_| {
                    seen += 1;
                    if seen > k {
                        std::panic::panic_any(Injected);
                    }
                    true
                })
            });
            agree!(matches!(e, Ended::Injected) == (k < n), "panic lost");
            "retain, panic"
        }
        29 => {
            let b = Array::default();
            let c = Array::new();
            agree!(b.is_empty() && c.is_empty(), "default and new are empty");
            "default"
        }
        30 => {
            a.sort_by_key(|v| rank(v));
            p.sort_by_key(|v| rank_p(v));
            "sort"
        }
        _ => {
            a.dedup_by(|x, y| rank(x) == rank(y));
            p.dedup_by(|x, y| rank_p(x) == rank_p(y));
            "dedup"
        }
    })
}

fn rank(v: &Value) -> u8 {
    match v {
        Value::Null => 0,
        Value::Bool(_) => 1,
        Value::Number(_) => 2,
        Value::String(_) => 3,
        Value::Array(_) => 4,
        Value::Object(_) => 5,
    }
}
fn rank_p(v: &P) -> u8 {
    match v {
        P::Null => 0,
        P::Bool(_) => 1,
        P::Num(_) => 2,
        P::Str(_) => 3,
        P::Arr(_) => 4,
        P::Obj(_) => 5,
    }
}

fn kpair(v: Option<(String, Value)>, p: Option<(String, P)>) -> Result<Option<Slot>, String> {
    match (v, p) {
        (None, None) => Ok(None),
        (Some((k, v)), Some((l, p))) => {
            agree!(k == l && same(&v, &p), "member moved out is {k:?}: {v:?}, should be {l:?}: {p:?}");
            Ok(Some((v, p)))
        }
        (v, p) => Err(format!("{v:?} moved out, should be {p:?}")),
    }
}

fn object_op(r: &mut Rng, a: &mut Object, p: &mut BTreeMap<String, P>, out: &mut Vec<Slot>) -> Result<&'static str, String> {
    let k = key(r);
    let n = p.len();
    Ok(match r.below(30) {
        0..=4 => {
            let (x, y) = out.pop().unwrap_or_else(|| make(r, 2));
            out.extend(pair(a.insert(k.clone(), x), p.insert(k, y))?);
            "insert"
        }
        5 => {
            out.extend(pair(a.remove(&k), p.remove(&k))?);
            "remove"
        }
        6 => {
            match (a.get(&k), p.get(&k)) {
                (None, None) => {}
                (Some(x), Some(y)) => agree!(same(x, y), "get"),
                _ => return Err("get".into()),
            }
            agree!(a.contains_key(&k) == p.contains_key(&k), "contains_key");
            "get"
        }
        7 => {
            if let (Some(x), Some(y)) = (a.get_mut(&k), p.get_mut(&k)) {
                *x = Value::Null;
                *y = P::Null;
            }
            "get_mut"
        }
        8 => {
            let (x, y) = make(r, 1);
            match (a.entry(k.clone()), p.entry(k)) {
                (btree_map::Entry::Occupied(e), btree_map::Entry::Occupied(f)) => out.extend(kpair(Some(e.remove_entry()), Some(f.remove_entry()))?),
                (btree_map::Entry::Vacant(e), btree_map::Entry::Vacant(f)) => {
                    e.insert(x);
                    f.insert(y);
                }
                _ => return Err("entry".into()),
            }
            "entry"
        }
        9 => {
            out.extend(kpair(a.pop_first(), p.pop_first())?);
            "pop_first"
        }
        10 => {
            out.extend(kpair(a.pop_last(), p.pop_last())?);
            "pop_last"
        }
        11 => {
            let (mut b, mut q) = make_obj(r, 1);
            a.append(&mut b);
            p.append(&mut q);
            agree!(b.is_empty(), "append leaves members");
            "append"
        }
        12 => {
            let b = a.split_off(&k);
            let q = p.split_off(&k);
            agree!(same_obj(&b, &q), "split_off");
            out.push((Value::Object(b.into_iter().collect()), P::Obj(q)));
            "split_off"
        }
        13 => {
            let m = r.range(2, 4);
            let (mut i, mut j) = (0, 0);
            a.retain(|_, _| {
                i += 1;
                i % m == 0
            });
            p.retain(|_, _| {
                j += 1;
                j % m == 0
            });
            "retain"
        }
        14 => {
            a.clear();
            p.clear();
            "clear"
        }
        15..=18 => {
            let a = std::mem::take(a);
            let p = std::mem::take(p);
            let (mut i, mut j) = (a.into_iter(), p.into_iter());
            for _ in 0..r.size(20) {
                agree!(i.len() == j.len(), "iterator length {} should be {}", i.len(), j.len());
                if r.chance(3, 4) {
                    out.extend(kpair(i.next(), j.next())?);
                } else {
                    out.extend(kpair(i.next_back(), j.next_back())?);
                }
            }
            match r.below(3) {
                0 => out.extend(kpair(i.last(), j.last())?),
                1 => {
                    let b: Object = i.collect();
                    let q: BTreeMap<String, P> = j.collect();
                    agree!(same_obj(&b, &q), "collected rest");
                    out.push((Value::Object(b), P::Obj(q)));
                }
                _ => drop(i),
            }
            "into_iter"
        }
        19 => {
            let mut j = p.iter();
            for (k, x) in &*a {
                agree!(j.next().is_some_and(|(l, y)| k == l && same(x, y)), "iteration by &");
            }
            agree!(j.next().is_none(), "iteration by & ends early");
            agree!(a.keys().eq(p.keys()), "keys");
            agree!(a.values().rev().zip(p.values().rev()).all(|(x, y)| same(x, y)), "values, reversed");
            "iterate by &"
        }
        20 => {
            let mut i = 0;
            for (_, x) in &mut *a {
                if i % 2 == 1 {
                    *x = Value::String("new".into());
                }
                i += 1;
            }
            for (i, y) in p.values_mut().enumerate() {
                if i % 2 == 1 {
                    *y = P::Str("new".into());
                }
            }
            agree!(i == n, "iteration by &mut: {i} members");
            "iterate by &mut"
        }
        21 => {
            let mut b = a.clone();
            let mut q = p.clone();
            agree!(same_obj(&b, &q), "clone");
            out.extend(pair(a.insert(k.clone(), Value::Bool(true)), p.insert(k, P::Bool(true)))?);
            b.pop_last();
            q.pop_last();
            agree!(same_obj(&b, &q) && same_obj(a, p), "clone and original are not independent");
            out.push((Value::Object(b), P::Obj(q)));
            "clone"
        }
        22 => {
            let (b, q) = make_obj(r, 2);
            a.clone_from(&b);
            p.clone_from(&q);
            agree!(same_obj(&b, &q), "clone_from changed its source");
            "clone_from"
        }
        23 => {
            let m: BTreeMap<String, Value> = std::mem::take(&mut **a);
            agree!(same_obj(&m, p) && a.is_empty(), "taken BTreeMap");
            out.push((Value::Object(Object::from_iter(m)), P::Obj(std::mem::take(p))));
            "take BTreeMap"
        }
        24 => {
            let k = r.below(6);
            let e = guarded(|| {
                let mut i = 0;
                (0..9)
                    .map(|_| {
                        i += 1;
                        if i > k {
                            std::panic::panic_any(Injected);
                        }
                        ("k".repeat(i % 3), Value::String("heap".repeat(i)))
                    })
                    .collect::<Object>()
                    .len()
            });
            agree!(matches!(e, Ended::Injected), "panic lost");
            "collect, panic"
        }
        25 => {
            agree!(a.range(k.clone()..).map(|(k, _)| k).eq(p.range(k..).map(|(k, _)| k)), "range");
            "range"
        }
        26 => {
            agree!(a.len() == n && a.is_empty() == (n == 0), "len");
            agree!(Object::default().is_empty() && Object::new().is_empty(), "default and new are empty");
            "len"
        }
        27 => {
            let v: Vec<Value> = std::mem::take(&mut **a).into_values().collect();
            let q: Vec<P> = std::mem::take(p).into_values().collect();
            agree!(same_arr(&v, &q), "into_values");
            out.push((Value::Array(v.into_iter().collect()), P::Arr(q)));
            "into_values"
        }
        _ => {
            let (b, q) = make_obj(r, 1);
            a.extend(b);
            p.extend(q);
            "extend"
        }
    })
}

fn whole(v: &Value, p: &P, r: &mut Rng) -> Result<(), String> {
    agree!(same(v, p), "contents are {v:?}, should be {p:?}");
    if r.chance(1, 4) {
        let (d, e) = (format!("{v:?}"), format!("{p:?}"));
        agree!(d == e, "Debug prints {d}, should be {e}");
        let (d, e) = (format!("{v:#?}"), format!("{p:#?}"));
        agree!(d == e, "Debug prints {d}, should be {e}");
    }
    if r.chance(1, 8) {
        if let Value::Number(n) = v {
            let (d, e) = (n.to_string(), json::to_string(n));
            agree!(d == e, "Display prints {d}, to_string {e}");
        }
    }
    Ok(())
}

fn descend<'a>(r: &mut Rng, v: &'a mut Value, p: &'a mut P) -> Result<(&'a mut Value, &'a mut P), String> {
    let n = match (&*v, &*p) {
        (Value::Array(a), P::Arr(b)) => {
            agree!(a.len() == b.len(), "length {} should be {}", a.len(), b.len());
            b.len()
        }
        (Value::Object(a), P::Obj(b)) => {
            agree!(a.len() == b.len(), "length {} should be {}", a.len(), b.len());
            b.len()
        }
        _ => 0,
    };
    if n == 0 || r.bool() {
        return Ok((v, p));
    }
    let k = r.below(n);
    match (v, p) {
        (Value::Array(a), P::Arr(b)) => descend(r, &mut a[k], &mut b[k]),
        (Value::Object(a), P::Obj(b)) => descend(r, a.values_mut().nth(k).unwrap(), b.values_mut().nth(k).unwrap()),
        _ => Err("kinds differ".into()),
    }
}

fn history(seed: u64, steps: usize, log: &mut Vec<&'static str>) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut slots: Vec<Slot> = (0..3).map(|_| make(r, 3)).collect();
    let (a, p) = make_arr(r, 2);
    slots.push((Value::Array(a), P::Arr(p)));
    let (a, p) = make_obj(r, 2);
    slots.push((Value::Object(a), P::Obj(p)));
    let mut ops = 0;
    let mut out: Vec<Slot> = Vec::new();
    for _ in 0..steps {
        ops += 1;
        let i = r.below(slots.len());
        // walk some way down
        let (v, p) = &mut slots[i];
        let (v, p) = descend(r, v, p)?;
        let what = match (&mut *v, &mut *p) {
            (Value::Array(a), P::Arr(b)) if r.chance(9, 10) => array_op(r, a, b, &mut out)?,
            (Value::Object(a), P::Obj(b)) if r.chance(9, 10) => object_op(r, a, b, &mut out)?,
            _ => match r.below(6) {
                0 => {
                    let (x, y) = out.pop().unwrap_or_else(|| make(r, 2));
                    out.extend(pair(Some(std::mem::replace(v, x)), Some(std::mem::replace(p, y)))?);
                    "replace"
                }
                1 => {
                    out.extend(pair(Some(std::mem::take(v)), Some(std::mem::replace(p, P::Null)))?);
                    "mem::take"
                }
                2 => {
                    let c = v.clone();
                    agree!(same(&c, p), "clone is {c:?}, should be {p:?}");
                    out.push((c, p.clone()));
                    "clone Value"
                }
                3 => {
                    let (x, y) = make(r, 2);
                    v.clone_from(&x);
                    p.clone_from(&y);
                    "clone_from Value"
                }
                4 => {
                    let (x, y) = make(r, 2);
                    *v = x;
                    *p = y;
                    "assign"
                }
                _ => {
                    // wrap it
                    let (mut a, mut b) = (Array::new(), Vec::new());
                    a.push(std::mem::take(v));
                    b.push(std::mem::replace(p, P::Null));
                    *v = Value::Array(a);
                    *p = P::Arr(b);
                    "wrap"
                }
            },
        };
        log.push(what);
        whole(v, p, r)?;
        let (v, p) = &slots[i];
        whole(v, p, r)?;
        // what was moved out earlier is still what it was
        for (x, y) in &out {
            agree!(same(x, y), "a moved-out value became {x:?}, was {y:?}");
        }
        if out.len() > 12 {
            out.drain(..r.below(12));
        }
        if r.chance(1, 40) {
            let k = r.below(slots.len());
            slots[k] = make(r, 3);
        }
    }
    Ok(ops)
}

/// A member or item that can be told from its neighbours.
fn item(r: &mut Rng, i: usize) -> Slot {
    match r.below(12) {
        0 => make(r, 2),
        1 | 2 => {
            let s = format!("item {i}");
            (Value::String(s.clone()), P::Str(s))
        }
        3 => {
            let mut a = Array::new();
            a.push(Value::Number(Number::U64(i as u64)));
            (Value::Array(a), P::Arr(vec![P::Num(N::U(i as u64))]))
        }
        4 => (Value::Number(Number::I64(-(i as i64))), P::Num(N::I(-(i as i64)))),
        _ => (Value::Number(Number::U64(i as u64)), P::Num(N::U(i as u64))),
    }
}

fn printed(v: &Value, p: &P) -> Result<(), String> {
    agree!(same(v, p), "contents differ");
    for (d, e) in [(format!("{v:?}"), format!("{p:?}")), (format!("{v:#?}"), format!("{p:#?}"))] {
        if d != e {
            let at = d.bytes().zip(e.bytes()).take_while(|(a, b)| a == b).count();
            let near = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(30).min(s.len())..(at + 30).min(s.len())]).into_owned();
            return Err(format!("Debug differs at byte {at}: {:?}, should be {:?}", near(&d), near(&e)));
        }
    }
    Ok(())
}

/// Arrays and objects of `n` elements: every way to build, print, copy, walk and take them apart.
fn crowded(seed: u64, n: usize, steps: usize, log: &mut Vec<&'static str>) -> Result<u64, String> {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut out = Vec::new();
    let mut ops = 0;
    // arrays
    let items: Vec<Slot> = (0..n).map(|i| item(r, i)).collect();
    let p: Vec<P> = items.iter().map(|(_, y)| y.clone()).collect();
    let vs = items.into_iter().map(|(x, _)| x);
    let a: Array = match r.below(3) {
        0 => vs.collect(),
        1 => {
            let mut a = Array::new();
            vs.for_each(|x| a.push(x));
            a
        }
        _ => {
            let mut a = Array::default();
            a.extend(vs);
            a
        }
    };
    let mut slot = (Value::Array(a), P::Arr(p));
    printed(&slot.0, &slot.1)?;
    log.push("large array");
    for k in 0..steps {
        // the copy is checked whole, then worked on
        let (mut v, mut p) = if k % 2 == 0 {
            (slot.0.clone(), slot.1.clone())
        } else {
            let mut x = Value::Array((0..r.size(40)).map(|i| item(r, i).0).collect());
            x.clone_from(&slot.0);
            (x, slot.1.clone())
        };
        if let (Value::Array(a), P::Arr(b)) = (&mut v, &mut p) {
            agree!(same_arr(a, b), "clone of {n} elements differs");
            if k % 4 == 3 {
                let mut c: Array = (0..r.below(2 * n + 1)).map(|_| Value::Null).collect();
                c.clone_from(a);
                agree!(same_arr(&c, b), "clone_from of {n} elements differs");
            }
            let (from, far) = (a.len(), r.size(n));
            match r.below(4) {
                0 => {
                    // from both ends, deep into the middle
                    let (mut i, mut j) = (std::mem::take(a).into_iter(), std::mem::take(b).into_iter());
                    for _ in 0..far {
                        if r.bool() {
                            pair(i.next(), j.next())?;
                        } else {
                            pair(i.next_back(), j.next_back())?;
                        }
                        agree!(i.len() == j.len() && i.size_hint() == j.size_hint(), "iterator length {} of {from}", i.len());
                    }
                    agree!(same_arr(i.as_slice(), j.as_slice()), "rest of the iterator");
                    a.extend(i);
                    b.extend(j);
                    log.push("large array consumed in part");
                }
                1 => {
                    // to the last one
                    let (mut i, mut j) = (std::mem::take(a).into_iter(), std::mem::take(b).into_iter());
                    while pair(i.next(), j.next())?.is_some() {}
                    log.push("large array consumed");
                }
                _ => {
                    log.push(array_op(r, a, b, &mut out)?);
                }
            }
            ops += 1;
        }
        printed(&v, &p)?;
        if let (Value::Array(a), P::Arr(b)) = (&slot.0, &slot.1) {
            agree!(same_arr(a, b), "the original of a clone changed");
        }
        if k % 3 == 2 {
            slot = (v, p);
            if let (Value::Array(a), P::Arr(b)) = (&mut slot.0, &mut slot.1) {
                while b.len() < n {
                    let (x, y) = item(r, b.len());
                    a.push(x);
                    b.push(y);
                }
            }
        }
        out.clear();
    }
    // objects
    let name = |i: usize| -> String {
        match i % 5 {
            0 => format!("{i:05}"),
            1 => format!("key {i} {}", "long ".repeat(i % 40)),
            2 => format!("é{i}"),
            _ => format!("{:x}", (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)),
        }
    };
    let items: Vec<(String, Slot)> = (0..n).map(|i| (name(i), item(r, i))).collect();
    let p: BTreeMap<String, P> = items.iter().map(|(k, (_, y))| (k.clone(), y.clone())).collect();
    let vs = items.into_iter().map(|(k, (x, _))| (k, x));
    let a: Object = match r.below(3) {
        0 => vs.collect(),
        1 => {
            let mut a = Object::new();
            vs.for_each(|(k, x)| assert!(a.insert(k, x).is_none()));
            a
        }
        _ => {
            let mut a = Object::default();
            a.extend(vs);
            a
        }
    };
    let mut slot = (Value::Object(a), P::Obj(p));
    printed(&slot.0, &slot.1)?;
    log.push("large object");
    for k in 0..steps {
        let (mut v, mut p) = if k % 2 == 0 {
            (slot.0.clone(), slot.1.clone())
        } else {
            let mut x = Value::Object((0..r.size(40)).map(|i| (name(i), item(r, i).0)).collect());
            x.clone_from(&slot.0);
            (x, slot.1.clone())
        };
        if let (Value::Object(a), P::Obj(b)) = (&mut v, &mut p) {
            agree!(same_obj(a, b), "clone of {n} members differs");
            if k % 4 == 3 {
                let mut c: Object = (0..r.below(2 * n + 1)).map(|i| (i.to_string(), Value::Null)).collect();
                c.clone_from(a);
                agree!(same_obj(&c, b), "clone_from of {n} members differs");
            }
            let far = r.size(n);
            match r.below(4) {
                0 => {
                    let (mut i, mut j) = (std::mem::take(a).into_iter(), std::mem::take(b).into_iter());
                    for _ in 0..far {
                        if r.bool() {
                            kpair(i.next(), j.next())?;
                        } else {
                            kpair(i.next_back(), j.next_back())?;
                        }
                        agree!(i.len() == j.len() && i.size_hint() == j.size_hint(), "iterator length {}", i.len());
                    }
                    a.extend(i);
                    b.extend(j);
                    log.push("large object consumed in part");
                }
                1 => {
                    let (mut i, mut j) = (std::mem::take(a).into_iter(), std::mem::take(b).into_iter());
                    while kpair(i.next(), j.next())?.is_some() {}
                    log.push("large object consumed");
                }
                _ => {
                    log.push(object_op(r, a, b, &mut out)?);
                }
            }
            ops += 1;
        }
        printed(&v, &p)?;
        if let (Value::Object(a), P::Obj(b)) = (&slot.0, &slot.1) {
            agree!(same_obj(a, b), "the original of a clone changed");
        }
        if k % 3 == 2 {
            slot = (v, p);
            if let (Value::Object(a), P::Obj(b)) = (&mut slot.0, &mut slot.1) {
                let mut i = 0;
                while b.len() < n {
                    let (x, y) = item(r, i);
                    a.insert(name(i), x);
                    b.insert(name(i), y);
                    i += 1;
                }
            }
        }
        out.clear();
    }
    Ok(ops)
}

/// One monitored history; heap level before and after.
fn attempt(cx: &mut Ctx, cap: usize, f: impl Fn(&mut Vec<&'static str>) -> Result<u64, String>) {
    let mut bad = None;
    for attempt in 0..2 {
        let mut log = Vec::with_capacity(cap);
        let a = alloc::stat();
        let r = guarded(|| f(&mut log));
        let b = alloc::stat();
        match r {
            Ended::Returned(Ok(n)) => {
                cx.seen("operations compared", n);
                if attempt == 0 {
                    for w in &log {
                        cx.seen(w, 1);
                    }
                }
                if a.live != b.live || a.blocks != b.blocks {
                    bad = Some(("heap not given back", format!("{} bytes in {} blocks", b.live - a.live, b.blocks - a.blocks)));
                    continue;
                }
                bad = None;
                break;
            }
            Ended::Returned(Err(mut e)) => {
                if e.len() > 2000 {
                    let n = (0..2000).rev().find(|&i| e.is_char_boundary(i)).unwrap_or(0);
                    e.truncate(n);
                }
                let tail: Vec<_> = log.iter().rev().take(6).rev().collect();
                bad = Some(("differs from the plain collection", format!("{e}; operations before: {tail:?}")));
                break;
            }
            Ended::Panicked(m) => {
                bad = Some(("panic", m));
                break;
            }
            Ended::Injected => {
                bad = Some(("stray injected panic", String::new()));
                break;
            }
        }
    }
    if let Some((w, d)) = bad {
        cx.violation(w, d);
    }
}

pub fn run(cx: &mut Ctx) {
    let _ = guarded(|| std::panic::panic_any(Injected));
    // large ones
    let top = cx.n(6, 13, 16);
    let sizes: Vec<usize> = (0..=if top > 6 { 140 } else { 12 }).chain((8..=top).flat_map(|b| [-1i64, 0, 1].map(|d| ((1i64 << b) + d) as usize))).chain([300, 999, 1000, 1001, 1023, 2000, 3000, 4999, 5000, 10_000].into_iter().filter(|_| top > 6)).collect();
    let reps = cx.n(1, 4, 12);
    let mut i = 0;
    for n in sizes {
        for _ in 0..reps {
            i += 1;
            if !cx.mine(i) || cx.done() {
                continue;
            }
            let seed = cx.rng.u64();
            let steps = if n > 20_000 { 4 } else { 9 };
            cx.case("large", &format!("seed {seed} size {n}"));
            attempt(cx, 4 * steps + 16, |log| crowded(seed, n, steps, log));
            cx.seen("elements in large containers", 2 * n as u64);
        }
    }
    // numbers
    for i in 0..cx.n(20, 20_000, 2_000_000) {
        if !cx.mine(i) || cx.stop() {
            continue;
        }
        let n = match i % 3 {
            0 => Number::U64(cx.rng.u64() >> cx.rng.below(64)),
            1 => Number::I64((cx.rng.u64() >> cx.rng.below(64)) as i64),
            _ => Number::F64(f64::from_bits(cx.rng.u64())),
        };
        if matches!(n, Number::F64(f) if !f.is_finite()) {
            continue;
        }
        cx.case("number", &format!("{n:?}"));
        let r = cx.call(|| (n.to_string(), json::to_string(&n), format!("{:?}", Value::Number(n.clone()))));
        if let Some((a, b, c)) = r {
            if a != b || c != format!("Number({b})") {
                cx.violation("Display and to_string differ", format!("{a} {b} {c}"));
            }
            cx.seen("numbers printed", 1);
        }
    }
    let rounds = cx.share(24, 800_000, 6_000_000);
    let steps = cx.n(25, 60, 120);
    for i in 0..rounds {
        if i % 8 == 0 && cx.done() {
            break;
        }
        let seed = cx.rng.u64();
        cx.case("history", &format!("seed {seed} steps {steps}"));
        attempt(cx, steps + 8, |log| history(seed, steps, log));
    }
}

/// One history in words; the same for the same seed.
pub fn replay(seed: u64, steps: usize) -> String {
    let mut log = Vec::new();
    let r = history(seed, steps, &mut log);
    format!("{r:?} {log:?}")
}
