//! C09: how deep the call stack gets. Each operation runs on a thread whose stack is a mapping of
//! our own; afterwards the lowest page that was touched tells how much of it was used.

use crate::ctx::{guarded, Ctx, Ended, Injected, Tier};
use crate::gen;
use crate::refjson;
use crate::rng::Rng;
use miniserde::de::{self, Visitor};
use miniserde::json::{self, Array, Object, Value};
use miniserde::ser::{self, Fragment};
use miniserde::{make_place, Deserialize, Result, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::ffi::c_void;

const STACK: usize = 4 << 30;
/// Growth from a shallow to a deep nesting that is still "the same" (4 pages).
const SLACK: usize = 16 << 10;

unsafe extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
    fn mincore(addr: *mut u8, len: usize, vec: *mut u8) -> i32;
    fn pthread_attr_init(a: *mut [u64; 16]) -> i32;
    fn pthread_attr_setstack(a: *mut [u64; 16], p: *mut u8, n: usize) -> i32;
    fn pthread_create(t: *mut u64, a: *const [u64; 16], f: extern "C" fn(*mut c_void) -> *mut c_void, x: *mut c_void) -> i32;
    fn pthread_join(t: u64, r: *mut *mut c_void) -> i32;
}

pub struct Meter {
    base: *mut u8,
    pages: Vec<u8>,
    deepest: usize,
}

type Job = Box<dyn FnOnce() + Send>;

extern "C" fn entry(x: *mut c_void) -> *mut c_void {
    let slot = unsafe { &mut *x.cast::<(Option<Job>, Option<Ended<()>>)>() };
    let f = slot.0.take().unwrap();
    slot.1 = Some(guarded(f));
    std::ptr::null_mut()
}

impl Meter {
    pub fn new() -> Meter {
        // PROT_READ|WRITE, MAP_PRIVATE|ANONYMOUS|NORESERVE
        let base = unsafe { mmap(std::ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        assert!(base as isize != -1, "stack mapping");
        unsafe { madvise(base, STACK, 15) }; // MADV_NOHUGEPAGE
        Meter { base, pages: vec![0; STACK / 4096], deepest: STACK }
    }

    /// Bytes of stack used by `f`, in whole pages.
    pub fn run(&mut self, f: Job) -> (usize, Ended<()>) {
        unsafe {
            assert_eq!(madvise(self.base, STACK, 4), 0); // MADV_DONTNEED
            let mut attr = [0u64; 16];
            assert_eq!(pthread_attr_init(&mut attr), 0);
            assert_eq!(pthread_attr_setstack(&mut attr, self.base, STACK), 0);
            let mut slot: (Option<Job>, Option<Ended<()>>) = (Some(f), None);
            let mut t = 0;
            assert_eq!(pthread_create(&mut t, &attr, entry, (&raw mut slot).cast()), 0);
            assert_eq!(pthread_join(t, std::ptr::null_mut()), 0);
            // pages of the lower part are looked at in growing windows from the top
            let mut window = 1 << 20;
            loop {
                let lo = STACK - window;
                let n = window / 4096;
                assert_eq!(mincore(self.base.add(lo), window, self.pages.as_mut_ptr()), 0);
                let first = self.pages[..n].iter().position(|p| p & 1 == 1).unwrap_or(n);
                if first > 16 || window == STACK {
                    self.deepest = self.deepest.min(lo + first * 4096);
                    return (STACK - (lo + first * 4096), slot.1.unwrap());
                }
                window = (window * 16).min(STACK);
            }
        }
    }
}

// ---- recursive user types ----------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct List {
    v: Option<u8>,
    next: Option<Box<List>>,
}

impl Drop for List {
    fn drop(&mut self) {
        let mut n = self.next.take();
        while let Some(mut b) = n {
            n = b.next.take();
        }
    }
}

/// Either of two links.
#[derive(Serialize, Deserialize)]
struct Fork {
    a: Option<Box<Fork>>,
    b: Option<Box<Fork>>,
}

impl Drop for Fork {
    fn drop(&mut self) {
        let mut todo: Vec<Box<Fork>> = self.a.take().into_iter().chain(self.b.take()).collect();
        while let Some(mut f) = todo.pop() {
            todo.extend(f.a.take());
            todo.extend(f.b.take());
        }
    }
}

/// Arrays of itself.
struct Nest(Vec<Nest>);

impl Drop for Nest {
    fn drop(&mut self) {
        let mut todo = std::mem::take(&mut self.0);
        while let Some(mut n) = todo.pop() {
            todo.append(&mut n.0);
        }
    }
}

make_place!(NestPlace);
impl Visitor for NestPlace<Nest> {
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        struct B<'a> {
            out: &'a mut Option<Nest>,
            vec: Vec<Nest>,
            item: Option<Nest>,
        }
        impl de::Seq for B<'_> {
            fn element(&mut self) -> Result<&mut dyn Visitor> {
                self.vec.extend(self.item.take());
                Ok(Deserialize::begin(&mut self.item))
            }
            fn finish(&mut self) -> Result<()> {
                self.vec.extend(self.item.take());
                *self.out = Some(Nest(std::mem::take(&mut self.vec)));
                Ok(())
            }
        }
        Ok(Box::new(B { out: &mut self.out, vec: Vec::new(), item: None }))
    }
}
impl Deserialize for Nest {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        NestPlace::new(out)
    }
}
impl Serialize for Nest {
    fn begin(&self) -> Fragment<'_> {
        self.0.begin()
    }
}

/// Wrapper giving types their recursion through the crate's own impls; leaked, so that std's own
/// recursive drop glue stays out of the measurement.
#[derive(Serialize, Deserialize)]
struct Vecs {
    x: Vec<Vecs>,
}
#[derive(Serialize, Deserialize)]
struct Maps {
    x: BTreeMap<String, Maps>,
}
#[derive(Serialize, Deserialize)]
struct Hashes {
    x: HashMap<String, Hashes>,
}
#[derive(Serialize, Deserialize)]
struct Pairs {
    x: Option<Box<(u8, Pairs)>>,
}
#[derive(Serialize, Deserialize)]
struct Fixed {
    x: Option<Box<[Fixed; 1]>>,
}
#[derive(Serialize, Deserialize)]
struct Boxes {
    x: Box<Option<Box<Boxes>>>,
}
#[derive(Serialize, Deserialize)]
struct Gen<T> {
    x: Option<T>,
}
struct Knot(Box<Gen<Knot>>);
impl Deserialize for Knot {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        impl Visitor for Place<Knot> {
            fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
                struct M<'a> {
                    out: &'a mut Option<Knot>,
                    x: Option<Option<Knot>>,
                }
                impl de::Map for M<'_> {
                    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
                        if k == "x" {
                            Ok(Deserialize::begin(&mut self.x))
                        } else {
                            Ok(<dyn Visitor>::ignore())
                        }
                    }
                    fn finish(&mut self) -> Result<()> {
                        *self.out = Some(Knot(Box::new(Gen { x: self.x.take().flatten() })));
                        Ok(())
                    }
                }
                Ok(Box::new(M { out: &mut self.out, x: None }))
            }
        }
        Place::new(out)
    }
}
impl Serialize for Knot {
    fn begin(&self) -> Fragment<'_> {
        self.0.begin()
    }
}

/// A node that makes its child only when asked for it.
struct Lend {
    depth: usize,
    map: fn(usize) -> bool,
    panic: bool,
}
impl Serialize for Lend {
    fn begin(&self) -> Fragment<'_> {
        struct S(Lend, u8);
        impl ser::Seq for S {
            fn next(&mut self) -> Option<&dyn Serialize> {
                self.1 += 1;
                match self.1 {
                    1 => Some(&1u8),
                    2 => Some(&self.0),
                    3 => Some(&"x"),
                    _ => None,
                }
            }
        }
        impl ser::Map for S {
            fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
                self.1 += 1;
                match self.1 {
                    1 => Some((Cow::Borrowed("k"), &self.0)),
                    2 => Some((Cow::Owned("z".into()), &())),
                    _ => None,
                }
            }
        }
        if self.depth == 0 {
            if self.panic {
                std::panic::panic_any(Injected);
            }
            return Fragment::Null;
        }
        let below = Lend { depth: self.depth - 1, ..*self };
        if (self.map)(self.depth) {
            Fragment::Map(Box::new(S(below, 0)))
        } else {
            Fragment::Seq(Box::new(S(below, 0)))
        }
    }
}

/// Accepts anything, keeps nothing; at the innermost scalar it fails or panics.
struct Hostile;
static PANIC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
make_place!(HPlace);
impl HPlace<Hostile> {
    fn leaf(&mut self) -> Result<()> {
        if PANIC.load(std::sync::atomic::Ordering::Relaxed) {
            std::panic::panic_any(Injected);
        }
        Err(miniserde::Error)
    }
}
impl Visitor for HPlace<Hostile> {
    fn null(&mut self) -> Result<()> {
        self.leaf()
    }
    fn boolean(&mut self, _: bool) -> Result<()> {
        self.leaf()
    }
    fn string(&mut self, _: &str) -> Result<()> {
        self.leaf()
    }
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        self.leaf()
    }
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        Ok(Box::new(HB(None, Value::Null)))
    }
    fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
        Ok(Box::new(HB(None, Value::Array(Array::new()))))
    }
}
struct HB(Option<Hostile>, #[allow(dead_code)] Value);
impl de::Seq for HB {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        Ok(Hostile::begin(&mut self.0))
    }
    fn finish(&mut self) -> Result<()> {
        Ok(())
    }
}
impl de::Map for HB {
    fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
        Ok(Hostile::begin(&mut self.0))
    }
    fn finish(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Deserialize for Hostile {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        HPlace::new(out)
    }
}

#[derive(Serialize, Deserialize)]
struct Holder {
    a: Value,
    b: Option<Value>,
    c: Vec<Value>,
}
#[derive(Deserialize)]
struct Skips {
    #[allow(dead_code)]
    z: Option<u8>,
}

// ---- operations --------------------------------------------------------------------------------

struct Op {
    name: &'static str,
    /// What to run on the measured stack, for a document (built here, on the ordinary stack).
    make: fn(&str) -> Job,
}

fn val(doc: &str) -> Value {
    match doc.strip_prefix('#') {
        Some(recipe) => {
            let (seed, depth) = recipe.split_once(' ').unwrap();
            built(seed.parse().unwrap(), depth.parse().unwrap())
        }
        None => json::from_str(doc).expect("generated document"),
    }
}

/// A value that no parse would make, put together through the interface of Array and Object:
/// spare room, members that came and went, exact sizes, neighbours of all kinds. A low seed
/// repeats one way at every level.
fn built(seed: u64, depth: usize) -> Value {
    const WAYS: u64 = 12;
    let mut r = Rng::new(seed);
    let mut v = Value::Null;
    for level in 0..depth {
        let way = if seed < WAYS {
            seed
        } else if seed < 2 * WAYS {
            (seed + level as u64) % WAYS
        } else {
            r.below(WAYS as usize) as u64
        };
        let key = |r: &mut Rng| ["", "a", "b", "key", "\u{e9}"][r.below(5)].to_owned();
        let small = |r: &mut Rng| -> Value {
            match r.below(4) {
                0 => Value::Array(Array::new()),
                1 => Value::Object(Object::new()),
                2 => Value::String("s".into()),
                _ => Value::Null,
            }
        };
        v = match way {
            0 => Value::Array([v].into_iter().collect()),
            1 => {
                let mut a = Array::new();
                a.reserve(1 + r.below(40));
                a.push(v);
                Value::Array(a)
            }
            2 => {
                let mut a = Array::new();
                for _ in 0..2 + r.below(9) {
                    a.push(small(&mut r));
                }
                a.truncate(1 + r.below(2));
                a.push(v);
                if r.below(2) == 0 {
                    a.swap_remove(0);
                } else {
                    a.remove(0);
                }
                Value::Array(a)
            }
            3 => {
                let mut a = Array::new();
                for _ in 0..r.below(6) {
                    a.push(small(&mut r));
                }
                a.push(v);
                for _ in 0..r.below(6) {
                    a.push(small(&mut r));
                }
                Value::Array(a)
            }
            4 => {
                let mut a: Array = (0..r.below(4)).map(|_| small(&mut r)).collect();
                a.insert(0, v);
                a.shrink_to_fit();
                Value::Array(a)
            }
            5 => {
                let mut a: Array = [Value::Null, v, Value::Null].into_iter().collect();
                a.rotate_left(1);
                let keep = a.split_off(0);
                *a = keep;
                Value::Array(a)
            }
            6 => Value::Object([(key(&mut r), v)].into_iter().collect()),
            7 => {
                let mut o = Object::new();
                o.insert("a".into(), small(&mut r));
                o.insert("b".into(), v);
                o.remove("a");
                Value::Object(o)
            }
            8 => {
                let mut o = Object::new();
                for i in 0..r.below(14) {
                    o.insert(format!("{i}"), small(&mut r));
                }
                o.insert(key(&mut r), v);
                Value::Object(o)
            }
            9 => {
                let mut o = Object::new();
                *o.entry("k".into()).or_insert(Value::Null) = v;
                Value::Object(o)
            }
            10 => {
                // turned round
                let a: Array = [v].into_iter().collect();
                let o: Object = a.into_iter().map(|x| ("t".to_owned(), x)).collect();
                Value::Object(o)
            }
            _ => {
                let mut o = Object::new();
                o.insert("x".into(), small(&mut r));
                o.insert("y".into(), std::mem::take(&mut v));
                let rest = o.split_off("y");
                let mut p = Object::new();
                *p = rest;
                Value::Object(p)
            }
        };
    }
    v
}
const BUILT: usize = 30;

fn arr(doc: &str) -> Array {
    let mut a = Array::new();
    a.push(val(doc));
    a.push(Value::Null);
    a.push(val(doc));
    a
}

fn obj(doc: &str) -> Object {
    let mut o = Object::new();
    o.insert("a".to_owned(), val(doc));
    o.insert("b".to_owned(), Value::Null);
    o.insert("c".to_owned(), val(doc));
    o
}

macro_rules! parse_as {
    ($name:literal, $t:ty, $fmt:literal) => {
        Op {
            name: $name,
            make: |doc| {
                let text = format!($fmt, d = doc);
                Box::new(move || {
                    assert!(json::from_str::<$t>(&text).is_ok());
                })
            },
        }
    };
}

macro_rules! fail_as {
    ($name:literal, $t:ty, $fmt:literal) => {
        Op {
            name: $name,
            make: |doc| {
                let text = format!($fmt, d = doc);
                Box::new(move || {
                    assert!(json::from_str::<$t>(&text).is_err());
                })
            },
        }
    };
}

macro_rules! on {
    ($name:literal, $v:ident, $build:expr, $run:expr) => {
        Op {
            name: $name,
            make: |doc| {
                #[allow(unused_mut)]
                let mut $v = ($build)(doc);
                Box::new(move || {
                    $run;
                })
            },
        }
    };
}

macro_rules! unwinding {
    ($name:literal, $build:expr) => {
        Op {
            name: $name,
            make: |doc| {
                let v = ($build)(doc);
                Box::new(move || {
                    let _v = v;
                    std::panic::panic_any(Injected);
                })
            },
        }
    };
}

fn ops() -> Vec<Op> {
    vec![
        parse_as!("parse Value", Value, "{d}"),
        parse_as!("parse Option<Value>", Option<Value>, "{d}"),
        parse_as!("parse Box<Value>", Box<Value>, "{d}"),
        parse_as!("parse Vec<Value>", Vec<Value>, "[{d},1,{d}]"),
        parse_as!("parse Array", Array, "[0,{d}]"),
        parse_as!("parse Object", Object, "{{\"k\":{d},\"l\":2}}"),
        parse_as!("parse [Value; 2]", [Value; 2], "[{d},{d}]"),
        parse_as!("parse (Value, Value)", (Value, Value), "[{d},{d}]"),
        parse_as!("parse BTreeMap", BTreeMap<String, Value>, "{{\"k\":{d}}}"),
        parse_as!("parse HashMap", HashMap<String, Value>, "{{\"k\":{d}}}"),
        parse_as!("parse repeated key", Value, "{{\"k\":{d},\"k\":1,\"k\":{d}}}"),
        parse_as!("parse repeated key, map", HashMap<String, Value>, "{{\"k\":{d},\"k\":1,\"k\":{d}}}"),
        parse_as!("parse struct of Values", Holder, "{{\"a\":{d},\"b\":{d},\"c\":[{d},{d}],\"a\":{d},\"b\":null,\"c\":[]}}"),
        parse_as!("ignored member", Skips, "{{\"x\":{d},\"z\":1,\"y\":{d}}}"),
        fail_as!("fail: trailing text", Value, "{d}x"),
        fail_as!("fail: Vec, second element bad", Vec<Value>, "[{d},{d}"),
        fail_as!("fail: Array, missing comma", Array, "[{d} 1]"),
        fail_as!("fail: Object, bad key", Object, "{{\"k\":{d},1:2}}"),
        fail_as!("fail: map, cut", BTreeMap<String, Value>, "{{\"k\":{d},\"l\":"),
        fail_as!("fail: array too long", [Value; 2], "[{d},{d},{d}]"),
        fail_as!("fail: tuple too short", (Value, Value), "[{d}]"),
        fail_as!("fail: struct, missing member", Holder, "{{\"a\":{d},\"b\":{d}}}"),
        fail_as!("fail: struct, cut", Holder, "{{\"a\":{d},\"b\":{d},\"c\":[{d}"),
        fail_as!("fail: ignored member, cut", Skips, "{{\"x\":{d}"),
        fail_as!("fail: wrong kind", BTreeMap<String, u8>, "{{\"k\":{d}}}"),
        on!("drop Value", v, val, drop(v)),
        on!("drop Option<Value>", v, |d| Some(val(d)), drop(v)),
        on!("drop Box<Value>", v, |d| Box::new(val(d)), drop(v)),
        on!("drop Vec<Value>", v, |d| vec![val(d), Value::Null, val(d)], drop(v)),
        on!("drop [Value; 2]", v, |d| [val(d), val(d)], drop(v)),
        on!("drop Array", v, arr, drop(v)),
        on!("drop Object", v, obj, drop(v)),
        on!("drop BTreeMap", v, |d| BTreeMap::from([(1u8, val(d)), (2, val(d))]), drop(v)),
        on!("drop HashMap", v, |d| HashMap::from([(1u8, val(d)), (2, val(d))]), drop(v)),
        on!("drop struct", v, |d| Holder { a: val(d), b: Some(val(d)), c: vec![val(d)] }, drop(v)),
        on!("assign", v, val, {
            v = Value::Null;
            drop(v)
        }),
        on!("replace in Array", v, arr, {
            v[0] = Value::Null;
            v[2] = Value::String(String::new());
            std::mem::forget(v)
        }),
        on!("Array::clear", v, arr, v.clear()),
        on!("Array::truncate", v, arr, v.truncate(1)),
        on!("Array::pop", v, arr, drop(v.pop())),
        on!("Array::remove", v, arr, drop(v.remove(0))),
        on!("Array::swap_remove", v, arr, drop(v.swap_remove(0))),
        on!("Array::drain", v, arr, drop(v.drain(..))),
        on!("Array::drain, one taken", v, arr, {
            let mut d = v.drain(..);
            drop(d.next());
            drop(d);
        }),
        on!("Array::retain", v, arr, v.retain(|x| matches!(x, Value::Null))),
        on!("Array::split_off", v, arr, drop(v.split_off(1))),
        on!("take Vec out of Array", v, arr, drop(std::mem::take(&mut *v))),
        on!("Array into_iter, all", v, arr, for x in v {
            drop(x)
        }),
        on!("Array into_iter, none", v, arr, drop(v.into_iter())),
        on!("Array into_iter, first", v, arr, {
            let mut i = v.into_iter();
            drop(i.next());
            drop(i)
        }),
        on!("Array into_iter, last", v, arr, drop(v.into_iter().last())),
        on!("Array into_iter, collected", v, arr, drop(v.into_iter().collect::<Array>())),
        on!("Object::insert over", v, obj, {
            v.insert("a".to_owned(), Value::Null);
            drop(v)
        }),
        on!("Object::remove", v, obj, drop(v.remove("a"))),
        on!("Object::clear", v, obj, v.clear()),
        on!("Object::retain", v, obj, v.retain(|k, _| k == "b")),
        on!("Object::split_off", v, obj, drop(v.split_off("b"))),
        on!("take BTreeMap out of Object", v, obj, drop(std::mem::take(&mut *v))),
        on!("Object into_iter, all", v, obj, for x in v {
            drop(x)
        }),
        on!("Object into_iter, none", v, obj, drop(v.into_iter())),
        on!("Object into_iter, first", v, obj, {
            let mut i = v.into_iter();
            drop(i.next());
            drop(i)
        }),
        on!("Object into_iter, last", v, obj, drop(v.into_iter().last())),
        on!("Object into_iter, collected", v, obj, drop(v.into_iter().collect::<Object>())),
        on!("Vec<Value> into Array, dropped", v, |d| vec![val(d), val(d)], drop(v.into_iter().collect::<Array>())),
        unwinding!("unwind past Value", val),
        unwinding!("unwind past Array", arr),
        unwinding!("unwind past Object iterator", |d| {
            let mut i = obj(d).into_iter();
            i.next();
            i
        }),
        on!("to_string Value", v, val, drop(json::to_string(&v))),
        on!("to_string Array", v, arr, drop(json::to_string(&v))),
        on!("to_string Object", v, obj, drop(json::to_string(&v))),
        on!("to_string Vec<&Value>", v, val, drop(json::to_string(&vec![&v, &v]))),
        on!("to_string Option<Box<Value>>", v, |d| Some(Box::new(val(d))), drop(json::to_string(&v))),
        on!("to_string struct", v, |d| Holder { a: val(d), b: Some(val(d)), c: vec![val(d)] }, drop(json::to_string(&v))),
        on!("to_string map", v, |d| HashMap::from([("k", val(d))]), drop(json::to_string(&v))),
        Op {
            name: "visitor fails at the innermost value",
            make: |doc| {
                let doc = doc.to_owned();
                Box::new(move || {
                    PANIC.store(false, std::sync::atomic::Ordering::Relaxed);
                    assert!(json::from_str::<Hostile>(&doc).is_err());
                })
            },
        },
        Op {
            name: "visitor panics at the innermost value",
            make: |doc| {
                let doc = doc.to_owned();
                Box::new(move || {
                    PANIC.store(true, std::sync::atomic::Ordering::Relaxed);
                    let _ = json::from_str::<Hostile>(&doc);
                })
            },
        },
    ]
}

/// Failures at a place inside the nest: `doc` cut or broken there.
fn broken(r: &mut Rng, doc: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let b = doc.as_bytes();
    for k in 0..10 {
        let mut at = if k == 0 { doc.len() / 2 } else { r.below(doc.len()) };
        while !doc.is_char_boundary(at) {
            at -= 1;
        }
        out.push((format!("cut at {at} of {}", b.len()), doc[..at].to_owned()));
        let c = *r.pick(&["]", "}", "#", "\"", ",", ":", "1e999", "\\", "\u{1}", "nul"]);
        out.push((format!("{c:?} at {at}"), format!("{}{c}{}", &doc[..at], &doc[at..])));
    }
    out
}

// ---- typed recursion: text of each depth ---------------------------------------------------------

type Typed = (&'static str, fn(usize) -> String, fn(&str, bool) -> Job);

fn rep(open: &str, mid: &str, close: &str, n: usize) -> String {
    format!("{}{mid}{}", open.repeat(n), close.repeat(n))
}

/// Parse (result leaked: std's drop glue for such types recurses), or write it.
fn both<T: Deserialize + Serialize + Send + 'static>(doc: &str, write: bool) -> Job {
    if write {
        let v = json::from_str::<T>(doc).expect("typed document");
        Box::new(move || {
            drop(json::to_string(&v));
            std::mem::forget(v);
        })
    } else {
        let doc = doc.to_owned();
        Box::new(move || match json::from_str::<T>(&doc) {
            Ok(v) => std::mem::forget(v),
            Err(_) => {}
        })
    }
}

fn typed() -> Vec<Typed> {
    vec![
        ("linked list", |n| rep("{\"v\":1,\"next\":", "null", "}", n), both::<List>),
        ("linked list, link first", |n| rep("{\"next\":", "null", ",\"v\":null,\"junk\":[1]}", n), both::<List>),
        ("fork", |n| rep("{\"a\":null,\"b\":{\"a\":", "null", "},\"z\":\"\"}", n / 2), both::<Fork>),
        ("nested arrays by hand", |n| rep("[[],", "[]", ",[]]", n), both::<Nest>),
        ("Vec", |n| rep("{\"x\":[", "", "]}", n), both::<Vecs>),
        ("Vec with siblings", |n| rep("{\"x\":[{\"x\":[]},", "{\"x\":[]}", ",{\"x\":[]}]}", n), both::<Vecs>),
        ("BTreeMap", |n| rep("{\"x\":{\"k\":", "{\"x\":{}}", "}}", n), both::<Maps>),
        ("HashMap", |n| rep("{\"x\":{\"k\":", "{\"x\":{}}", "}}", n), both::<Hashes>),
        ("tuple", |n| rep("{\"x\":[1,", "{\"x\":null}", "]}", n), both::<Pairs>),
        ("array", |n| rep("{\"x\":[", "{\"x\":null}", "]}", n), both::<Fixed>),
        ("boxes", |n| rep("{\"x\":", "null", "}", n), both::<Boxes>),
        ("generic", |n| rep("{\"x\":", "null", ",\"y\":{}}", n), both::<Knot>),
    ]
}

const LENDERS: [fn(usize) -> bool; 4] = [|_| false, |_| true, |d| d % 2 == 0, |d| d % 3 == 0];

// ---- the monitor ---------------------------------------------------------------------------------

struct Site<'a> {
    meter: &'a mut Meter,
    base: usize,
}

impl Site<'_> {
    fn measure(&mut self, cx: &mut Ctx, name: &str, shallow: Job, deep: Vec<(usize, Box<dyn FnOnce() -> Job + '_>)>, doc: &str) {
        let (a, e0) = self.meter.run(shallow);
        if let Ended::Panicked(m) = e0 {
            cx.case(name, doc);
            cx.violation("panic", m);
            return;
        }
        for (n, make) in deep {
            cx.case(name, &format!("{doc} -- nested {n} deep"));
            let (b, e) = self.meter.run(make());
            if let Ended::Panicked(m) = e {
                cx.violation("panic", m);
                return;
            }
            cx.seen("deep operations measured", 1);
            cx.max("max stack of a deep operation, bytes", b as u64);
            cx.max("max growth, bytes", b.saturating_sub(a) as u64);
            cx.max("max depth", n as u64);
            if b > a + SLACK {
                cx.violation(
                    "stack use grows with depth",
                    format!("{name}: {a} bytes at depth {}, {b} bytes at depth {n}", self.base),
                );
                return;
            }
        }
    }
}

/// A document for `depth`: the same shape at every depth.
fn shaped(shape: usize, seed: u64, depth: usize) -> String {
    let plain = |open: &str, mid: &str, close: &str| rep(open, mid, close, depth);
    match shape {
        0 => plain("[", "1", "]"),
        1 => plain("{\"a\":", "\"x\"", "}"),
        2 => rep("[{\"a\":", "null", "}]", depth / 2),
        3 => rep("{\"a\":[", "", "]}", depth / 2),
        4 => plain("[[],", "0", "]"),
        5 => plain("[", "0", ",{}]"),
        6 => plain("{\"a\":{},\"b\":", "true", "}"),
        7 => plain("{\"b\":", "2.5", ",\"a\":[]}"),
        8 => plain("[null,\"s\",", "[1]", ",1,2]"),
        9 => plain("{\"k\":1,\"k\":", "1", ",\"z\":\"\"}"),
        10 => plain("{\"k\":", "1", ",\"k\":[]}"), // every deep child replaced
        11 => rep("[[1,2],{\"q\":[3]},{\"w\":", "{}", ",\"v\":{\"u\":1}},4]", depth / 2),
        12 => rep("[", "1", "]", depth / 2).replace('1', &rep("{\"a\":", "1", "}", depth - depth / 2)),
        13 => rep("{\"a\":", "1", "}", depth / 2).replace('1', &rep("[", "1", "]", depth - depth / 2)),
        _ => {
            let mut r = Rng::new(seed);
            let sib = *r.pick(&[0, 0, 10, 50, 100]);
            gen::gen_deep(&mut r, depth, sib)
        }
    }
}
const SHAPES: usize = 14;

pub fn run(cx: &mut Ctx) {
    let mut meter = Meter::new();
    let base = 300;
    let depths: &[usize] = match cx.tier {
        Tier::Thorough => &[3000, 60_000, 1_000_000],
        _ => &[40_000],
    };
    let mut site = Site { meter: &mut meter, base };
    let ops = ops();
    let mut job = 0;
    // the meter works: a function that recurses must be seen
    {
        fn recurse(n: usize) -> usize {
            let mut x = [n; 4];
            std::hint::black_box(&mut x);
            if n == 0 {
                0
            } else {
                recurse(n - 1) + x[0]
            }
        }
        let (a, _) = site.meter.run(Box::new(|| drop(std::hint::black_box(recurse(300)))));
        let (b, _) = site.meter.run(Box::new(|| drop(std::hint::black_box(recurse(40_000)))));
        assert!(b > a + 40_000 * 32, "meter: {a} {b}");
        cx.seen("meter self-test", 1);
    }
    let rounds = cx.n(0, 40, 4000);
    for round in (0..SHAPES).chain(SHAPES..SHAPES + rounds) {
        if round == SHAPES {
            others(cx, &mut site, &mut job, &ops, depths);
        }
        for o in &ops {
            job += 1;
            if !cx.mine(job) || cx.done() {
                continue;
            }
            let shape = round;
            // every operation on every fixed shape; random shapes beyond
            let seed = cx.seed.wrapping_mul(7919) + round as u64;
            let small = shaped(shape, seed, base);
            if refjson::parse(&small).verdict != refjson::Verdict::Accept {
                continue;
            }
            let deep: Vec<(usize, Box<dyn FnOnce() -> Job>)> = depths
                .iter()
                .filter(|n| **n <= 100_000 || shape < SHAPES)
                .filter_map(|&n| {
                    let d = shaped(shape, seed, n);
                    if refjson::parse(&d).verdict != refjson::Verdict::Accept {
                        return None;
                    }
                    Some((n, Box::new(move || (o.make)(&d)) as Box<dyn FnOnce() -> Job>))
                })
                .collect();
            site.measure(cx, o.name, (o.make)(&small), deep, &crate::ctx::show(&small));
        }
        // failing parses: broken anywhere
        job += 1;
        if cx.mine(job) && !cx.done() {
            let seed = cx.seed.wrapping_mul(104_729) + round as u64;
            let small = shaped(round, seed, base);
            let mut r = Rng::new(seed);
            let mut lo = 0;
            for (_, d) in broken(&mut r, &small) {
                let (a, _) = site.meter.run(Box::new(move || drop(json::from_str::<Value>(&d))));
                lo = lo.max(a);
            }
            for &n in depths.iter().filter(|n| **n <= 100_000) {
                let big = shaped(round, seed, n);
                for (what, d) in broken(&mut r, &big) {
                    cx.case("broken", &format!("{} -- {what}", crate::ctx::show(&d)));
                    for ignored in [false, true] {
                        let d = if ignored { format!("{{\"i\":{d}") } else { d.clone() };
                        let (b, e) = site.meter.run(Box::new(move || {
                            if ignored {
                                drop(json::from_str::<Skips>(&d))
                            } else {
                                drop(json::from_str::<Value>(&d))
                            }
                        }));
                        if let Ended::Panicked(m) = e {
                            cx.violation("panic", m);
                        }
                        cx.seen("failing parses measured", 1);
                        cx.max("max growth, bytes", b.saturating_sub(lo) as u64);
                        if b > lo + SLACK {
                            cx.violation("stack use grows with depth", format!("failing parse, {what}: {lo} bytes at depth {base}, {b} at {n}"));
                        }
                    }
                }
            }
        }
    }
    if rounds == 0 {
        others(cx, &mut site, &mut job, &ops, depths);
    }
}

fn others(cx: &mut Ctx, site: &mut Site, job: &mut usize, ops: &[Op], depths: &[usize]) {
    let base = site.base;
    let more = cx.n(0, BUILT, 600);
    for seed in 0..more {
        for o in ops.iter().filter(|o| !["parse", "fail", "ignored", "visitor"].iter().any(|p| o.name.starts_with(p))) {
            *job += 1;
            if !cx.mine(*job) || cx.done() {
                continue;
            }
            // the first way at every level, several ways in turn, any way: few random ones for the quick tier
            let deep: Vec<(usize, Box<dyn FnOnce() -> Job>)> = depths
                .iter()
                .filter(|n| **n <= 100_000)
                .map(|&n| (n, Box::new(move || (o.make)(&format!("#{seed} {n}"))) as Box<dyn FnOnce() -> Job>))
                .collect();
            let name = format!("{} (built by hand)", o.name);
            site.measure(cx, &name, (o.make)(&format!("#{seed} {base}")), deep, &format!("recipe {seed}"));
            cx.seen("operations on values built by hand", 1);
        }
    }
    for (name, text, make) in typed() {
        for write in [false, true] {
            *job += 1;
            if !cx.mine(*job) || cx.done() {
                continue;
            }
            let deep: Vec<(usize, Box<dyn FnOnce() -> Job>)> = depths
                .iter()
                .map(|&n| (n, Box::new(move || make(&text(n), write)) as Box<dyn FnOnce() -> Job>))
                .collect();
            let label = format!("typed {name}, {}", if write { "written" } else { "parsed" });
            site.measure(cx, &label, make(&text(base), write), deep, &crate::ctx::show(&text(3)));
            if !write {
                // cut while open: nothing deep is complete yet
                let cut = |n: usize| {
                    let t = text(n);
                    let open = t.find("null").or_else(|| t.find("[]")).unwrap_or(t.len() / 2).max(t.len() / 3);
                    t[..open].to_owned()
                };
                let deep: Vec<(usize, Box<dyn FnOnce() -> Job>)> = depths
                    .iter()
                    .map(|&n| (n, Box::new(move || make(&cut(n), false)) as Box<dyn FnOnce() -> Job>))
                    .collect();
                site.measure(cx, &format!("typed {name}, cut"), make(&cut(base), false), deep, &crate::ctx::show(&cut(3)));
            }
        }
    }
    for (i, map) in LENDERS.iter().enumerate() {
        for panic in [false, true] {
            *job += 1;
            if !cx.mine(*job) || cx.done() {
                continue;
            }
            let go = move |depth: usize| -> Job { Box::new(move || drop(json::to_string(&Lend { depth, map: *map, panic }))) };
            let deep: Vec<(usize, Box<dyn FnOnce() -> Job>)> = depths
                .iter()
                .map(|&n| (n * 5, Box::new(move || go(n * 5)) as Box<dyn FnOnce() -> Job>))
                .collect();
            site.measure(cx, "lending stream", go(base), deep, &format!("kind {i}{}", if panic { ", panic at the bottom" } else { "" }));
        }
    }
}
