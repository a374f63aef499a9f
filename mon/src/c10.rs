//! C10: workloads for the sanitizers. What decides is the sanitizer; the only thing judged here is
//! that every text handed out is UTF-8.

use crate::ctx::{self, guarded, Ctx, Ended, Injected, Tier};
use crate::gen;
use crate::model::{DocGen, Modeled, Schema, M};
use crate::rng::Rng;
use crate::value::Got;
use crate::zoo::{zoo, Entry};
use crate::{c11, c16};
use miniserde::de::{self, Visitor};
use miniserde::json::{self, Array, Object, Value};
use miniserde::ser::{self, Fragment};
use miniserde::{make_place, Deserialize, Error, Result, Serialize};
use std::borrow::Cow;
use std::cell::Cell;

// ---- texts ---------------------------------------------------------------------------------------

thread_local! {
    static TEXTS: Cell<u64> = const { Cell::new(0) };
    static BAD: Cell<u64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    /// Calls until the injected fault, and which: 1 error, 2 panic, 3 panic also in drops.
    static FUSE: Cell<(u64, u8)> = const { Cell::new((u64::MAX, 0)) };
}

fn text(s: &str) {
    TEXTS.set(TEXTS.get() + 1);
    if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
        BAD.set(BAD.get() + 1);
    }
}

/// Goes through all that was read: every byte of it is looked at.
fn look(m: &M) {
    match m {
        M::Str(s) => text(s),
        M::Some(m) => look(m),
        M::Seq(v) | M::Struct(v) => v.iter().for_each(look),
        M::Map(v) => v.iter().for_each(|(k, m)| {
            text(k);
            look(m);
        }),
        M::Json(v) => v.iter().for_each(|g| match g {
            Got::Str(s) | Got::Key(s) => text(s),
            other => _ = std::hint::black_box(format!("{other:?}")),
        }),
        other => _ = std::hint::black_box(format!("{other:?}")),
    }
}

fn step() -> Result<()> {
    EVENTS.set(EVENTS.get() + 1);
    let (n, kind) = FUSE.get();
    FUSE.set((n.wrapping_sub(1), kind));
    match (n, kind) {
        (1, 1) => Err(Error),
        (1, 2 | 3) => std::panic::panic_any(Injected),
        _ => Ok(()),
    }
}

/// In `begin`, `next` and drops, where there is no error to return.
fn step_panic(drop: bool) {
    EVENTS.set(EVENTS.get() + 1);
    let (n, kind) = FUSE.get();
    FUSE.set((n.wrapping_sub(1), kind));
    if n == 1 && (kind == 3 || kind == 2 && !drop) && !std::thread::panicking() {
        std::panic::panic_any(Injected);
    }
}

// ---- calling the visitors of any type directly, in any order ----------------------------------------

pub fn drive_type<T: Modeled>(r: &mut Rng, budget: usize) {
    let mut out = if r.chance(1, 4) { Some(T::gen(r, 2)) } else { None };
    let mut b = budget;
    for _ in 0..r.range(1, 3) {
        let v = <T as Deserialize>::begin(&mut out);
        drive(v, &T::schema(), r, &mut b);
        if let Some(t) = &out {
            look(&t.dump());
        }
        if r.chance(1, 4) {
            out = None;
        }
    }
    if let Some(t) = out {
        text(&json::to_string(&t));
    }
}

fn temp(r: &mut Rng) -> String {
    let n = r.below(6);
    gen::gen_text(r, n)
}

fn drive(v: &mut dyn Visitor, s: &Schema, r: &mut Rng, b: &mut usize) {
    for _ in 0..if r.chance(1, 5) { 3 } else { 1 } {
        if *b == 0 {
            return;
        }
        *b -= 1;
        EVENTS.set(EVENTS.get() + 1);
        if r.chance(1, 8) {
            anything(v, r, b);
            continue;
        }
        match s {
            Schema::Lazy(f) => return drive(v, &f(), r, b),
            Schema::Pinned(s) => return drive(v, s, r, b),
            Schema::Unit => _ = v.null(),
            Schema::Bool => _ = v.boolean(r.bool()),
            Schema::Int(lo, hi) => {
                let n = *r.pick(&[*lo, *hi, 1, 0, *hi + 1]);
                if n < 0 {
                    _ = v.negative(n as i64);
                } else {
                    _ = v.nonnegative(n as u64);
                }
            }
            Schema::F32 | Schema::F64 => _ = v.float(*r.pick(&[0.5, f64::INFINITY, f64::NAN, 1e300])),
            Schema::Str => {
                let t = temp(r);
                _ = v.string(&t);
            }
            Schema::Enum(names) => _ = v.string(&r.pick(names).to_string()),
            Schema::Opt(s) => {
                if r.chance(1, 4) {
                    _ = v.null();
                } else {
                    return drive(v, s, r, b);
                }
            }
            Schema::Seq(s) => {
                let n = r.below(5);
                seq(v, n, &|_| (**s).clone(), r, b);
            }
            Schema::Arr(s, n) => {
                let n = (*n + 1).saturating_sub(r.below(3));
                seq(v, n, &|_| (**s).clone(), r, b);
            }
            Schema::Pair(x, y) => {
                let n = 3 - r.below(3);
                seq(v, n, &|i| if i == 0 { (**x).clone() } else { (**y).clone() }, r, b);
            }
            Schema::Map(_, sample, s) => {
                let n = r.below(4);
                let mut keys: Vec<(String, Schema)> = (0..n).map(|_| (sample(r), (**s).clone())).collect();
                if r.chance(1, 3) {
                    keys.push((temp(r), (**s).clone()));
                }
                map(v, &keys, r, b);
            }
            Schema::Struct(f) => {
                let mut keys: Vec<(String, Schema)> = f.iter().map(|(k, s)| ((*k).to_owned(), s.clone())).collect();
                if r.chance(1, 3) && !keys.is_empty() {
                    let k = r.below(keys.len());
                    let again = keys[r.below(keys.len())].clone();
                    keys[k] = again;
                }
                if r.chance(1, 3) {
                    keys.push(("unknown".into(), Schema::Json));
                }
                map(v, &keys, r, b);
            }
            Schema::Json | Schema::JsonNum => anything(v, r, b),
            Schema::JsonArr => {
                let n = r.below(4);
                seq(v, n, &|_| Schema::Json, r, b);
            }
            Schema::JsonObj => {
                let keys: Vec<_> = (0..r.below(4)).map(|_| (temp(r), Schema::Json)).collect();
                map(v, &keys, r, b);
            }
        }
    }
}

fn anything(v: &mut dyn Visitor, r: &mut Rng, b: &mut usize) {
    match r.below(8) {
        0 => _ = v.null(),
        1 => _ = v.boolean(true),
        2 => {
            let t = temp(r);
            _ = v.string(&t);
        }
        3 => _ = v.negative(-1),
        4 => _ = v.nonnegative(7),
        5 => _ = v.float(1.5),
        6 => {
            let n = r.below(3);
            seq(v, n, &|_| Schema::Json, r, b);
        }
        _ => {
            let keys: Vec<_> = (0..r.below(3)).map(|_| (temp(r), Schema::Json)).collect();
            map(v, &keys, r, b);
        }
    }
}

fn seq(v: &mut dyn Visitor, n: usize, item: &dyn Fn(usize) -> Schema, r: &mut Rng, b: &mut usize) {
    let Ok(mut s) = v.seq() else { return };
    for i in 0..n {
        match r.below(20) {
            0 => _ = s.finish(),
            1 => _ = s.element().is_ok(),
            _ => {
                if let Ok(v) = s.element() {
                    drive(v, &item(i), r, b);
                }
            }
        }
    }
    if r.chance(9, 10) {
        _ = s.finish();
    }
    if r.chance(1, 10) {
        if let Ok(v) = s.element() {
            drive(v, &item(0), r, b);
        }
        if r.bool() {
            _ = s.finish();
        }
    }
    if r.chance(1, 40) {
        std::mem::forget(s);
    }
}

fn map(v: &mut dyn Visitor, keys: &[(String, Schema)], r: &mut Rng, b: &mut usize) {
    let Ok(mut m) = v.map() else { return };
    for (k, s) in keys {
        // the key's text is gone while its value is made
        let k = k.clone();
        match r.below(20) {
            0 => _ = m.finish(),
            1 => _ = m.key(&k).is_ok(),
            _ => {
                if let Ok(v) = m.key(&k) {
                    drop(k);
                    drive(v, s, r, b);
                }
            }
        }
    }
    if r.chance(9, 10) {
        _ = m.finish();
    }
    if r.chance(1, 10) {
        if let Ok(v) = m.key("a") {
            drive(v, &Schema::Json, r, b);
        }
        if r.bool() {
            _ = m.finish();
        }
    }
    if r.chance(1, 40) {
        std::mem::forget(m);
    }
}

// ---- the streams of any type, in any order -----------------------------------------------------------

pub fn stream_type<T: Modeled>(r: &mut Rng, d: usize) {
    let t = T::gen(r, d);
    let mut b = 40;
    stream(&t, r, &mut b);
}

fn stream(v: &dyn Serialize, r: &mut Rng, b: &mut usize) {
    if *b == 0 {
        return;
    }
    *b -= 1;
    EVENTS.set(EVENTS.get() + 1);
    if r.chance(1, 8) {
        // begun twice at once
        let one = v.begin();
        let two = v.begin();
        fragment(two, r, b);
        fragment(one, r, b);
    } else {
        fragment(v.begin(), r, b);
    }
}

fn fragment(f: Fragment, r: &mut Rng, b: &mut usize) {
    match f {
        Fragment::Str(s) => text(&s),
        Fragment::Seq(mut s) => {
            while let Some(x) = s.next() {
                if r.chance(1, 12) {
                    break;
                }
                if !r.chance(1, 12) {
                    stream(x, r, b);
                }
            }
            if r.chance(1, 4) {
                if let Some(x) = s.next() {
                    stream(x, r, b);
                }
            }
        }
        Fragment::Map(mut m) => {
            while let Some((k, x)) = m.next() {
                if r.chance(1, 12) {
                    break;
                }
                if !r.chance(1, 12) {
                    stream(x, r, b);
                }
                text(&k);
            }
            if r.chance(1, 4) {
                if let Some((k, x)) = m.next() {
                    text(&k);
                    stream(x, r, b);
                }
            }
        }
        _ => {}
    }
}

// ---- user builders that touch everything they borrow, all the time -------------------------------------

/// Written through by its builder's children.
pub struct Node {
    text: String,
    n: u64,
    kids: Vec<(String, Node)>,
}

impl Node {
    fn leaf(n: u64) -> Node {
        Node { text: String::from("leaf"), n, kids: Vec::new() }
    }
    fn sum(&self) -> u64 {
        text(&self.text);
        self.kids.iter().fold(self.n, |a, (k, x)| {
            text(k);
            a.wrapping_mul(3).wrapping_add(x.sum())
        })
    }
}

make_place!(Spot);

impl Visitor for Spot<Node> {
    fn null(&mut self) -> Result<()> {
        step()?;
        self.out = Some(Node::leaf(0));
        Ok(())
    }
    fn boolean(&mut self, b: bool) -> Result<()> {
        step()?;
        self.out = Some(Node::leaf(b.into()));
        Ok(())
    }
    fn string(&mut self, s: &str) -> Result<()> {
        step()?;
        text(s);
        self.out = Some(Node { text: s.to_owned(), n: 1, kids: Vec::new() });
        Ok(())
    }
    fn negative(&mut self, n: i64) -> Result<()> {
        step()?;
        self.out = Some(Node::leaf(n as u64));
        Ok(())
    }
    fn nonnegative(&mut self, n: u64) -> Result<()> {
        step()?;
        self.out = Some(Node::leaf(n));
        Ok(())
    }
    fn float(&mut self, n: f64) -> Result<()> {
        step()?;
        self.out = Some(Node::leaf(n.to_bits()));
        Ok(())
    }
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        step()?;
        self.out = Some(Node::leaf(5));
        Ok(Box::new(Builder { node: Node::leaf(9), slots: Vec::new(), inline: None, flip: false, out: &mut self.out }))
    }
    fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
        step()?;
        self.out = Some(Node::leaf(6));
        Ok(Box::new(Builder { node: Node::leaf(8), slots: Vec::new(), inline: None, flip: false, out: &mut self.out }))
    }
}

struct Builder<'a> {
    node: Node,
    /// Grows, and moves, between children.
    slots: Vec<(String, Option<Node>)>,
    inline: Option<Node>,
    flip: bool,
    out: &'a mut Option<Node>,
}

impl Builder<'_> {
    fn touch(&mut self) {
        if let Some(o) = self.out {
            o.n = o.n.wrapping_add(1);
            o.text.push('.');
            if o.text.len() > 30 {
                o.text = String::new();
            }
        }
        self.node.n ^= 1;
        if let Some(x) = self.inline.take() {
            self.node.kids.push((String::from("inline"), x));
        }
    }
    fn child(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        step()?;
        text(k);
        self.touch();
        self.flip = !self.flip;
        if self.flip {
            self.slots.push((k.to_owned(), None));
            Ok(Deserialize::begin(&mut self.slots.last_mut().unwrap().1))
        } else {
            Ok(Deserialize::begin(&mut self.inline))
        }
    }
    fn end(&mut self) -> Result<()> {
        step()?;
        self.touch();
        for (k, x) in self.slots.drain(..) {
            if let Some(x) = x {
                self.node.kids.push((k, x));
            }
        }
        let n = std::mem::replace(&mut self.node, Node::leaf(2));
        *self.out = Some(n);
        Ok(())
    }
}

impl Drop for Builder<'_> {
    fn drop(&mut self) {
        self.touch();
        for (k, x) in &self.slots {
            text(k);
            if let Some(x) = x {
                std::hint::black_box(x.sum());
            }
        }
        std::hint::black_box(self.node.sum());
        step_panic(true);
    }
}

impl de::Seq for Builder<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.child("")
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}

impl de::Map for Builder<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.child(k)
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}

impl Deserialize for Node {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Spot::new(out)
    }
    fn default() -> Option<Self> {
        Some(Node::leaf(1))
    }
}

/// One object that is visitor and builder of every level at once, each level borrowing it from the
/// level above, and each telling it when it goes.
struct Chain {
    log: Vec<u8>,
    extra: Box<u64>,
}

struct Link<'a>(&'a mut Chain, u8);

impl Chain {
    fn add(&mut self, x: u8) -> Result<()> {
        self.log.push(x);
        *self.extra += 1;
        step()
    }
}

impl Visitor for Chain {
    fn null(&mut self) -> Result<()> {
        self.add(b'n')
    }
    fn boolean(&mut self, _: bool) -> Result<()> {
        self.add(b'b')
    }
    fn string(&mut self, s: &str) -> Result<()> {
        text(s);
        self.add(b's')
    }
    fn negative(&mut self, _: i64) -> Result<()> {
        self.add(b'-')
    }
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        self.add(b'+')
    }
    fn float(&mut self, _: f64) -> Result<()> {
        self.add(b'.')
    }
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        self.add(b'[')?;
        Ok(Box::new(Link(self, b']')))
    }
    fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
        self.add(b'{')?;
        Ok(Box::new(Link(self, b'}')))
    }
}

impl de::Seq for Link<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.0.add(b',')?;
        Ok(self.0)
    }
    fn finish(&mut self) -> Result<()> {
        self.0.add(b'f')
    }
}

impl de::Map for Link<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        text(k);
        self.0.add(b':')?;
        Ok(self.0)
    }
    fn finish(&mut self) -> Result<()> {
        self.0.add(b'f')
    }
}

impl Drop for Link<'_> {
    fn drop(&mut self) {
        self.0.log.push(self.1);
        *self.0.extra += 1;
        step_panic(true);
    }
}

impl Visitor for Spot<Chain> {
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        self.out = Some(Chain { log: Vec::new(), extra: Box::new(0) });
        self.out.as_mut().unwrap().seq()
    }
    fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
        self.out = Some(Chain { log: Vec::new(), extra: Box::new(0) });
        self.out.as_mut().unwrap().map()
    }
}

impl Deserialize for Chain {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Spot::new(out)
    }
}

/// A struct whose generated builder holds user places.
#[derive(Deserialize)]
struct Outer<T> {
    a: T,
    b: Box<T>,
    c: Option<T>,
    d: Option<Vec<Box<T>>>,
    e: Option<[T; 2]>,
    f: Option<(T, T)>,
}

// ---- user streams that lend what they own -----------------------------------------------------------------

struct Lender {
    depth: u8,
    width: u8,
    kind: u8,
    touched: Cell<u64>,
    name: String,
}

struct LendIter<'a> {
    parent: &'a Lender,
    left: u8,
    key: String,
    child: Lender,
    list: Vec<u16>,
}

impl Lender {
    fn new(depth: u8, width: u8, kind: u8) -> Lender {
        Lender { depth, width, kind, touched: Cell::new(0), name: format!("name{depth}\n") }
    }
}

impl LendIter<'_> {
    fn advance(&mut self) -> bool {
        step_panic(false);
        self.parent.touched.set(self.parent.touched.get() + 1);
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        self.key = format!("key\"{}", self.left);
        self.list.push(self.left.into());
        self.child = Lender::new(self.parent.depth - 1, self.parent.width, self.parent.kind.wrapping_mul(5).wrapping_add(self.left));
        true
    }
}

impl ser::Seq for LendIter<'_> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        if !self.advance() {
            return None;
        }
        if self.left % 4 == 3 {
            Some(&self.list)
        } else {
            Some(&self.child)
        }
    }
}

impl ser::Map for LendIter<'_> {
    fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
        if !self.advance() {
            return None;
        }
        let k = if self.left % 2 == 0 { Cow::Borrowed(&self.key[..]) } else { Cow::Owned(self.key.clone()) };
        Some((k, if self.left % 4 == 3 { &self.list as &dyn Serialize } else { &self.child }))
    }
}

impl Drop for LendIter<'_> {
    fn drop(&mut self) {
        self.parent.touched.set(self.parent.touched.get() + 1);
        text(&self.parent.name);
        text(&self.child.name);
        text(&self.key);
        step_panic(true);
    }
}

impl Drop for Lender {
    fn drop(&mut self) {
        text(&self.name);
        self.depth = 0;
        self.name.clear();
        self.name.push_str("gone");
    }
}

impl Serialize for Lender {
    fn begin(&self) -> Fragment {
        step_panic(false);
        self.touched.set(self.touched.get() + 1);
        let iter = || LendIter { parent: self, left: self.width, key: String::new(), child: Lender::new(0, 0, 0), list: Vec::new() };
        match self.kind % 8 {
            _ if self.depth == 0 => match self.kind % 5 {
                0 => Fragment::Str(Cow::Borrowed(&self.name)),
                1 => Fragment::Str(Cow::Owned(self.name.clone())),
                2 => Fragment::U64(self.touched.get()),
                3 => Fragment::F64(0.5),
                _ => Fragment::Null,
            },
            0..=3 => Fragment::Seq(Box::new(iter())),
            _ => Fragment::Map(Box::new(iter())),
        }
    }
}

// ---- rounds -------------------------------------------------------------------------------------------------

fn hostile_string(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    for _ in 0..r.below(6) {
        match r.below(9) {
            0 => s.push_str("\\u"),
            1 => s.push_str(&format!("\\u{:04x}", 0xD7F0 + r.below(0x820))),
            2 => s.push_str(&format!("\\u{:04X}", 0xD800 + r.below(0x800))),
            3 => s.push_str(&format!("\\u{:04x}", r.below(0x10000))),
            4 => s.push_str(*r.pick(&["\\n", "\\\"", "\\\\", "\\x", "\\", "\\u12", "\\uD83D\\uDE00", "\\ud83d", "\\ude00\\ud83d"])),
            5 => s.push(gen::gen_char(r)),
            6 => s.push_str("ab\u{e9}\u{20ac}\u{1f600}"),
            7 => s.push_str("\\u00"),
            _ => s.push('x'),
        }
    }
    if !r.chance(1, 6) {
        s.push('"');
    }
    s
}

fn small_doc(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    small(r, 0, max, &mut s);
    s
}

fn small(r: &mut Rng, d: usize, max: usize, s: &mut String) {
    if d >= 4 || s.len() > max {
        s.push_str(*r.pick(&["1", "null", "\"x\\n\"", "-2", "true", "0.5", "\"\"", "[]", "{}"]));
        return;
    }
    match r.below(5) {
        0 | 1 => {
            s.push('[');
            for i in 0..r.below(5) {
                if i > 0 {
                    s.push(',');
                }
                small(r, d + 1, max, s);
            }
            s.push(']');
        }
        2 | 3 => {
            s.push('{');
            for i in 0..r.below(5) {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(*r.pick(&["\"a\":", "\"b\":", "\"\\u0063\":", "\"d\":", "\"e\":", "\"f\":", "\"other\":"]));
                small(r, d + 1, max, s);
            }
            s.push('}');
        }
        _ => small(r, 9, max, s),
    }
}

fn outer_doc(r: &mut Rng, max: usize) -> String {
    let mut s = String::from("{");
    for k in ["a", "b", "c", "d", "e", "f"] {
        if r.chance(1, 10) {
            continue;
        }
        if s.len() > 1 {
            s.push(',');
        }
        s.push_str(&format!("\"{k}\":"));
        let n = match k {
            "e" | "f" => 2,
            "d" => r.below(4),
            _ => {
                s.push('[');
                small(r, 2, max, &mut s);
                s.push(']');
                continue;
            }
        };
        s.push('[');
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            s.push('[');
            small(r, 3, max, &mut s);
            s.push(']');
        }
        s.push(']');
    }
    s.push('}');
    s
}

fn faulty(cx: &mut Ctx, name: &str, cap: usize, mut f: impl FnMut()) {
    FUSE.set((u64::MAX, 0));
    let before = EVENTS.get();
    let _ = guarded(&mut f);
    let n = EVENTS.get() - before;
    for kind in 1..=3 {
        let mut tries: Vec<u64> = (1..=n).collect();
        cx.rng.shuffle(&mut tries);
        for k in tries.into_iter().take(cap) {
            FUSE.set((k, kind));
            let _ = guarded(&mut f);
            cx.seen(if kind == 1 { "errors injected" } else { "panics injected" }, 1);
        }
    }
    FUSE.set((u64::MAX, 0));
    cx.seen(name, 1);
}

fn values(r: &mut Rng) {
    // partly consumed, leaked and exchanged parts
    let mut a: Array = (0..r.below(5)).map(|_| crate::model::gen_value(r, 2, true)).collect();
    let mut o: Object = (0..r.below(5)).map(|i| (format!("k{i}"), crate::model::gen_value(r, 2, true))).collect();
    let n = r.below(4);
    let mut it = a.clone().into_iter();
    for _ in 0..n {
        std::hint::black_box(format!("{:?}", if r.bool() { it.next() } else { it.next_back() }));
    }
    let rest: Array = it.collect();
    a.clone_from(&rest);
    let mut it = o.clone().into_iter();
    for _ in 0..n {
        std::hint::black_box(format!("{:?}", it.next()));
    }
    let rest: Object = it.collect();
    if let Some(x) = o.get_mut("k0") {
        *x = Value::Object(rest);
    }
    let v = std::mem::take(&mut *a);
    o.insert("v".into(), Value::Array(v.into_iter().collect()));
    a.push(Value::Object(o));
    for x in &mut a {
        if let Value::Object(o) = x {
            o.retain(|k, _| k.len() % 2 == 0);
        }
    }
    text(&json::to_string(&a));
    for x in a {
        text(&json::to_string(&x));
    }
}

fn ignores(r: &mut Rng) {
    let a = <dyn Visitor>::ignore();
    let b = <dyn Visitor>::ignore();
    _ = a.null();
    _ = b.string("x");
    let mut k = 30;
    {
        let mut s = a.seq().unwrap();
        let x = s.element().unwrap();
        let mut m = b.map().unwrap();
        let y = m.key("k").unwrap();
        drive(x, &Schema::Json, r, &mut k);
        drive(y, &Schema::Json, r, &mut k);
        _ = m.finish();
        _ = s.finish();
    }
    drive(a, &Schema::Json, r, &mut k);
    drive(b, &Schema::Json, r, &mut k);
}

fn one(cx: &mut Ctx, types: &[Entry], cases: &[c11::Case], which: usize) {
    let mini = cx.tier == Tier::Mini;
    let small_size = if mini { 30 } else { 200 };
    match which {
        0 | 1 => {
            let e = &types[cx.rng.below(types.len())];
            let seed = cx.rng.u64();
            cx.case("direct calls", &format!("{} from seed {seed}", e.name));
            let _ = guarded(|| (e.drive)(&mut Rng::new(seed), if mini { 25 } else { 200 }));
            cx.seen("types driven directly", 1);
        }
        2 => {
            let e = &types[cx.rng.below(types.len())];
            let seed = cx.rng.u64();
            cx.case("streams", &format!("{} from seed {seed}", e.name));
            let d = if mini { 2 } else { 4 };
            let _ = guarded(|| (e.stream)(&mut Rng::new(seed), d));
            cx.seen("values streamed directly", 1);
        }
        3 => {
            let e = &types[cx.rng.below(types.len())];
            let mut doc = String::new();
            let mut g = DocGen::random(&mut cx.rng);
            let depth = if mini { 2 } else { 4 };
            g.doc(&mut cx.rng, &(e.schema)(), depth, &mut doc);
            if mini && doc.len() > 150 || doc.len() > 5000 {
                return;
            }
            cx.case(e.name, &doc);
            let parse = |d: &str| {
                if let Ended::Returned(Ok(m)) = guarded(|| (e.parse)(d)) {
                    look(&m);
                }
            };
            parse(&doc);
            for _ in 0..if mini { 2 } else { 20 } {
                let mut k = cx.rng.below(doc.len() + 1);
                while !doc.is_char_boundary(k) {
                    k -= 1;
                }
                parse(&doc[..k]);
            }
            let bad = gen::mutate(&mut cx.rng, &doc);
            parse(&bad);
            if let Ended::Returned(Some(t)) = guarded(|| (e.rewrite)(&doc)) {
                text(&t);
            }
            cx.seen("typed parses", 1);
        }
        4 => {
            let d = small_doc(&mut cx.rng, small_size);
            cx.case("builders", &d);
            faulty(cx, "documents through user builders", if mini { 3 } else { 60 }, || {
                if let Ok(n) = json::from_str::<Node>(&d) {
                    std::hint::black_box(n.sum());
                }
            });
        }
        5 => {
            let d = small_doc(&mut cx.rng, small_size);
            cx.case("chain", &d);
            faulty(cx, "documents through one chain", if mini { 3 } else { 60 }, || {
                if let Ok(n) = json::from_str::<Chain>(&d) {
                    std::hint::black_box((n.log.len(), n.extra));
                }
            });
        }
        6 => {
            let mut d = outer_doc(&mut cx.rng, small_size / 4);
            if cx.rng.chance(1, 4) {
                d = gen::mutate(&mut cx.rng, &d);
            }
            cx.case("derived", &d);
            let chain = cx.rng.bool();
            faulty(cx, "documents through derived builders", if mini { 2 } else { 60 }, || {
                if chain {
                    if let Ok(o) = json::from_str::<Outer<Chain>>(&d) {
                        std::hint::black_box((o.a.log, o.b.log, o.c.map(|c| c.log), o.d.map(|d| d.len()), o.e.map(|[a, _]| a.log), o.f.map(|(_, b)| b.log)));
                    }
                } else if let Ok(o) = json::from_str::<Outer<Node>>(&d) {
                    std::hint::black_box((
                        o.a.sum(),
                        o.b.sum(),
                        o.c.map(|c| c.sum()),
                        o.d.map(|d| d.iter().map(|x| x.sum()).max()),
                        o.e.map(|[a, b]| a.sum() ^ b.sum()),
                        o.f.map(|(a, b)| a.sum() ^ b.sum()),
                    ));
                }
            });
        }
        7 => {
            let r = &mut cx.rng;
            let (d, w) = if mini { (r.below(4), r.below(3)) } else { (r.below(5), r.below(5)) };
            let kind = r.below(256) as u8;
            cx.case("lenders", &format!("depth {d}, width {w}, kind {kind}"));
            faulty(cx, "lending streams written", if mini { 3 } else { 60 }, || {
                let top = vec![Lender::new(d as u8, w as u8, kind)];
                text(&json::to_string(&top));
            });
        }
        8 => {
            let seed = cx.rng.u64();
            cx.case("value operations", &seed.to_string());
            let _ = guarded(|| c16::replay(seed, if mini { 8 } else { 60 }));
            cx.seen("histories of value operations", 1);
        }
        9 => {
            let r = Rng::new(cx.rng.u64());
            cx.case("ledger cases with faults", &cx.evals.to_string());
            let mut r = r;
            for _ in 0..if mini { 1 } else { 8 } {
                c11::disturb(&mut r, cases);
            }
            cx.seen("ledger cases with faults", 1);
        }
        10 => {
            let mut s = hostile_string(&mut cx.rng);
            if cx.rng.chance(1, 3) {
                s = format!("{{{s}:[{}]}}", hostile_string(&mut cx.rng));
            }
            cx.case("texts", &s);
            let _ = guarded(|| {
                if let Ok(t) = json::from_str::<String>(&s) {
                    text(&t);
                    text(&json::to_string(&t));
                }
                if let Ok(v) = json::from_str::<Value>(&s) {
                    crate::value::walk(&v).iter().for_each(|g| {
                        if let Got::Str(s) | Got::Key(s) = g {
                            text(s);
                        }
                    });
                }
                _ = json::from_str::<Node>(&s);
                _ = json::from_str::<char_key::Keyed>(&s);
            });
        }
        11 => {
            let seed = cx.rng.u64();
            cx.case("parts of values", &seed.to_string());
            let _ = guarded(|| values(&mut Rng::new(seed)));
            cx.seen("parts of values exchanged", 1);
        }
        _ => {
            let seed = cx.rng.u64();
            cx.case("ignoring visitors", &seed.to_string());
            let _ = guarded(|| ignores(&mut Rng::new(seed)));
            cx.seen("ignoring visitors at once", 1);
        }
    }
    if BAD.get() > 0 {
        cx.violation("a str that is not UTF-8", format!("{} of {}", BAD.get(), TEXTS.get()));
        BAD.set(0);
    }
    let (e, t) = (EVENTS.replace(0), TEXTS.replace(0));
    cx.seen("callbacks and direct calls", e);
    cx.seen("texts looked at", t);
}

mod char_key {
    pub type Keyed = std::collections::HashMap<char, Option<char_opt::C>>;
    mod char_opt {
        use miniserde::de::Visitor;
        use miniserde::{make_place, Deserialize, Error, Result};
        pub struct C(#[allow(dead_code)] char);
        make_place!(P);
        impl Visitor for P<C> {
            fn string(&mut self, s: &str) -> Result<()> {
                super::super::text(s);
                self.out = Some(C(s.chars().last().ok_or(Error)?));
                Ok(())
            }
            fn seq(&mut self) -> Result<Box<dyn miniserde::de::Seq + '_>> {
                Err(Error)
            }
        }
        impl Deserialize for C {
            fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
                P::new(out)
            }
        }
    }
}

pub fn run(cx: &mut Ctx, args: &[String]) {
    let types = zoo();
    let cases = c11::cases();
    let rounds = cx.n(100_000, 400_000, 20_000_000);
    let only: Option<usize> = args.iter().find_map(|a| a.strip_prefix("only=").and_then(|x| x.parse().ok()));
    for i in 0..rounds {
        if cx.done() {
            break;
        }
        one(cx, &types, &cases, only.unwrap_or((i + cx.shard) % 13));
    }
    let _ = ctx::show("");
}
