//! C13: recorded serialization traces of user-written nodes and streams, with panics injected.

use crate::alloc;
use crate::ctx::{guarded, Ctx, Ended, Injected, Tier};
use crate::gen;
use crate::rng::Rng;
use miniserde::json;
use miniserde::ser::{self, Fragment};
use miniserde::Serialize;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Begin(u32),
    Next(u32),
    Drop(u32),
}

thread_local! {
    static TRACE: RefCell<Vec<T>> = const { RefCell::new(Vec::new()) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn log(t: T) {
    TRACE.with(|v| v.borrow_mut().push(t));
    if !std::thread::panicking() {
        TICK.set(TICK.get() + 1);
        if TICK.get() == AT.get() {
            std::panic::panic_any(Injected);
        }
    }
}

/// How a stream provides its children.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Give {
    /// References into the tree.
    Borrow,
    /// The child is made when asked for and kept in the stream (the previous one is destroyed).
    Lend,
    /// The same, in a box.
    LendBox,
    /// All of a container of std or this crate.
    Vec,
    Slice,
    Array,
    Pair,
    Derived,
    Sorted,
    Hashed,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wrap {
    Plain,
    Ref,
    Boxed,
    Some,
    Cow,
    CowOwned,
    OwnBox,
    Dyn,
}

#[derive(Clone, Debug)]
enum Kind {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    /// Text, and whether the fragment owns it.
    Str(String, bool),
    Seq(Give, Vec<Node>),
    Map(Give, Vec<(String, bool, Node)>),
    /// Plain: begin() of the content is called; otherwise a one-element array of the content behind a wrapper.
    Wrapped(Wrap, Box<Node>),
}

/// `poison` is a heap cell overwritten on drop: a node used after its stream is gone differs.
#[derive(Debug)]
struct Node {
    id: u32,
    kind: Kind,
}

impl Clone for Node {
    fn clone(&self) -> Node {
        LIVE.set(LIVE.get() + 1);
        Node { id: self.id, kind: self.kind.clone() }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
        if let Kind::Str(s, _) = &mut self.kind {
            // what has been handed out must have been written by now
            let n = s.len();
            s.clear();
            for _ in 0..n {
                s.push('~');
            }
        }
        self.id = u32::MAX;
    }
}

struct Stream<'a> {
    id: u32,
    give: Give,
    seq: &'a [Node],
    map: &'a [(String, bool, Node)],
    at: usize,
    ended: bool,
    kept: Option<Node>,
    boxed: Option<Box<Node>>,
    key: String,
}

impl Drop for Stream<'_> {
    fn drop(&mut self) {
        log(T::Drop(self.id));
    }
}

impl Stream<'_> {
    fn keep(&mut self, n: &Node) {
        match self.give {
            Give::Lend => {
                self.kept = None;
                self.kept = Some(n.clone());
            }
            Give::LendBox => {
                self.boxed = None;
                self.boxed = Some(Box::new(n.clone()));
            }
            _ => {}
        }
    }
}

impl ser::Seq for Stream<'_> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        log(T::Next(self.id));
        let seq = self.seq;
        let Some(n) = seq.get(self.at) else {
            self.ended = true;
            return None;
        };
        self.at += 1;
        self.keep(n);
        Some(match self.give {
            Give::Lend => self.kept.as_ref().unwrap(),
            Give::LendBox => self.boxed.as_ref().unwrap(),
            _ => n,
        })
    }
}

impl ser::Map for Stream<'_> {
    fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
        log(T::Next(self.id));
        let map = self.map;
        let Some((k, owned, n)) = map.get(self.at) else {
            self.ended = true;
            return None;
        };
        self.at += 1;
        self.keep(n);
        self.key.clear();
        self.key.push_str(k);
        let key = if *owned {
            Cow::Owned(k.clone())
        } else if self.give == Give::Borrow {
            Cow::Borrowed(k.as_str())
        } else {
            Cow::Borrowed(self.key.as_str())
        };
        Some((
            key,
            match self.give {
                Give::Lend => self.kept.as_ref().unwrap(),
                Give::LendBox => self.boxed.as_ref().unwrap(),
                _ => n,
            },
        ))
    }
}

/// Borrowed views handing children through this crate's own streams.
#[derive(Serialize)]
struct Three<'a> {
    a: &'a Node,
    b: Option<&'a Node>,
    #[serde(rename = "c\n")]
    c: Box<&'a Node>,
}

struct Owned<T>(T);

impl Serialize for Node {
    fn begin(&self) -> Fragment<'_> {
        log(T::Begin(self.id));
        match &self.kind {
            Kind::Null => Fragment::Null,
            Kind::Bool(b) => Fragment::Bool(*b),
            Kind::U(n) => Fragment::U64(*n),
            Kind::I(n) => Fragment::I64(*n),
            Kind::F(n) => Fragment::F64(*n),
            Kind::Str(s, true) => Fragment::Str(Cow::Owned(s.clone())),
            Kind::Str(s, false) => Fragment::Str(Cow::Borrowed(s)),
            Kind::Seq(g, v) => match g {
                Give::Vec => v.begin(),
                Give::Slice => ser_slice(v),
                Give::Array if v.len() == 3 => {
                    let a: &[Node; 3] = v.as_slice().try_into().unwrap();
                    a.begin()
                }
                Give::Pair if v.len() == 2 => Owned((&v[0], &v[1])).whole(),
                _ => Fragment::Seq(Box::new(self.stream(*g, v, &[]))),
            },
            Kind::Map(g, v) => match g {
                Give::Derived if v.len() == 3 => {
                    let t = Three { a: &v[0].2, b: Some(&v[1].2), c: Box::new(&v[2].2) };
                    Owned(t).whole()
                }
                Give::Sorted => {
                    let m: BTreeMap<&str, &Node> = v.iter().map(|(k, _, n)| (k.as_str(), n)).collect();
                    Owned(m).whole()
                }
                Give::Hashed => {
                    let m: HashMap<&str, &Node> = v.iter().map(|(k, _, n)| (k.as_str(), n)).collect();
                    Owned(m).whole()
                }
                _ => Fragment::Map(Box::new(self.stream(*g, &[], v))),
            },
            Kind::Wrapped(w, n) => match w {
                Wrap::Plain => n.begin(),
                Wrap::Ref => Owned(&**n).whole(),
                Wrap::Boxed => Owned(Box::new(&**n)).whole(),
                Wrap::Some => Owned(Some(&**n)).whole(),
                Wrap::Cow => Owned(Cow::Borrowed(&**n)).whole(),
                Wrap::CowOwned => Owned(Cow::<Node>::Owned((**n).clone())).whole(),
                Wrap::OwnBox => Owned(Some(Box::new((**n).clone()))).whole(),
                Wrap::Dyn => {
                    let d: Box<dyn Serialize + '_> = Box::new(&**n);
                    Owned(d).whole()
                }
            },
        }
    }
}

fn ser_slice(v: &[Node]) -> Fragment<'_> {
    v.begin()
}

/// A stream that owns a whole value and yields what that value's own stream yields: a wrapper
/// node, written as a one-element array, so that the owner is alive meanwhile.
impl<'a, X: Serialize + 'a> Owned<X> {
    fn whole(self) -> Fragment<'a> {
        struct Once<X>(X, bool);
        impl<X: Serialize> ser::Seq for Once<X> {
            fn next(&mut self) -> Option<&dyn Serialize> {
                if self.1 {
                    return None;
                }
                self.1 = true;
                Some(&self.0)
            }
        }
        Fragment::Seq(Box::new(Once(self.0, false)))
    }
}

impl Node {
    fn stream<'a>(&self, give: Give, seq: &'a [Node], map: &'a [(String, bool, Node)]) -> Stream<'a> {
        Stream { id: self.id, give, seq, map, at: 0, ended: false, kept: None, boxed: None, key: String::new() }
    }
}

// ---- generator and oracle ------------------------------------------------------------------------

struct Made {
    next: u32,
    budget: usize,
}

fn node(r: &mut Rng, m: &mut Made, d: usize) -> Node {
    let id = m.next;
    m.next += 1;
    m.budget = m.budget.saturating_sub(1);
    LIVE.set(LIVE.get() + 1);
    let leaf = d == 0 || m.budget == 0;
    let kind = match r.below(if leaf { 6 } else { 12 }) {
        0 => Kind::Null,
        1 => Kind::Bool(r.bool()),
        2 => Kind::U(r.u64() >> r.below(64)),
        3 => Kind::I((r.u64() >> r.below(64)) as i64),
        4 => Kind::F(*r.pick(&[0.0, -0.5, 1.5, f64::NAN, f64::INFINITY, 1e300])),
        5 => Kind::Str(gen::gen_text(r, 20), r.bool()),
        6..=7 => {
            let g = *r.pick(&[Give::Borrow, Give::Lend, Give::LendBox, Give::Lend, Give::Vec, Give::Slice, Give::Array, Give::Pair]);
            let n = match g {
                Give::Array => 3,
                Give::Pair => 2,
                _ => r.size(7),
            };
            Kind::Seq(g, (0..n).map(|_| node(r, m, d - 1)).collect())
        }
        8..=9 => {
            let g = *r.pick(&[Give::Borrow, Give::Lend, Give::LendBox, Give::Lend, Give::Derived, Give::Sorted, Give::Hashed]);
            let n = match g {
                Give::Derived => 3,
                Give::Hashed => r.below(2),
                _ => r.size(7),
            };
            let mut v: Vec<(String, bool, Node)> = (0..n)
                .map(|i| {
                    let k = match g {
                        Give::Derived => ["a", "b", "c\n"][i].to_owned(),
                        Give::Sorted => format!("{i:03}"),
                        _ => gen::gen_text(r, 9),
                    };
                    (k, r.bool(), node(r, m, d - 1))
                })
                .collect();
            if g == Give::Hashed {
                v.truncate(1);
            }
            Kind::Map(g, v)
        }
        _ => Kind::Wrapped(
            *r.pick(&[Wrap::Plain, Wrap::Ref, Wrap::Boxed, Wrap::Some, Wrap::Cow, Wrap::CowOwned, Wrap::OwnBox, Wrap::Dyn]),
            Box::new(node(r, m, d - 1)),
        ),
    };
    Node { id, kind }
}

fn deep(r: &mut Rng, m: &mut Made, n: usize) -> Node {
    let mut x = node(r, m, 0);
    for _ in 0..n {
        let id = m.next;
        m.next += 1;
        LIVE.set(LIVE.get() + 1);
        let g = *r.pick(&[Give::Borrow, Give::Vec, Give::Slice]);
        let kind = if r.bool() {
            let mut v = vec![x];
            if r.chance(1, 5) {
                v.push(node(r, m, 0));
            }
            Kind::Seq(g, v)
        } else {
            let v = vec![("k".to_owned(), r.bool(), x)];
            Kind::Map(Give::Borrow, v)
        };
        x = Node { id, kind };
    }
    x
}

fn text(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => drop(write!(o, "\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

enum Job<'a> {
    Node(&'a Node),
    Lit(&'static str),
    Key(&'a str),
    Log(T),
}

/// The trace and the text `n` calls for. Floats are left to a marker (compared elsewhere).
fn expected(n: &Node) -> (Vec<T>, Vec<Vec<u32>>, String) {
    let mut t = Vec::new();
    let mut open_at: Vec<Vec<u32>> = Vec::new(); // per trace entry: streams to drop if it panics
    let mut open: Vec<u32> = Vec::new();
    let mut o = String::new();
    let mut jobs = vec![Job::Node(n)];
    while let Some(j) = jobs.pop() {
        match j {
            Job::Lit(s) => o.push_str(s),
            Job::Key(k) => {
                text(k, &mut o);
                o.push(':');
            }
            Job::Log(x) => {
                if let T::Drop(_) = x {
                    open.pop();
                }
                t.push(x);
                open_at.push(open.clone());
            }
            Job::Node(n) => {
                t.push(T::Begin(n.id));
                open_at.push(open.clone());
                match &n.kind {
                    Kind::Null => o.push_str("null"),
                    Kind::Bool(b) => drop(write!(o, "{b}")),
                    Kind::U(x) => drop(write!(o, "{x}")),
                    Kind::I(x) => drop(write!(o, "{x}")),
                    Kind::F(x) => o.push_str(match x {
                        x if !x.is_finite() => "null",
                        0.0 => "0.0",
                        1.5 => "1.5",
                        -0.5 => "-0.5",
                        _ => "1e300",
                    }),
                    Kind::Str(s, _) => text(s, &mut o),
                    Kind::Wrapped(Wrap::Plain, n) => jobs.push(Job::Node(n)),
                    Kind::Wrapped(_, n) => {
                        o.push('[');
                        jobs.push(Job::Lit("]"));
                        jobs.push(Job::Node(n));
                    }
                    Kind::Seq(g, v) => {
                        let mine = matches!(g, Give::Borrow | Give::Lend | Give::LendBox);
                        let once = *g == Give::Pair;
                        let mut after: Vec<Job> = Vec::new();
                        after.push(Job::Lit(if once { "[[" } else { "[" }));
                        for (i, c) in v.iter().enumerate() {
                            if mine {
                                after.push(Job::Log(T::Next(n.id)));
                            }
                            if i > 0 {
                                after.push(Job::Lit(","));
                            }
                            after.push(Job::Node(c));
                        }
                        if mine {
                            after.push(Job::Log(T::Next(n.id)));
                            after.push(Job::Log(T::Drop(n.id)));
                            open.push(n.id);
                        }
                        after.push(Job::Lit(if once { "]]" } else { "]" }));
                        jobs.extend(after.into_iter().rev());
                    }
                    Kind::Map(g, v) => {
                        let mine = matches!(g, Give::Borrow | Give::Lend | Give::LendBox);
                        let mut after: Vec<Job> = Vec::new();
                        after.push(Job::Lit(if mine { "{" } else { "[{" }));
                        for (i, (k, _, c)) in v.iter().enumerate() {
                            if mine {
                                after.push(Job::Log(T::Next(n.id)));
                            }
                            if i > 0 {
                                after.push(Job::Lit(","));
                            }
                            after.push(Job::Key(k));
                            after.push(Job::Node(c));
                        }
                        if mine {
                            after.push(Job::Log(T::Next(n.id)));
                            after.push(Job::Log(T::Drop(n.id)));
                            open.push(n.id);
                        }
                        after.push(Job::Lit(if mine { "}" } else { "}]" }));
                        jobs.extend(after.into_iter().rev());
                    }
                }
            }
        }
    }
    (t, open_at, o)
}

/// Wrappers of the crate's own around a node, at the root.
fn write_root(n: &Node, how: usize) -> String {
    match how {
        0 => json::to_string(n),
        1 => json::to_string(&n),
        2 => json::to_string(&Some(n)),
        3 => json::to_string(&Box::new(n)),
        4 => json::to_string(&Some(Box::new(&n))),
        5 => json::to_string(&Cow::Borrowed(n)),
        6 => {
            let d: &dyn Serialize = n;
            json::to_string(d)
        }
        _ => {
            let d: Box<dyn Serialize + '_> = Box::new(n);
            json::to_string(&d)
        }
    }
}

fn same_text(want: &str, got: &str) -> bool {
    want == got
}

fn check(cx: &mut Ctx, n: &Node, cap: usize) {
    let (t, open_at, o) = expected(n);
    let how = cx.rng.below(8);
    let nodes = LIVE.get();
    for attempt in 0..2 {
        TRACE.with(|v| {
            v.borrow_mut().clear();
            v.borrow_mut().reserve(t.len() + 64)
        });
        TICK.set(0);
        AT.set(0);
        let a = alloc::stat();
        let r = guarded(|| write_root(n, how));
        let Ended::Returned(s) = r else {
            if let Ended::Panicked(m) = r {
                cx.violation("panic", m);
            }
            return;
        };
        let b = alloc::stat();
        let cap = if s.capacity() == 0 { 0 } else { s.capacity() as i64 };
        let heap = b.live - a.live - cap;
        let got = TRACE.with(|v| std::mem::take(&mut *v.borrow_mut()));
        if got != t {
            let i = (0..).find(|i| got.get(*i) != t.get(*i)).unwrap();
            cx.violation("wrong call", format!("entry {i}: observed {:?}, expected {:?}", got.get(i), t.get(i)));
            return;
        }
        if !same_text(&o, &s) {
            cx.violation("wrong text", format!("expected {}\nobserved {}", crate::ctx::show(&o), crate::ctx::show(&s)));
            return;
        }
        drop(s);
        if LIVE.get() != nodes {
            cx.violation("nodes lent and not destroyed, or twice", format!("{}", LIVE.get() - nodes));
            return;
        }
        // The trace vector was reserved up front and the moment of `take` gives it back.
        TRACE.with(|v| *v.borrow_mut() = got);
        if heap == 0 {
            break;
        }
        if attempt == 1 {
            cx.violation("heap not given back", format!("{heap} bytes besides the String"));
            return;
        }
    }
    cx.seen("calls observed", t.len() as u64);
    cx.seen("complete traces", 1);
    // every callback, and the drop of every stream
    let chosen: Vec<usize> = if t.len() <= cap { (0..t.len()).collect() } else { (0..cap).map(|_| cx.rng.below(t.len())).collect() };
    for k in chosen {
        if cx.stop() {
            return;
        }
        cx.evals += 1;
        for attempt in 0..2 {
            TRACE.with(|v| {
                v.borrow_mut().clear();
                v.borrow_mut().reserve(t.len() + 64)
            });
            TICK.set(0);
            AT.set(k as u64 + 1);
            let a = alloc::stat();
            let r = guarded(|| drop(write_root(n, how)));
            let b = alloc::stat();
            AT.set(0);
            match r {
                Ended::Injected => {}
                Ended::Returned(()) => {
                    cx.violation("panic of a callback swallowed", String::new());
                    return;
                }
                Ended::Panicked(m) => {
                    cx.violation("panic", m);
                    return;
                }
            }
            let end = k + 1;
            // a stream whose begin() panics does not exist yet; one whose next() panics does
            let open = &open_at[k];
            let ok = TRACE.with(|v| {
                let got = v.borrow();
                got.len() == end + open.len()
                    && got[..end] == t[..end]
                    && got[end..].iter().zip(open.iter().rev()).all(|(g, o)| *g == T::Drop(*o))
            });
            if !ok {
                let got = TRACE.with(|v| v.borrow()[end.min(v.borrow().len())..].to_vec());
                cx.violation("wrong calls around a panic", format!("panic in {:?}, then observed {:?}, expected drops of {:?} in reverse", t[end - 1], got, open));
                return;
            }
            if LIVE.get() != nodes {
                cx.violation("nodes lent and not destroyed, or twice", format!("{} after a panic", LIVE.get() - nodes));
                return;
            }
            if a.live == b.live && a.blocks == b.blocks {
                cx.seen(if matches!(t[k], T::Drop(_)) { "panics injected into drops" } else { "panics injected" }, 1);
                break;
            }
            if attempt == 1 {
                cx.violation("heap not given back", format!("{} bytes after a panic", b.live - a.live));
                return;
            }
        }
    }
}

pub fn run(cx: &mut Ctx) {
    let _ = guarded(|| std::panic::panic_any(Injected));
    // every number of children, every way to give them
    for n in 0..cx.n(3, 70, 200) {
        for g in [Give::Borrow, Give::Lend, Give::LendBox, Give::Vec, Give::Slice] {
            for map in [false, true] {
                if !cx.mine(n) || (map && matches!(g, Give::Vec | Give::Slice)) || cx.stop() {
                    continue;
                }
                let mut r = Rng::new(n as u64);
                let mut m = Made { next: 1, budget: 1000 };
                let kids: Vec<Node> = (0..n).map(|_| node(&mut r, &mut m, 1)).collect();
                LIVE.set(LIVE.get() + 1);
                let kind = if map {
                    Kind::Map(g, kids.into_iter().enumerate().map(|(i, k)| (format!("k{i}"), i % 2 == 0, k)).collect())
                } else {
                    Kind::Seq(g, kids)
                };
                let top = Node { id: 0, kind };
                cx.enumerated("children", &format!("{n} children by {g:?}, map: {map}"));
                check(cx, &top, cx.n(3, 40, 400));
            }
        }
    }
    // many children
    for p in 7..=cx.n(6, 13, 16) {
        for n in [(1usize << p) - 1, 1 << p, (1 << p) + 1, 3 << (p - 1)] {
            for (i, g) in [Give::Borrow, Give::Lend, Give::LendBox, Give::Vec, Give::Slice, Give::Sorted].into_iter().enumerate() {
                for map in [false, true] {
                    if !cx.mine(n + i) || cx.stop() || map && matches!(g, Give::Vec | Give::Slice) || !map && g == Give::Sorted {
                        continue;
                    }
                    let mut r = Rng::new(n as u64);
                    let mut m = Made { next: 1, budget: 0 };
                    let kids: Vec<Node> = (0..n).map(|_| node(&mut r, &mut m, 0)).collect();
                    LIVE.set(LIVE.get() + 1);
                    let kind = if map {
                        Kind::Map(g, kids.into_iter().enumerate().map(|(i, k)| (format!("{i:06}"), i % 2 == 0, k)).collect())
                    } else {
                        Kind::Seq(g, kids)
                    };
                    cx.enumerated("children", &format!("{n} children by {g:?}, map: {map}"));
                    cx.max("most children", n as u64);
                    check(cx, &Node { id: 0, kind }, 6);
                }
            }
        }
    }
    // keys and texts of every length, lent and owned, plain and with something to escape
    let mut lengths: Vec<usize> = (0..cx.n(2, 140, 300)).collect();
    for p in 8..=cx.n(7, 16, 19) {
        lengths.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1, 3 << (p - 1)]);
    }
    for (i, len) in lengths.into_iter().enumerate() {
        for g in [Give::Borrow, Give::Lend, Give::LendBox, Give::Sorted, Give::Hashed] {
            if !cx.mine(i) || cx.stop() {
                continue;
            }
            let odd = ["", "\n", "\"", "é", "\u{1}"];
            let text = |k: usize| -> String {
                let at = if len == 0 { 0 } else { cx.rng.clone().below(len) };
                format!("{k}{}{}{}", "x".repeat(at), odd[k % odd.len()], "y".repeat(len - at))
            };
            let n = if g == Give::Hashed { 1 } else { 6 };
            let kids = (0..n)
                .map(|k| {
                    LIVE.set(LIVE.get() + 1);
                    (text(k), k % 3 != 0, Node { id: k as u32 + 1, kind: Kind::Str(text(k), k % 2 == 0) })
                })
                .collect();
            LIVE.set(LIVE.get() + 1);
            cx.enumerated("text length", &format!("keys and texts of {len} characters by {g:?}"));
            check(cx, &Node { id: 0, kind: Kind::Map(g, kids) }, cx.n(3, 12, 40));
        }
    }
    let rounds = cx.share(60, 2_000_000, 30_000_000);
    for i in 0..rounds {
        if i % 16 == 0 && cx.done() {
            break;
        }
        let d = cx.rng.range(1, 6);
        let mut m = Made { next: 0, budget: cx.n(15, 200, 400) };
        let n = node(&mut cx.rng, &mut m, d);
        cx.case("random tree", &format!("{:?}", n.kind).chars().take(20_000).collect::<String>());
        check(cx, &n, cx.n(4, 30, 300));
        if i % 200 == 0 && cx.tier != Tier::Mini {
            let depth = *cx.rng.pick(&[20usize, 64, 127, 128, 129, 600, 3000]);
            let mut m = Made { next: 0, budget: 0 };
            let n = deep(&mut cx.rng, &mut m, depth);
            cx.case("deep tree", &format!("depth {depth}, case {i}"));
            cx.max("max depth", depth as u64);
            check(cx, &n, 6);
        }
    }
}
