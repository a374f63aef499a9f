//! C11: a ledger of every object made during a parse, with a failure injected at every callback,
//! key conversion, comparison, hash and drop, and the document cut at every byte.

use crate::alloc;
use crate::ctx::{guarded, Ctx, Ended, Injected, Tier};
use crate::gen;
use crate::model::{fit, same, DocGen, Fit, Key, Modeled, Schema, M};
use crate::refjson::{self, Dom, Verdict};
use crate::rng::Rng;
use crate::zoo::{strukt, Entry};
use miniserde::de::{self, Visitor};
use miniserde::json::{self, Value};
use miniserde::ser::Fragment;
use miniserde::{make_place, Deserialize, Error, Result, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::str::FromStr;

// ---- the ledger --------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    None,
    Err,
    Panic,
}

thread_local! {
    static LIVE: RefCell<Vec<bool>> = RefCell::new(Vec::with_capacity(1 << 16));
    static TWICE: Cell<u64> = const { Cell::new(0) };
    static DEAD_USE: Cell<u64> = const { Cell::new(0) };
    static UNIT: Cell<i64> = const { Cell::new(0) };
    static UNIT_MIN: Cell<i64> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static ACT: Cell<Act> = const { Cell::new(Act::None) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static DROP_AT: Cell<u64> = const { Cell::new(0) };
}

fn born() -> usize {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        l.push(true);
        l.len() - 1
    })
}

fn died(id: usize) {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        match l.get_mut(id) {
            Some(x) if *x => *x = false,
            _ => TWICE.set(TWICE.get() + 1),
        }
    });
    drop_tick();
}

fn drop_tick() {
    DROPS.set(DROPS.get() + 1);
    if DROPS.get() == DROP_AT.get() && !std::thread::panicking() {
        std::panic::panic_any(Injected);
    }
}

fn used(id: usize) {
    LIVE.with(|l| {
        if l.borrow().get(id) != Some(&true) {
            DEAD_USE.set(DEAD_USE.get() + 1);
        }
    });
}

fn tick() -> Result<()> {
    TICK.set(TICK.get() + 1);
    if TICK.get() == AT.get() {
        match ACT.get() {
            Act::None => {}
            Act::Err => return Err(Error),
            Act::Panic => std::panic::panic_any(Injected),
        }
    }
    Ok(())
}

fn tick_panic() {
    TICK.set(TICK.get() + 1);
    if TICK.get() == AT.get() && ACT.get() == Act::Panic {
        std::panic::panic_any(Injected);
    }
}

fn reset(at: u64, act: Act, drop_at: u64) {
    LIVE.with(|l| l.borrow_mut().clear());
    TWICE.set(0);
    DEAD_USE.set(0);
    UNIT.set(0);
    UNIT_MIN.set(0);
    TICK.set(0);
    AT.set(at);
    ACT.set(act);
    DROPS.set(0);
    DROP_AT.set(drop_at);
}

// ---- objects on the ledger -----------------------------------------------------------------------

macro_rules! tok {
    ($name:ident, $place:ident, $(#[$m:meta])* { $($f:ident : $ft:ty = $init:expr),* }) => {
        $(#[$m])*
        pub struct $name {
            id: usize,
            pay: Box<u64>,
            $($f: $ft),*
        }
        impl $name {
            fn new(n: u64) -> Self {
                $name { id: born(), pay: Box::new(n), $($f: $init),* }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                *self.pay = u64::MAX;
                died(self.id);
            }
        }
        make_place!($place);
        impl Visitor for $place<$name> {
            fn nonnegative(&mut self, n: u64) -> Result<()> {
                tick()?;
                self.out = Some($name::new(n));
                tick()
            }
        }
        impl Deserialize for $name {
            fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
                $place::new(out)
            }
        }
        impl Serialize for $name {
            fn begin(&self) -> Fragment<'_> {
                Fragment::U64(*self.pay)
            }
        }
        impl Modeled for $name {
            fn schema() -> Schema {
                Schema::Int(0, u64::MAX as i128)
            }
            fn dump(&self) -> M {
                used(self.id);
                M::Int(i128::from(*self.pay))
            }
            fn gen(r: &mut Rng, _: usize) -> Self {
                $name::new(r.u64())
            }
        }
    };
}

tok!(Tok, TokP, {});
tok!(Wide, WideP, #[repr(align(64))] {});
tok!(Huge, HugeP, { _pad: [u64; 300] = [7; 300] });

/// Zero-sized; counted.
pub struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        UNIT.set(UNIT.get() - 1);
        UNIT_MIN.set(UNIT_MIN.get().min(UNIT.get()));
        drop_tick();
    }
}
make_place!(ZstP);
impl Visitor for ZstP<Zst> {
    fn null(&mut self) -> Result<()> {
        tick()?;
        UNIT.set(UNIT.get() + 1);
        self.out = Some(Zst);
        tick()
    }
}
impl Deserialize for Zst {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        ZstP::new(out)
    }
}
impl Serialize for Zst {
    fn begin(&self) -> Fragment<'_> {
        Fragment::Null
    }
}
impl Modeled for Zst {
    fn schema() -> Schema {
        Schema::Unit
    }
    fn dump(&self) -> M {
        M::Unit
    }
    fn gen(_: &mut Rng, _: usize) -> Self {
        UNIT.set(UNIT.get() + 1);
        Zst
    }
    fn nullish(&self) -> bool {
        true
    }
}

/// A key on the ledger, made by FromStr, compared and hashed by hand.
pub struct TokKey(Tok, String);
impl FromStr for TokKey {
    type Err = TokErr;
    fn from_str(s: &str) -> std::result::Result<Self, TokErr> {
        if tick().is_err() {
            return Err(TokErr(Tok::new(0)));
        }
        let k = TokKey(Tok::new(s.len() as u64), s.to_owned());
        if s.starts_with('\\') || tick().is_err() {
            return Err(TokErr(Tok::new(1)));
        }
        Ok(k)
    }
}
pub struct TokErr(#[allow(dead_code)] Tok);
impl fmt::Debug for TokKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        used((self.0).id);
        self.1.fmt(f)
    }
}
impl fmt::Display for TokKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.1.fmt(f)
    }
}
impl PartialEq for TokKey {
    fn eq(&self, o: &Self) -> bool {
        used((self.0).id);
        used((o.0).id);
        tick_panic();
        self.1 == o.1
    }
}
impl Eq for TokKey {}
impl PartialOrd for TokKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TokKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        used((self.0).id);
        used((o.0).id);
        tick_panic();
        self.1.cmp(&o.1)
    }
}
impl Hash for TokKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        used((self.0).id);
        tick_panic();
        self.1.hash(h);
    }
}
impl Key for TokKey {
    fn gen(r: &mut Rng) -> Self {
        TokKey(Tok::new(0), (*r.pick(&["", "a", "b", "c", "\n", "\\", "é"])).to_owned())
    }
}

pub struct TokBuild(#[allow(dead_code)] Tok);
impl Default for TokBuild {
    fn default() -> Self {
        tick_panic();
        TokBuild(Tok::new(3))
    }
}
impl BuildHasher for TokBuild {
    type Hasher = std::hash::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        used((self.0).id);
        tick_panic();
        std::hash::DefaultHasher::new()
    }
}

/// An array or an object read through builders of the user's own.
pub struct Hand(Vec<Tok>);
make_place!(HandP);
struct HandB<'a> {
    out: &'a mut Option<Hand>,
    got: Vec<Tok>,
    item: Option<Tok>,
    _guard: Tok,
}
impl Visitor for HandP<Hand> {
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        tick()?;
        let b = HandB { out: &mut self.out, got: Vec::new(), item: None, _guard: Tok::new(9) };
        let b = Box::new(b);
        tick()?;
        Ok(b)
    }
    fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
        tick()?;
        let b = Box::new(HandB { out: &mut self.out, got: Vec::new(), item: None, _guard: Tok::new(9) });
        tick()?;
        Ok(b)
    }
}
impl HandB<'_> {
    fn flush(&mut self) -> Result<()> {
        tick()?;
        if let Some(t) = self.item.take() {
            used(t.id);
            self.got.push(t);
        }
        Ok(())
    }
    fn done(&mut self) -> Result<()> {
        self.flush()?;
        *self.out = Some(Hand(std::mem::take(&mut self.got)));
        tick()
    }
}
impl de::Seq for HandB<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.flush()?;
        Ok(Tok::begin_in(&mut self.item))
    }
    fn finish(&mut self) -> Result<()> {
        self.done()
    }
}
impl de::Map for HandB<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.flush()?;
        if k.len() > 1 {
            return Ok(<dyn Visitor>::ignore());
        }
        Ok(Tok::begin_in(&mut self.item))
    }
    fn finish(&mut self) -> Result<()> {
        self.done()
    }
}
impl Tok {
    fn begin_in(o: &mut Option<Tok>) -> &mut dyn Visitor {
        Deserialize::begin(o)
    }
}
impl Deserialize for Hand {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        HandP::new(out)
    }
}
impl Serialize for Hand {
    fn begin(&self) -> Fragment<'_> {
        self.0.begin()
    }
}
impl Modeled for Hand {
    fn schema() -> Schema {
        Schema::Seq(Box::new(Schema::Lazy(Tok::schema)))
    }
    fn dump(&self) -> M {
        M::Seq(self.0.iter().map(Modeled::dump).collect())
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        Hand((0..r.below(4)).map(|_| Tok::new(1)).collect())
    }
}

strukt!(Rec { a / "a": Tok, b / "b": Option<Tok>, c / "c": Vec<Tok>, d / "d": Box<Tok> });
strukt!(Link { t / "t": Tok, n / "n": Option<Box<Link>> });
strukt!(Of<T> { x / "x": T, y / "y": Option<T>, z / "z": (T, T) });
strukt!(Mix { v / "v": Value, h / "h": Hand, t / "t": Tok, m / "m": BTreeMap<TokKey, Tok> });

type TMap<V> = BTreeMap<TokKey, V>;
type THash<V> = HashMap<TokKey, V, TokBuild>;

pub struct Case {
    pub name: &'static str,
    schema: fn() -> Schema,
    parse: fn(&str) -> Result<M>,
    drop_only: fn(&str) -> bool,
}

macro_rules! cases {
    ($($t:ty),* $(,)?) => {
        pub fn cases() -> Vec<Case> {
            vec![ $( Case {
                name: stringify!($t),
                schema: <$t as Modeled>::schema,
                parse: |s| json::from_str::<$t>(s).map(|v| v.dump()),
                drop_only: |s| json::from_str::<$t>(s).is_ok(),
            } ),* ]
        }
    };
}

cases!(
    Tok, Wide, Huge, Zst, Hand,
    Option<Tok>, Box<Tok>, Box<Wide>, Box<Huge>, Box<Zst>, Box<Hand>, Option<Box<Tok>>, Box<Option<Tok>>, Box<Box<Hand>>, Option<Hand>,
    Vec<Tok>, Vec<Zst>, Vec<Wide>, Vec<Option<Tok>>, Vec<Box<Tok>>, Vec<Vec<Tok>>, Vec<Hand>, Box<Vec<Tok>>, Vec<Box<Vec<Box<Tok>>>>,
    [Tok; 0], [Tok; 1], [Tok; 2], [Tok; 3], [Tok; 5], [Zst; 3], [Wide; 2], [Huge; 2], [Option<Tok>; 3], [Vec<Tok>; 2], [Box<Tok>; 3],
    [[Tok; 2]; 2], [Hand; 2], Box<[Tok; 3]>, Vec<[Tok; 2]>, Vec<[Zst; 2]>, [Box<[Box<Tok>; 2]>; 2], Option<[Tok; 2]>, [String; 3],
    (Tok, Tok), (Tok, Zst), (Huge, Vec<Tok>), Vec<(Tok, Wide)>, Box<(Tok, Box<Tok>)>, ((Tok, Tok), [Tok; 2]), (Hand, Hand), Option<(Tok, Tok)>,
    TMap<Tok>, TMap<Option<Tok>>, TMap<Vec<Tok>>, TMap<[Tok; 2]>, TMap<TMap<Tok>>, TMap<Box<Tok>>, Box<TMap<Tok>>, TMap<Hand>, Vec<TMap<Zst>>,
    THash<Tok>, THash<Zst>, THash<(Tok, Tok)>, THash<THash<Tok>>, THash<Rec>, Box<THash<Box<Tok>>>,
    Rec, Option<Rec>, Vec<Rec>, Box<Rec>, [Rec; 2], (Rec, Rec), TMap<Rec>, Link, Vec<Link>, Of<Tok>, Of<Vec<Tok>>, Of<Of<Tok>>, Of<Hand>, Of<[Tok; 1]>,
    Of<Zst>, Of<Box<Wide>>, Mix, Vec<Mix>, (Value, Tok), [(Value, Tok); 2], TMap<Value>, Box<Mix>,
);

// ---- one run -------------------------------------------------------------------------------------

struct Seen {
    ticks: u64,
    drops: u64,
    objects: u64,
    ok: Option<bool>,
}

/// Returns what the run amounted to; reports what the ledger says.
fn observe(cx: &mut Ctx, case: &Case, doc: &str, at: u64, act: Act, drop_at: u64) -> Option<Seen> {
    for attempt in 0..2 {
        reset(at, act, drop_at);
        let before = alloc::stat();
        let r = guarded(|| (case.drop_only)(doc));
        let after = alloc::stat();
        let live = LIVE.with(|l| l.borrow().iter().filter(|x| **x).count());
        let objects = LIVE.with(|l| l.borrow().len()) as u64;
        let (twice, dead, unit, min) = (TWICE.get(), DEAD_USE.get(), UNIT.get(), UNIT_MIN.get());
        let seen = Seen {
            ticks: TICK.get(),
            drops: DROPS.get(),
            objects,
            ok: match &r {
                Ended::Returned(b) => Some(*b),
                _ => None,
            },
        };
        reset(0, Act::None, 0);
        let ctx = || format!("type {}, {act:?} at callback {at}, drop panic at {drop_at}", case.name);
        if let Ended::Panicked(m) = r {
            cx.violation("panic", format!("{m}; {}", ctx()));
            return None;
        }
        if twice > 0 || min < 0 {
            cx.violation("dropped twice", format!("{twice} objects of {objects}, {min} zero-sized; {}", ctx()));
            return None;
        }
        if dead > 0 {
            cx.violation("used after drop", ctx());
            return None;
        }
        if drop_at == 0 {
            if live > 0 || unit > 0 {
                cx.violation("never dropped", format!("{live} objects of {objects}, {unit} zero-sized; {}", ctx()));
                return None;
            }
            if before.live != after.live || before.blocks != after.blocks {
                if attempt == 0 {
                    continue; // one-time initialisations are over the second time
                }
                cx.violation(
                    "heap not given back",
                    format!("{} bytes in {} blocks; {}", after.live - before.live, after.blocks - before.blocks, ctx()),
                );
                return None;
            }
        }
        return Some(seen);
    }
    None
}

fn all_faults(cx: &mut Ctx, case: &Case, doc: &str, cap: usize) {
    // what it must give, with the objects alive
    reset(0, Act::None, 0);
    let parsed = refjson::parse(doc);
    let r = cx.call(|| (case.parse)(doc));
    if DEAD_USE.get() > 0 {
        cx.violation("handed out after drop", format!("type {}", case.name));
    }
    if let (Some(Ok(m)), Verdict::Accept) = (&r, parsed.verdict) {
        let dom = Dom::build(&parsed.events);
        if let Fit::Yes(w) = fit(&(case.schema)(), &dom, 0) {
            if !same(&w, m) {
                cx.violation("wrong content", format!("type {}: {m:?}", case.name));
            }
        }
    }
    drop(r);
    let Some(base) = observe(cx, case, doc, 0, Act::None, 0) else { return };
    cx.seen("objects followed", base.objects);
    cx.seen(if base.ok == Some(true) { "successful parses" } else { "refused parses" }, 1);
    let mut pick = |n: u64| -> Vec<u64> {
        if n as usize <= cap {
            (1..=n).collect()
        } else {
            (0..cap).map(|_| 1 + cx.rng.below(n as usize) as u64).collect()
        }
    };
    let ticks = pick(base.ticks);
    let drops = pick(base.drops);
    for at in ticks {
        for act in [Act::Err, Act::Panic] {
            if cx.stop() {
                return;
            }
            cx.evals += 1;
            cx.distinct_enum += 1;
            if let Some(s) = observe(cx, case, doc, at, act, 0) {
                cx.seen(if act == Act::Err { "errors injected" } else { "panics injected" }, 1);
                cx.seen("objects followed", s.objects);
            }
        }
    }
    for at in drops {
        if cx.stop() {
            return;
        }
        cx.evals += 1;
        cx.distinct_enum += 1;
        if observe(cx, case, doc, 0, Act::None, at).is_some() {
            cx.seen("drop panics injected", 1);
        }
    }
}

fn cuts(cx: &mut Ctx, case: &Case, doc: &str) {
    for k in 0..doc.len() {
        if cx.stop() {
            return;
        }
        if doc.is_char_boundary(k) {
            cx.case(case.name, &doc[..k]);
            if let Some(s) = observe(cx, case, &doc[..k], 0, Act::None, 0) {
                cx.seen("cut documents", 1);
                cx.seen("objects followed", s.objects);
            }
        }
    }
}

/// No objects of ours, only the heap.
fn heap(cx: &mut Ctx, e: &Entry, doc: &str) {
    for attempt in 0..2 {
        let a = alloc::stat();
        let r = guarded(|| (e.accepts)(doc));
        let b = alloc::stat();
        if let Ended::Panicked(m) = r {
            cx.violation("panic", m);
            return;
        }
        if a.live == b.live && a.blocks == b.blocks {
            cx.seen("heap balances", 1);
            return;
        }
        if attempt == 1 {
            cx.violation("heap not given back", format!("type {}: {} bytes", e.name, b.live - a.live));
        }
    }
}

fn doc_for(r: &mut Rng, schema: &Schema, brk: bool) -> String {
    let mut g = DocGen::random(r);
    g.break_at = if brk { Some(r.below(6)) } else { None };
    let d = r.range(1, 4);
    let mut doc = String::new();
    g.doc(r, schema, d, &mut doc);
    doc
}

pub fn run(cx: &mut Ctx) {
    let cases = cases();
    // a parse that panics, once, for the runtime's own one-time allocations
    let _ = guarded(|| std::panic::panic_any(Injected));
    if cx.tier != Tier::Mini {
        crowds(cx, &cases);
    }
    let rounds = cx.n(1, 1600, 40_000);
    let zoo = crate::zoo::zoo();
    'r: for round in 0..rounds {
        for (i, c) in cases.iter().enumerate() {
            if !cx.mine(i + round) {
                continue;
            }
            if cx.done() {
                break 'r;
            }
            let schema = (c.schema)();
            let mut doc = doc_for(&mut cx.rng, &schema, false);
            for _ in 0..3 {
                // prefer documents with something in them, but not huge
                if doc.len() < 12 || doc.len() > 1500 {
                    doc = doc_for(&mut cx.rng, &schema, false);
                }
            }
            if cx.tier == Tier::Mini && doc.len() > 120 {
                continue;
            }
            cx.case(c.name, &doc);
            all_faults(cx, c, &doc, cx.n(12, 120, 400));
            if doc.len() < cx.n(40, 400, 2000) {
                cuts(cx, c, &doc);
            }
            let bad = if cx.rng.bool() { gen::mutate(&mut cx.rng, &doc) } else { doc_for(&mut cx.rng, &schema, true) };
            if cx.tier == Tier::Mini && bad.len() > 120 {
                continue;
            }
            cx.case(c.name, &bad);
            all_faults(cx, c, &bad, cx.n(4, 40, 200));
            if cx.tier == Tier::Mini {
                continue;
            }
            let e = &zoo[(i + round * 31) % zoo.len()];
            let doc = doc_for(&mut cx.rng, &(e.schema)(), false);
            cx.case(e.name, &doc);
            heap(cx, e, &doc);
            for k in 0..doc.len().min(300) {
                if doc.is_char_boundary(k) {
                    cx.case(e.name, &doc[..k]);
                    heap(cx, e, &doc[..k]);
                }
            }
            let bad = gen::mutate(&mut cx.rng, &doc);
            cx.case(e.name, &bad);
            heap(cx, e, &bad);
        }
    }
    // sizes: every array length and many elements, failing at the last one
    if cx.tier != Tier::Mini {
        for n in 0..=70usize {
            if !cx.mine(n) || cx.stop() {
                continue;
            }
            for c in cases.iter().filter(|c| c.name.starts_with("Vec<") || c.name.starts_with("[") || c.name.starts_with("TMap<Tok")) {
                let item = |i: usize| match c.name {
                    "Vec<Zst>" | "[Zst; 3]" => "null".to_owned(),
                    "TMap<Tok>" => format!("\"{i}\":{i}"),
                    _ => i.to_string(),
                };
                let list = (0..n).map(item).collect::<Vec<_>>().join(",");
                let (o, cl) = if c.name.starts_with("TMap") { ("{", "}") } else { ("[", "]") };
                for doc in [format!("{o}{list}{cl}"), format!("{o}{list},{cl}"), format!("{o}{list}"), format!("{o}{list},true{cl}"), format!("{o}{list}{cl}0")] {
                    cx.case(c.name, &doc);
                    if n <= 8 {
                        all_faults(cx, c, &doc, 60);
                    } else if let Some(s) = observe(cx, c, &doc, 0, Act::None, 0) {
                        cx.seen("objects followed", s.objects);
                    }
                }
            }
        }
    }
}

/// Containers of many items: whole, cut, with a wrong item last, and with a fault at a few places.
fn crowds(cx: &mut Ctx, cases: &[Case]) {
    let zoo = crate::zoo::zoo();
    let mut sizes: Vec<usize> = Vec::new();
    for p in 6..=cx.n(6, 13, 16) {
        let n = 1usize << p;
        sizes.extend([n - 1, n, n + 1, n + n / 4, n + n / 2]);
    }
    let mut index = 0;
    for n in sizes {
        for i in 0..cases.len() + zoo.len() {
            index += 1;
            if !cx.mine(index) || cx.stop() || n > 2000 && index % 3 != 0 || n > 5000 && index % 9 != 0 {
                continue;
            }
            let schema = if i < cases.len() { (cases[i].schema)() } else { (zoo[i - cases.len()].schema)() };
            let mut doc = String::new();
            let mut r = Rng::new(cx.rng.u64());
            let mut g = DocGen::random(&mut r);
            g.break_at = None;
            if !g.crowd(&mut r, &schema, n, &mut doc) {
                continue;
            }
            let mut cut = doc.len() - 1;
            while !doc.is_char_boundary(cut) {
                cut -= 1;
            }
            let extra = format!("{},[[]]{}", &doc[..cut], &doc[cut..]);
            for d in [&doc[..], &doc[..cut], &extra] {
                let name = if i < cases.len() { cases[i].name } else { zoo[i - cases.len()].name };
                cx.case(name, d);
                cx.seen("items in crowded containers", n as u64);
                if i < cases.len() {
                    all_faults(cx, &cases[i], d, cx.n(1, 3, 12));
                } else {
                    heap(cx, &zoo[i - cases.len()], d);
                }
            }
        }
    }
}

/// A call that fails or panics somewhere inside; used to disturb what comes after it.
pub fn disturb(r: &mut Rng, cases: &[Case]) {
    let c = &cases[r.below(cases.len())];
    let brk = r.chance(1, 4);
    let doc = doc_for(r, &(c.schema)(), brk);
    if doc.len() > 2000 {
        return;
    }
    let act = if r.bool() { Act::Panic } else { Act::Err };
    reset(1 + r.below(12) as u64, act, if r.chance(1, 4) { 1 + r.below(8) as u64 } else { 0 });
    let _ = guarded(|| (c.drop_only)(&doc));
    reset(0, Act::None, 0);
}
