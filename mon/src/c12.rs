//! C12: recorded visitor traces against the trace the document calls for.

use crate::ctx::{guarded, Ctx, Ended, Injected, Tier};
use crate::gen;
use crate::refjson::{self, Ev, Verdict};
use crate::rng::{mix, Rng};
use crate::value::{agree, Got};
use miniserde::de::{self, Visitor};
use miniserde::json;
use miniserde::{make_place, Deserialize, Error, Result};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug)]
enum T {
    /// A value callback on a place.
    Cb(u32, Got),
    Elem(u32, u32),
    Key(u32, String, u32),
    Fin(u32),
    Drop(u32),
    /// The parent found the place it handed out empty after the child was read.
    Lost(u32),
}

/// What the oracle expects.
enum W<'a> {
    Cb(u32, &'a Ev),
    Elem(u32, u32),
    Key(u32, &'a str, u32),
    Fin(u32),
    Drop(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    None,
    Err,
    Panic,
}

thread_local! {
    static TRACE: RefCell<Vec<T>> = const { RefCell::new(Vec::new()) };
    static PLACES: Cell<u32> = const { Cell::new(0) };
    static BUILDERS: Cell<u32> = const { Cell::new(0) };
    static SEED: Cell<u64> = const { Cell::new(0) };
    static LAST: Cell<u32> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static ACT: Cell<Act> = const { Cell::new(Act::None) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static DROP_AT: Cell<u64> = const { Cell::new(0) };
    static BEGUN: Cell<u32> = const { Cell::new(0) };
}

fn log(t: T) {
    TRACE.with(|v| v.borrow_mut().push(t));
}

/// Every recorded callback ends here; the one chosen fails.
fn tick() -> Result<()> {
    TICK.set(TICK.get() + 1);
    if TICK.get() == AT.get() {
        match ACT.get() {
            Act::Err => return Err(Error),
            Act::Panic => std::panic::panic_any(Injected),
            Act::None => {}
        }
    }
    Ok(())
}

/// How a place is provided. Depends on the seed and the place only, so that the oracle knows.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Direct,
    Plain,
    Boxed,
    Opt,
    OptBox,
    BoxOpt,
    Ignore,
}

fn kind(seed: u64, place: u32) -> Kind {
    let plain = seed % 4;
    match mix(seed ^ u64::from(place).wrapping_mul(0x1234_5678_9ABC_DEF1)) % 16 {
        _ if plain == 0 => Kind::Direct,
        0..=5 => Kind::Direct,
        6..=7 => Kind::Plain,
        8..=9 => Kind::Boxed,
        10 => Kind::Opt,
        11 => Kind::OptBox,
        12 => Kind::BoxOpt,
        _ if plain == 1 => Kind::Plain,
        _ => Kind::Ignore,
    }
}

// ---- the recording user types --------------------------------------------------------------------

/// A place with an identity.
struct V {
    id: u32,
    filled: bool,
    _mem: Box<u32>,
}

/// A place made by the crate around the user's type; the identity is that of the last hand-out.
struct Rec(#[allow(dead_code)] Box<u32>);
make_place!(RecP);

enum Slot {
    V(Box<V>),
    R(Option<Rec>),
    B(Option<Box<Rec>>),
    O(Option<Option<Rec>>),
    OB(Option<Option<Box<Rec>>>),
    BO(Option<Box<Option<Rec>>>),
    Ignored,
}

enum Out<'a> {
    Flag(&'a mut bool),
    Rec(&'a mut Option<Rec>),
}

struct Builder<'a> {
    id: u32,
    out: Out<'a>,
    slots: Vec<(u32, Slot)>,
    _mem: Box<u32>,
}

impl Drop for Builder<'_> {
    fn drop(&mut self) {
        log(T::Drop(self.id));
        DROPS.set(DROPS.get() + 1);
        if DROPS.get() == DROP_AT.get() && !std::thread::panicking() {
            std::panic::panic_any(Injected);
        }
    }
}

impl<'a> Builder<'a> {
    fn new(out: Out<'a>) -> Self {
        let id = BUILDERS.get();
        BUILDERS.set(id + 1);
        Builder { id, out, slots: Vec::new(), _mem: Box::new(id) }
    }

    fn check_last(&self) {
        if let Some((p, s)) = self.slots.last() {
            let filled = match s {
                Slot::V(v) => v.filled,
                Slot::R(x) => x.is_some(),
                Slot::B(x) => x.is_some(),
                Slot::O(x) => x.is_some(),
                Slot::OB(x) => x.is_some(),
                Slot::BO(x) => x.is_some(),
                Slot::Ignored => true,
            };
            if !filled {
                log(T::Lost(*p));
            }
        }
    }

    fn next_id(&self) -> u32 {
        PLACES.set(PLACES.get() + 1);
        PLACES.get()
    }

    fn hand_out(&mut self, p: u32) -> &mut dyn Visitor {
        LAST.set(p);
        // only the last few places are kept: wide documents
        if self.slots.len() > 6 {
            self.slots.drain(..4);
        }
        self.slots.push((
            p,
            match kind(SEED.get(), p) {
                Kind::Direct => Slot::V(Box::new(V { id: p, filled: false, _mem: Box::new(p) })),
                Kind::Plain => Slot::R(None),
                Kind::Boxed => Slot::B(None),
                Kind::Opt => Slot::O(None),
                Kind::OptBox => Slot::OB(None),
                Kind::BoxOpt => Slot::BO(None),
                Kind::Ignore => Slot::Ignored,
            },
        ));
        match &mut self.slots.last_mut().unwrap().1 {
            Slot::V(v) => &mut **v,
            Slot::R(x) => Deserialize::begin(x),
            Slot::B(x) => Deserialize::begin(x),
            Slot::O(x) => Deserialize::begin(x),
            Slot::OB(x) => Deserialize::begin(x),
            Slot::BO(x) => Deserialize::begin(x),
            Slot::Ignored => <dyn Visitor>::ignore(),
        }
    }

    fn fill(&mut self) {
        match &mut self.out {
            Out::Flag(f) => **f = true,
            Out::Rec(r) => **r = Some(Rec(Box::new(1))),
        }
    }
}

impl de::Seq for Builder<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.check_last();
        let p = self.next_id();
        log(T::Elem(self.id, p));
        tick()?;
        Ok(self.hand_out(p))
    }
    fn finish(&mut self) -> Result<()> {
        self.check_last();
        log(T::Fin(self.id));
        tick()?;
        self.fill();
        Ok(())
    }
}

impl de::Map for Builder<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.check_last();
        let p = self.next_id();
        log(T::Key(self.id, k.to_owned(), p));
        tick()?;
        Ok(self.hand_out(p))
    }
    fn finish(&mut self) -> Result<()> {
        self.check_last();
        log(T::Fin(self.id));
        tick()?;
        self.fill();
        Ok(())
    }
}

macro_rules! callbacks {
    ($id:expr, $fill:expr, $out:expr) => {
        fn null(&mut self) -> Result<()> {
            log(T::Cb($id(self), Got::Null));
            tick()?;
            $fill(self);
            Ok(())
        }
        fn boolean(&mut self, b: bool) -> Result<()> {
            log(T::Cb($id(self), Got::Bool(b)));
            tick()?;
            $fill(self);
            Ok(())
        }
        fn string(&mut self, s: &str) -> Result<()> {
            log(T::Cb($id(self), Got::Str(s.to_owned())));
            tick()?;
            $fill(self);
            Ok(())
        }
        fn negative(&mut self, n: i64) -> Result<()> {
            log(T::Cb($id(self), Got::I(n)));
            tick()?;
            $fill(self);
            Ok(())
        }
        fn nonnegative(&mut self, n: u64) -> Result<()> {
            log(T::Cb($id(self), Got::U(n)));
            tick()?;
            $fill(self);
            Ok(())
        }
        fn float(&mut self, n: f64) -> Result<()> {
            log(T::Cb($id(self), Got::F(n)));
            tick()?;
            $fill(self);
            Ok(())
        }
        fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
            log(T::Cb($id(self), Got::ArrOpen));
            tick()?;
            Ok(Box::new(Builder::new($out(self))))
        }
        fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
            log(T::Cb($id(self), Got::ObjOpen));
            tick()?;
            Ok(Box::new(Builder::new($out(self))))
        }
    };
}

impl Visitor for V {
    callbacks!(|v: &V| v.id, |v: &mut V| v.filled = true, |v| Out::Flag(flag(v)));
}
fn flag(v: &mut V) -> &mut bool {
    &mut v.filled
}

impl Visitor for RecP<Rec> {
    callbacks!(|_: &Self| LAST.get(), |v: &mut Self| v.out = Some(Rec(Box::new(0))), |v| Out::Rec(rec(v)));
}
fn rec(v: &mut RecP<Rec>) -> &mut Option<Rec> {
    &mut v.out
}

impl Deserialize for Rec {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        BEGUN.set(BEGUN.get() + 1);
        RecP::new(out)
    }
}

// ---- the oracle ----------------------------------------------------------------------------------

struct Expect<'a> {
    trace: Vec<W<'a>>,
    /// Builders open after each entry (indices into the trace are callbacks; None for drops).
    ticks: Vec<usize>,
    /// Place an extra element() call may hand out at the end of a valid beginning, with its builder.
    next_place: u32,
    open: Vec<(u32, bool)>,
    ignoring: bool,
}

fn expected<'a>(events: &'a [Ev], seed: u64, root: Kind) -> Expect<'a> {
    let mut t = Vec::new();
    let mut ticks = Vec::new();
    let mut open: Vec<(u32, bool)> = Vec::new();
    let (mut places, mut builders) = (0u32, 0u32);
    let mut cur = 0u32;
    let mut cur_kind = root;
    let mut skip = 0usize; // depth within an ignored value
    let mut i = 0;
    while i < events.len() {
        let e = &events[i];
        i += 1;
        if skip > 0 {
            match e {
                Ev::ArrOpen | Ev::ObjOpen => skip += 1,
                Ev::ArrClose | Ev::ObjClose => skip -= 1,
                _ => {}
            }
            if skip == 1 {
                skip = 0;
            }
            continue;
        }
        match e {
            Ev::ArrClose | Ev::ObjClose => {
                let (b, _) = open.pop().unwrap();
                ticks.push(t.len());
                t.push(W::Fin(b));
                t.push(W::Drop(b));
                continue;
            }
            Ev::Key(k) => {
                places += 1;
                let b = open.last().unwrap().0;
                ticks.push(t.len());
                t.push(W::Key(b, k, places));
                cur = places;
                cur_kind = kind(seed, places);
                continue;
            }
            _ => {}
        }
        if let Some((b, true)) = open.last() {
            places += 1;
            ticks.push(t.len());
            t.push(W::Elem(*b, places));
            cur = places;
            cur_kind = kind(seed, places);
        }
        let container = matches!(e, Ev::ArrOpen | Ev::ObjOpen);
        if cur_kind == Kind::Ignore {
            if container {
                skip = 2;
            }
            continue;
        }
        if *e == Ev::Null && matches!(cur_kind, Kind::Opt | Kind::OptBox | Kind::BoxOpt) {
            continue;
        }
        ticks.push(t.len());
        t.push(W::Cb(cur, e));
        if container {
            open.push((builders, *e == Ev::ArrOpen));
            builders += 1;
        }
    }
    Expect { trace: t, ticks, next_place: places + 1, open, ignoring: skip > 0 }
}

fn matches_one(w: &W, g: &T) -> bool {
    match (w, g) {
        (W::Cb(p, e), T::Cb(q, g)) => p == q && agree(e, g),
        (W::Elem(b, p), T::Elem(c, q)) => b == c && p == q,
        (W::Key(b, k, p), T::Key(c, l, q)) => b == c && p == q && k == l,
        (W::Fin(b), T::Fin(c)) | (W::Drop(b), T::Drop(c)) => b == c,
        _ => false,
    }
}

fn describe(w: Option<&W>) -> String {
    match w {
        None => "nothing".into(),
        Some(W::Cb(p, e)) => format!("{e:?} on place {p}"),
        Some(W::Elem(b, p)) => format!("element() of builder {b} handing out place {p}"),
        Some(W::Key(b, k, p)) => format!("key({k:?}) of builder {b} handing out place {p}"),
        Some(W::Fin(b)) => format!("finish() of builder {b}"),
        Some(W::Drop(b)) => format!("drop of builder {b}"),
    }
}

fn root_parse(root: Kind, doc: &str) -> Result<()> {
    match root {
        Kind::Boxed => json::from_str::<Box<Rec>>(doc).map(drop),
        Kind::Opt => json::from_str::<Option<Rec>>(doc).map(drop),
        Kind::OptBox => json::from_str::<Option<Box<Rec>>>(doc).map(drop),
        Kind::BoxOpt => json::from_str::<Box<Option<Rec>>>(doc).map(drop),
        _ => json::from_str::<Rec>(doc).map(drop),
    }
}
const ROOTS: [Kind; 5] = [Kind::Plain, Kind::Boxed, Kind::Opt, Kind::OptBox, Kind::BoxOpt];

/// `at`: the callback that fails by `act`. `drop_at`: the builder drop that panics.
fn play(root: Kind, seed: u64, doc: &str, at: u64, act: Act, drop_at: u64) -> (Ended<Result<()>>, Vec<T>) {
    TRACE.with(|v| v.borrow_mut().clear());
    PLACES.set(0);
    BUILDERS.set(0);
    LAST.set(0);
    SEED.set(seed);
    TICK.set(0);
    AT.set(at);
    ACT.set(act);
    DROPS.set(0);
    DROP_AT.set(drop_at);
    BEGUN.set(0);
    let r = guarded(|| root_parse(root, doc));
    (r, TRACE.with(|v| std::mem::take(&mut *v.borrow_mut())))
}

/// One document under one hand-out policy; failures injected at up to `cap` callbacks.
pub fn check(cx: &mut Ctx, doc: &str, cap: usize) {
    let parsed = refjson::parse(doc);
    if parsed.verdict == Verdict::Either {
        return;
    }
    let root = *cx.rng.pick(&ROOTS);
    let seed = cx.rng.u64();
    let x = expected(&parsed.events, seed, root);
    let accept = parsed.verdict == Verdict::Accept;

    // 1. undisturbed
    let (r, got) = play(root, seed, doc, 0, Act::None, 0);
    let how = |extra: &str| format!("root {root:?}, places by seed {seed}{extra}");
    match r {
        Ended::Returned(r) => {
            if r.is_ok() != accept {
                cx.violation("wrong outcome", format!("{} although the document is {}; {}", if r.is_ok() { "Ok" } else { "Err" }, if accept { "valid" } else { "invalid" }, how("")));
                return;
            }
        }
        Ended::Injected => {}
        Ended::Panicked(m) => {
            cx.violation("panic", m);
            return;
        }
    }
    cx.seen("callbacks observed", got.len() as u64);
    let mut n = 0;
    while n < got.len() && n < x.trace.len() && matches_one(&x.trace[n], &got[n]) {
        n += 1;
    }
    if accept {
        if n < got.len() || n < x.trace.len() {
            cx.violation("wrong callback", format!("entry {n}: observed {:?}, expected {}; {}", got.get(n), describe(x.trace.get(n)), how("")));
            return;
        }
        cx.seen("complete traces", 1);
    } else {
        // a prefix (possibly with the element() the text after the prefix calls for), then drops
        let mut open: Vec<u32> = Vec::new();
        let mut made = 0;
        for w in &x.trace[..n] {
            match w {
                W::Cb(_, Ev::ArrOpen | Ev::ObjOpen) => {
                    open.push(made);
                    made += 1;
                }
                W::Drop(_) => {
                    open.pop();
                }
                _ => {}
            }
        }
        if n == x.trace.len() && n < got.len() {
            if let (T::Elem(b, p), Some((ob, true)), false) = (&got[n], x.open.last(), x.ignoring) {
                let before = doc[..parsed.pos.min(doc.len())].trim_end_matches([' ', '\t', '\n', '\r']);
                if b == ob && *p == x.next_place && before.ends_with(['[', ',']) {
                    n += 1;
                }
            }
        }
        let rest = &got[n..];
        let ok = rest.len() == open.len() && rest.iter().zip(open.iter().rev()).all(|(g, o)| matches!(g, T::Drop(b) if b == o));
        if !ok {
            cx.violation(
                "wrong callback on malformed input",
                format!("entry {n}: observed {:?}, expected {} or the drops of {:?}; {}", &rest[..rest.len().min(4)], describe(x.trace.get(n)), open, how("")),
            );
            return;
        }
        cx.seen("prefixes of malformed documents", 1);
        // the drops that follow the rejection, one of them panicking
        if !rest.is_empty() {
            let before = got.iter().filter(|g| matches!(g, T::Drop(_))).count() - rest.len();
            let j = cx.rng.below(rest.len());
            unwind(cx, root, seed, doc, 0, Act::None, before + j + 1, &got);
        }
    }

    // 2. a failure at a callback
    let ticks: Vec<usize> = if accept { x.ticks.clone() } else { x.ticks.iter().copied().filter(|t| *t < n).collect() };
    let chosen: Vec<usize> = if ticks.len() <= cap {
        (0..ticks.len()).collect()
    } else {
        (0..cap).map(|_| cx.rng.below(ticks.len())).collect()
    };
    for k in chosen {
        for act in [Act::Err, Act::Panic] {
            if cx.stop() {
                return;
            }
            cx.evals += 1;
            let (r, got) = play(root, seed, doc, k as u64 + 1, act, 0);
            let extra = format!(", {act:?} at callback {}", k + 1);
            match (r, act) {
                (Ended::Returned(Err(_)), Act::Err) | (Ended::Injected, Act::Panic) => {}
                (Ended::Panicked(m), _) => {
                    cx.violation("panic", format!("{m}; {}", how(&extra)));
                    return;
                }
                _ => {
                    cx.violation("failure of a callback not reported", how(&extra));
                    return;
                }
            }
            let end = ticks[k] + 1;
            let mut open: Vec<u32> = Vec::new();
            let mut made = 0;
            for (i, w) in x.trace[..end].iter().enumerate() {
                match w {
                    W::Cb(_, Ev::ArrOpen | Ev::ObjOpen) if i + 1 < end => {
                        open.push(made);
                        made += 1;
                    }
                    W::Drop(_) => {
                        open.pop();
                    }
                    _ => {}
                }
            }
            let same = got.len() == end + open.len()
                && x.trace[..end].iter().zip(&got).all(|(w, g)| matches_one(w, g))
                && got[end..].iter().zip(open.iter().rev()).all(|(g, o)| matches!(g, T::Drop(b) if b == o));
            if !same {
                let n = x.trace[..end].iter().zip(&got).take_while(|(w, g)| matches_one(w, g)).count();
                cx.violation(
                    "wrong callback around a failure",
                    format!("entry {n}: observed {:?}; the failing callback is entry {}, then drops of {:?} in reverse; {}", &got[n..got.len().min(n + 4)], end - 1, open, how(&extra)),
                );
                return;
            }
            cx.seen(if act == Act::Err { "errors injected" } else { "panics injected" }, 1);
            cx.seen("callbacks observed", got.len() as u64);
            // the drops that follow the error, one of them panicking
            if act == Act::Err && !open.is_empty() {
                let before = got[..end].iter().filter(|g| matches!(g, T::Drop(_))).count();
                let j = cx.rng.below(open.len());
                unwind(cx, root, seed, doc, k as u64 + 1, act, before + j + 1, &got);
            }
        }
    }

    // 3. a builder's drop panics when its container closes
    let mut open: Vec<u32> = Vec::new();
    let mut made = 0;
    let mut drops = 0usize;
    let total = x.trace[..n.min(x.trace.len())].iter().filter(|w| matches!(w, W::Drop(_))).count();
    for (i, w) in x.trace[..n.min(x.trace.len())].iter().enumerate() {
        match w {
            W::Cb(_, Ev::ArrOpen | Ev::ObjOpen) => {
                open.push(made);
                made += 1;
            }
            W::Drop(_) => {
                open.pop();
                drops += 1;
                if total > cap && !cx.rng.chance(cap, total) {
                    continue;
                }
                if cx.stop() {
                    return;
                }
                // what the undisturbed run showed up to here, then the remaining builders
                let mut want = got[..=i].to_vec();
                want.extend(open.iter().rev().map(|b| T::Drop(*b)));
                unwind(cx, root, seed, doc, 0, Act::None, drops, &want);
            }
            _ => {}
        }
    }
}

/// One more run in which the given builder drop panics: the trace must be `want`.
#[allow(clippy::too_many_arguments)]
fn unwind(cx: &mut Ctx, root: Kind, seed: u64, doc: &str, at: u64, act: Act, drop_at: usize, want: &[T]) {
    cx.evals += 1;
    let (r, got) = play(root, seed, doc, at, act, drop_at as u64);
    let how = format!("root {root:?}, places by seed {seed}, {act:?} at callback {at}, panic in drop {drop_at}");
    match r {
        Ended::Injected => {}
        Ended::Panicked(m) => return cx.violation("panic", format!("{m}; {how}")),
        Ended::Returned(_) => return cx.violation("panic of a drop not reported", how),
    }
    if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| !same(a, b)) {
        let n = got.iter().zip(want).take_while(|(a, b)| same(a, b)).count();
        return cx.violation("wrong callback or drop around a panicking drop", format!("entry {n}: observed {:?}, expected {:?}; {how}", got.get(n), want.get(n)));
    }
    cx.seen("panics injected into drops", 1);
}

fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Cb(p, x), T::Cb(q, y)) => p == q && format!("{x:?}") == format!("{y:?}"),
        (T::Elem(b, p), T::Elem(c, q)) => b == c && p == q,
        (T::Key(b, k, p), T::Key(c, l, q)) => b == c && p == q && k == l,
        (T::Fin(b), T::Fin(c)) | (T::Drop(b), T::Drop(c)) | (T::Lost(b), T::Lost(c)) => b == c,
        _ => false,
    }
}

pub fn run(cx: &mut Ctx) {
    // small: every container text of a few tokens
    let tokens = ["[", "]", "{", "}", ",", ":", "1", "\"a\"", "null", " "];
    let len = cx.n(3, 6, 7);
    let mut idx = vec![0usize; len];
    let mut count = 0u64;
    'e: loop {
        count += 1;
        if cx.mine(count as usize) && (cx.tier != Tier::Mini || count % 29 == 0) {
            let doc: String = idx.iter().map(|i| tokens[*i]).collect();
            cx.enumerated("tokens", &doc);
            check(cx, &doc, 4);
            if cx.stop() {
                break;
            }
        }
        let mut k = 0;
        loop {
            if k == len {
                break 'e;
            }
            idx[k] += 1;
            if idx[k] < tokens.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
    let rounds = cx.share(150, 400_000, 30_000_000);
    for i in 0..rounds {
        if i % 16 == 0 && cx.done() {
            break;
        }
        let doc = gen::gen_doc(&mut cx.rng);
        if cx.tier == Tier::Mini && doc.len() > 150 {
            continue;
        }
        cx.case("random", &doc);
        check(cx, &doc, cx.n(4, 24, 200));
        let bad = gen::mutate(&mut cx.rng, &doc);
        cx.case("corrupted", &bad);
        check(cx, &bad, 2);
        if !doc.is_empty() {
            let mut at = cx.rng.below(doc.len());
            while !doc.is_char_boundary(at) {
                at -= 1;
            }
            cx.case("cut", &doc[..at]);
            check(cx, &doc[..at], 2);
        }
        if i % 50 == 0 && cx.tier != Tier::Mini {
            let n = *cx.rng.pick(&[20usize, 64, 127, 128, 129, 300, 1500, 5000]);
            let sib = *cx.rng.pick(&[0usize, 10, 60]);
            let doc = gen::gen_deep(&mut cx.rng.clone(), n, sib);
            cx.case("deep", &doc);
            check(cx, &doc, 6);
            cx.max("max builders open", n as u64);
            let cut = doc.len() * 2 / 3;
            let mut cut = cut;
            while !doc.is_char_boundary(cut) {
                cut -= 1;
            }
            cx.case("deep, cut", &doc[..cut]);
            check(cx, &doc[..cut], 2);
            let k = cx.rng.below(5);
            let doc = crate::c02::wide(&mut Rng::new(cx.rng.u64()), n, k);
            cx.case("wide", &doc);
            check(cx, &doc, 6);
        }
    }
}
