//! C14: the same call gives the same result whatever ran before, around it or beside it.

use crate::ctx::{self, guarded, Ctx, Ended, Injected, Tier};
use crate::model::DocGen;
use crate::refjson::{self, Ev, Verdict};
use crate::rng::{mix, Rng};
use crate::value::{differ, Got};
use crate::zoo::{zoo, Entry};
use crate::{c11, c16, gen};
use miniserde::de::{self, Visitor};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::ser::{self, Fragment};
use miniserde::{make_place, Deserialize, Result, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier, Mutex};

// ---- probes: calls whose result is known ---------------------------------------------------------

#[derive(Clone)]
enum Probe {
    Parse(usize, String),
    Write(usize, u64, usize),
    /// Operations on Values.
    Api(u64),
}

struct Probes {
    types: Vec<Entry>,
    list: Vec<(Probe, String)>,
}

impl Probes {
    fn run(&self, p: &Probe) -> String {
        match p {
            Probe::Parse(i, doc) => match (self.types[*i].parse)(doc) {
                Ok(m) => format!("Ok {m:?}"),
                Err(e) => format!("Err {e} {e:?}"),
            },
            Probe::Write(i, seed, d) => (self.types[*i].make)(&mut Rng::new(*seed), *d).1,
            Probe::Api(seed) => c16::replay(*seed, 12),
        }
    }

    fn name(&self, p: &Probe) -> String {
        match p {
            Probe::Parse(i, doc) => format!("from_str::<{}>({})", self.types[*i].name, ctx::show(doc)),
            Probe::Write(i, seed, d) => format!("to_string of {} from seed {seed}, depth {d}", self.types[*i].name),
            Probe::Api(seed) => format!("Value operations from seed {seed}"),
        }
    }

    fn make(r: &mut Rng, n: usize) -> Probes {
        let types = zoo();
        let mut p = Probes { types, list: Vec::new() };
        while p.list.len() < n {
            let i = r.below(p.types.len());
            let probe = match r.below(10) {
                0..=5 => {
                    let mut doc = String::new();
                    let mut g = DocGen::random(r);
                    let d = r.range(1, 4);
                    g.doc(r, &(p.types[i].schema)(), d, &mut doc);
                    if doc.len() > 3000 {
                        continue;
                    }
                    if r.chance(1, 4) {
                        doc = gen::mutate(r, &doc);
                    }
                    Probe::Parse(i, doc)
                }
                6..=8 => {
                    // the iteration order of std's own random hasher is not ours to compare
                    if p.types[i].name.contains("HashMap") && !p.types[i].name.contains("Fixed") {
                        continue;
                    }
                    Probe::Write(i, r.u64(), r.range(0, 4))
                }
                _ => Probe::Api(r.u64()),
            };
            p.list.push((probe, String::new()));
        }
        p
    }
}

// ---- a user type that makes calls from inside its callbacks --------------------------------------

thread_local! {
    static NESTING: Cell<u32> = const { Cell::new(0) };
    static INNER: RefCell<Option<Inner>> = const { RefCell::new(None) };
}

struct Inner {
    rng: Rng,
    probes: Arc<Probes>,
    wrong: Option<String>,
    calls: u64,
}

/// Called from every callback: another call, with its result compared.
fn hook() {
    if NESTING.get() >= 3 {
        return;
    }
    let Some((p, k, deeper)) = INNER.with(|i| {
        let mut i = i.borrow_mut();
        let i = i.as_mut()?;
        if i.wrong.is_some() || !i.rng.chance(1, 3) {
            return None;
        }
        i.calls += 1;
        Some((i.probes.clone(), i.rng.below(i.probes.list.len()), i.rng.chance(1, 8)))
    }) else {
        return;
    };
    NESTING.set(NESTING.get() + 1);
    let (probe, want) = &p.list[k];
    let got = p.run(probe);
    let mut bad = None;
    if got != *want {
        bad = Some(format!("{}: {got}, was {want}", p.name(probe)));
    }
    if deeper {
        // a nested call whose own callbacks call again
        let doc = "[{\"a\":[1,\"x\",{}],\"b\":null},2.5,[[]]]";
        let j = json::from_str::<J>(doc).expect("nested document");
        let mut got = Vec::new();
        j.flatten(&mut got);
        let ev = refjson::parse(doc).events;
        bad = bad.or(differ(&ev, &got));
        if json::to_string(&j) != doc {
            bad = Some("nested to_string".into());
        }
    }
    NESTING.set(NESTING.get() - 1);
    if bad.is_some() {
        INNER.with(|i| {
            if let Some(i) = i.borrow_mut().as_mut() {
                i.wrong = bad;
            }
        });
    }
}

enum J {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    fn flatten(&self, out: &mut Vec<Got>) {
        match self {
            J::Null => out.push(Got::Null),
            J::Bool(b) => out.push(Got::Bool(*b)),
            J::U(n) => out.push(Got::U(*n)),
            J::I(n) => out.push(Got::I(*n)),
            J::F(n) => out.push(Got::F(*n)),
            J::S(s) => out.push(Got::Str(s.clone())),
            J::A(v) => {
                out.push(Got::ArrOpen);
                v.iter().for_each(|x| x.flatten(out));
                out.push(Got::ArrClose);
            }
            J::O(v) => {
                out.push(Got::ObjOpen);
                for (k, x) in v {
                    out.push(Got::Key(k.clone()));
                    x.flatten(out);
                }
                out.push(Got::ObjClose);
            }
        }
    }
}

make_place!(JP);

macro_rules! leaf {
    ($($f:ident($($x:ident: $t:ty)?) $e:expr;)*) => { $(
        fn $f(&mut self $(, $x: $t)?) -> Result<()> {
            hook();
            self.out = Some($e);
            hook();
            Ok(())
        }
    )* };
}

impl Visitor for JP<J> {
    leaf! {
        null() J::Null;
        boolean(b: bool) J::Bool(b);
        string(s: &str) {
            // the text must survive calls made meanwhile
            let copy = s.to_owned();
            hook();
            assert!(copy == *s, "text changed during a nested call");
            J::S(s.to_owned())
        };
        nonnegative(n: u64) J::U(n);
        negative(n: i64) J::I(n);
        float(n: f64) J::F(n);
    }
    fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
        hook();
        Ok(Box::new(JB { out: &mut self.out, seq: Vec::new(), map: Vec::new(), item: None, key: None }))
    }
    fn map(&mut self) -> Result<Box<dyn de::Map + '_>> {
        hook();
        Ok(Box::new(JB { out: &mut self.out, seq: Vec::new(), map: Vec::new(), item: None, key: None }))
    }
}

struct JB<'a> {
    out: &'a mut Option<J>,
    seq: Vec<J>,
    map: Vec<(String, J)>,
    item: Option<J>,
    key: Option<String>,
}

impl Drop for JB<'_> {
    fn drop(&mut self) {
        hook();
    }
}

impl de::Seq for JB<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        hook();
        self.seq.extend(self.item.take());
        Ok(Deserialize::begin(&mut self.item))
    }
    fn finish(&mut self) -> Result<()> {
        hook();
        self.seq.extend(self.item.take());
        *self.out = Some(J::A(std::mem::take(&mut self.seq)));
        Ok(())
    }
}

impl de::Map for JB<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        let copy = k.to_owned();
        hook();
        assert!(copy == *k, "key changed during a nested call");
        if let Some(k) = self.key.take() {
            self.map.push((k, self.item.take().expect("value of the previous key")));
        }
        self.key = Some(k.to_owned());
        Ok(Deserialize::begin(&mut self.item))
    }
    fn finish(&mut self) -> Result<()> {
        hook();
        if let Some(k) = self.key.take() {
            self.map.push((k, self.item.take().expect("value of the last key")));
        }
        *self.out = Some(J::O(std::mem::take(&mut self.map)));
        Ok(())
    }
}

impl Deserialize for J {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        hook();
        JP::new(out)
    }
}

impl Serialize for J {
    fn begin(&self) -> Fragment<'_> {
        struct S<'a>(std::slice::Iter<'a, J>);
        impl ser::Seq for S<'_> {
            fn next(&mut self) -> Option<&dyn Serialize> {
                hook();
                self.0.next().map(|x| x as _)
            }
        }
        struct M<'a>(std::slice::Iter<'a, (String, J)>, String);
        impl ser::Map for M<'_> {
            fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
                hook();
                let (k, v) = self.0.next()?;
                self.1.clone_from(k);
                Some((Cow::Borrowed(&self.1), v as _))
            }
        }
        hook();
        match self {
            J::Null => Fragment::Null,
            J::Bool(b) => Fragment::Bool(*b),
            J::U(n) => Fragment::U64(*n),
            J::I(n) => Fragment::I64(*n),
            J::F(n) => Fragment::F64(*n),
            J::S(s) => Fragment::Str(Cow::Borrowed(s)),
            J::A(v) => Fragment::Seq(Box::new(S(v.iter()))),
            J::O(v) => Fragment::Map(Box::new(M(v.iter(), String::new()))),
        }
    }
}

/// The document through J, with calls inside the callbacks.
fn nested(seed: u64, probes: &Arc<Probes>, doc: &str, ev: &[Ev]) -> std::result::Result<u64, String> {
    NESTING.set(0);
    INNER.with(|i| *i.borrow_mut() = Some(Inner { rng: Rng::new(seed), probes: probes.clone(), wrong: None, calls: 0 }));
    let r = guarded(|| {
        json::from_str::<J>(doc).map(|j| {
            let mut got = Vec::new();
            j.flatten(&mut got);
            let t = json::to_string(&j);
            (got, t, j)
        })
    });
    let inner = INNER.with(|i| i.borrow_mut().take()).unwrap();
    if let Some(w) = inner.wrong {
        return Err(format!("a call inside a callback: {w}"));
    }
    match r {
        Ended::Returned(Ok((got, t, j))) => {
            if let Some(d) = differ(ev, &got) {
                return Err(format!("outer call with calls inside its callbacks: {d}"));
            }
            // the text, through a call that contains none
            let alone = json::to_string(&j);
            if t != alone {
                return Err(format!("to_string with calls inside its callbacks: {}, without: {}", ctx::show(&t), ctx::show(&alone)));
            }
        }
        Ended::Returned(Err(_)) => return Err("outer call with calls inside its callbacks refused a valid document".into()),
        Ended::Panicked(m) => return Err(format!("panic with calls inside callbacks: {m}")),
        Ended::Injected => return Err("stray panic".into()),
    }
    Ok(inner.calls)
}

// ---- disturbances --------------------------------------------------------------------------------

/// Calls that fail or panic; nothing is compared.
fn disturb(r: &mut Rng, types: &[Entry], cases: &[c11::Case]) -> &'static str {
    match r.below(8) {
        0..=2 => {
            c11::disturb(r, cases);
            "a call with an error or a panic inside"
        }
        3 => {
            let e = &types[r.below(types.len())];
            let mut doc = String::new();
            let mut g = DocGen::random(r);
            g.doc(r, &(e.schema)(), 3, &mut doc);
            let mut k = r.below(doc.len() + 1);
            while !doc.is_char_boundary(k) {
                k -= 1;
            }
            let _ = guarded(|| (e.accepts)(&doc[..k]));
            "a call on a cut document"
        }
        4 => {
            let doc = gen::garbage(r);
            let _ = guarded(|| json::from_str::<Value>(&doc).is_ok());
            "a call on garbage"
        }
        5 => {
            struct Bomb(u8);
            impl Serialize for Bomb {
                fn begin(&self) -> Fragment<'_> {
                    struct S(u8);
                    impl ser::Seq for S {
                        fn next(&mut self) -> Option<&dyn Serialize> {
                            self.0 = self.0.checked_sub(1).unwrap_or_else(|| std::panic::panic_any(Injected));
                            Some(&"text of some length")
                        }
                    }
                    Fragment::Seq(Box::new(S(self.0)))
                }
            }
            let b = vec![Bomb(r.below(40) as u8)];
            let _ = guarded(|| json::to_string(&b).len());
            "to_string with a panic inside"
        }
        6 => {
            let n = r.size(3000);
            let doc = gen::gen_deep(r, n, 10);
            let _ = guarded(|| json::from_str::<Value>(&doc).map(|v| json::to_string(&v).len()));
            "a deep document"
        }
        _ => {
            let doc = gen::gen_deep(r, 100, 10);
            let k = doc.len() / 2;
            if doc.is_char_boundary(k) {
                let _ = guarded(|| json::from_str::<Value>(&doc[..k]).is_ok());
            }
            "half a deep document"
        }
    }
}

// ---- Send and Sync -------------------------------------------------------------------------------

struct Ask<T>(PhantomData<T>);
trait Fallback {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> Fallback for Ask<T> {}
struct AskSend<T>(PhantomData<T>);
struct AskSync<T>(PhantomData<T>);
impl<T> Fallback for AskSend<T> {}
impl<T> Fallback for AskSync<T> {}
impl<T: Send> AskSend<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> AskSync<T> {
    fn sync(&self) -> bool {
        true
    }
}

macro_rules! auto_traits {
    ($cx:expr, $($t:ty),*) => { $(
        $cx.enumerated("auto traits", stringify!($t));
        if !AskSend::<$t>(PhantomData).send() {
            $cx.violation("cannot be sent to another thread", stringify!($t).into());
        }
        if !AskSync::<$t>(PhantomData).sync() {
            $cx.violation("cannot be shared between threads", stringify!($t).into());
        }
        $cx.seen("types asked for Send and Sync", 1);
    )* };
}

/// So that the threads below compile whatever the answer.
#[derive(Clone)]
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

// ---- threads -------------------------------------------------------------------------------------

static IN_FLIGHT: AtomicUsize = AtomicUsize::new(0);

struct Shared {
    value: Value,
    text: String,
    dump: Vec<Got>,
}

fn thread_body(me: usize, seed: u64, ops: usize, probes: &Arc<Probes>, shared: &[Shared], peers: &[Mutex<mpsc::Sender<Force<Value>>>], inbox: mpsc::Receiver<Force<Value>>, overlapped: &AtomicU64, values: &AtomicU64) -> std::result::Result<u64, String> {
    let mut r = Rng::new(seed);
    let cases = c11::cases();
    let mut done = 0;
    for _ in 0..ops {
        done += 1;
        if IN_FLIGHT.fetch_add(1, Ordering::Relaxed) > 0 {
            overlapped.fetch_add(1, Ordering::Relaxed);
        }
        let out: std::result::Result<(), String> = (|| {
            match r.below(12) {
                0..=3 => {
                    let (p, want) = &probes.list[r.below(probes.list.len())];
                    let got = match guarded(|| probes.run(p)) {
                        Ended::Returned(g) => g,
                        Ended::Panicked(m) => return Err(format!("panic: {m}")),
                        Ended::Injected => return Err("stray panic".into()),
                    };
                    if got != *want {
                        return Err(format!("{}: {got}, was {want} when alone", probes.name(p)));
                    }
                }
                4..=6 => {
                    let s = &shared[r.below(shared.len())];
                    match r.below(4) {
                        0 => {
                            if json::to_string(&s.value) != s.text {
                                return Err("to_string of a shared Value".into());
                            }
                        }
                        1 => {
                            if crate::value::walk(&s.value) != s.dump {
                                return Err("contents of a shared Value".into());
                            }
                        }
                        2 => {
                            let c = s.value.clone();
                            if json::to_string(&c) != s.text {
                                return Err("clone of a shared Value".into());
                            }
                            // drop it elsewhere
                            let peer = &peers[(me + 1 + r.below(peers.len())) % peers.len()];
                            let _ = peer.lock().unwrap().send(Force(c));
                        }
                        _ => {
                            if format!("{:?}", s.value).is_empty() {
                                return Err("Debug of a shared Value".into());
                            }
                        }
                    }
                }
                7 => {
                    let doc = gen::gen_doc(&mut r);
                    let p = refjson::parse(&doc);
                    match json::from_str::<Value>(&doc) {
                        Ok(v) => {
                            if p.verdict == Verdict::Reject {
                                return Err(format!("accepted {}", ctx::show(&doc)));
                            }
                            let peer = &peers[(me + 1 + r.below(peers.len())) % peers.len()];
                            let _ = peer.lock().unwrap().send(Force(v));
                        }
                        Err(_) => {
                            if p.verdict == Verdict::Accept {
                                return Err(format!("refused {}", ctx::show(&doc)));
                            }
                        }
                    }
                }
                8 => {
                    let doc = "{\"k\":[1,2,{\"x\":\"y\\n\"}],\"l\":null}";
                    let ev = refjson::parse(doc).events;
                    nested(r.u64(), probes, doc, &ev)?;
                }
                9 => {
                    while let Ok(Force(v)) = inbox.try_recv() {
                        values.fetch_add(1, Ordering::Relaxed);
                        if json::to_string(&v).is_empty() {
                            return Err("a Value received from another thread".into());
                        }
                    }
                }
                _ => drop(disturb(&mut r, &probes.types, &cases)),
            }
            Ok(())
        })();
        IN_FLIGHT.fetch_sub(1, Ordering::Relaxed);
        out?;
    }
    Ok(done)
}

pub fn threads(cx: &mut Ctx) {
    let rounds = cx.n(1, 60, 4000);
    let n_threads = cx.n(3, 8, 8);
    let ops = cx.n(4, 400, 600);
    for round in 0..rounds {
        if !cx.mine(round) || cx.done() {
            continue;
        }
        let seed = mix(cx.seed ^ (round as u64) << 20);
        let mut r = Rng::new(seed);
        let probes = settled(cx, &mut r, cx.n(6, 150, 300));
        let mut shared = Vec::new();
        for i in 0..cx.n(2, 12, 30) {
            let doc = if i % 4 == 3 { gen::gen_deep_with(&mut r, 60, 30, false) } else { gen::gen_doc(&mut r) };
            if doc.len() > 20_000 || (cx.tier == Tier::Mini && doc.len() > 200) {
                continue;
            }
            if let Ok(value) = json::from_str::<Value>(&doc) {
                let text = json::to_string(&value);
                let dump = crate::value::walk(&value);
                shared.push(Shared { value, text, dump });
            }
        }
        if shared.is_empty() {
            let value = Value::Null;
            shared.push(Shared { text: "null".into(), dump: crate::value::walk(&value), value });
        }
        cx.case("threads", &format!("round {round}, seed {seed}, {n_threads} threads"));
        let overlapped = AtomicU64::new(0);
        let values = AtomicU64::new(0);
        let shared = Force(shared);
        let probes = Force(probes);
        let mut senders = Vec::new();
        let mut boxes = Vec::new();
        for _ in 0..n_threads {
            let (s, b) = mpsc::channel();
            senders.push(Mutex::new(s));
            boxes.push(Force(b));
        }
        let senders = Force(senders);
        let barrier = Barrier::new(n_threads);
        ctx::cursor_hold(true);
        let results: Vec<std::result::Result<u64, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = boxes
                .into_iter()
                .enumerate()
                .map(|(me, inbox)| {
                    let (shared, probes, senders, overlapped, barrier, values) = (&shared, &probes, &senders, &overlapped, &barrier, &values);
                    s.spawn(move || {
                        // whole wrappers, not their fields
                        let (shared, probes, senders, inbox): (&Force<_>, &Force<_>, &Force<_>, Force<_>) = (shared, probes, senders, inbox);
                        barrier.wait();
                        thread_body(me, mix(seed ^ me as u64), ops, &probes.0, &shared.0, &senders.0, inbox.0, overlapped, values)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
        });
        ctx::cursor_hold(false);
        for x in results {
            match x {
                Ok(n) => cx.seen("calls in threads", n),
                Err(e) => cx.violation("wrong beside other threads", e),
            }
        }
        cx.seen("calls begun while another was running", overlapped.into_inner());
        cx.seen("Values received from another thread", values.into_inner());
        cx.seen("thread rounds", 1);
    }
}

/// Probes with the results they have before anything else happened on a fresh thread.
fn settled(_cx: &Ctx, r: &mut Rng, n: usize) -> Arc<Probes> {
    let mut p = Probes::make(r, n);
    let mut list = std::mem::take(&mut p.list);
    let p = Force(p);
    let list = std::thread::scope(|s| {
        let p = &p;
        s.spawn(move || {
            let p: &Force<Probes> = p;
            for (probe, want) in &mut list {
                *want = match guarded(|| p.0.run(probe)) {
                    Ended::Returned(s) => s,
                    _ => "panic".into(),
                };
            }
            list
        })
        .join()
        .unwrap()
    });
    let mut p = p.0;
    p.list = list;
    Arc::new(p)
}

// ---- calls inside calls inside calls -------------------------------------------------------------

thread_local! {
    /// Met by the innermost call: all the others are under way then.
    static INNERMOST: RefCell<Option<Arc<Barrier>>> = const { RefCell::new(None) };
}

/// "n" is read by reading "n-1" inside the callback, by writing one inside the callback, or both.
#[derive(PartialEq, Debug)]
struct Nest(u64);

make_place!(NP);

impl Visitor for NP<Nest> {
    fn string(&mut self, s: &str) -> Result<()> {
        let (n, how) = s.split_once(' ').ok_or(miniserde::Error)?;
        let n: u64 = n.parse().map_err(|_| miniserde::Error)?;
        let below = if n == 0 {
            INNERMOST.with(|b| {
                if let Some(b) = &*b.borrow() {
                    b.wait();
                }
            });
            0
        } else if how == "write" || how == "both" && n % 2 == 0 {
            json::to_string(&Nested(n - 1, how)).trim_matches(|c| "[]".contains(c)).parse().map_err(|_| miniserde::Error)?
        } else {
            json::from_str::<Vec<Nest>>(&format!("[\"{} {how}\"]", n - 1))?[0].0
        };
        self.out = Some(Nest(below + 1));
        Ok(())
    }
}

impl Deserialize for Nest {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        NP::new(out)
    }
}

struct Nested<'a>(u64, &'a str);

impl Serialize for Nested<'_> {
    fn begin(&self) -> Fragment<'_> {
        struct One<'a>(Option<&'a Nested<'a>>, u64);
        impl ser::Seq for One<'_> {
            fn next(&mut self) -> Option<&dyn Serialize> {
                let n = self.0.take()?;
                self.1 = if n.0 == 0 {
                    1
                } else if n.1 == "write" {
                    json::to_string(&Nested(n.0 - 1, n.1)).trim_matches(|c| "[]".contains(c)).parse::<u64>().unwrap() + 1
                } else {
                    json::from_str::<Nest>(&format!("\"{} {}\"", n.0 - 1, n.1)).unwrap().0 + 1
                };
                Some(&self.1)
            }
        }
        Fragment::Seq(Box::new(One(Some(self), 0)))
    }
}

fn nests(cx: &mut Ctx) {
    let depths: &[u64] = match cx.tier {
        Tier::Mini => &[0, 1, 2, 9],
        _ => &[0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1100],
    };
    for (i, n) in depths.iter().enumerate() {
        for how in ["read", "write", "both"] {
            if !cx.mine(i) {
                continue;
            }
            cx.enumerated("calls in calls", &format!("{n} deep, {how}"));
            let n = *n;
            let got = cx.call(|| {
                std::thread::Builder::new()
                    .stack_size(if cfg!(miri) { 1 << 20 } else { 256 << 20 })
                    .spawn(move || json::from_str::<Nest>(&format!("\"{n} {how}\"")).ok().map(|x| x.0))
                    .unwrap()
                    .join()
                    .unwrap_or(None)
            });
            match got {
                Some(Some(x)) if x == n + 1 => cx.seen("calls inside callbacks of each other", n + 1),
                Some(x) => cx.violation("wrong with calls inside callbacks", format!("{n} calls deep: {x:?}")),
                None => {}
            }
        }
    }
    // as many calls under way at once, in threads
    for (i, n) in [2usize, 9, 17, 33, 65, 129, 257, 400].into_iter().enumerate() {
        if !cx.mine(i) || cx.tier == Tier::Mini {
            continue;
        }
        cx.enumerated("calls beside calls", &format!("{n} threads"));
        // those that do not reach the innermost call would leave the others waiting: they come to the barrier too
        let barrier = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let barrier = barrier.clone();
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        INNERMOST.with(|b| *b.borrow_mut() = Some(barrier.clone()));
                        let how = ["read", "both"][k % 2];
                        let d = (k % 4) as u64;
                        let got = std::panic::catch_unwind(|| json::from_str::<Nest>(&format!("\"{d} {how}\"")).ok().map(|x| x.0)).unwrap_or(None);
                        if got != Some(d + 1) {
                            barrier.wait();
                        }
                        got == Some(d + 1)
                    })
                    .unwrap()
            })
            .collect();
        let right = hs.into_iter().map(|h| h.join().unwrap_or(false)).filter(|b| *b).count();
        cx.seen("calls under way at once", n as u64);
        if right != n {
            cx.violation("wrong beside other threads", format!("{} of {n} calls under way at once", n - right));
        }
    }
}

// ---- a great many failures -----------------------------------------------------------------------

#[derive(Deserialize)]
struct Only {
    #[allow(dead_code)]
    a: Option<Box<Only>>,
}

/// Texts that fail with so many layers, bytes or members behind them: the call, and how many it leaves each time.
fn failing(k: usize) -> Option<(&'static str, String, fn(&str) -> bool)> {
    const N: usize = 200_000;
    fn value(d: &str) -> bool {
        json::from_str::<Value>(d).is_ok()
    }
    fn only(d: &str) -> bool {
        json::from_str::<Only>(d).is_ok()
    }
    fn vecs(d: &str) -> bool {
        json::from_str::<Vec<J>>(d).is_ok()
    }
    Some(match k {
        0 => ("arrays left open", "[".repeat(N), value),
        1 => ("objects left open", "{\"a\":".repeat(N), value),
        2 => ("arrays closed as objects", "[".repeat(N) + "}", value),
        3 => ("objects closed as arrays", "{\"a\":".repeat(N) + "1]", value),
        4 => ("ignored arrays left open", "{\"x\":".to_owned() + &"[".repeat(N), only),
        5 => ("ignored objects left open", "{\"x\":".repeat(N), only),
        6 => ("structs refused", "{\"a\":".repeat(20_000) + "7", only),
        7 => ("deep arrays with junk after", "[".repeat(N) + &"]".repeat(N) + "x", value),
        8 => ("texts left open", format!("[\"{}", "\\n\\u0041x".repeat(N / 4)), value),
        9 => ("texts left open by an escape", format!("{{\"{}\\", "ab\\t".repeat(N / 4)), value),
        10 => ("members left without value", format!("{{{}\"b\"}}", "\"a\":1,".repeat(N / 8)), value),
        11 => ("numbers too large", format!("[{}1e999]", "1.5,".repeat(N / 4)), value),
        12 => ("user's arrays left open", "[".repeat(20_000), vecs),
        13 => ("deep arrays", "[".repeat(N) + &"]".repeat(N), value),
        14 => ("wide arrays", format!("[{}[]]", "[],".repeat(N)), value),
        15 => ("texts", format!("[{}\"\"]", "\"\\n\",".repeat(N / 4)), value),
        _ => return None,
    })
}

fn saturate(cx: &mut Ctx) {
    if cx.tier == Tier::Mini {
        return;
    }
    let mut r = Rng::new(cx.rng.u64());
    let probes = settled(cx, &mut r, 200);
    let mut k = 0;
    while let Some((name, doc, f)) = failing(k) {
        k += 1;
        if !cx.mine(k) {
            continue;
        }
        cx.enumerated("a great many calls", name);
        // 2^24 and more of whatever it leaves behind
        let mut left = cx.n(1, 120, 1500);
        while left > 0 && !cx.stop() {
            let some = left.min(20);
            left -= some;
            if cx.call(|| (0..some).filter(|_| f(&doc)).count()).is_none() {
                break;
            }
            cx.seen("bytes of a great many calls", (doc.len() * some) as u64);
        }
        for (p, want) in &probes.list {
            cx.evals += 1;
            let got = match guarded(|| probes.run(p)) {
                Ended::Returned(g) => g,
                Ended::Panicked(m) => format!("panic {m}"),
                Ended::Injected => "stray panic".into(),
            };
            if got != *want {
                let name = probes.name(p);
                cx.violation("depends on earlier calls", format!("{name}: {got}, was {want} at first"));
                break;
            }
            cx.seen("results compared after other calls", 1);
        }
    }
}

pub fn run(cx: &mut Ctx, args: &[String]) {
    if args.iter().any(|a| a == "threads") {
        threads(cx);
        return;
    }
    nests(cx);
    saturate(cx);
    let _ = Ask::<u8>(PhantomData).send() || Ask::<u8>(PhantomData).sync();
    auto_traits!(cx, Value, Array, Object, Number, Vec<Value>, Option<Value>, BTreeMap<String, Value>, miniserde::Error);

    // histories
    let cases = c11::cases();
    let rounds = cx.share(1, 200, 20_000);
    for round in 0..rounds {
        if cx.done() {
            break;
        }
        let mut r = Rng::new(cx.rng.u64());
        let probes = settled(cx, &mut r, cx.n(8, 200, 400));
        cx.case("history", &format!("round {round} of shard {} with seed {}", cx.shard, cx.seed));
        let mut order: Vec<usize> = (0..probes.list.len()).collect();
        r.shuffle(&mut order);
        for k in order {
            let mut last = "nothing";
            for _ in 0..r.below(4) {
                last = disturb(&mut r, &probes.types, &cases);
                cx.seen("disturbing calls", 1);
            }
            if r.chance(1, 300) && cx.tier != Tier::Mini {
                // many failures of one kind
                let doc = (*r.pick(&["[1,", "{\"a\":{\"b\":[", "\"\\u", "1e999", "[[[[[[[[[[1]]]]]]]]", "{\"a\":1,\"a\"}", "[true"])).to_owned();
                let e = &probes.types[r.below(probes.types.len())];
                let _ = guarded(|| {
                    for _ in 0..20_000 {
                        let _ = json::from_str::<Value>(&doc).is_ok() || (e.accepts)(&doc);
                    }
                });
                cx.seen("disturbing calls", 40_000);
                last = "40000 failing calls";
            }
            let (p, want) = &probes.list[k];
            cx.evals += 1;
            let got = match guarded(|| probes.run(p)) {
                Ended::Returned(g) => g,
                Ended::Panicked(m) => format!("panic {m}"),
                Ended::Injected => "stray panic".into(),
            };
            if got != *want {
                let name = probes.name(p);
                cx.case("history", &name);
                cx.violation("depends on earlier calls", format!("{got}, was {want} at first; the call before was {last}"));
                break;
            }
            cx.seen("results compared after other calls", 1);
            // the same address with another content
            if let Probe::Parse(i, doc) = p {
                let e = &probes.types[*i];
                let mut b = doc.clone().into_bytes();
                for x in &mut b {
                    if x.is_ascii_digit() && *x != b'0' {
                        *x = b'1' + (*x - b'0') % 9;
                    }
                }
                let other = String::from_utf8(b).unwrap();
                let mut buf = String::with_capacity(doc.len());
                buf.push_str(doc);
                let a = guarded(|| (e.parse)(&buf).map(|m| format!("{m:?}")).ok());
                buf.clear();
                buf.push_str(&other);
                let b = guarded(|| (e.parse)(&buf).map(|m| format!("{m:?}")).ok());
                let c = guarded(|| (e.parse)(&other).map(|m| format!("{m:?}")).ok());
                drop(a);
                if let (Ended::Returned(b), Ended::Returned(c)) = (b, c) {
                    if b != c {
                        cx.case("history", &other);
                        cx.violation("depends on earlier calls", format!("{b:?} from a reused buffer, {c:?} from another"));
                        break;
                    }
                }
            }
        }
        // nested
        for _ in 0..cx.n(2, 30, 60) {
            let doc = gen::gen_doc(&mut r);
            let p = refjson::parse(&doc);
            if p.verdict != Verdict::Accept || doc.len() > 2000 {
                continue;
            }
            cx.case("nested", &doc);
            match nested(r.u64(), &probes, &doc, &p.events) {
                Ok(n) => cx.seen("calls inside callbacks", n),
                Err(e) => cx.violation("wrong with calls inside callbacks", e),
            }
        }
    }
    threads(cx);
}
