//! C03: strings and keys are decoded exactly and stay well-formed UTF-8.

use crate::ctx::Ctx;
use crate::gen;
use crate::refjson::{self, Ev, Verdict};
use crate::rng::Rng;
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::json::{self, Value};
use miniserde::{make_place, Result};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

thread_local! {
    /// Bytes of every text the visitors were handed, in order; true: a key.
    static LOG: RefCell<Vec<(bool, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
}

fn note(key: bool, s: &str) {
    LOG.with(|l| l.borrow_mut().push((key, s.as_bytes().to_vec())));
}

/// Accepts anything, records the texts exactly as handed over.
pub struct Texts;

make_place!(Place);

impl Visitor for Place<Texts> {
    fn null(&mut self) -> Result<()> {
        self.out = Some(Texts);
        Ok(())
    }
    fn boolean(&mut self, _: bool) -> Result<()> {
        self.null()
    }
    fn string(&mut self, s: &str) -> Result<()> {
        note(false, s);
        self.null()
    }
    fn negative(&mut self, _: i64) -> Result<()> {
        self.null()
    }
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        self.null()
    }
    fn float(&mut self, _: f64) -> Result<()> {
        self.null()
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        Ok(Box::new(B { out: &mut self.out, e: None }))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        Ok(Box::new(B { out: &mut self.out, e: None }))
    }
}

struct B<'a> {
    out: &'a mut Option<Texts>,
    e: Option<Texts>,
}

impl Seq for B<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        Ok(Deserialize::begin(&mut self.e))
    }
    fn finish(&mut self) -> Result<()> {
        *self.out = Some(Texts);
        Ok(())
    }
}

impl Map for B<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        note(true, k);
        Ok(Deserialize::begin(&mut self.e))
    }
    fn finish(&mut self) -> Result<()> {
        *self.out = Some(Texts);
        Ok(())
    }
}

impl Deserialize for Texts {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}

/// Parse and compare every text handed to a visitor with the reference.
pub fn check(cx: &mut Ctx, doc: &str) {
    let out = refjson::parse(doc);
    LOG.with(|l| l.borrow_mut().clear());
    cx.heap_cap(doc.len());
    let Some(got) = cx.call(|| json::from_str::<Texts>(doc).is_ok()) else { return };
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let want: Vec<(bool, &str)> = out
        .events
        .iter()
        .filter_map(|e| match e {
            Ev::Str(s) => Some((false, s.as_str())),
            Ev::Key(k) => Some((true, k.as_str())),
            _ => None,
        })
        .collect();
    match (out.verdict, got) {
        (Verdict::Accept, true) => cx.seen("documents accepted", 1),
        (Verdict::Reject, false) => {
            if matches!(
                out.why,
                "bad escape" | "bad hex digit" | "unterminated escape" | "unterminated string" | "control character"
                    | "unpaired high surrogate" | "unpaired low surrogate"
            ) {
                let k = format!("refused: {}", out.why);
                cx.seen(&k, 1);
            }
        }
        (Verdict::Either, _) => {}
        (Verdict::Accept, false) => return cx.violation("valid string refused", String::new()),
        (Verdict::Reject, true) => return cx.violation("invalid string accepted", out.why.to_owned()),
    }
    for (i, (k, b)) in log.iter().enumerate() {
        cx.seen("texts compared", 1);
        if std::str::from_utf8(b).is_err() {
            return cx.violation("text handed to a visitor is not UTF-8", format!("{b:x?}"));
        }
        match want.get(i) {
            Some((wk, w)) if wk == k && w.as_bytes() == &b[..] => {}
            w => {
                let got = String::from_utf8_lossy(b);
                return cx.violation("wrong text", format!("text {i}: document says {w:?}, visitor was handed {k} {got:?}"));
            }
        }
    }
    if got && log.len() != want.len() {
        cx.violation("texts missing", format!("{} of {}", log.len(), want.len()));
    }
}

/// The owned copies kept by the built-in types.
fn owned(cx: &mut Ctx, lit: &str, text: &str) {
    cx.heap_cap(lit.len());
    let s = cx.call(|| json::from_str::<String>(lit));
    let b = cx.call(|| json::from_str::<Box<String>>(lit));
    let v = cx.call(|| json::from_str::<Value>(lit));
    let o = cx.call(|| json::from_str::<Option<String>>(lit));
    let key = format!("{{{lit}:0}}");
    let m = cx.call(|| json::from_str::<BTreeMap<String, u8>>(&key));
    let h = cx.call(|| json::from_str::<HashMap<String, u8>>(&key));
    let j = cx.call(|| json::from_str::<json::Object>(&key));
    let all = [
        s.and_then(|r| r.ok()),
        b.and_then(|r| r.ok()).map(|b| *b),
        o.and_then(|r| r.ok()).flatten(),
        v.and_then(|r| r.ok()).and_then(|v| if let Value::String(s) = v { Some(s) } else { None }),
        m.and_then(|r| r.ok()).and_then(|m| m.into_keys().next()),
        h.and_then(|r| r.ok()).and_then(|m| m.into_keys().next()),
        j.and_then(|r| r.ok()).and_then(|m| m.into_iter().next().map(|e| e.0)),
    ];
    for (i, got) in all.iter().enumerate() {
        cx.seen("owned texts compared", 1);
        if got.as_ref().map(|s| s.as_bytes()) != Some(text.as_bytes()) {
            return cx.violation("wrong text stored", format!("holder {i}: wanted {text:?}, got {got:?}"));
        }
    }
}

struct Batch {
    doc: String,
    n: usize,
    label: &'static str,
}

impl Batch {
    fn new(label: &'static str) -> Batch {
        Batch { doc: String::from("["), n: 0, label }
    }
    fn add(&mut self, cx: &mut Ctx, item: &str) {
        if self.n > 0 {
            self.doc.push(',');
        }
        self.doc.push_str(item);
        self.n += 1;
        if self.n == 64 {
            self.flush(cx);
        }
    }
    fn flush(&mut self, cx: &mut Ctx) {
        if self.n > 0 && !cx.stop() {
            self.doc.push(']');
            cx.enumerated(self.label, &self.doc);
            check(cx, &self.doc);
        }
        self.doc.clear();
        self.doc.push('[');
        self.n = 0;
    }
}

fn hex(r: &mut Rng, v: u32, style: usize) -> String {
    (0..4)
        .rev()
        .map(|k| {
            let d = char::from_digit((v >> (4 * k)) & 15, 16).unwrap();
            match style {
                0 => d,
                1 => d.to_ascii_uppercase(),
                _ => {
                    if r.bool() {
                        d
                    } else {
                        d.to_ascii_uppercase()
                    }
                }
            }
        })
        .collect()
}

fn enumerate(cx: &mut Ctx) {
    let mini = cx.tier == crate::ctx::Tier::Mini;
    let step = cx.n(997, 1, 1);
    // all \uXXXX, each alone and with neighbours
    let mut b = Batch::new("unicode escapes");
    for v in (0..0x1_0000u32).step_by(step) {
        if !cx.mine(v as usize) {
            continue;
        }
        for style in 0..3 {
            let h = hex(&mut cx.rng, v, style);
            if (0xD800..0xE000).contains(&v) {
                if style == 2 && cx.rng.chance(3, 4) {
                    continue;
                }
                // unpaired: alone, followed by something else, by another of the same kind, cut
                for tail in ["", "x", "\\n", "\\u0041", "\\ud800", "\\", "\\u", "\\udc0", "\\\\", "u", "\\udbff\\udc00"] {
                    let doc = format!("\"{}\\u{h}{tail}\"", ["", "a"][style & 1]);
                    cx.enumerated("unpaired surrogate", &doc);
                    check(cx, &doc);
                }
            } else {
                b.add(cx, &format!("\"\\u{h}\""));
                if style == 0 {
                    b.add(cx, &format!("{{\"é\\u{h}~\":\"\\u{h}\\u{h}0\"}}"));
                }
            }
            if cx.stop() {
                return;
            }
        }
    }
    b.flush(cx);
    // all surrogate pairs
    let mut b = Batch::new("surrogate pairs");
    for hi in (0xD800..0xDC00u32).step_by(cx.n(300, 1, 1)) {
        if !cx.mine(hi as usize) {
            continue;
        }
        for lo in (0xDC00..0xE000u32).step_by(cx.n(150, 1, 1)) {
            let style = cx.rng.below(3);
            let (h, l) = (hex(&mut cx.rng, hi, style), hex(&mut cx.rng, lo, style));
            if lo % 3 == 0 {
                b.add(cx, &format!("\"a\\u{h}\\u{l}b\""));
            } else {
                b.add(cx, &format!("\"\\u{h}\\u{l}\""));
            }
        }
        if cx.stop() {
            return;
        }
    }
    b.flush(cx);
    // all scalar values written raw
    let mut b = Batch::new("raw characters");
    for c in (0..0x11_0000u32).step_by(cx.n(40_000, 1, 1)) {
        if !cx.mine(c as usize / 64) {
            continue;
        }
        let Some(ch) = char::from_u32(c) else { continue };
        if c < 0x20 || ch == '"' || ch == '\\' {
            continue;
        }
        match c % 4 {
            0 => b.add(cx, &format!("\"{ch}\"")),
            1 => b.add(cx, &format!("\"a{ch}{ch}\"")),
            2 => b.add(cx, &format!("\"\\t{ch}\\n{ch}z\"")),
            _ => b.add(cx, &format!("{{\"{ch}\\\\\":\"{ch}\"}}")),
        }
        if cx.stop() {
            return;
        }
    }
    b.flush(cx);
    // what may follow a backslash, and each of the four hex digits
    let mut follow: Vec<char> = (0u8..128).map(|b| b as char).collect();
    follow.extend(['\u{80}', 'é', '\u{ff}', '\u{100}', '０', 'Ａ', '\u{1f600}', '\u{ff41}']);
    for (i, &c) in follow.iter().enumerate() {
        if !cx.mine(i) || mini && i % 9 != 0 {
            continue;
        }
        for (pre, post) in [("", ""), ("a", "b"), ("\\n", "\\n"), ("é", "é")] {
            for doc in [format!("\"{pre}\\{c}{post}\""), format!("{{\"{pre}\\{c}{post}\":1}}"), format!("\"{pre}{c}{post}\"")] {
                cx.enumerated("after a backslash", &doc);
                check(cx, &doc);
            }
            for at in 0..4 {
                for base in ["0041", "d83d", "DC00", "ffff"] {
                    let mut h: Vec<char> = base.chars().collect();
                    h[at] = c;
                    let h: String = h.into_iter().collect();
                    for doc in [
                        format!("\"{pre}\\u{h}{post}\""),
                        format!("\"{pre}\\ud83d\\u{h}{post}\""),
                        format!("\"{pre}\\ud83d{c}u{base}{post}\""),
                        format!("\"{pre}\\ud83d\\{c}{base}{post}\""),
                    ] {
                        cx.enumerated("hex digits", &doc);
                        check(cx, &doc);
                    }
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
    // a special item at every offset of strings of every length up to n, in value and key position
    let n = cx.n(4, 70, 140);
    let items = ["\\n", "\\u00e9", "\\ud83d\\ude00", "\u{1f}", "é", "\u{7f}", "\\x", "\\ud83d", "\n", "\u{0}"];
    let mut index = 0;
    for len in 0..=n {
        for at in 0..=len {
            index += 1;
            if !cx.mine(index) || cx.stop() {
                continue;
            }
            for it in items {
                let s = format!("{}{it}{}", "a".repeat(at), "b".repeat(len - at));
                let doc = format!("[\"{s}\",\"{s}\"]");
                cx.enumerated("offset", &doc);
                check(cx, &doc);
                if at % 4 == 0 {
                    let doc = format!("{{\"{s}\":\"x\"}}");
                    cx.enumerated("offset in a key", &doc);
                    check(cx, &doc);
                    // the closing quote is missing
                    let doc = format!("\"{s}");
                    cx.enumerated("unterminated", &doc);
                    check(cx, &doc);
                }
            }
        }
    }
}

pub fn run(cx: &mut Ctx) {
    enumerate(cx);
    // long strings with escapes near power-of-two offsets
    let mut index = 0;
    for p in 5..cx.n(7, 18, 22) {
        for d in 0..5usize {
            for it in ["\\n", "\\u00e9", "\\ud83d\\ude00", "\u{b}", "é", "\u{10ffff}"] {
                index += 1;
                if !cx.mine(index) || cx.done() {
                    continue;
                }
                let a = (1usize << p) + d - 2;
                let doc = format!("{{\"{}{it}{}\":\"{}{it}\"}}", "x".repeat(a), "é".repeat(d), "\\t".repeat(a / 2));
                cx.case("long", &doc);
                check(cx, &doc);
            }
        }
    }
    let (shard, nshards, mini) = (cx.shard, cx.nshards, cx.tier == crate::ctx::Tier::Mini);
    let top = cx.n(4, 15, 19) as u32;
    gen::long_texts(top, |i| i % nshards == shard && (!mini || i % 101 == 0), |t| {
        for esc in [0, 2, 100] {
            if esc == 100 && t.len() > 5000 {
                continue;
            }
            let mut lit = String::new();
            gen::write_string(&mut cx.rng, t, esc, &mut lit);
            let doc = format!("[{lit},{{{lit}:\"\"}}]");
            cx.case("long stretch", &doc);
            check(cx, &doc);
            if esc == 0 {
                cx.case("long stretch, owned", &lit);
                owned(cx, &lit, t);
            }
        }
    });
    let rounds = cx.share(150, 10_000_000, 60_000_000);
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        let max = *cx.rng.pick(&[4, 20, 100, 600]);
        let t = gen::gen_text(&mut cx.rng, max);
        let esc = *cx.rng.pick(&[0, 10, 50, 100]);
        let mut lit = String::new();
        gen::write_string(&mut cx.rng, &t, esc, &mut lit);
        if i % 3 == 0 {
            cx.case("owned", &lit);
            owned(cx, &lit, &t);
        }
        // several strings in one document: escaped after plain after escaped
        let mut doc = String::from("[");
        for k in 0..cx.rng.below(6) {
            if k > 0 {
                doc.push(',');
            }
            let n = *cx.rng.pick(&[3, 12, 40]);
            let t = gen::gen_text(&mut cx.rng, n);
            let esc = *cx.rng.pick(&[0, 0, 30, 100]);
            if cx.rng.bool() {
                doc.push('{');
                gen::write_string(&mut cx.rng, &t, esc, &mut doc);
                doc.push(':');
                gen::write_string(&mut cx.rng, &t, esc, &mut doc);
                doc.push('}');
            } else {
                gen::write_string(&mut cx.rng, &t, esc, &mut doc);
            }
        }
        doc.push(']');
        cx.case("mixed", &doc);
        check(cx, &doc);
        // corrupted literal
        let bad = gen::mutate(&mut cx.rng, &lit);
        cx.case("corrupted", &bad);
        check(cx, &bad);
    }
}
