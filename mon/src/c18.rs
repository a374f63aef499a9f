//! C18: whatever the text and the target type, the call comes back. A panic is caught and
//! reported, a signal, an endless loop and a heap explosion end the process and are attributed
//! by the driver through the cursor file.

use crate::alloc;
use crate::ctx::{self, guarded, Ctx, Ended, Tier};
use crate::gen;
use crate::model::DocGen;
use crate::rng::Rng;
use crate::zoo::{zoo, Entry};
use miniserde::json::{self, Value};

fn try_one(cx: &mut Ctx, e: &Entry, doc: &str) {
    cx.heap_cap(doc.len());
    match guarded(|| (e.rewrite)(doc)) {
        Ended::Returned(Some(t)) => {
            cx.seen("returned Ok and written again", 1);
            drop(t);
        }
        Ended::Returned(None) => cx.seen("returned Err", 1),
        Ended::Injected => {}
        Ended::Panicked(m) => cx.violation("panic", format!("type {}: {m}", e.name)),
    }
    alloc::set_limit(None);
}

fn value(cx: &mut Ctx, doc: &str) {
    cx.heap_cap(doc.len());
    match guarded(|| {
        let v = json::from_str::<Value>(doc);
        v.map(|v| {
            let t = json::to_string(&v);
            let c = v.clone();
            let d = format!("{c:?}");
            t.len() + d.len()
        })
    }) {
        Ended::Returned(Ok(_)) => cx.seen("returned Ok and written again", 1),
        Ended::Returned(Err(e)) => {
            drop(e.to_string());
            cx.seen("returned Err", 1)
        }
        Ended::Injected => {}
        Ended::Panicked(m) => cx.violation("panic", m),
    }
    alloc::set_limit(None);
}

/// Value only, without the recursive Clone and Debug.
fn value_deep(cx: &mut Ctx, doc: &str) {
    cx.heap_cap(doc.len());
    if let Ended::Panicked(m) = guarded(|| json::from_str::<Value>(doc).map(|v| json::to_string(&v).len())) {
        cx.violation("panic", m);
    } else {
        cx.seen("deep or long texts", 1);
    }
    alloc::set_limit(None);
}

const BYTES: &[&str] = &[
    "\"", "\\", "{", "}", "[", "]", ":", ",", "-", "+", ".", "e", "E", "0", "9", "1", "t", "f", "n", "u", " ", "\n", "\u{0}", "\u{1f}",
    "\u{7f}", "é", "\u{ffff}", "😀", "/", "d800", "\\u", "1e9", "null", "'",
];

/// Texts made of one piece repeated.
fn long_runs(n: usize) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for p in [
        "[", "{", "]", "}", ",", ":", "\"", "\\", "-", "+", ".", "e", "0", "1", "9", " ", "\n", "t", "true", "null", "[1,", "{\"a\":", "{\"a\":[",
        "\"a\",", "[]", "{}", "1,", "é", "\u{0}", "\\u", "\\uD83D", "\"\"", "[[],", "{\"\":{},\"\":",
    ] {
        out.push((format!("{p:?} x {n}"), p.repeat(n)));
        out.push((format!("[ + {p:?} x {n}"), format!("[{}", p.repeat(n))));
        out.push((format!("string of {p:?} x {n}"), format!("\"{}\"", p.repeat(n))));
        out.push((format!("open string of {p:?} x {n}"), format!("\"{}", p.repeat(n))));
        out.push((format!("ignored {p:?} x {n}"), format!("{{\"zz\":{}", p.repeat(n))));
    }
    for (a, m, b) in [
        ("", "1", ""), ("-", "9", ""), ("0.", "0", "1"), ("0.", "9", ""), ("1e", "9", ""), ("1e-", "9", ""), ("0e", "9", ""), ("0.0e", "9", ""), ("1", "0", "e-1"),
        ("1", "0", "."), ("0.", "0", "e999999999"), ("1e", "0", "1"), ("1e-", "0", "1"), ("1E+", "0", ""), ("-0.", "0", ""), ("1.", "5", "e-400"), ("-1", "0", "e308"),
        ("\"", "\\n", "\""), ("\"", "\\u0000", "\""), ("\"", "\\uD834\\uDD1E", "\""), ("\"", "\\uD834", "\""), ("{\"", "k", "\":1}"), ("{\"", "\\t", "\":1}"),
        ("[", "1,", "1]"), ("{", "\"a\":1,", "\"b\":2}"), ("[", "[],", "{}]"), ("[", "\"\",", "0]"), ("[", " ", "]"), ("", " ", "1"), ("1", " ", ""), ("{", "\"a\":{},", "\"a\":[]}"),
    ] {
        out.push((format!("{a}{m}{b} x {n}"), format!("{a}{}{b}", m.repeat(n))));
        out.push((format!("[{a}{m}{b}] x {n}"), format!("[{a}{}{b}]", m.repeat(n))));
    }
    out
}

const HOSTILE: &[&str] = &[
    "", " ", "\u{feff}", "1e2147483647", "1e2147483648", "1e-2147483648", "1e-2147483649", "1e4294967296", "1e9223372036854775807", "1e9223372036854775808",
    "1e18446744073709551615", "1e18446744073709551616", "1e-18446744073709551616", "1e340282366920938463463374607431768211456", "0e2147483648", "0e-2147483648",
    "0.1e2147483647", "0.1e-2147483647", "0.1e-2147483648", "10.1e2147483647", "123456789012345678901234567890e2147483647", "123456789012345678901234567890e-2147483648",
    "0.00000000000000000000000000000001e2147483647", "0.00000000000000000000000000000001e-2147483648", "-9223372036854775808", "-9223372036854775809", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "18446744073709551619", "18446744073709551620", "-18446744073709551615", "-18446744073709551616", "1844674407370955161.5", "184467440737095516160",
    "1.8446744073709551616e19", "1.7976931348623157e308", "1.7976931348623159e308", "1e308", "1e309", "-1e309", "4.9e-324", "2e-324", "1e-400", "5e-324e", "0.1e309", "-", "-e", "-.", "1.", "1e", "1e+", "1e-",
    ".1", "01", "-01", "00", "-0", "-0.0", "0x10", "NaN", "Infinity", "\"\\", "\"\\u", "\"\\u1", "\"\\u12", "\"\\u123", "\"\\u1234", "\"\\uD800", "\"\\uD800\\", "\"\\uD800\\u", "\"\\uD800\\uDC0",
    "\"\\uD800\\uDC00", "\"\\uDC00\"", "\"\\uD800\\uD800\"", "\"\\uFFFF\"", "\"\\uDBFF\\uDFFF\"", "\"\\uD800\\n\"", "\"\\uD800a\"", "{\"\\uD800\":1}", "{\"\\", "{\"a", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,",
    "{\"a\":1,}", "[1,]", "[,1]", "[1,,1]", "{,}", "{:1}", "{1:1}", "{\"a\",1}", "[1:2]", "[}", "{]", "[[[[[[", "]]]]", "nul", "nulll", "tru", "truee", "fals", "True", "n", "t", "f", "//", "/**/1", "1 2", "{}{}",
    "[]]", "\"a\"b", "\u{a0}1", "1\u{2028}", "\u{0}", "1\u{0}", "[1\u{0}]", "\"\u{0}\"",
];

pub fn run(cx: &mut Ctx) {
    let types = zoo();
    let mini = cx.tier == Tier::Mini;
    ctx::set_cpu_budget_ms(if cx.tier == Tier::Thorough { 20_000 } else { 4_000 });
    // fixed texts, in wrappings, against every type
    for (i, e) in types.iter().enumerate() {
        if !cx.mine(i) || cx.stop() || (mini && i % 12 != 0) {
            continue;
        }
        for h in HOSTILE {
            for w in ["{}", "[{}]", "[{},{}]", "{\"a\":{}}", "{\"v\":{},\"a\":1}", "{\"{}\":1}", "[[{}", "{\"t\":[{}]", " {} ", "[null,{}", "\"{}"] {
                let doc = w.replace("{}", h);
                cx.enumerated(e.name, &doc);
                try_one(cx, e, &doc);
                if mini {
                    break;
                }
            }
        }
    }
    // long texts written, alone, as keys and inside a Value, and read again
    let (shard, nshards) = (cx.shard, cx.nshards);
    let top = cx.n(4, 16, 21) as u32;
    gen::long_texts(top, |i| i % nshards == shard && (!mini || i % 211 == 0), |t| {
        cx.enumerated("long text", t);
        cx.heap_cap(t.len() * 12);
        match guarded(|| {
            let a = json::to_string(t);
            let b = json::to_string(&std::collections::HashMap::from([(t, Some(t))]));
            let mut v = json::Array::new();
            v.push(Value::String(t.to_owned()));
            v.push(Value::Object([(t.to_owned(), Value::Null)].into_iter().collect()));
            let c = json::to_string(&v);
            [json::from_str::<Value>(&a).is_ok(), json::from_str::<Value>(&b).is_ok(), json::from_str::<Value>(&c).is_ok()]
        }) {
            Ended::Panicked(m) => cx.violation("panic", m),
            _ => cx.seen("long texts written", 1),
        }
        alloc::set_limit(None);
    });
    // every prefix and every single edit of documents that fit
    let rounds = cx.n(1, 1200, 60_000);
    'r: for round in 0..rounds {
        for i in 0..types.len() {
            if !cx.mine(i + round) {
                continue;
            }
            if cx.done() {
                break 'r;
            }
            if mini && i % 9 != 0 {
                continue;
            }
            let e = &types[i];
            let mut r = Rng::new(cx.rng.u64());
            let mut doc = String::new();
            let mut g = DocGen::random(&mut r);
            let d = r.range(1, 4);
            g.doc(&mut r, &(e.schema)(), d, &mut doc);
            if doc.len() > 200 {
                let mut cut = r.range(50, 200);
                while !doc.is_char_boundary(cut) {
                    cut -= 1;
                }
                doc.truncate(cut);
            }
            if mini {
                doc.truncate(0);
                doc.push_str("[{\"a\":1.5e3}");
            }
            for k in 0..=doc.len() {
                if !doc.is_char_boundary(k) {
                    continue;
                }
                cx.case(e.name, &doc[..k]);
                try_one(cx, e, &doc[..k]);
                for _ in 0..2 {
                    let b = *r.pick(BYTES);
                    let mut t = doc[..k].to_owned();
                    t.push_str(b);
                    let mut next = (k + r.below(2)).min(doc.len());
                    while !doc.is_char_boundary(next) {
                        next += 1;
                    }
                    t.push_str(&doc[next..]);
                    cx.case(e.name, &t);
                    try_one(cx, e, &t);
                }
                if mini && k % 3 != 0 {
                    continue;
                }
                if cx.stop() {
                    return;
                }
            }
            let t = gen::garbage(&mut r);
            cx.case(e.name, &t);
            try_one(cx, e, &t);
            value(cx, &t);
            // a value of the type, written
            let dd = r.range(0, 5);
            let seed = r.u64();
            cx.case(e.name, &format!("value of {} from seed {seed}, depth {dd}", e.name));
            if cx.call(|| (e.make)(&mut Rng::new(seed), dd).1.len()).is_some() {
                cx.seen("values written", 1);
            }
        }
    }
    if mini {
        return;
    }
    // long and deep
    let sizes: &[usize] = if cx.tier == Tier::Thorough { &[1000, 100_000, 3_000_000] } else { &[1000, 60_000] };
    let picks: Vec<&Entry> = types.iter().filter(|e| ["Vec<u8>", "f64", "String", "Mixed", "u64", "BTreeMap<String, Value>", "Tree", "[u8; 1]", "(Value, Value)"].contains(&e.name)).collect();
    let mut k = 0;
    for &n in sizes {
        for (name, doc) in long_runs(n) {
            k += 1;
            if !cx.mine(k) || cx.stop() {
                continue;
            }
            cx.enumerated("long", &name);
            value_deep(cx, &doc);
            let e = &picks[cx.rng.below(picks.len())];
            // typed recursion would drop recursively (the type's own business)
            if e.name != "Tree" || n <= 1000 {
                cx.enumerated(e.name, &name);
                let e = (*e).clone();
                cx.heap_cap(doc.len());
                match guarded(|| (e.accepts)(&doc)) {
                    Ended::Panicked(m) => cx.violation("panic", m),
                    _ => cx.seen("deep or long texts", 1),
                }
                alloc::set_limit(None);
            }
        }
    }
    if cx.tier == Tier::Thorough && cx.shard == 0 {
        // close to 2 GiB
        ctx::set_cpu_budget_ms(400_000);
        for (name, a, m, b) in [("0.000...1", "0.", "0", "1"), ("999...", "", "9", ""), ("spaces", "", " ", "1")] {
            let n = (1usize << 31) - 16;
            cx.enumerated("close to 2 GiB", name);
            let doc = format!("{a}{}{b}", m.repeat(n));
            if let Ended::Panicked(m) = guarded(|| json::from_str::<Value>(&doc).is_ok()) {
                cx.violation("panic", m);
            }
            cx.seen("texts close to 2 GiB", 1);
        }
    }
}
