//! C17: one workload, the same in every build. One run writes the cases down (make=), the builds
//! under comparison read them (run=) and write one hash per case; the driver compares.

use crate::value::{walk, Got};
use crate::ctx::{guarded, jstr, Ctx, Ended};
use crate::gen;
use crate::model::{DocGen, M};
use crate::rng::{hash, Rng};
use crate::zoo::{zoo, Entry};
use miniserde::json::{self, Array, Number, Object, Value};
use std::fmt::Write as _;

/// In every build: std's HashMap is missing in some.
fn types() -> Vec<Entry> {
    zoo().into_iter().filter(|e| !e.name.contains("HashMap")).collect()
}

struct Case {
    kind: u8,
    entry: usize,
    seed: u64,
    doc: String,
    /// How long its result is.
    size: usize,
}

const LITERALS: &[&str] = &[
    "0", "-0", "1", "-1", "9", "10", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648",
    "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551609", "18446744073709551610", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551619",
    "18446744073709551620", "18446744073709551625", "-18446744073709551615", "-18446744073709551616", "184467440737095516150", "184467440737095516160", "99999999999999999999",
    "1e2147483646", "1e2147483647", "1e2147483648", "1e-2147483647", "1e-2147483648", "1e-2147483649", "1e4294967295", "1e4294967296", "1e-4294967296", "1e9223372036854775807",
    "1e18446744073709551616", "1e-18446744073709551616", "0e2147483647", "0e2147483648", "0e-2147483648", "0e-2147483649", "0.0e99999999999999999999", "0.1e2147483647",
    "0.1e-2147483647", "0.1e-2147483648", "0.01e-2147483647", "10.5e2147483647", "1.5e-2147483648", "184467440737095516150e2147483647", "18446744073709551615000e2147483645",
    "123456789012345678901234567890e2147483647", "123456789012345678901234567890e-2147483648", "0.00000000000000000000000000000001e-2147483648", "1e308", "1e309", "-1e309", "1e-308", "1e-324",
    "4.9e-324", "2.5e-324", "1e-400", "1.7976931348623157e308", "1.8446744073709551615", "18446744073709551615.5", "18446744073709551616.5", "1844674407370955161.51", "1844674407370955161.6",
    "0.1", "0.2", "0.3", "123.456", "5e-1", "5E+1", "5e00001", "1e+0", "9007199254740993", "9007199254740993.0", "3.4028235e38", "3.4028236e38", "1.1754944e-38", "1e-45", "7e-46",
];

fn literal(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(6) {
        0 | 1 => s.push_str(*r.pick(LITERALS)),
        2 => gen::gen_literal(r, &mut s),
        3 => {
            // long digits and an exponent near the limits
            if r.bool() {
                s.push('-');
            }
            for i in 0..r.range(1, 40) {
                s.push((b'0' + (if i == 0 { r.range(1, 9) } else { r.below(10) }) as u8) as char);
            }
            if r.bool() {
                s.push('.');
                for _ in 0..r.range(1, 30) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if r.bool() {
                _ = write!(s, "e{}{}", *r.pick(&["", "-", "+"]), 2_147_483_647i64 + r.below(60) as i64 - 50);
            }
        }
        4 => _ = write!(s, "{}", gen::gen_edge_int(r)),
        _ => _ = write!(s, "{}{}", gen::gen_edge_int(r), *r.pick(&[".0", "e0", "e1", "e-1", ".5", "0", "e19", "e-19", "."])),
    }
    s
}

fn case(types: &[Entry], i: usize, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let entry = r.below(types.len());
    let e = &types[entry];
    let mut doc = String::new();
    let mut kind = 0;
    match i % 16 {
        0..=3 => {
            let mut g = DocGen::random(&mut r);
            let d = r.range(1, 5);
            g.doc(&mut r, &(e.schema)(), d, &mut doc);
        }
        4 => {
            let mut g = DocGen::random(&mut r);
            let d = r.range(1, 5);
            g.doc(&mut r, &(e.schema)(), d, &mut doc);
            doc = gen::mutate(&mut r, &doc);
        }
        5 => {
            kind = 1;
            doc = gen::gen_doc(&mut r);
        }
        6 => {
            kind = 1;
            doc = gen::gen_doc(&mut r);
            doc = gen::mutate(&mut r, &doc);
        }
        7 | 8 => {
            doc = literal(&mut r);
            kind = 4;
        }
        9 => {
            let l = literal(&mut r);
            let w = *r.pick(&["{}", "[{}]", "[{},{}]", "{\"a\":{}}", "{\"v\":{},\"a\":1}", "{\"{}\":1}", "[[{}", "{\"t\":[{}]", " {} ", "[null,{}", "\"{}"]);
            doc = w.replace("{}", &l);
            kind = r.below(2) as u8;
        }
        10 => {
            // a text with escapes, as a value and as a key
            let t = gen::gen_text(&mut r, 80);
            let mut s = String::new();
            gen::write_string(&mut r, &t, 40, &mut s);
            if r.chance(1, 3) {
                s = gen::mutate(&mut r, &s);
            }
            doc = r.pick(&["{}", "[{},{}]", "{{}:{}}", "{\"a\":1,{}:null}", "{\"b\":{}}"]).replace("{}", &s);
            kind = r.below(2) as u8;
        }
        11 => {
            doc = gen::garbage(&mut r);
            kind = r.below(2) as u8;
        }
        12 if r.chance(1, 60) => {
            kind = 3;
            let n = r.range(100, 3000);
            doc = gen::gen_deep(&mut r, n, 2);
        }
        12 => {
            kind = 1;
            let n = r.range(1, 60);
            doc = gen::gen_deep(&mut r, n, 3);
            if r.bool() {
                doc = gen::mutate(&mut r, &doc);
            }
        }
        _ => kind = 2,
    }
    Case { kind, entry, seed, doc, size: 0 }
}

/// Documents large in one way each. The sizes are those around every power of two up to `top` bits,
/// shared out over the shards.
fn extremes(types: &[Entry], shard: usize, nshards: usize, seed: u64, top: u32) -> Vec<Case> {
    let mut out = Vec::new();
    let mut r = Rng::new(crate::rng::mix(seed ^ 0xe7_7e3e5));
    let mut sizes: Vec<usize> = (3..=top).flat_map(|b| [-1i64, 0, 1].map(|d| ((1i64 << b) + d) as usize)).collect();
    for b in 3..=top {
        sizes.push((1 << b) + r.below(1 << b));
    }
    sizes.extend([999, 1000, 1001, 5000, 9999, 10_000, 10_001, 100_000, 300_000]);
    let mut k = 0;
    let mut mine = || {
        k += 1;
        k % nshards == shard
    };
    for &n in &sizes {
        let texts: [(u8, &dyn Fn() -> String); 22] = [
            (4, &|| "7".repeat(n)),
            (4, &|| format!("-1{}", "0".repeat(n))),
            (4, &|| format!("1{}e-{n}", "0".repeat(n))),
            (4, &|| format!("123{}.5E-{}", "0".repeat(n), n - 3)),
            (4, &|| format!("0.{}1e{n}", "0".repeat(n))),
            (4, &|| format!("0.{}18446744073709551616e{}", "0".repeat(n), n + 5)),
            (4, &|| format!("1.{}", "9".repeat(n))),
            (4, &|| format!("1e{}5", "0".repeat(n))),
            (4, &|| format!("1e-{}", "1".repeat(n))),
            (4, &|| format!("0e{}", "9".repeat(n))),
            (4, &|| format!("{}12", " ".repeat(n))),
            (1, &|| format!("\"{}\"", "x".repeat(n))),
            (1, &|| format!("\"{}\\n\"", "x".repeat(n))),
            (1, &|| format!("\"{}\"", "\\u00e9".repeat(n))),
            (1, &|| format!("{{\"{}\":1}}", "k".repeat(n))),
            (1, &|| format!("[{}0]", "0,".repeat(n))),
            (1, &|| format!("[{}{}0]", "0,".repeat(n), "\n".repeat(n))),
            (1, &|| format!("{{{}\"\":0}}", (0..n).map(|i| format!("\"{i}\":{i},")).collect::<String>())),
            (3, &|| "[".repeat(n) + &"]".repeat(n)),
            (3, &|| "{\"a\":".repeat(n) + "null" + &"}".repeat(n)),
            (3, &|| "[{\"a\":[1,".repeat(n / 3) + "0" + &"]}]".repeat(n / 3)),
            (3, &|| "[".repeat(n)),
        ];
        for (kind, make) in texts {
            if mine() {
                let doc = make();
                if doc.len() <= 2_000_000 {
                    out.push(Case { kind, entry: 0, seed: 0, doc, size: 0 });
                }
            }
        }
    }
    let mut crowd = |entry: usize, r: &mut Rng, n: usize| {
        let mut g = DocGen::random(r);
        let mut doc = String::new();
        if g.crowd(r, &(types[entry].schema)(), n, &mut doc) && doc.len() <= 2_000_000 {
            out.push(Case { kind: 0, entry, seed: 0, doc, size: 0 });
        }
    };
    for entry in 0..types.len() {
        for n in [65, 129, 257, 1025, 4097] {
            if mine() {
                let mut r = Rng::new(crate::rng::mix(seed ^ (entry * 100_000 + n) as u64));
                let n = n + r.below(n);
                crowd(entry, &mut r, n);
            }
        }
    }
    out
}

// Written by hand: what std's Debug escapes depends on the version.

fn got(g: &Got, o: &mut String) {
    match g {
        Got::F(f) => _ = write!(o, "f{:x}", f.to_bits()),
        Got::Str(s) => _ = write!(o, "s{}", jstr(s)),
        Got::Key(s) => _ = write!(o, "k{}", jstr(s)),
        other => _ = write!(o, "{other:?}"),
    }
    o.push(' ');
}

fn held(m: &M, o: &mut String) {
    match m {
        M::F32(f) => _ = write!(o, "f{:x}", f.to_bits()),
        M::F64(f) => _ = write!(o, "f{:x}", f.to_bits()),
        M::Str(s) => o.push_str(&jstr(s)),
        M::Some(m) => {
            o.push_str("Some ");
            held(m, o)
        }
        M::Seq(v) | M::Struct(v) => {
            o.push('[');
            for m in v {
                held(m, o);
                o.push(' ');
            }
            o.push(']');
        }
        M::Map(v) => {
            o.push('{');
            for (k, m) in v {
                o.push_str(&jstr(k));
                o.push(' ');
                held(m, o);
                o.push(' ');
            }
            o.push('}');
        }
        M::Json(v) => v.iter().for_each(|g| got(g, o)),
        other => _ = write!(o, "{other:?}"),
    }
}

fn show(m: &Result<M, miniserde::Error>, out: &mut String) {
    match m {
        Ok(m) => {
            out.push_str("Ok ");
            held(m, out)
        }
        Err(e) => _ = write!(out, "Err {e}"),
    }
}

fn number<T: miniserde::Deserialize + miniserde::Serialize>(doc: &str, out: &mut String) {
    match json::from_str::<T>(doc) {
        Ok(x) => _ = write!(out, " {}", json::to_string(&x)),
        Err(_) => out.push_str(" Err"),
    }
}

fn result(types: &[Entry], c: &Case) -> String {
    let e = &types[c.entry];
    let mut out = String::new();
    let o = &mut out;
    let ended = guarded(move || {
        let mut s = String::new();
        match c.kind {
            0 => {
                show(&(e.parse)(&c.doc), &mut s);
                _ = write!(s, " again {}", (e.rewrite)(&c.doc).unwrap_or_default());
            }
            1 => match json::from_str::<Value>(&c.doc) {
                Ok(v) => {
                    s.push_str("Ok ");
                    walk(&v).iter().for_each(|g| got(g, &mut s));
                    walk(&v.clone()).iter().for_each(|g| got(g, &mut s));
                    let text = json::to_string(&v);
                    s.push_str(&text);
                    if text.is_ascii() {
                        _ = write!(s, " {v:?} {v:#?}");
                    }
                }
                Err(e) => _ = write!(s, "Err {e} {e:?}"),
            },
            3 => match json::from_str::<Value>(&c.doc) {
                Ok(v) => s.push_str(&json::to_string(&v)),
                Err(_) => s.push_str("Err"),
            },
            4 => {
                macro_rules! all {
                    ($($t:ty),*) => { $( number::<$t>(&c.doc, &mut s); )* };
                }
                all!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, Number, Value, Option<f64>, Box<i64>);
                if let Ok(n) = json::from_str::<Number>(&c.doc) {
                    _ = write!(s, " {n} {n:?}");
                }
                if let Ok(a) = json::from_str::<Array>(&c.doc) {
                    _ = write!(s, " {}", a.len());
                }
                if let Ok(a) = json::from_str::<Object>(&c.doc) {
                    _ = write!(s, " {}", a.len());
                }
            }
            _ => {
                let mut r = Rng::new(c.seed);
                let d = r.range(0, 5);
                let (m, text) = (e.make)(&mut r, d);
                held(&m, &mut s);
                s.push_str(&text);
            }
        }
        s
    });
    match ended {
        Ended::Returned(s) => o.push_str(&s),
        Ended::Injected => o.push_str("injected?"),
        Ended::Panicked(_) => o.push_str("PANIC"),
    }
    out
}

fn save(path: &str, cases: &[Case]) {
    let mut b = Vec::new();
    for c in cases {
        b.push(c.kind);
        b.extend_from_slice(&(c.entry as u32).to_le_bytes());
        b.extend_from_slice(&c.seed.to_le_bytes());
        b.extend_from_slice(&(c.size as u32).to_le_bytes());
        b.extend_from_slice(&(c.doc.len() as u32).to_le_bytes());
        b.extend_from_slice(c.doc.as_bytes());
    }
    std::fs::write(path, b).unwrap();
}

/// Under Miri no more than `limit` of them are read.
fn load(path: &str, limit: usize) -> Vec<Case> {
    use std::io::Read;
    let mut f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let mut out = Vec::new();
    let mut head = [0; 21];
    while !(cfg!(miri) && out.len() >= limit) && f.read_exact(&mut head).is_ok() {
        let n = u32::from_le_bytes(head[17..21].try_into().unwrap()) as usize;
        let mut doc = vec![0; n];
        f.read_exact(&mut doc).unwrap();
        out.push(Case {
            kind: head[0],
            entry: u32::from_le_bytes(head[1..5].try_into().unwrap()) as usize,
            seed: u64::from_le_bytes(head[5..13].try_into().unwrap()),
            size: u32::from_le_bytes(head[13..17].try_into().unwrap()) as usize,
            doc: String::from_utf8(doc).unwrap(),
        });
    }
    out
}

pub fn run(cx: &mut Ctx, args: &[String]) {
    crate::rng::portable();
    let arg = |k: &str| args.iter().find_map(|a| a.strip_prefix(k).map(str::to_owned));
    let num = |k: &str, d: usize| arg(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let types = types();
    if let Some(path) = arg("make=") {
        let n = num("cases=", 1000);
        let mut cases: Vec<Case> = (0..n)
            .map(|i| case(&types, i, crate::rng::mix(cx.seed ^ crate::rng::mix((cx.shard * 1_000_000_007 + i) as u64))))
            .collect();
        cases.extend(extremes(&types, cx.shard, cx.nshards, cx.seed, num("top=", 19) as u32));
        for c in &mut cases {
            c.size = result(&types, c).len();
        }
        save(&path, &cases);
        return;
    }
    let limit = num("limit=", usize::MAX);
    let cases = load(&arg("run=").expect("run="), limit);
    if let Some(i) = arg("only=") {
        let c = &cases[i.parse::<usize>().unwrap()];
        println!("{{\"type\":{},\"kind\":{},\"input\":{},\"result\":{}}}", crate::ctx::jstr(types[c.entry].name), c.kind, crate::ctx::jstr(&c.doc), crate::ctx::jstr(&result(&types, c)));
        return;
    }
    // types as wide as a pointer differ between targets, as they should
    let narrow = cfg!(target_pointer_width = "32");
    let step = num("step=", 1);
    let mut out = Vec::new();
    for (i, c) in cases.iter().enumerate() {
        if i % step != 0 || i >= limit && c.doc.len() <= 1000 || cfg!(miri) && (cx.done() || c.doc.len() + c.size > 700) {
            out.extend_from_slice(&0u64.to_le_bytes());
            continue;
        }
        let name = types[c.entry].name;
        if narrow && (name.contains("isize") || name.contains("usize")) {
            out.extend_from_slice(&0u64.to_le_bytes());
            continue;
        }
        cx.enumerated(name, if c.kind == 2 { "a generated value" } else { &c.doc });
        cx.heap_cap(c.doc.len());
        let r = result(&types, c);
        crate::ctx::release_cap();
        cx.seen("results recorded", 1);
        if c.doc.len() > 1000 {
            cx.seen("results recorded for large documents", 1);
        }
        if r == "PANIC" {
            cx.seen("panics recorded", 1);
        } else if r.starts_with("Err") {
            cx.seen("refusals recorded", 1);
        }
        out.extend_from_slice(&hash(r.as_bytes()).max(1).to_le_bytes());
    }
    std::fs::write(arg("out=").expect("out="), out).unwrap();
}
