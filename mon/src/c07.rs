//! C07: typed parsing accepts exactly the documents that fit the type, and yields what they say.
//! C06: serializing and parsing back.

use crate::ctx::Ctx;
use crate::gen;
use crate::model::{fit, same, DocGen, Fit};
use crate::refjson::{self, Dom, Verdict};
use crate::rng::Rng;
use crate::zoo::{zoo, Entry};
use miniserde::json::{self, Number, Value};
use std::collections::BTreeMap;

pub fn judge(cx: &mut Ctx, e: &Entry, doc: &str) {
    let out = refjson::parse(doc);
    cx.heap_cap(doc.len());
    let Some(got) = cx.call(|| (e.parse)(doc)) else { return };
    match out.verdict {
        Verdict::Either => {}
        Verdict::Reject => match got {
            Ok(_) => cx.violation("invalid text accepted", format!("type {}: {}", e.name, out.why)),
            Err(_) => cx.seen("refused: not JSON", 1),
        },
        Verdict::Accept => {
            let dom = Dom::build(&out.events);
            match (fit(&(e.schema)(), &dom, 0), got) {
                (Fit::Free, _) => {}
                (Fit::Yes(m), Ok(g)) => {
                    if same(&m, &g) {
                        cx.seen("accepted and equal", 1);
                    } else {
                        cx.violation("wrong result", format!("type {}: document says {m:?}, result holds {g:?}", e.name));
                    }
                }
                (Fit::No(why), Err(_)) => {
                    let k = format!("refused: {why}");
                    cx.seen(&k, 1);
                }
                (Fit::Yes(m), Err(_)) => cx.violation("fitting document refused", format!("type {}: {m:?}", e.name)),
                (Fit::No(why), Ok(g)) => cx.violation("unfitting document accepted", format!("type {}: {why}; got {g:?}", e.name)),
            }
        }
    }
}

const PROBES: &[&str] = &[
    "null", "true", "false", "0", "1", "-1", "255", "256", "-0", "1.0", "1e0", "0.5", "\"\"", "\"a\"", "\"Alpha\"", "\"beta\"", "\"Beta\"", "\"Only\"",
    "[]", "{}", "[null]", "[0]", "[1,2]", "[1,2,3]", "[[1,2],[3,4]]", "[\"a\",\"b\",\"c\"]", "[1,\"a\"]", "[null,null]", "{\"a\":1}", "{\"a\":null}",
    "{\"a\":1,\"a\":2}", "{\"a\":1,\"a\":\"x\"}", "{\"a\":\"x\",\"a\":1}", "{\"b\":[1],\"b\":[2,3]}", "{\"1\":1}", "{\"true\":null}", "{\"v\":1,\"kids\":[]}",
    "{\"inner\":null}", "{\"inner\":1}", "{\"inner\":{\"inner\":[1]}}", "[{}]", "[[]]", "[{},{}]", "[[],[]]", "{\"x\":{}}", "{\"\":0}", "{\"x\":0,\"y\":1}",
    "{\"x\":1}", "[true,false]", "[[1,\"a\"],[2,\"b\"]]", "[{\"a\":1},{\"a\":2}]", "[\"Alpha\"]", "[{\"a\":1},\"Alpha\"]", "1e999", "18446744073709551615",
    "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "128", "-128", "-129", "32767", "32768",
    "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
];

pub fn run(cx: &mut Ctx) {
    let types = zoo();
    // every probe against every type, then with one character cut or a sibling appended
    let mut index = 0;
    for e in &types {
        for p in PROBES {
            index += 1;
            if !cx.mine(index) || cx.tier == crate::ctx::Tier::Mini && index % 37 != 0 {
                continue;
            }
            for doc in [
                (*p).to_owned(),
                format!("[{p}]"),
                format!("[{p},{p}]"),
                format!("{{\"a\":{p}}}"),
                format!("{{\"inner\":{p}}}"),
                format!("{{\"0\":{p},\"1\":{p}}}"),
                format!("{{\"true\":{p},\"t\":{p}}}"),
                format!("[{p},{p},{p}]"),
                format!("[[{p},{p}]]"),
            ] {
                cx.enumerated(e.name, &doc);
                judge(cx, e, &doc);
            }
            if cx.stop() {
                return;
            }
        }
    }
    // large and deep fitting documents for the container types
    let sizes: &[usize] = match cx.tier {
        crate::ctx::Tier::Mini => &[9],
        crate::ctx::Tier::Quick => &[63, 64, 65, 255, 256, 257, 1000, 4096, 65_537],
        crate::ctx::Tier::Thorough => &[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537, 300_000],
    };
    for &n in sizes {
        let list = |item: &str| {
            let v = vec![item; n];
            format!("[{}]", v.join(","))
        };
        let map = |f: &dyn Fn(usize) -> String| {
            let v: Vec<String> = (0..n).map(f).collect();
            format!("{{{}}}", v.join(","))
        };
        let deep = |open: &str, close: &str, leaf: &str| {
            let k = n.min(20_000);
            format!("{}{leaf}{}", open.repeat(k), close.repeat(k))
        };
        let docs = [
            list("7"), list("null"), list("[1,\"x\"]"), list("{\"a\":3}"), list("\"beta\""), list("[[1]]"), list("{}"),
            map(&|i| format!("\"{i}\":{}", i % 256)), map(&|i| format!("\"k{i}\":{{\"5\":\"v{i}\"}}")), map(&|i| format!("\"{}\":[1,2]", i % 97)),
            map(&|i| format!("\"u{i}\":[{i},{{}}]")),
            deep("{\"v\":1,\"kids\":[", "]}", ""), deep("{\"v\":1,\"next\":", "}", "null"), deep("{\"m\":{\"a\":", "}}", "{\"m\":{}}"),
            deep("{\"a\":[[null,", "]]}", "null"), deep("{\"p\":[{},", "]}", "{}"), deep("[", "]", "{\"q\":[0.5]}"), deep("{\"inner\":", "}", "1"),
        ];
        for d in &docs {
            for e in &types {
                index += 1;
                // deep documents only for types that can hold or refuse them quickly
                if cx.mine(index) && !cx.done() && (n < 2000 || index % 3 == 0) {
                    let recursive_drop = n > 4000 && d.len() > 4 * n && !d.starts_with('[');
                    if recursive_drop && d.starts_with("{\"") && !d.starts_with("{\"u") && !d.starts_with("{\"k") && !d.starts_with("{\"0") && n > 5000 {
                        continue;
                    }
                    cx.case(e.name, d);
                    judge(cx, e, d);
                }
            }
        }
    }
    // every type that holds a list or map, with that many items in the first one, all different as far as the type allows
    for &n in sizes {
        for (i, e) in types.iter().enumerate() {
            if !cx.mine(i + n) || cx.stop() || n > 5000 && i % 8 != n % 8 {
                continue;
            }
            let mut doc = String::new();
            let mut r = Rng::new(cx.rng.u64());
            let mut g = DocGen::random(&mut r);
            g.break_at = None;
            if !g.crowd(&mut r, &(e.schema)(), n, &mut doc) {
                continue;
            }
            cx.case(e.name, &doc);
            judge(cx, e, &doc);
            cx.seen("items in crowded containers", n as u64);
        }
    }
    let rounds = cx.share(300, 6_000_000, 40_000_000);
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        let e = &types[(i + cx.shard) % types.len()];
        let mut doc = String::new();
        let mut g = DocGen::random(&mut cx.rng);
        let d = cx.rng.range(1, 6);
        g.doc(&mut cx.rng, &(e.schema)(), d, &mut doc);
        cx.case(e.name, &doc);
        judge(cx, e, &doc);
        if i % 4 == 0 {
            let bad = gen::mutate(&mut cx.rng, &doc);
            cx.case(e.name, &bad);
            judge(cx, e, &bad);
        }
        if i % 16 == 0 {
            let other = gen::gen_doc(&mut cx.rng);
            cx.case(e.name, &other);
            judge(cx, e, &other);
        }
    }
}

// ---- C06 ---------------------------------------------------------------------------------------

pub fn round_trip(cx: &mut Ctx) {
    let (shard, nshards, mini) = (cx.shard, cx.nshards, cx.tier == crate::ctx::Tier::Mini);
    let top = cx.n(4, 15, 20) as u32;
    gen::long_texts(top, |i| i % nshards == shard && (!mini || i % 101 == 0), |t| {
        cx.enumerated("long text", t);
        let x = BTreeMap::from([(t.to_owned(), vec![t.to_owned(), String::new()])]);
        match cx.call(|| json::from_str::<BTreeMap<String, Vec<String>>>(&json::to_string(&x)).ok()) {
            Some(Some(y)) if y == x => cx.seen("round trips", 1),
            Some(_) => cx.violation("round trip changed the value", "a map of strings".to_owned()),
            None => {}
        }
    });
    if cx.tier != crate::ctx::Tier::Mini {
        for c in (0..0x11_0000u32).filter_map(char::from_u32) {
            if c as usize % cx.nshards != cx.shard || cx.stop() {
                continue;
            }
            let s = String::from(c);
            cx.enumerated("character", &s);
            let r = cx.call(|| {
                let v = vec![(s.clone(), 1u8)];
                let m: std::collections::BTreeMap<String, u8> = v.into_iter().collect();
                let a = json::from_str::<String>(&json::to_string(&s)).ok();
                let b = json::from_str::<std::collections::BTreeMap<String, u8>>(&json::to_string(&m)).ok();
                a.as_ref() == Some(&s) && b == Some(m)
            });
            if r == Some(false) {
                cx.violation("round trip changed the value", format!("U+{:04X} as text and key", c as u32));
            }
            cx.seen("round trips", 2);
        }
        for x in i32::from(i16::MIN)..=i32::from(u16::MAX) {
            if x.rem_euclid(cx.nshards as i32) as usize != cx.shard || cx.stop() {
                continue;
            }
            cx.enumerated("integer", &x.to_string());
            let r = cx.call(|| {
                json::from_str::<i32>(&json::to_string(&x)).ok() == Some(x)
                    && i16::try_from(x).is_ok_and(|y| json::from_str::<i16>(&json::to_string(&y)).ok() != Some(y)) == false
                    && u16::try_from(x).is_ok_and(|y| json::from_str::<u16>(&json::to_string(&y)).ok() != Some(y)) == false
                    && i8::try_from(x).is_ok_and(|y| json::from_str::<i8>(&json::to_string(&y)).ok() != Some(y)) == false
                    && u8::try_from(x).is_ok_and(|y| json::from_str::<u8>(&json::to_string(&y)).ok() != Some(y)) == false
                    && json::from_str::<i64>(&json::to_string(&i64::from(x))).ok() == Some(i64::from(x))
            });
            if r == Some(false) {
                cx.violation("round trip changed the value", "integer".into());
            }
            cx.seen("round trips", 1);
        }
    }
    // large ones
    for (i, n) in [100, 127, 128, 129, 1000, 1024, 4097, 65_536, 100_000].iter().enumerate() {
        if cx.mine(i) && cx.tier != crate::ctx::Tier::Mini && !cx.stop() {
            for sib in [0, 20] {
                let doc = {
                    let mut r = Rng::new(cx.rng.u64());
                    gen::gen_deep_with(&mut r, *n, sib, true)
                };
                cx.case("deep fixpoint", &doc);
                fixpoint(cx, &doc);
            }
            for kind in 0..6 {
                if kind == 1 {
                    continue; // holds floats
                }
                let doc = crate::c02::wide(&mut cx.rng.clone(), *n, kind);
                cx.case("wide fixpoint", &doc);
                fixpoint(cx, &doc);
            }
        }
    }
    // f64: every exponent, alone and as a Number, which stays one with a fraction; the ones next to infinity
    for e in 0..2047u64 {
        if !cx.mine(e as usize) || mini && e % 500 != 47 || cx.stop() {
            continue;
        }
        let mut bits: Vec<u64> = [0, 1, 2, 3, 1 << 51, (1 << 52) - 1, (1 << 52) - 2].to_vec();
        bits.extend((0..24).map(|i| cx.rng.u64() >> (12 + i % 3 * 16)));
        if e == 2046 {
            bits.extend((0..cx.n(10, 5000, 100_000) as u64).map(|i| (1 << 52) - 1 - i));
        }
        for m in bits {
            let f = f64::from_bits(e << 52 | m | cx.rng.below(2) as u64 * (1 << 63));
            let text = json::to_string(&f);
            cx.enumerated("f64", &text);
            let r = cx.call(|| {
                let a = json::from_str::<f64>(&text).ok();
                let b = json::from_str::<Value>(&json::to_string(&Value::Number(Number::F64(f)))).ok();
                let b = match b {
                    Some(Value::Number(Number::F64(b))) => Some(b),
                    _ => None,
                };
                let ok = |x: Option<f64>| x.is_some_and(|x| refjson::ulps(f, x) <= 5 && x.is_sign_negative() == f.is_sign_negative());
                ok(a) && ok(b)
            });
            if r == Some(false) {
                cx.violation("round trip changed the value", format!("f64 {f:?} ({:#x})", f.to_bits()));
            }
            cx.seen("round trips", 2);
        }
    }
    // every f32 (quick: a sample through all exponents), every 16-bit integer and every character
    let stride = cx.n(40_000_003, 8009, 1) as u64;
    let step = stride * cx.nshards as u64;
    let mut bits = cx.shard as u64 * stride;
    let mut n = 0u64;
    cx.case("f32", &format!("all f32 by bit pattern, {bits} + k * {}", step));
    'f: while bits <= u64::from(u32::MAX) {
        // the random rounds have at least a third of the time
        if cx.stop() || cx.start.elapsed().as_secs_f64() > cx.secs * 0.66 {
            break;
        }
        let start = bits;
        let got = cx.call(|| {
            let mut bits = start;
            let mut n = 0;
            while bits <= u64::from(u32::MAX) && n < 100_000 {
                let f = f32::from_bits(bits as u32);
                if f.is_finite() {
                    n += 1;
                    let t = json::to_string(&f);
                    if json::from_str::<f32>(&t).ok().map(f32::to_bits) != Some(f.to_bits()) {
                        return (bits, n, Some((f, t)));
                    }
                }
                bits += step;
            }
            (bits, n, None)
        });
        let Some((b, k, x)) = got else { break };
        bits = b;
        n += k;
        if let Some((f, t)) = x {
            cx.case("f32", &t);
            cx.violation("round trip changed the value", format!("f32 {f:?} ({:#x})", f.to_bits()));
            break 'f;
        }
    }
    cx.seen("round trips", n);
    cx.distinct_enum += n;
    cx.evals += n;
    let types = zoo();
    let rounds = cx.share(300, 8_000_000, 40_000_000);
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        let e = &types[(i + cx.shard) % types.len()];
        let mut r = Rng::new(cx.rng.u64());
        let d = r.range(0, 6);
        cx.note(e.name, &format!("type {} seed of value {i}", e.name));
        let Some((m, text)) = cx.call(|| (e.make)(&mut r, d)) else { continue };
        cx.evals -= 1;
        cx.case(e.name, &text);
        cx.heap_cap(text.len());
        let Some(back) = cx.call(|| (e.parse)(&text)) else { continue };
        match back {
            Ok(b) if same(&m, &b) => cx.seen("round trips", 1),
            Ok(b) => cx.violation("round trip changed the value", format!("type {}: was {m:?}, became {b:?}", e.name)),
            Err(_) => cx.violation("own output refused", format!("type {}", e.name)),
        }
        // text fixpoint of a Value
        if i % 3 == 0 {
            let doc = gen::gen_doc_no_float(&mut cx.rng);
            cx.case("fixpoint", &doc);
            fixpoint(cx, &doc);
        }
    }
}

fn fixpoint(cx: &mut Ctx, doc: &str) {
    let parsed = refjson::parse(doc);
    if parsed.verdict != refjson::Verdict::Accept {
        return;
    }
    let has_float = parsed.events.iter().any(|e| matches!(e, refjson::Ev::Num(n) if matches!(n.class, refjson::Class::F(_))));
    if has_float {
        return;
    }
    cx.heap_cap(4 * doc.len());
    let r = cx.call(|| {
        let v = json::from_str::<Value>(doc).ok()?;
        let t = json::to_string(&v);
        let w = json::from_str::<Value>(&t).ok()?;
        let u = json::to_string(&w);
        Some((t, u))
    });
    match r {
        None => {}
        Some(None) => cx.violation("own output refused", "Value".into()),
        Some(Some((t, u))) => {
            if t == u {
                cx.seen("fixpoints", 1);
            } else {
                cx.violation("text is not a fixpoint", format!("{}\nbecame {}", crate::ctx::show(&t), crate::ctx::show(&u)));
            }
        }
    }
}
