//! C02: a parsed Value holds exactly the data written in the document.

use crate::ctx::{Ctx, Tier};
use crate::gen;
use crate::refjson::{self, Dom, Ev, Verdict};
use crate::rng::Rng;
use crate::value::{self, Got};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::Deserialize;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Deserialize)]
struct Holder {
    v: Value,
}

fn diff(cx: &mut Ctx, target: &str, want: &[Ev], got: Result<Vec<Got>, miniserde::Error>) {
    match got {
        Ok(got) => {
            cx.seen("items compared", got.len() as u64);
            if let Some(d) = value::differ(want, &got) {
                cx.violation("result differs from the document", format!("target {target}: {d}"));
            }
        }
        Err(_) => cx.violation("valid document refused", format!("target {target}")),
    }
}

pub fn compare(cx: &mut Ctx, doc: &str) {
    let out = refjson::parse(doc);
    if out.verdict != Verdict::Accept {
        cx.seen("documents not judged here (refusable numbers)", 1);
        return;
    }
    cx.max("max depth of a compared document", out.depth as u64);
    let want = Dom::build(&out.events).canon();
    cx.heap_cap(doc.len());
    let Some(v) = cx.call(|| json::from_str::<Value>(doc)) else { return };
    diff(cx, "Value", &want, v.as_ref().map(value::walk).map_err(|e| *e));
    let _ = cx.call(|| drop(v));

    // The narrower targets hold the same data and refuse every other kind.
    let kind = &want[0];
    let sel = cx.rng.below(4);
    if sel == 0 || matches!(kind, Ev::ArrOpen) && sel < 3 {
        let Some(a) = cx.call(|| json::from_str::<Array>(doc)) else { return };
        match (kind, &a) {
            (Ev::ArrOpen, a) => diff(cx, "Array", &want, a.as_ref().map(value::walk_array).map_err(|e| *e)),
            (_, Err(_)) => cx.seen("other kinds refused by Array", 1),
            (_, Ok(_)) => cx.violation("json::Array accepts another kind of value", String::new()),
        }
        let _ = cx.call(|| drop(a));
    }
    if sel == 1 || matches!(kind, Ev::ObjOpen) && sel < 3 {
        let Some(o) = cx.call(|| json::from_str::<Object>(doc)) else { return };
        match (kind, &o) {
            (Ev::ObjOpen, o) => diff(cx, "Object", &want, o.as_ref().map(value::walk_object).map_err(|e| *e)),
            (_, Err(_)) => cx.seen("other kinds refused by Object", 1),
            (_, Ok(_)) => cx.violation("json::Object accepts another kind of value", String::new()),
        }
        let _ = cx.call(|| drop(o));
    }
    if sel == 2 || matches!(kind, Ev::Num(_)) {
        let Some(n) = cx.call(|| json::from_str::<Number>(doc)) else { return };
        match (kind, &n) {
            (Ev::Num(_), n) => diff(cx, "Number", &want, n.as_ref().map(|n| vec![value::number(n)]).map_err(|e| *e)),
            (_, Err(_)) => cx.seen("other kinds refused by Number", 1),
            (_, Ok(_)) => cx.violation("json::Number accepts another kind of value", String::new()),
        }
    }
    // A Value as part of something else.
    if sel == 3 && doc.len() < 100_000 {
        let wrapped = match cx.rng.below(6) {
            0 => cx.call(|| json::from_str::<Vec<Value>>(&format!("[{doc}]")).map(|mut v| (v.len(), v.pop()))),
            1 => cx.call(|| {
                json::from_str::<BTreeMap<String, Value>>(&format!("{{\"k\":{doc}}}")).map(|mut m| (m.len(), m.remove("k")))
            }),
            2 => cx.call(|| json::from_str::<Holder>(&format!("{{\"a\":{doc},\"v\":{doc},\"z\":{doc}}}")).map(|h| (1, Some(h.v)))),
            3 => cx.call(|| json::from_str::<Box<Value>>(doc).map(|b| (1, Some(*b)))),
            4 => cx.call(|| json::from_str::<(Value, Value)>(&format!("[0,{doc}]")).map(|t| (1, Some(t.1)))),
            _ => cx.call(|| json::from_str::<[Value; 3]>(&format!("[{doc},[{doc}],{doc}]")).map(|[_, _, t]| (1, Some(t)))),
        };
        match wrapped {
            None => {}
            Some(Ok((1, Some(v)))) => diff(cx, "a Value inside a typed container", &want, Ok(value::walk(&v))),
            Some(Ok(_)) => cx.violation("a Value inside a typed container was lost", String::new()),
            Some(Err(_)) => cx.violation("valid document refused", "inside a typed container".to_owned()),
        }
    }
}

/// Every tree shape up to a number of nodes, with leaves numbered in document order.
fn shapes(cx: &mut Ctx, max_nodes: usize) {
    // A shape is a sequence of codes in prefix order, decoded greedily:
    // 0 leaf, 1 array, 2 object, 3 close.
    fn rec(cx: &mut Ctx, text: &mut String, open: &mut Vec<(bool, usize)>, left: usize, n: usize, index: &mut usize) {
        if cx.stop() {
            return;
        }
        let at = text.len();
        if open.is_empty() && n > 0 {
            *index += 1;
            if cx.mine(*index) {
                let doc = text.clone();
                cx.enumerated("shape", &doc);
                compare(cx, &doc);
            }
            return;
        }
        let prefix = |text: &mut String, open: &mut Vec<(bool, usize)>, n: usize| {
            if let Some((obj, k)) = open.last_mut() {
                if *k > 0 {
                    text.push(',');
                }
                *k += 1;
                if *obj {
                    // keys in no particular order, some repeated
                    let _ = write!(text, "\"{}\":", (b'a' + (n * 5 % 7) as u8) as char);
                }
            }
        };
        if left > 0 {
            for kind in 0..3 {
                let saved = open.clone();
                prefix(text, open, n);
                match kind {
                    0 => {
                        match n % 4 {
                            0 => write!(text, "{n}"),
                            1 => write!(text, "\"s{n}\""),
                            2 => write!(text, "-{n}"),
                            _ => write!(text, "null"),
                        }
                        .unwrap();
                        rec(cx, text, open, left - 1, n + 1, index);
                    }
                    1 => {
                        text.push('[');
                        open.push((false, 0));
                        rec(cx, text, open, left - 1, n + 1, index);
                    }
                    _ => {
                        text.push('{');
                        open.push((true, 0));
                        rec(cx, text, open, left - 1, n + 1, index);
                    }
                }
                *open = saved;
                text.truncate(at);
            }
        }
        if let Some((obj, k)) = open.pop() {
            text.push(if obj { '}' } else { ']' });
            rec(cx, text, open, left, n, index);
            text.truncate(at);
            open.push((obj, k));
        }
    }
    rec(cx, &mut String::new(), &mut Vec::new(), max_nodes, 0, &mut 0);
}

pub fn wide(r: &mut Rng, n: usize, kind: usize) -> String {
    let mut s = String::new();
    match kind {
        0 => {
            s.push('[');
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                let _ = write!(s, "{i}");
            }
            s.push(']');
        }
        1 => {
            // elements of every kind, nested ones in between
            s.push('[');
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                match i % 7 {
                    0 => s.push_str("null"),
                    1 => s.push_str("true"),
                    2 => drop(write!(s, "\"{i}\"")),
                    3 => drop(write!(s, "[{i}]")),
                    4 => drop(write!(s, "{{\"{i}\":{i}}}")),
                    5 => s.push_str("[]"),
                    _ => drop(write!(s, "-{i}.5")),
                }
            }
            s.push(']');
        }
        2 | 3 => {
            let mut keys: Vec<usize> = (0..n).collect();
            r.shuffle(&mut keys);
            s.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                let k = if kind == 3 { k % 17 } else { *k };
                let _ = write!(s, "\"k{k}\":{i}");
            }
            s.push('}');
        }
        4 => {
            s.push('"');
            for i in 0..n {
                s.push(char::from_u32(0x21 + (i as u32 * 7) % 0x2fff).filter(|c| *c != '"' && *c != '\\').unwrap_or('x'));
            }
            s.push('"');
        }
        _ => {
            s.push('{');
            for i in 0..n {
                let _ = write!(s, "{}\"{}\":[{i},{{}}]", if i > 0 { "," } else { "" }, "k".repeat(i % 60));
            }
            s.push('}');
        }
    }
    s
}

pub fn run(cx: &mut Ctx) {
    shapes(cx, cx.n(4, 8, 9));
    let mut index = 0;
    // every small size, then sizes around powers of two
    let mut sizes: Vec<usize> = (0..cx.n(6, 70, 300)).collect();
    for p in 3..=cx.n(4, 16, 19) {
        sizes.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    for n in sizes {
        for kind in 0..6 {
            index += 1;
            if cx.mine(index) && !cx.done() {
                let mut r = cx.rng.clone();
                let doc = wide(&mut r, n, kind);
                cx.case("wide", &doc);
                compare(cx, &doc);
            }
        }
    }
    let depths = match cx.tier {
        Tier::Mini => vec![20],
        Tier::Quick => vec![100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 20_000, 65_536, 100_000],
        Tier::Thorough => vec![127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 20_000, 65_535, 65_536, 65_537, 1_000_000],
    };
    for d in depths {
        for sib in [0, 5, 40] {
            for _ in 0..4 {
                index += 1;
                if cx.mine(index) && !cx.done() {
                    let doc = {
                        let mut r = Rng::new(cx.rng.u64());
                        gen::gen_deep(&mut r, d, sib)
                    };
                    cx.case("deep", &doc);
                    compare(cx, &doc);
                }
            }
        }
    }
    let rounds = cx.share(150, 6_000_000, 60_000_000);
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        let doc = match i % 8 {
            7 => {
                let d = cx.rng.range(5, 60);
                gen::gen_deep(&mut cx.rng, d, 50)
            }
            _ => gen::gen_doc(&mut cx.rng),
        };
        cx.case("document", &doc);
        compare(cx, &doc);
    }
}
