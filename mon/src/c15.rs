//! C15: cost against size. The measured calls are bracketed by callgrind client requests when run
//! under valgrind, and by the counting allocator otherwise; the driver judges the growth.

use crate::alloc;
use crate::ctx::{Ctx, Tier};
use miniserde::json::{self, Array, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;

// ---- valgrind ------------------------------------------------------------------------------------

#[cfg(all(target_arch = "x86_64", not(miri)))]
fn request(code: usize, arg: usize) -> usize {
    let args = [code, arg, 0, 0, 0, 0];
    let mut result = 0usize;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") result, out("rdi") _,
        );
    }
    result
}

#[cfg(any(not(target_arch = "x86_64"), miri))]
fn request(_: usize, _: usize) -> usize {
    0
}

const CT: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;
const RUNNING_ON_VALGRIND: usize = 0x1001;

/// Callgrind writes its counters into numbered files next to `path`; the last one's total.
struct Counter {
    path: String,
    part: usize,
}

impl Counter {
    fn next(&mut self) -> Option<u64> {
        self.part += 1;
        let name = format!("{}.{}", self.path, self.part);
        let text = std::fs::read_to_string(&name).ok()?;
        _ = std::fs::remove_file(&name);
        let summary = text.lines().find_map(|l| l.strip_prefix("summary: "))?;
        summary.trim().parse().ok()
    }
}

// ---- documents -----------------------------------------------------------------------------------

/// What a document is made of: a text around a hole, and how many of its units make it.
#[derive(Clone, Copy)]
struct Part {
    name: &'static str,
    open: fn(&mut String, usize),
    close: fn(&mut String, usize),
    /// Takes something inside.
    holds: bool,
}

fn rep(s: &mut String, n: usize, unit: &str) {
    for _ in 0..n {
        s.push_str(unit);
    }
}

fn list(s: &mut String, n: usize, mut unit: impl FnMut(&mut String, usize)) {
    s.push('[');
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        unit(s, i);
    }
    s.push(']');
}

fn members(s: &mut String, n: usize, mut unit: impl FnMut(&mut String, usize)) {
    s.push('{');
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        unit(s, i);
    }
    s.push('}');
}

fn scramble(i: usize) -> u64 {
    crate::rng::mix(i as u64)
}

fn nothing(_: &mut String, _: usize) {}

const fn leaf(name: &'static str, open: fn(&mut String, usize)) -> Part {
    Part { name, open, close: nothing, holds: false }
}

const fn around(name: &'static str, open: fn(&mut String, usize), close: fn(&mut String, usize)) -> Part {
    Part { name, open, close, holds: true }
}

/// Each is built from about n units of a few bytes.
const PARTS: &[Part] = &[
    around("deep arrays", |s, n| rep(s, n, "["), |s, n| rep(s, n, "]")),
    around("deep objects", |s, n| rep(s, n, "{\"k\":"), |s, n| rep(s, n, "}")),
    around("deep, item before each", |s, n| rep(s, n, "[1,"), |s, n| rep(s, n, "]")),
    around("deep, item after each", |s, n| rep(s, n, "["), |s, n| rep(s, n, ",1]")),
    around("deep objects, member after each", |s, n| rep(s, n, "{\"k\":"), |s, n| rep(s, n, ",\"z\":[]}")),
    around("deep objects, text before each", |s, n| rep(s, n, "{\"a\":\"\\n\",\"k\":"), |s, n| rep(s, n, "}")),
    around("deep, spaced", |s, n| rep(s, n, " [ "), |s, n| rep(s, n, "\n]\t")),
    leaf("numbers", |s, n| list(s, n, |s, i| _ = write!(s, "{}", i % 1000))),
    leaf("negative numbers", |s, n| list(s, n, |s, i| _ = write!(s, "-{}", i))),
    leaf("floats", |s, n| list(s, n, |s, i| _ = write!(s, "{}.{}e{}", i % 7, i, i % 300))),
    leaf("nulls", |s, n| list(s, n, |s, _| s.push_str("null"))),
    leaf("booleans", |s, n| list(s, n, |s, i| s.push_str(if i % 3 == 0 { "true" } else { "false" }))),
    leaf("short texts", |s, n| list(s, n, |s, _| s.push_str("\"abc\""))),
    leaf("short escaped texts", |s, n| list(s, n, |s, _| s.push_str("\"a\\nb\""))),
    leaf("empty texts", |s, n| list(s, n, |s, _| s.push_str("\"\""))),
    leaf("empty arrays", |s, n| list(s, n, |s, _| s.push_str("[]"))),
    leaf("empty objects", |s, n| list(s, n, |s, _| s.push_str("{}"))),
    leaf("small arrays", |s, n| list(s, n, |s, _| s.push_str("[1,2]"))),
    leaf("small objects", |s, n| list(s, n, |s, _| s.push_str("{\"a\":1}"))),
    leaf("objects of arrays", |s, n| list(s, n, |s, _| s.push_str("{\"a\":[[1],{}],\"b\":[]}"))),
    leaf("ascending keys", |s, n| members(s, n, |s, i| _ = write!(s, "\"{i:09}\":1"))),
    leaf("descending keys", |s, n| members(s, n, |s, i| _ = write!(s, "\"{:09}\":1", 999_999_999 - i))),
    leaf("scattered keys", |s, n| members(s, n, |s, i| _ = write!(s, "\"{:x}\":1", scramble(i)))),
    leaf("one key again and again", |s, n| members(s, n, |s, _| s.push_str("\"a\":1"))),
    leaf("one key, arrays", |s, n| members(s, n, |s, i| _ = write!(s, "\"a\":[{i}]"))),
    leaf("few keys again and again", |s, n| members(s, n, |s, i| _ = write!(s, "\"k{}\":\"v\"", i % 10))),
    leaf("escaped keys", |s, n| members(s, n, |s, i| _ = write!(s, "\"\\n{i}\":null"))),
    leaf("keys with a long common start", |s, n| members(s, n / 8, |s, i| _ = write!(s, "\"{:0>60}\":0", scramble(i)))),
    leaf("keys with numbers", |s, n| members(s, n, |s, i| _ = write!(s, "\"{i}\":{i}"))),
    leaf("one long text", |s, n| {
        s.push('"');
        rep(s, n, "abcdefgh");
        s.push('"');
    }),
    leaf("one long text, non-ASCII", |s, n| {
        s.push('"');
        rep(s, n, "\u{e9}\u{1f600}");
        s.push('"');
    }),
    leaf("one long text of escapes", |s, n| {
        s.push('"');
        rep(s, n, "\\n\\\"\\\\");
        s.push('"');
    }),
    leaf("one long text of \\u", |s, n| {
        s.push('"');
        rep(s, n, "\\u00e9");
        s.push('"');
    }),
    leaf("one long text of \\u controls", |s, n| {
        s.push('"');
        rep(s, n, "\\u0001");
        s.push('"');
    }),
    leaf("one long text of pairs", |s, n| {
        s.push('"');
        rep(s, n, "\\ud83d\\ude00");
        s.push('"');
    }),
    leaf("one long text, sparse escapes", |s, n| {
        s.push('"');
        rep(s, n / 8, "abcdefghabcdefghabcdefghabcdefgh\\t");
        s.push('"');
    }),
    leaf("one long key", |s, n| {
        s.push_str("{\"");
        rep(s, n, "abcdefgh");
        s.push_str("\":1}");
    }),
    leaf("one long key of escapes", |s, n| {
        s.push_str("{\"");
        rep(s, n, "\\r\\u0000");
        s.push_str("\":1}");
    }),
    leaf("one long integer", |s, n| {
        s.push('1');
        rep(s, n, "00000000");
        s.push_str(".0e-");
        _ = write!(s, "{}", n * 8);
    }),
    leaf("one long fraction", |s, n| {
        s.push_str("0.");
        rep(s, n, "12345678");
    }),
    leaf("one long row of zeros", |s, n| {
        s.push_str("0.");
        rep(s, n, "00000000");
    }),
    leaf("one long exponent", |s, n| {
        s.push_str("1e");
        rep(s, n, "00000000");
    }),
    leaf("long numbers", |s, n| list(s, n / 8, |s, _| s.push_str("0.1234567890123456789012345678901234567890e-5"))),
    leaf("huge exponents", |s, n| list(s, n / 2, |s, i| _ = write!(s, "1e-{}99999999", i % 7 + 1))),
    leaf("zero to a large power", |s, n| list(s, n / 2, |s, _| s.push_str("0e2000000000"))),
    leaf("tiny numbers", |s, n| list(s, n / 2, |s, i| _ = write!(s, "1e-2{:03}", i % 1000))),
    leaf("white space", |s, n| {
        rep(s, n, " \n\t\r");
        s.push('0');
        rep(s, n, " \n\t\r");
    }),
    leaf("spaced items", |s, n| list(s, n, |s, _| s.push_str(" 1 "))),
    leaf("comb", |s, n| {
        // square: sqrt n chains of depth sqrt n
        let k = (n as f64).sqrt() as usize;
        list(s, k, |s, _| {
            rep(s, k, "[");
            rep(s, k, "]");
        });
    }),
    leaf("comb of objects", |s, n| {
        let k = (n as f64).sqrt() as usize;
        members(s, k, |s, i| {
            _ = write!(s, "\"{i}\":");
            rep(s, k, "{\"a\":");
            s.push('0');
            rep(s, k, "}");
        });
    }),
    leaf("rows", |s, n| {
        let k = (n as f64).sqrt() as usize;
        list(s, k, |s, _| list(s, k, |s, i| _ = write!(s, "{i}")));
    }),
    leaf("tables", |s, n| {
        let k = (n as f64).sqrt() as usize;
        list(s, k, |s, _| members(s, k, |s, i| _ = write!(s, "\"c{i}\":{i}")));
    }),
    leaf("tree", |s, n| tree(s, n)),
];

fn tree(s: &mut String, n: usize) {
    if n <= 1 {
        s.push('0');
        return;
    }
    if n % 2 == 0 {
        s.push('[');
        tree(s, n / 2);
        s.push(',');
        tree(s, n - n / 2);
        s.push(']');
    } else {
        s.push_str("{\"l\":");
        tree(s, n / 2);
        s.push_str(",\"r\":");
        tree(s, n - n / 2);
        s.push('}');
    }
}

fn single(p: &Part, n: usize) -> String {
    let mut s = String::new();
    (p.open)(&mut s, n);
    if p.holds {
        s.push('0');
    }
    (p.close)(&mut s, n);
    s
}

/// One part, then another one beside it or inside it.
fn pair(a: &Part, b: &Part, inside: bool, n: usize) -> String {
    let mut s = String::new();
    if inside {
        (a.open)(&mut s, n / 2);
        s.push_str(&single(b, n / 2));
        (a.close)(&mut s, n / 2);
    } else {
        s.push('[');
        s.push_str(&single(a, n / 2));
        s.push(',');
        s.push_str(&single(b, n / 2));
        s.push(']');
    }
    s
}

// ---- what is done with them ------------------------------------------------------------------------

#[derive(Deserialize)]
struct NoFields {}

#[derive(Deserialize, Serialize)]
struct Chain {
    #[serde(rename = "k")]
    next: Option<Box<Chain>>,
}

#[derive(Deserialize, Serialize, Default)]
struct Row {
    a: u32,
    b: String,
    c: Option<Vec<u8>>,
    d: bool,
    e: f64,
}

type Done = Box<dyn std::any::Any>;
/// Data already made, and its size: the call that is measured. What it returns is dropped outside.
struct Job {
    bytes: usize,
    run: Box<dyn FnOnce() -> Done>,
}

fn parse<T: Deserialize + 'static>(doc: String, accepted: Option<bool>) -> Job {
    Job {
        bytes: doc.len(),
        run: Box::new(move || {
            let r = json::from_str::<T>(&doc);
            if let Some(a) = accepted {
                assert!(r.is_ok() == a, "the workload is not what it should be");
            }
            Box::new((r, doc))
        }),
    }
}

fn write<T: Serialize + 'static>(v: T) -> Job {
    let bytes = json::to_string(&v).len();
    Job { bytes, run: Box::new(move || Box::new((json::to_string(&v), v))) }
}

fn value(doc: &str) -> Value {
    json::from_str(doc).expect("workload")
}

type Maker = Box<dyn Fn(usize) -> Job>;

fn on_document(name: &str, doc: impl Fn(usize) -> String + Clone + 'static, few: bool, out: &mut Vec<(String, Maker)>) {
    let mut add = |op: &str, f: Box<dyn Fn(String) -> Job>| {
        let doc = doc.clone();
        out.push((format!("{op}: {name}"), Box::new(move |n| f(doc(n)))));
    };
    add("parse", Box::new(|d| parse::<Value>(d, Some(true))));
    add("write", Box::new(|d| write(value(&d))));
    add("drop", Box::new(|d| {
        let v = value(&d);
        let bytes = d.len();
        Job { bytes, run: Box::new(move || {
            drop(v);
            Box::new(())
        }) }
    }));
    add("parse, cut short", Box::new(|mut d| {
        d.truncate(d.trim_end().len() - 1);
        d.push_str("  ,");
        parse::<Value>(d, Some(false))
    }));
    if few {
        return;
    }
    add("parse, junk after", Box::new(|mut d| {
        d.push_str("  ]");
        parse::<Value>(d, Some(false))
    }));
    add("ignore", Box::new(|d| parse::<NoFields>(format!("{{\"x\":{d}}}"), Some(true))));
    add("ignore, then fail", Box::new(|d| parse::<NoFields>(format!("{{\"x\":{d}}},"), Some(false))));
    add("refuse the kind", Box::new(|d| parse::<Vec<Vec<u8>>>(format!("[[1],{d},[300]]"), None)));
    add("parse in a Vec", Box::new(|d| parse::<Vec<Option<Box<Value>>>>(format!("[{d},null,{d}]"), Some(true))));
    add("parse in a map", Box::new(|d| parse::<HashMap<String, Value>>(format!("{{\"a\":{d},\"b\":{d},\"a\":null}}"), Some(true))));
    add("parse in tuple and array", Box::new(|d| parse::<(Value, [Value; 2])>(format!("[{d},[1,{d}]]"), Some(true))));
    add("clear", Box::new(|d| {
        let mut a = Array::new();
        let bytes = d.len();
        a.push(value(&d));
        a.push(Value::Null);
        Job { bytes, run: Box::new(move || {
            a.clear();
            Box::new(a)
        }) }
    }));
    add("overwrite", Box::new(|d| {
        let mut o = Object::new();
        let bytes = d.len();
        o.insert("x".into(), value(&d));
        Job { bytes, run: Box::new(move || {
            o.insert("x".into(), Value::Null);
            Box::new(o)
        }) }
    }));
}

fn typed(out: &mut Vec<(String, Maker)>) {
    macro_rules! t {
        ($($name:literal, $t:ty, $ok:expr, |$n:ident| $doc:expr;)*) => { $(
            out.push((format!("typed parse: {}", $name), Box::new(|$n| parse::<$t>($doc, Some($ok)))));
        )* };
    }
    fn many(n: usize, f: impl FnMut(&mut String, usize)) -> String {
        let mut s = String::new();
        list(&mut s, n, f);
        s
    }
    fn map(n: usize, f: impl FnMut(&mut String, usize)) -> String {
        let mut s = String::new();
        members(&mut s, n, f);
        s
    }
    t! {
        "Vec<u8>", Vec<u8>, true, |n| many(n, |s, i| _ = write!(s, "{}", i % 256));
        "Vec<u8>, last too large", Vec<u8>, false, |n| many(n, |s, i| _ = write!(s, "{}", if i + 1 == n { 256 } else { 0 }));
        "Vec<()>", Vec<()>, true, |n| many(n, |s, _| s.push_str("null"));
        "Vec<String>", Vec<String>, true, |n| many(n, |s, _| s.push_str("\"a\\u0041b\""));
        "Vec<Option<Box<f64>>>", Vec<Option<Box<f64>>>, true, |n| many(n, |s, _| s.push_str("0.5"));
        "Vec<(u8, String)>", Vec<(u8, String)>, true, |n| many(n, |s, _| s.push_str("[1,\"x\"]"));
        "Vec<[u16; 3]>", Vec<[u16; 3]>, true, |n| many(n, |s, _| s.push_str("[1,2,3]"));
        "Vec<Row>", Vec<Row>, true, |n| many(n / 4, |s, _| s.push_str("{\"e\":1.5,\"b\":\"text\",\"a\":1,\"zz\":[1,{}],\"d\":true,\"c\":[1,2]}"));
        "Row with many unknown members", Row, true, |n| {
            let mut s = map(n, |s, i| _ = write!(s, "\"u{i}\":[{i}]"));
            s.pop();
            s.push_str(",\"e\":1.5,\"b\":\"text\",\"a\":1,\"d\":true}");
            s
        };
        "Row with members again and again", Row, true, |n| map(n, |s, i| s.push_str(["\"a\":1", "\"b\":\"x\"", "\"c\":[1]", "\"d\":false", "\"e\":0"][i % 5]));
        "Row without a member, after many", Row, false, |n| map(n, |s, i| s.push_str(["\"a\":1", "\"b\":\"x\"", "\"c\":[1]", "\"d\":false"][i % 4]));
        "Row with long text again and again", Row, true, |n| {
            let mut s = map(n / 50, |s, _| {
                s.push_str("\"b\":\"");
                rep(s, 25, "\\tabcdefg");
                s.push('"');
            });
            s.pop();
            s.push_str(",\"e\":1.5,\"a\":1,\"d\":true}");
            s
        };
        "BTreeMap<u64, u8>", BTreeMap<u64, u8>, true, |n| map(n, |s, i| _ = write!(s, "\"{}\":1", scramble(i)));
        "BTreeMap<String, Vec<u8>>", BTreeMap<String, Vec<u8>>, true, |n| map(n, |s, i| _ = write!(s, "\"{i}\":[1]"));
        "HashMap<String, u8>", HashMap<String, u8>, true, |n| map(n, |s, i| _ = write!(s, "\"{i}\":1"));
        "HashMap<i32, String>, one key", HashMap<i32, String>, true, |n| map(n, |s, _| s.push_str("\"7\":\"x\""));
        "HashMap<u8, u8>, last key bad", HashMap<u16, u8>, false, |n| {
            let mut s = map(n, |s, i| _ = write!(s, "\"{}\":1", i % 60000));
            s.pop();
            s.push_str(",\"x\":1}");
            s
        };
        "Vec<Vec<Vec<u8>>>", Vec<Vec<Vec<u8>>>, true, |n| many(n / 4, |s, _| s.push_str("[[1],[],[2,3]]"));
        "Box<Box<Vec<Box<u8>>>>", Box<Box<Vec<Box<u8>>>>, true, |n| many(n, |s, _| s.push('1'));
        "deep, the type's own", Chain, true, |n| {
            let mut s = String::new();
            rep(&mut s, n / 4, "{\"k\":");
            s.push_str("{}");
            rep(&mut s, n / 4, "}");
            s
        };
        "Array", Array, true, |n| many(n, |s, _| s.push_str("[1]"));
        "Object", Object, true, |n| map(n, |s, i| _ = write!(s, "\"{}\":{{}}", scramble(i)));
    }
    macro_rules! w {
        ($($name:literal, |$n:ident| $v:expr;)*) => { $(
            out.push((format!("typed write: {}", $name), Box::new(|$n| write($v))));
        )* };
    }
    w! {
        "Vec<u64>", |n| (0..n).map(|i| scramble(i)).collect::<Vec<u64>>();
        "Vec<f64>", |n| (0..n).map(|i| scramble(i) as f64 / 7e9).collect::<Vec<f64>>();
        "Vec<bool>", |n| vec![true; n];
        "Vec<()>", |n| vec![(); n];
        "Vec<Vec<u8>>", |n| vec![vec![1u8, 2]; n];
        "Vec<String>", |n| vec![String::from("a\"b"); n];
        "Vec<Option<Box<u8>>>", |n| (0..n).map(|i| (i % 2 == 0).then(|| Box::new(1u8))).collect::<Vec<_>>();
        "Vec<(u8, String)>", |n| (0..n).map(|_| (1u8, String::new())).collect::<Vec<_>>();
        "Vec<[u8; 4]>", |n| vec![[1u8; 4]; n];
        "Vec<Row>", |n| (0..n / 4).map(|_| <Row as Default>::default()).collect::<Vec<_>>();
        "BTreeMap<u64, u8>", |n| (0..n).map(|i| (scramble(i), 1u8)).collect::<BTreeMap<_, _>>();
        "BTreeMap<String, Vec<u8>>", |n| (0..n).map(|i| (i.to_string(), vec![1u8])).collect::<BTreeMap<_, _>>();
        "HashMap<String, u8>", |n| (0..n).map(|i| (i.to_string(), 1u8)).collect::<HashMap<_, _>>();
        "String, plain", |n| "abcdefgh".repeat(n);
        "String, quotes", |n| "\"\\".repeat(n);
        "String, controls", |n| "\u{1}\n\u{1f}".repeat(n);
        "String, mixed", |n| "abc\u{e9}\n\u{1f600}\"".repeat(n);
        "String, one escape at the end", |n| "abcdefgh".repeat(n) + "\n";
        "long keys", |n| BTreeMap::from([("k\u{8}ey".repeat(n), 1u8)]);
        "deep, the type's own", |n| {
            let mut c = Chain { next: None };
            for _ in 0..n / 4 {
                c = Chain { next: Some(Box::new(c)) };
            }
            c
        };
        "Vec of small Values", |n| (0..n).map(|_| value("{\"a\":[1]}")).collect::<Vec<_>>();
    }
}

/// Documents of a few bytes that name something large.
fn tiny(out: &mut Vec<(String, Maker)>) {
    let mut docs: Vec<String> = Vec::new();
    for head in ["0", "1", "-1", "9", "0.1", "1.0", "-0.0", "0.000000000000000000001", "100000000000000000000", "18446744073709551615", "123456789.987654321"] {
        for e in [
            "1", "9", "18", "19", "20", "22", "23", "100", "255", "256", "300", "307", "308", "309", "323", "324", "325", "400", "511", "512", "616",
            "1000", "4096", "9999", "32767", "32768", "65535", "65536", "99999", "1000000", "9999999", "99999999", "536870912", "1000000000",
            "2147483638", "2147483647", "2147483648", "4294967295", "4294967296", "9999999999", "9223372036854775807", "9223372036854775808",
            "18446744073709551615", "18446744073709551616", "99999999999999999999",
        ] {
            for sign in ["", "-", "+"] {
                docs.push(format!("{head}e{sign}{e}"));
            }
        }
    }
    for s in ["", "\"", "[", "{", "\"\\u", "[[[[", "{\"", "{}", "[]", "\"\"", "null", "-", "1e", "0.", "\"\\uffff\"", "\"\\ud800", "\"\\udbff\\udfff\"", "{\"\":{}}"] {
        docs.push(s.to_owned());
    }
    for d in docs {
        macro_rules! t {
            ($($t:ty),*) => { $(
                let doc = d.clone();
                out.push((format!("tiny {d:?} as {}", stringify!($t)), Box::new(move |_| parse::<$t>(doc.clone(), None))));
            )* };
        }
        t!(Value, f64);
        if d.contains("1e") && d.len() < 16 {
            t!(u8, i64, f32, String, Chain, NoFields);
            let doc = format!("{{\"x\":[{d}]}}");
            out.push((format!("tiny {doc:?} ignored"), Box::new(move |_| parse::<NoFields>(doc.clone(), None))));
        }
    }
    for f in [0.0, -0.0, 1.0, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e300, 1e-300, f64::EPSILON, f64::NAN, f64::INFINITY, 0.1] {
        out.push((format!("tiny write of {f:e}"), Box::new(move |_| write(f))));
        out.push((format!("tiny write of {f:e} as f32"), Box::new(move |_| write(f as f32))));
    }
    for i in [0, 1, u64::MAX, 1 << 63, 10_000_000_000_000_000_000] {
        out.push((format!("tiny write of {i}"), Box::new(move |_| write(i))));
        out.push((format!("tiny write of {}", i as i64), Box::new(move |_| write(i as i64))));
    }
}

pub fn run(cx: &mut Ctx, args: &[String]) {
    let arg = |k: &str| args.iter().find_map(|a| a.strip_prefix(k).map(str::to_owned));
    let table = arg("table=").expect("table=");
    let mut out = std::fs::File::create(&table).unwrap();
    let mut steep = 0;
    let under = request(RUNNING_ON_VALGRIND, 0) != 0;
    if under {
        alloc::use_pool();
    }
    let mut jobs: Vec<(String, Maker)> = Vec::new();
    let is_tiny = arg("tiny=").is_some();
    if is_tiny {
        tiny(&mut jobs);
        crate::ctx::set_cpu_budget_ms(4000);
    } else {
        for p in PARTS {
            on_document(p.name, move |n| single(p, n), false, &mut jobs);
        }
        typed(&mut jobs);
    }
    let singles = jobs.len();
    for a in if is_tiny { &[] } else { PARTS } {
        for b in PARTS {
            if a.name != b.name {
                on_document(&format!("{}, then {}", a.name, b.name), move |n| pair(a, b, false, n), true, &mut jobs);
            }
            if a.holds {
                on_document(&format!("{}, inside it {}", a.name, b.name), move |n| pair(a, b, true, n), true, &mut jobs);
            }
        }
    }
    let pair_stride: usize = arg("stride=").and_then(|x| x.parse().ok()).unwrap_or(1);
    let base: usize = arg("base=").and_then(|x| x.parse().ok()).unwrap_or(750);
    let steps: usize = arg("steps=").and_then(|x| x.parse().ok()).unwrap_or(4);
    let salt = cx.seed as usize;
    let mut counter = Counter { path: arg("callgrind=").unwrap_or_default(), part: 0 };
    for (i, (name, make)) in jobs.iter().enumerate() {
        let is_pair = i >= singles;
        if is_pair && crate::rng::mix((i + salt * 1_000_003) as u64) as usize % pair_stride != 0 {
            continue;
        }
        if !cx.mine(i) || cx.tier == Tier::Mini {
            continue;
        }
        if cx.done() || steep >= 3 {
            break;
        }
        let mut rows = String::new();
        let mut last = (0usize, 0f64);
        for k in 0..steps {
            if is_pair && !(k + 1 == steps || k + 3 == steps) {
                continue;
            }
            let n = base << (2 * k);
            cx.enumerated(name, &format!("size {n}"));
            let job = make(n);
            let mut instructions = 0;
            cx.heap_cap(job.bytes);
            alloc::reset_peak();
            let before = alloc::stat();
            if under {
                request(CT, 0); // DUMP_STATS, so that what came before is not in the next one
                counter.next().expect("callgrind's file");
                request(CT + 1, 0); // ZERO_STATS
            }
            crate::ctx::tick();
            crate::ctx::cursor_state(1);
            let done = (job.run)();
            crate::ctx::cursor_state(0);
            if under {
                request(CT, 0);
                instructions = counter.next().expect("callgrind's file");
            }
            let after = alloc::stat();
            alloc::set_limit(None);
            drop(done);
            _ = writeln!(
                rows,
                "{name}\t{n}\t{}\t{}\t{}\t{}\t{instructions}",
                job.bytes,
                after.total - before.total,
                after.peak - before.live,
                after.calls - before.calls
            );
            cx.seen("measured calls", 1);
            if under {
                cx.seen("calls measured in instructions", 1);
            }
            // steep enough to be judged a violation by the rows there are: the larger sizes could take hours
            let cost = if under { instructions as f64 } else { (after.total - before.total) as f64 };
            let (limit, floor) = if under { (1.5, 1e6) } else { (1.75, 1e6) };
            if last.1 > 0.0 && cost > floor && job.bytes > 2 * last.0 && (cost / last.1).ln() / (job.bytes as f64 / last.0 as f64).ln() > limit {
                steep += 1;
                break;
            }
            last = (job.bytes, cost);
        }
        // all sizes of a family at once: the judge reads along
        rows.push('\n');
        out.write_all(rows.as_bytes()).unwrap();
        cx.seen("families", 1);
    }
}
