//! C01: from_str accepts exactly the valid JSON texts. C02's comparison runs along on the values
//! (a wrong value is reported by C02 only).

use crate::ctx::Ctx;
use crate::gen;
use crate::refjson::{self, Verdict};
use miniserde::json::{self, Value};
use miniserde::Deserialize;

/// Every member is unknown: its value is read by the visitor for ignored input.
#[derive(Deserialize)]
pub struct Ignores {}

pub fn accepts(cx: &mut Ctx, s: &str) {
    let want = refjson::parse(s);
    judge(cx, s, want.verdict, want.why, "Value");
}

fn judge(cx: &mut Ctx, s: &str, want: Verdict, why: &'static str, target: &str) {
    cx.heap_cap(s.len());
    let got = if target == "Value" {
        cx.call(|| json::from_str::<Value>(s).is_ok())
    } else {
        cx.call(|| json::from_str::<Ignores>(s).is_ok())
    };
    let Some(got) = got else { return };
    match (want, got) {
        (Verdict::Accept, true) => cx.seen("accepted_valid", 1),
        (Verdict::Reject, false) => {
            let key = format!("refused: {why}");
            cx.seen(&key, 1);
        }
        (Verdict::Either, _) => cx.seen("at_the_edge_of_f64", 1),
        (Verdict::Accept, false) => cx.violation("valid text refused", format!("target {target}")),
        (Verdict::Reject, true) => {
            cx.violation("invalid text accepted", format!("target {target}; reference reader: {why}"));
        }
    }
}

/// The text as the value of an ignored member.
pub fn accepts_ignored(cx: &mut Ctx, label: &str, s: &str, enumerated: bool) {
    let doc = format!("{{\"k\":{s}}}");
    if enumerated {
        cx.enumerated(label, &doc);
    } else {
        cx.case(label, &doc);
    }
    let want = refjson::parse(&doc);
    judge(cx, &doc, want.verdict, want.why, "ignored member");
}

fn strings_over(cx: &mut Ctx, label: &str, alphabet: &[&str], max_len: usize, wrap: &[(&str, &str)]) {
    let k = alphabet.len();
    let mut index = 0usize;
    for len in 0..=max_len {
        let total = k.pow(len as u32);
        for code in 0..total {
            index += 1;
            if !cx.mine(index) {
                continue;
            }
            if index % 4096 < cx.nshards && cx.done() {
                cx.seen("enumeration cut short by time", 1);
                return;
            }
            let mut c = code;
            let mut body = String::new();
            for _ in 0..len {
                body.push_str(alphabet[c % k]);
                c /= k;
            }
            for (a, b) in wrap {
                let s = format!("{a}{body}{b}");
                cx.enumerated(label, &s);
                accepts(cx, &s);
            }
            if index % 5 == 0 {
                accepts_ignored(cx, label, &body, true);
            }
        }
    }
}

const TEMPLATES: &[&str] = &[
    "null", "true", "false", "0", "-0", "12", "-3.25", "1e5", "1.5E-7", "\"\"", "\"ab\"", "\"\\n\\u00e9\"",
    "\"\\ud83d\\ude00\"", "\"é😀\"", "[]", "{}", "[1]", "[1,2]", "[[],[]]", "{\"a\":1}", "{\"a\":1,\"b\":2}",
    "{\"a\":{}}", "[{},{}]", "{\"a\":[1,{\"b\":null}]}", "[\"x\",\"y\"]", " [ 1 , 2 ] ", "\t{ \"a\" : 1 }\r\n",
    "[null,true,false]", "{\"\":\"\"}", "[[[[1]]]]", "{\"a\":{\"a\":{\"a\":1}}}", "[0.5,-1,2e2]", "[\"\",\"\"]",
    "{\"k\\\"\":\"v\\\\\"}",
];

const INSERTS: &[&str] = &[
    "\u{80}", "\u{85}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{3000}", "\u{ffff}", "\u{10000}", "é", "０", "\u{ff0c}",
];

fn positions(cx: &mut Ctx) {
    let mut chars: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    chars.extend(INSERTS.iter().map(|s| (*s).to_owned()));
    let mut index = 0;
    for t in TEMPLATES {
        let places: Vec<usize> = (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect();
        for (pi, &i) in places.iter().enumerate() {
            // cut here
            index += 1;
            if cx.mine(index) {
                cx.enumerated("cut", &t[..i]);
                accepts(cx, &t[..i]);
                accepts_ignored(cx, "cut", &t[..i], true);
            }
            for c in &chars {
                index += 1;
                if !cx.mine(index) {
                    continue;
                }
                let ins = format!("{}{c}{}", &t[..i], &t[i..]);
                cx.enumerated("insert", &ins);
                accepts(cx, &ins);
                accepts_ignored(cx, "insert", &ins, true);
                if pi + 1 < places.len() {
                    let rep = format!("{}{c}{}", &t[..i], &t[places[pi + 1]..]);
                    cx.enumerated("replace", &rep);
                    accepts(cx, &rep);
                    accepts_ignored(cx, "replace", &rep, true);
                }
                if cx.stop() {
                    return;
                }
            }
        }
    }
}

/// Deep documents, correct and with the wrong closer at one level.
fn deep(cx: &mut Ctx) {
    let depths: &[usize] = match cx.tier {
        crate::ctx::Tier::Mini => &[30],
        crate::ctx::Tier::Quick => &[
            63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097, 32767, 32768, 65535, 65536, 65537,
            200_000,
        ],
        crate::ctx::Tier::Thorough => &[
            63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 32767,
            32768, 65535, 65536, 65537, 131_072, 131_073, 1_000_000, 3_000_000,
        ],
    };
    for (i, &d) in depths.iter().enumerate() {
        if !cx.mine(i) || cx.done() {
            continue;
        }
        let s = {
            let mut r = cx.rng.clone();
            gen::gen_deep(&mut r, d, 3)
        };
        cx.case("deep", &s);
        accepts(cx, &s);
        accepts_ignored(cx, "deep ignored", &s, false);
        for _ in 0..6 {
            let bytes = s.as_bytes();
            let closers: Vec<usize> = (0..bytes.len()).filter(|&i| bytes[i] == b']' || bytes[i] == b'}').collect();
            if closers.is_empty() {
                break;
            }
            let at = *cx.rng.pick(&closers);
            let other = if bytes[at] == b']' { "}" } else { "]" };
            let bad = match cx.rng.below(4) {
                0 => format!("{}{}{}", &s[..at], other, &s[at + 1..]),
                1 => format!("{}{}", &s[..at], &s[at + 1..]),
                2 => format!("{}]{}", &s[..at], &s[at..]),
                _ => s[..at].to_owned(),
            };
            cx.case("deep broken", &bad);
            accepts(cx, &bad);
            accepts_ignored(cx, "deep broken ignored", &bad, false);
        }
    }
}

/// Wide arrays/objects and long strings/numbers/whitespace of sizes around powers of two, cut or
/// corrupted at the far end.
fn big(cx: &mut Ctx) {
    let top = cx.n(5, 17, 21);
    let mut index = 0;
    for p in 3..=top {
        for delta in [-1i64, 0, 1] {
            let n = ((1i64 << p) + delta) as usize;
            for kind in 0..7 {
                index += 1;
                if !cx.mine(index) || cx.done() {
                    continue;
                }
                let s = match kind {
                    0 => format!("[{}1]", "1,".repeat(n - 1)),
                    1 => {
                        let mut s = String::from("{");
                        for i in 0..n {
                            s.push_str(&format!("\"{i}\":0,"));
                        }
                        s.push_str("\"\":0}");
                        s
                    }
                    2 => format!("\"{}\"", "a".repeat(n)),
                    3 => format!("[\"{}\"]", "\\n".repeat(n)),
                    4 => format!("{}1{}", " \n".repeat(n), "\t".repeat(n)),
                    5 => format!("[0.{}1,{}e-{n}]", "0".repeat(n), "7".repeat(n)),
                    _ => format!("[{}\"é\"]", "\"é\",".repeat(n)),
                };
                cx.case("big", &s);
                accepts(cx, &s);
                accepts_ignored(cx, "big ignored", &s, false);
                for bad in [
                    s[..s.len() - 1].to_owned(),
                    format!("{s}]"),
                    format!("{s},"),
                    s.replacen(|c| c == ']' || c == '}', ",]", 1),
                    format!("{s}\u{0}"),
                ] {
                    cx.case("big broken", &bad);
                    accepts(cx, &bad);
                    accepts_ignored(cx, "big broken ignored", &bad, false);
                }
            }
        }
    }
}

pub fn run(cx: &mut Ctx) {
    positions(cx);
    let nlen = cx.n(2, 6, 8);
    strings_over(cx, "number characters", &["0", "1", "9", "-", "+", ".", "e", "E"], nlen, &[("", ""), ("[", "]")]);
    let tlen = cx.n(3, 6, 8);
    strings_over(cx, "tokens", &["[", "]", "{", "}", ",", ":", "\"a\"", "1", " "], tlen, &[("", "")]);
    let slen = cx.n(2, 5, 6);
    strings_over(
        cx,
        "string characters",
        &["\"", "\\", "u", "0", "D8", "dc", "n", "/", "\u{1f}", "\u{7f}", "é"],
        slen,
        &[("\"", "\""), ("{\"", "\":1}")],
    );
    let wlen = cx.n(2, 5, 6);
    strings_over(cx, "word characters", &["n", "u", "l", "t", "r", "e", "f", "a", "s", "N"], wlen, &[("", "")]);
    deep(cx);
    big(cx);
    let rounds = cx.share(60, 8_000_000, 60_000_000);
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        let s = gen::gen_doc(&mut cx.rng);
        cx.case("document", &s);
        accepts(cx, &s);
        let m = gen::mutate(&mut cx.rng, &s);
        cx.case("corrupted", &m);
        accepts(cx, &m);
        if i % 4 == 0 {
            accepts_ignored(cx, "ignored document", &s, false);
            accepts_ignored(cx, "ignored corrupted", &m, false);
            let g = gen::garbage(&mut cx.rng);
            cx.case("garbage", &g);
            accepts(cx, &g);
        }
    }
}
