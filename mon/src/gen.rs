//! Generators of documents, literals and corruptions.

use crate::rng::Rng;

pub struct Style {
    /// Out of 100: chance of whitespace at each place where it may stand.
    pub ws: usize,
    /// Out of 100: chance that a string character is written with an escape.
    pub esc: usize,
    pub max_width: usize,
    pub max_depth: usize,
    /// Out of 100: chance that a member key repeats an earlier one of the same object.
    pub dup: usize,
    /// Only numbers that are stored as integers.
    pub no_float: bool,
    pub max_str: usize,
    /// Stop nesting and widening beyond this many bytes.
    pub max_len: usize,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            ws: *r.pick(&[0, 0, 10, 60]),
            esc: *r.pick(&[0, 0, 15, 70]),
            max_width: *r.pick(&[2, 4, 4, 9, 40]),
            max_depth: *r.pick(&[0, 1, 2, 3, 4, 6, 10]),
            dup: *r.pick(&[0, 0, 20, 60]),
            no_float: r.chance(1, 5),
            max_str: *r.pick(&[3, 12, 70, 300]),
            max_len: *r.pick(&[300, 2000, 20_000, 60_000]),
        }
    }
}

pub fn ws(r: &mut Rng, st: &Style, out: &mut String) {
    while r.below(100) < st.ws {
        out.push(*r.pick(&[' ', '\n', '\t', '\r', ' ']));
        if out.len() % 3 == 0 {
            break;
        }
    }
}

const EDGE_CHARS: &[char] = &[
    '\u{0}', '\u{1}', '\u{7}', '\u{8}', '\u{9}', '\u{a}', '\u{b}', '\u{c}', '\u{d}', '\u{e}', '\u{1f}', '\u{20}',
    '\u{21}', '"', '\\', '/', '\u{7e}', '\u{7f}', '\u{80}', '\u{9f}', '\u{a0}', '\u{ff}', '\u{7ff}', '\u{800}',
    '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}',
    '\u{10ffff}', '\'', '{', '}', '[', ']', ':', ',', 'u', 'b', 'n',
];

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(12) {
        0..=5 => (b' ' + r.below(95) as u8) as char,
        6..=8 => *r.pick(EDGE_CHARS),
        9 => char::from_u32(r.below(0x800) as u32).unwrap(),
        10 => loop {
            if let Some(c) = char::from_u32(r.below(0x10000) as u32) {
                break c;
            }
        },
        _ => char::from_u32(0x10000 + r.below(0x10_0000) as u32).unwrap(),
    }
}

/// A text: lengths cluster around small values and powers of two.
pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let n = match r.below(12) {
        0 => 0,
        1..=7 => r.size(max.min(16)),
        8..=9 => r.size(max),
        _ => {
            let p = 1usize << r.below(9);
            (p + r.below(3)).saturating_sub(1).min(max)
        }
    };
    let plain = r.chance(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(if plain { (b'a' + r.below(26) as u8) as char } else { gen_char(r) });
    }
    s
}

pub fn write_escape(r: &mut Rng, c: char, out: &mut String) {
    let short = match c {
        '"' => Some('"'),
        '\\' => Some('\\'),
        '/' => Some('/'),
        '\u{8}' => Some('b'),
        '\u{c}' => Some('f'),
        '\n' => Some('n'),
        '\r' => Some('r'),
        '\t' => Some('t'),
        _ => None,
    };
    match short {
        Some(s) if r.chance(3, 4) => {
            out.push('\\');
            out.push(s);
        }
        _ => {
            let mut units = [0u16; 2];
            for u in c.encode_utf16(&mut units) {
                out.push_str("\\u");
                for k in (0..4).rev() {
                    let d = char::from_digit(u32::from((*u >> (4 * k)) & 15), 16).unwrap();
                    out.push(if r.bool() { d.to_ascii_uppercase() } else { d });
                }
            }
        }
    }
}

pub fn write_string(r: &mut Rng, text: &str, esc: usize, out: &mut String) {
    out.push('"');
    for c in text.chars() {
        if c == '"' || c == '\\' || (c as u32) < 0x20 || r.below(100) < esc {
            write_escape(r, c, out);
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

/// Magnitudes near which integer handling changes.
pub fn gen_edge_int(r: &mut Rng) -> i128 {
    let p: i128 = match r.below(6) {
        0 => 1 << r.below(64),
        1 => 1i128 << *r.pick(&[7usize, 8, 15, 16, 31, 32, 53, 63, 64]),
        2 => 10i128.pow(r.below(20) as u32),
        3 => i128::from(u64::MAX) / 10,
        4 => i128::from(u64::MAX),
        _ => i128::from(i64::MAX),
    };
    let v = p + r.below(5) as i128 - 2;
    if r.bool() {
        -v
    } else {
        v
    }
}

pub fn gen_int(r: &mut Rng) -> i128 {
    match r.below(8) {
        0..=2 => r.below(11) as i128 - 5,
        3 => r.below(600) as i128 - 300,
        4 => i128::from(r.u64() as i64),
        5 => i128::from(r.u64() >> r.below(64)),
        _ => gen_edge_int(r),
    }
}

pub fn gen_number(r: &mut Rng, no_float: bool, out: &mut String) {
    if no_float {
        let v = gen_int(r).clamp(i128::from(i64::MIN), i128::from(u64::MAX));
        out.push_str(&v.to_string());
        return;
    }
    match r.below(10) {
        0..=4 => out.push_str(&gen_int(r).to_string()),
        5 => {
            let f = f64::from_bits(r.u64());
            if f.is_finite() {
                out.push_str(&format!("{f:e}"));
            } else {
                out.push_str("0.5");
            }
        }
        6 => {
            let f = f64::from_bits((r.u64() >> 12) | ((1023 + r.below(80) as u64 - 40) << 52));
            out.push_str(&format!("{f}"));
        }
        _ => gen_literal(r, out),
    }
}

fn digits(r: &mut Rng, n: usize, out: &mut String) {
    for _ in 0..n {
        out.push((b'0' + r.below(10) as u8) as char);
    }
}

/// A grammatical number literal, assembled digit by digit.
pub fn gen_literal(r: &mut Rng, out: &mut String) {
    if r.chance(1, 3) {
        out.push('-');
    }
    if r.chance(1, 3) {
        out.push('0');
    } else {
        out.push((b'1' + r.below(9) as u8) as char);
        let n = *r.pick(&[0, 1, 3, 15, 16, 17, 18, 19, 20, 21, 30, 60]);
        match r.below(3) {
            0 => digits(r, n, out),
            1 => out.extend(std::iter::repeat('0').take(n)),
            _ => out.extend(std::iter::repeat('9').take(n)),
        }
    }
    if r.chance(1, 2) {
        out.push('.');
        match r.below(4) {
            0 => {
                let n = r.below(30);
                out.extend(std::iter::repeat('0').take(n));
                digits(r, 1, out);
            }
            1 => {
                let n = r.range(1, 40);
                digits(r, n, out);
            }
            2 => out.push('0'),
            _ => {
                let n = r.range(1, 5);
                digits(r, n, out);
            }
        }
    }
    if r.chance(1, 2) {
        out.push(*r.pick(&['e', 'E']));
        match r.below(3) {
            0 => out.push('+'),
            1 => out.push('-'),
            _ => {}
        }
        match r.below(10) {
            0..=4 => {
                let n = r.below(20);
                out.push_str(&n.to_string());
            }
            5..=7 => {
                let n = r.range(270, 345);
                out.push_str(&n.to_string());
            }
            8 => {
                out.push_str("00");
                let n = r.below(400);
                out.push_str(&n.to_string());
            }
            _ => {
                let n = *r.pick(&[
                    616u64, 617, 700, 2147483647, 2147483648, 2147483649, 2147483339, 4294967296, 99999999999,
                ]);
                out.push_str(&n.to_string());
            }
        }
    }
}

const KEYS: &[&str] = &["a", "b", "x", "", "key", "é", "k\"q", "\\", "\n", "0", "a\u{0}", "😀", "ab", "aa"];

pub fn gen_value(r: &mut Rng, st: &Style, depth: usize, out: &mut String) {
    let kind = if depth >= st.max_depth || out.len() > st.max_len { r.below(5) } else { r.below(9) };
    match kind {
        0 => out.push_str("null"),
        1 => out.push_str(if r.bool() { "true" } else { "false" }),
        2 | 3 => gen_number(r, st.no_float, out),
        4 => {
            let t = gen_text(r, st.max_str);
            write_string(r, &t, st.esc, out);
        }
        5 | 6 => {
            out.push('[');
            ws(r, st, out);
            let n = r.size(st.max_width);
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                    ws(r, st, out);
                }
                gen_value(r, st, depth + 1, out);
                ws(r, st, out);
            }
            out.push(']');
        }
        _ => {
            out.push('{');
            ws(r, st, out);
            let n = r.size(st.max_width);
            let mut seen: Vec<String> = Vec::new();
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                    ws(r, st, out);
                }
                let k = if !seen.is_empty() && r.below(100) < st.dup {
                    r.pick(&seen).clone()
                } else if r.chance(1, 2) {
                    (*r.pick(KEYS)).to_owned()
                } else {
                    gen_text(r, st.max_str)
                };
                write_string(r, &k, st.esc, out);
                seen.push(k);
                ws(r, st, out);
                out.push(':');
                ws(r, st, out);
                gen_value(r, st, depth + 1, out);
                ws(r, st, out);
            }
            out.push('}');
        }
    }
}

/// A random valid document (it may contain a number literal that must be refused).
pub fn gen_doc(r: &mut Rng) -> String {
    let st = Style::random(r);
    let mut out = String::new();
    ws(r, &st, &mut out);
    gen_value(r, &st, 0, &mut out);
    ws(r, &st, &mut out);
    out
}

pub fn gen_doc_no_float(r: &mut Rng) -> String {
    let mut st = Style::random(r);
    st.no_float = true;
    let mut out = String::new();
    gen_value(r, &st, 0, &mut out);
    out
}

/// Document nested `depth` levels by a pattern of arrays and objects, with siblings before and
/// after the nested child every now and then. The opening and closing brackets match.
pub fn gen_deep(r: &mut Rng, depth: usize, siblings: usize) -> String {
    gen_deep_with(r, depth, siblings, false)
}

pub fn gen_deep_with(r: &mut Rng, depth: usize, siblings: usize, no_float: bool) -> String {
    let pattern: Vec<bool> = (0..r.range(1, 5)).map(|_| r.bool()).collect();
    let leaf = Style {
        ws: 0,
        esc: 5,
        max_width: 2,
        max_depth: 1,
        dup: 0,
        no_float,
        max_str: 5,
        max_len: usize::MAX,
    };
    let mut out = String::new();
    let mut close: Vec<String> = Vec::with_capacity(depth);
    for d in 0..depth {
        let obj = pattern[d % pattern.len()];
        let mut tail = String::new();
        out.push(if obj { '{' } else { '[' });
        if siblings > 0 && r.below(100) < siblings {
            if obj {
                out.push_str("\"p\":");
            }
            gen_value(r, &leaf, 0, &mut out);
            out.push(',');
        }
        if obj {
            out.push_str(*r.pick(&["\"x\":", "\"\":", "\"k\\n\":"]));
        }
        if siblings > 0 && r.below(100) < siblings {
            tail.push(',');
            if obj {
                tail.push_str("\"z\":");
            }
            gen_value(r, &leaf, 0, &mut tail);
        }
        tail.push(if obj { '}' } else { ']' });
        close.push(tail);
    }
    if depth == 0 || r.bool() {
        gen_value(r, &leaf, 1, &mut out);
    } else if pattern[(depth - 1) % pattern.len()] {
        out.push_str("[]");
    } else if out.ends_with('[') {
        // an empty innermost array
    } else {
        out.push_str("{}");
    }
    for t in close.iter().rev() {
        out.push_str(t);
    }
    out
}

const TOKENS: &[&str] = &[
    "[", "]", "{", "}", ",", ":", "null", "true", "false", "0", "-1", "1.5", "1e9", "\"a\"", "\"\"", " ", "\n", "-",
    "\"", "\\", "nul", "tru", "falsee", "01", "1.", ".5", "1e", "+1", "\u{0}", "\u{b}", "\u{a0}", "\u{feff}", "//", "'a'",
    "NaN", "Infinity", "\\u12", "\"\\ud800\"", "\u{c}", "\u{2028}", "e", "E", ".", "0x1", "[]", "{}", ",,", "1 2",
];

/// Corrupt a document: one to three edits at character or token level.
pub fn mutate(r: &mut Rng, doc: &str) -> String {
    let mut s: Vec<char> = doc.chars().collect();
    let edits = *r.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..edits {
        let n = s.len();
        let at = if n == 0 { 0 } else { r.below(n + 1) };
        match r.below(9) {
            0 if n > 0 => {
                s.remove(at.min(n - 1));
            }
            1 => {
                for (i, c) in r.pick(TOKENS).chars().enumerate() {
                    s.insert(at + i, c);
                }
            }
            2 if n > 0 => s.truncate(at),
            3 if n > 0 => {
                let i = at.min(n - 1);
                s[i] = gen_char(r);
            }
            4 if n > 1 => {
                let i = at.min(n - 2);
                s.swap(i, i + 1);
            }
            5 if n > 0 => {
                let i = r.below(n);
                let j = (i + r.range(1, 6)).min(n);
                let part: Vec<char> = s[i..j].to_vec();
                for (k, c) in part.into_iter().enumerate() {
                    s.insert(at + k, c);
                }
            }
            6 if n > 0 => {
                let i = r.below(n);
                let j = (i + r.range(1, 8)).min(n);
                s.drain(i..j);
            }
            7 if n > 0 => {
                // change one structural character into another
                let places: Vec<usize> = (0..n).filter(|&i| "[]{},:\"".contains(s[i])).collect();
                if !places.is_empty() {
                    let i = *r.pick(&places);
                    s[i] = *r.pick(&['[', ']', '{', '}', ',', ':', '"', ' ']);
                }
            }
            _ => s.insert(at, gen_char(r)),
        }
    }
    s.into_iter().collect()
}

/// Not even close to a document.
pub fn garbage(r: &mut Rng) -> String {
    let n = r.size(60);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(2, 3) {
            s.push_str(*r.pick(TOKENS));
        } else {
            s.push(gen_char(r));
        }
    }
    s
}

/// Texts with a long stretch of characters of one width (or mixed), whose length in bytes lies
/// around a power of two, behind a short start and before something that may need an escape.
/// `f(index, text)`; building is left to the caller through the closure, for sharding.
pub fn long_texts(max_pow: u32, mut want: impl FnMut(usize) -> bool, mut f: impl FnMut(&str)) {
    let mut index = 0;
    for p in 3..=max_pow {
        for d in -3i64..=3 {
            for unit in ["x", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}\u{20ac}\u{1f600}"] {
                for start in ["", "a", "ab", "abc", "\u{e9}", "\n", "\\\u{20ac}"] {
                    for end in ["", "\n", "\"", "\u{1}z", "\u{e9}"] {
                        index += 1;
                        if !want(index) {
                            continue;
                        }
                        let len = ((1i64 << p) + d) as usize;
                        let mut t = String::with_capacity(len + 16);
                        t.push_str(start);
                        // the stretch has `len` bytes, or a few less
                        t.push_str(&unit.repeat(len / unit.len()));
                        t.push_str(end);
                        f(&t);
                    }
                }
            }
        }
    }
}
