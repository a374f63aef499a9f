//! C04: integers are exact and range-checked, floats accurate and finite.

use crate::ctx::{guarded, Ctx, Ended};
use crate::gen;
use crate::refjson::{self, float_ok, ulps, Class, Ev, Num, Verdict};
use miniserde::json::{self, Number, Value};
use miniserde::Deserialize;
use std::fmt::Write as _;

/// One field per target type, all fed the same literal.
#[derive(Deserialize)]
struct Cell<T> {
    x: T,
}

fn get<T: Deserialize>(cx: &mut Ctx, lit: &str, how: usize) -> Option<Option<T>> {
    let r = match how {
        0 => guarded(|| json::from_str::<T>(lit).ok()),
        1 => guarded(|| json::from_str::<[T; 1]>(&format!("[{lit}]")).ok().map(|[x]| x)),
        2 => guarded(|| json::from_str::<Cell<T>>(&format!("{{\"x\":{lit}}}")).ok().map(|c| c.x)),
        3 => guarded(|| json::from_str::<T>(&format!(" {lit}\n")).ok()),
        4 => guarded(|| json::from_str::<Vec<T>>(&format!("[{lit},{lit}]")).ok().and_then(|mut v| v.pop())),
        5 => guarded(|| json::from_str::<Cell<Option<T>>>(&format!("{{\"a\":1,\"x\":{lit} ,\"b\":2}}")).ok().and_then(|c| c.x)),
        _ => guarded(|| json::from_str::<Box<T>>(lit).ok().map(|b| *b)),
    };
    match r {
        Ended::Returned(r) => Some(r),
        Ended::Injected => None,
        Ended::Panicked(m) => {
            cx.violation("panic", m);
            None
        }
    }
}

macro_rules! ints {
    ($cx:ident, $lit:ident, $num:ident, $how:ident, $($t:ty)*) => {
        $(
            let unsigned = <$t>::MIN == 0;
            let want: Option<$t> = match $num.class {
                Class::U(n) => <$t>::try_from(n).ok(),
                Class::I(n) => <$t>::try_from(n).ok(),
                Class::F(_) => None,
            };
            // -0: a signed type reads 0; an unsigned type may read 0 or refuse.
            let free = unsigned && $num.class == Class::I(0);
            if let Some(got) = get::<$t>($cx, $lit, $how) {
                if got != want && !(free && got.is_none()) {
                    $cx.violation("wrong integer", format!("type {}, context {}: wanted {want:?}, got {got:?}", stringify!($t), $how));
                }
                $cx.seen(if got.is_some() { "integers accepted" } else { "integers refused" }, 1);
            }
        )*
    };
}

fn literal(cx: &mut Ctx, lit: &str, deep: bool) {
    let out = refjson::parse(lit);
    let num: Option<Num> = match out.events.first() {
        Some(Ev::Num(n)) if out.events.len() == 1 => Some(n.clone()),
        _ => None,
    };
    // Literals the reader refuses: too large, or not a number at all.
    let Some(num) = num.filter(|_| out.verdict != Verdict::Reject) else {
        if out.why == "number too large" {
            cx.heap_cap(lit.len());
            for (t, got) in [
                ("f64", get::<f64>(cx, lit, 0).flatten().is_some()),
                ("f32", get::<f32>(cx, lit, 0).flatten().is_some()),
                ("Number", get::<Number>(cx, lit, 2).flatten().is_some()),
                ("Value", get::<Value>(cx, lit, 1).flatten().is_some()),
                ("u64", get::<u64>(cx, lit, 0).flatten().is_some()),
                ("i64", get::<i64>(cx, lit, 4).flatten().is_some()),
            ] {
                if got {
                    cx.violation("number too large for f64 accepted", format!("type {t}"));
                }
            }
            cx.seen("too large, refused", 1);
        }
        return;
    };
    cx.heap_cap(lit.len());
    let hows: &[usize] = if deep { &[0, 1, 2, 3, 4, 5, 6] } else { &[0] };
    let extra = [cx.rng.below(7)];
    for &how in if deep { hows } else if cx.rng.chance(1, 3) { &extra[..] } else { hows } {
        ints!(cx, lit, num, how, i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
        let Some(f) = get::<f64>(cx, lit, how) else { return };
        let ok = match (&num.class, f) {
            (Class::U(n), Some(f)) => f.to_bits() == (*n as f64).to_bits(),
            (Class::I(n), Some(f)) => f.to_bits() == (*n as f64).to_bits(),
            (Class::F(x), Some(f)) => {
                if !num.near_max {
                    cx.max("max ulps off", ulps(*x, f));
                }
                cx.seen(if f == 0.0 { "floats reading as zero" } else { "floats compared" }, 1);
                float_ok(*x, num.near_max, f)
            }
            (Class::F(_), None) => num.near_max,
            (_, None) => false,
        };
        if !ok {
            cx.violation("wrong f64", format!("context {how}: literal is {:?}, got {f:?}", num.class));
        }
        let Some(g) = get::<f32>(cx, lit, how) else { return };
        let want = match &num.class {
            Class::U(n) => Some(*n as f32),
            Class::I(n) => Some(*n as f32),
            Class::F(_) => f.map(|f| f as f32),
        };
        if want.map(f32::to_bits) != g.map(f32::to_bits) {
            cx.violation("wrong f32", format!("context {how}: wanted {want:?}, got {g:?}"));
        }
        let Some(n) = get::<Number>(cx, lit, how) else { return };
        let v = get::<Value>(cx, lit, how).flatten();
        let v = v.map(|v| if let Value::Number(n) = v { Some(n) } else { None });
        for (t, n) in [("Number", n), ("Value", v.map_or(None, |v| v))] {
            let ok = match (&num.class, &n) {
                (Class::U(a), Some(Number::U64(b))) => a == b,
                (Class::I(a), Some(Number::I64(b))) => a == b,
                (Class::F(_), Some(Number::F64(b))) => f.map(f64::to_bits) == Some(b.to_bits()) && b.is_finite(),
                (Class::F(_), None) => num.near_max && f.is_none(),
                _ => false,
            };
            if !ok {
                cx.violation("wrong number", format!("{t}, context {how}: literal is {:?}, got {n:?}", num.class));
            }
        }
    }
}

fn one(cx: &mut Ctx, label: &str, lit: &str, deep: bool) {
    cx.enumerated(label, lit);
    literal(cx, lit, deep);
}

fn integers(cx: &mut Ctx) {
    let top = cx.n(20, 70_000, 1_000_000) as i64;
    for v in -top..=top {
        if cx.mine((v + top) as usize / 16) {
            let lit = v.to_string();
            let deep = v.abs() < 300 || (v.abs() - 32768).abs() < 5 || (v.abs() - 65536).abs() < 5;
            one(cx, "small integer", &lit, deep);
            if cx.stop() {
                return;
            }
        }
    }
    // around every power of two and of ten, and around the limits divided by ten
    let mut centres: Vec<i128> = (0..70).map(|p| 1i128 << p).collect();
    centres.extend((0..22).map(|p| 10i128.pow(p)));
    for m in [i64::MAX as i128, u64::MAX as i128, i32::MAX as i128, u32::MAX as i128] {
        for k in 0..4 {
            centres.push(m / 10i128.pow(k));
            centres.push(m * 10i128.pow(k));
        }
    }
    let w = cx.n(1, 60, 3000) as i128;
    for (i, c) in centres.iter().enumerate() {
        if !cx.mine(i) || cx.tier == crate::ctx::Tier::Mini && i % 20 != 7 {
            continue;
        }
        for d in -w..=w {
            let v = c + d;
            for lit in [v.to_string(), (-v).to_string()] {
                one(cx, "integer near an edge", &lit, d.abs() < 3);
                if d.abs() < 12 {
                    for suffix in [".0", "e0", "E+0", ".5", "e1", "e-1", "0", "9", ".00000000000000000000000", "e00000000000000000000"] {
                        one(cx, "integer with a tail", &format!("{lit}{suffix}"), false);
                    }
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
    // integers next to the middle between two neighbouring floats of either width: rounding twice, or the wrong way, shows
    for bits in 25..=64u32 {
        if !cx.mine(bits as usize) {
            continue;
        }
        for _ in 0..cx.n(2, 400, 20_000) {
            let width = if bits > 54 && cx.rng.chance(1, 2) { 53 } else { 24 };
            if bits <= width {
                continue;
            }
            let m = 1u64 << (width - 1) | cx.rng.u64() & ((1 << (width - 1)) - 1);
            let half = ((m as u128) << 1 | 1) << (bits - width - 1);
            let fine = if bits > 54 { 1u128 << (bits - 54) } else { 1 };
            for d in [0, 1, 2, fine.max(2) - 1, fine, fine + 1, 3 * fine] {
                for v in [half + d, half - d.min(half)] {
                    let Ok(v) = u64::try_from(v) else { continue };
                    one(cx, "integer between two floats", &v.to_string(), false);
                    if v <= 1 << 63 {
                        one(cx, "integer between two floats", &format!("-{v}"), false);
                    }
                }
            }
        }
        if cx.stop() {
            return;
        }
    }
    // 20- and 21-digit literals digit by digit around u64::MAX
    for (i, base) in ["18446744073709551615", "9223372036854775808", "9223372036854775807"].iter().enumerate() {
        for at in 0..base.len() {
            for d in 0..10 {
                if !cx.mine(i + at * 10 + d) {
                    continue;
                }
                let mut s: Vec<u8> = base.bytes().collect();
                s[at] = b'0' + d as u8;
                if s[0] == b'0' {
                    continue;
                }
                let s = String::from_utf8(s).unwrap();
                one(cx, "limit with one digit changed", &s, true);
                one(cx, "limit with one digit changed", &format!("-{s}"), true);
                one(cx, "limit with one digit changed", &format!("{s}{d}"), false);
                one(cx, "limit with one digit changed", &format!("-{s}{d}"), false);
            }
        }
    }
}

fn floats(cx: &mut Ctx) {
    let sig = [
        "1", "2", "3", "5", "7", "9", "1.5", "0.1", "0.3", "1.7976931348623157", "1.7976931348623150", "1.79", "1.8", "2.2250738585072014", "4.9",
        "2.47", "9007199254740993", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1234567890123456789012345",
        "0.0000000001", "0", "0.0", "123.456", "8.98846567431158", "1.00000000000000000000001",
        "0.999999999999999999999999999", "72057594037927945", "3.0000000000000000000000000000001", "6.02214076", "5e-1".split('e').next().unwrap(),
    ];
    let span = cx.n(12, 700, 1500) as i64;
    for e in -span..=span {
        if !cx.mine((e + span) as usize) {
            continue;
        }
        for (k, s) in sig.iter().enumerate() {
            let sign = if (k as i64 + e) % 3 == 0 { "-" } else { "" };
            let esign = if e >= 0 && k % 2 == 0 { "+" } else { "" };
            one(cx, "significand x exponent", &format!("{sign}{s}e{esign}{e}"), false);
        }
        if e.abs() <= 420 {
            // the same magnitude written out in digits
            let z = "0".repeat(e.unsigned_abs() as usize);
            for d in ["1", "12345678901234567", "99999999999999999999999", "18446744073709551616"] {
                if e >= 0 {
                    one(cx, "written out", &format!("{d}{z}"), false);
                    one(cx, "written out", &format!("-{d}{z}.25"), false);
                    one(cx, "written out and undone", &format!("{d}{z}e-{e}"), false);
                    one(cx, "written out and undone", &format!("{d}{z}.0000000000000000000001E-{}", e + 300), false);
                } else {
                    one(cx, "written out", &format!("0.{z}{d}"), false);
                    one(cx, "written out and undone", &format!("0.{z}{d}e{}", -e), false);
                    one(cx, "written out and undone", &format!("-0.{z}{d}e{}", -e + 300), false);
                }
            }
        }
        if cx.done() {
            return;
        }
    }
    if cx.mine(3) {
        for e in [
            "2147483646", "2147483647", "2147483648", "2147483649", "2147483650", "4294967295", "4294967296", "9223372036854775807",
            "9223372036854775808", "18446744073709551616", "99999999999999999999999999999", "2147483339", "2147483340", "2147483341",
            "21474836470", "214748364", "0000000000000000000000000000000001", "000000000000002147483648", "-0", "+0", "+00", "-00001",
        ] {
            for s in ["0", "-0", "1", "-1", "0.0", "-0.00", "0.001", "123456789012345678901234567890", "0.00000000000000000000000000000000000001"] {
                for sign in ["", "-", "+"] {
                    if e.starts_with(['-', '+']) && !sign.is_empty() {
                        continue;
                    }
                    let lit = format!("{s}e{sign}{e}");
                    one(cx, "exponent at the limit", &lit, true);
                }
            }
        }
    }
    // very long literals
    for (i, n) in [100usize, 308, 309, 310, 400, 700, 1000, 5000, cx.n(6000, 100_000, 3_000_000)].iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        for lit in [
            "9".repeat(*n),
            format!("1{}", "0".repeat(*n)),
            format!("0.{}1", "0".repeat(*n)),
            format!("1{}e-{n}", "0".repeat(*n)),
            format!("0.{}1e{}", "0".repeat(*n), n + 1),
            format!("3.{}", "3".repeat(*n)),
            format!("1.{}1", "0".repeat(*n)),
            format!("0.{}", "9".repeat(*n)),
            format!("{}.{}e-{n}", "7".repeat(*n), "7".repeat(*n)),
            format!("1e{}5", "0".repeat(*n)),
            format!("1e-{}5", "0".repeat(*n)),
            format!("-{}", "8".repeat(*n)),
            format!("0e{}", "9".repeat(*n)),
            format!("1e-{}", "9".repeat(*n)),
            format!("1e{}", "9".repeat(*n)),
        ] {
            one(cx, "long literal", &lit, *n < 1000);
        }
    }
}

pub fn run(cx: &mut Ctx) {
    integers(cx);
    floats(cx);
    let rounds = cx.share(200, 16_000_000, 60_000_000);
    let mut lit = String::new();
    for i in 0..rounds {
        if i % 64 == 0 && cx.done() {
            break;
        }
        lit.clear();
        match i % 5 {
            0 => gen::gen_literal(&mut cx.rng, &mut lit),
            1 => gen::gen_number(&mut cx.rng, false, &mut lit),
            2 => {
                // a double written with more or fewer digits than needed
                let f = f64::from_bits(cx.rng.u64());
                if !f.is_finite() {
                    continue;
                }
                let p = *cx.rng.pick(&[0, 3, 14, 15, 16, 17, 18, 19, 20, 21, 25]);
                let _ = write!(lit, "{f:.p$e}");
            }
            3 => {
                // point somewhere in a digit string
                let n = cx.rng.range(1, 45);
                let at = cx.rng.range(1, n);
                for k in 0..n {
                    if k == at {
                        lit.push('.');
                    }
                    lit.push((b'0' + if k == 0 { 1 + cx.rng.below(9) } else { cx.rng.below(10) } as u8) as char);
                }
                if cx.rng.chance(1, 3) {
                    let e = cx.rng.range(0, 640) as i64 - 320;
                    let _ = write!(lit, "e{e}");
                }
            }
            _ => {
                // subnormal range
                let f = f64::from_bits(cx.rng.u64() >> cx.rng.range(11, 63));
                let p = *cx.rng.pick(&[0, 2, 16, 17, 20]);
                let _ = write!(lit, "{f:.p$e}");
            }
        }
        let l = std::mem::take(&mut lit);
        cx.case("literal", &l);
        literal(cx, &l, i % 50 == 0);
        lit = l;
    }
}
