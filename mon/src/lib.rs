#![allow(mismatched_lifetime_syntaxes)]
#![allow(clippy::all)]

pub mod alloc;
pub mod ctx;
pub mod gen;
pub mod refjson;
pub mod rng;
pub mod value;

#[cfg(feature = "all")]
pub mod c01;
#[cfg(feature = "all")]
pub mod c02;
#[cfg(feature = "all")]
pub mod c03;
#[cfg(feature = "all")]
pub mod c04;
#[cfg(feature = "all")]
pub mod c05;
#[cfg(feature = "all")]
pub mod c07;
#[cfg(feature = "all")]
pub mod c09;
#[cfg(feature = "all")]
pub mod c10;
#[cfg(feature = "all")]
pub mod c11;
#[cfg(feature = "all")]
pub mod c12;
#[cfg(feature = "all")]
pub mod c13;
#[cfg(feature = "all")]
pub mod c14;
#[cfg(feature = "all")]
pub mod c15;
#[cfg(feature = "all")]
pub mod c16;
#[cfg(feature = "all")]
pub mod c18;
pub mod c17;
pub mod model;
pub mod zoo;

#[cfg(not(feature = "all"))]
pub fn run(cx: &mut ctx::Ctx, args: &[String]) {
    assert_eq!(cx.check, "C17");
    c17::run(cx, args);
}

#[cfg(feature = "all")]
pub fn run(cx: &mut ctx::Ctx, args: &[String]) {
    match cx.check.as_str() {
        "C01" => c01::run(cx),
        "C02" => c02::run(cx),
        "C03" => c03::run(cx),
        "C04" => c04::run(cx),
        "C05" => c05::run(cx),
        "C06" => c07::round_trip(cx),
        "C07" => c07::run(cx),
        "C12" => c12::run(cx),
        "C13" => c13::run(cx),
        "C16" => c16::run(cx),
        "C18" => c18::run(cx),
        "C14" => c14::run(cx, args),
        "C17" => c17::run(cx, args),
        "C15" => c15::run(cx, args),
        "C10" => c10::run(cx, args),
        "C11" => c11::run(cx),
        "C09" => c09::run(cx),
        other => panic!("no such check: {other}"),
    }
}
