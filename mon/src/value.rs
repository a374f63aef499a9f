//! json::Value against the reference tree.

use crate::refjson::{float_ok, Class, Ev};
use miniserde::json::{Array, Number, Object, Value};

/// What a Value actually holds, as canonical events (iterative, through the public API).
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    ArrOpen,
    ArrClose,
    ObjOpen,
    Key(String),
    ObjClose,
}

pub fn number(n: &Number) -> Got {
    match n {
        Number::U64(n) => Got::U(*n),
        Number::I64(n) => Got::I(*n),
        Number::F64(n) => Got::F(*n),
    }
}

enum Job<'a> {
    Value(&'a Value),
    Key(&'a str),
    Close(bool),
}

fn drain(mut jobs: Vec<Job>, out: &mut Vec<Got>) {
    while let Some(j) = jobs.pop() {
        match j {
            Job::Key(k) => out.push(Got::Key(k.to_owned())),
            Job::Close(obj) => out.push(if obj { Got::ObjClose } else { Got::ArrClose }),
            Job::Value(v) => match v {
                Value::Null => out.push(Got::Null),
                Value::Bool(b) => out.push(Got::Bool(*b)),
                Value::Number(n) => out.push(number(n)),
                Value::String(s) => out.push(Got::Str(s.clone())),
                Value::Array(a) => open_array(a, &mut jobs, out),
                Value::Object(o) => open_object(o, &mut jobs, out),
            },
        }
    }
}

fn open_array<'a>(a: &'a Array, jobs: &mut Vec<Job<'a>>, out: &mut Vec<Got>) {
    out.push(Got::ArrOpen);
    jobs.push(Job::Close(false));
    let from = jobs.len();
    for v in a {
        jobs.push(Job::Value(v));
    }
    jobs[from..].reverse();
}

fn open_object<'a>(o: &'a Object, jobs: &mut Vec<Job<'a>>, out: &mut Vec<Got>) {
    out.push(Got::ObjOpen);
    jobs.push(Job::Close(true));
    let from = jobs.len();
    for (k, v) in o {
        jobs.push(Job::Key(k));
        jobs.push(Job::Value(v));
    }
    jobs[from..].reverse();
}

pub fn walk(v: &Value) -> Vec<Got> {
    let mut out = Vec::new();
    drain(vec![Job::Value(v)], &mut out);
    out
}

pub fn walk_array(a: &Array) -> Vec<Got> {
    let mut out = Vec::new();
    let mut jobs = Vec::new();
    open_array(a, &mut jobs, &mut out);
    drain(jobs, &mut out);
    out
}

pub fn walk_object(o: &Object) -> Vec<Got> {
    let mut out = Vec::new();
    let mut jobs = Vec::new();
    open_object(o, &mut jobs, &mut out);
    drain(jobs, &mut out);
    out
}

pub fn agree(want: &Ev, got: &Got) -> bool {
    match (want, got) {
        (Ev::Null, Got::Null)
        | (Ev::ArrOpen, Got::ArrOpen)
        | (Ev::ArrClose, Got::ArrClose)
        | (Ev::ObjOpen, Got::ObjOpen)
        | (Ev::ObjClose, Got::ObjClose) => true,
        (Ev::Bool(a), Got::Bool(b)) => a == b,
        (Ev::Str(a), Got::Str(b)) | (Ev::Key(a), Got::Key(b)) => a == b && std::str::from_utf8(b.as_bytes()).is_ok(),
        (Ev::Num(n), got) => match (&n.class, got) {
            (Class::U(a), Got::U(b)) => a == b,
            (Class::I(a), Got::I(b)) => a == b,
            (Class::F(a), Got::F(b)) => float_ok(*a, n.near_max, *b),
            _ => false,
        },
        _ => false,
    }
}

/// First difference, if any.
pub fn differ(want: &[Ev], got: &[Got]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(w), Some(g)) if agree(w, g) => {}
            (w, g) => return Some(format!("at item {i}: document says {w:?}, result holds {g:?}")),
        }
    }
    None
}
