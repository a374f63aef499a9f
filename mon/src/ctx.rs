//! Run-time support: case bookkeeping, guarded calls, crash cursor, CPU and heap budgets, report.

use crate::alloc;
use crate::rng::{self, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    /// Interpreted by Miri: tiny workloads.
    Mini,
    Quick,
    Thorough,
}

pub struct Violation {
    pub what: String,
    pub detail: String,
    pub label: String,
    pub input: String,
}

pub struct Ctx {
    pub check: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub rng: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub distinct_enum: u64,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub obs: BTreeMap<String, u64>,
    pub start: Instant,
    pub secs: f64,
    label: String,
    input: String,
    sampler: u64,
    pub max_violations: usize,
}

// ---- crash cursor -----------------------------------------------------------------------------

const CUR: usize = 1 << 20;
static CURSOR: AtomicU64 = AtomicU64::new(0);
static SEQ: AtomicU64 = AtomicU64::new(0);
static BUDGET_MS: AtomicU64 = AtomicU64::new(30_000);

unsafe extern "C" {
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

pub fn cursor_open(path: &str) {
    let p = format!("{path}\0");
    unsafe {
        let fd = open(p.as_ptr().cast(), 0o102, 0o644); // O_RDWR | O_CREAT
        assert!(fd >= 0, "cursor file");
        assert_eq!(ftruncate(fd, CUR as i64), 0);
        let m = mmap(std::ptr::null_mut(), CUR, 3, 1, fd, 0);
        assert!(m as isize != -1);
        CURSOR.store(m as u64, Ordering::SeqCst);
    }
    std::thread::spawn(watch);
}

/// Written so that the driver can read, after a crash: state byte, then "label\0input".
fn cursor_write(label: &str, input: &[u8]) {
    let base = CURSOR.load(Ordering::Relaxed) as usize as *mut u8;
    if base.is_null() {
        return;
    }
    let l = label.len().min(1000);
    let n = input.len().min(CUR - 2048);
    unsafe {
        base.add(1).cast::<u32>().write_unaligned(l as u32);
        base.add(5).cast::<u32>().write_unaligned(n as u32);
        base.add(9).cast::<u32>().write_unaligned(input.len() as u32);
        std::ptr::copy_nonoverlapping(label.as_ptr(), base.add(16), l);
        std::ptr::copy_nonoverlapping(input.as_ptr(), base.add(16 + l), n);
    }
}

static HOLD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// While threads run, a crash is inside a call wherever the others are.
pub fn cursor_hold(on: bool) {
    HOLD.store(on, Ordering::SeqCst);
    cursor_state(u8::from(on));
}

pub fn cursor_state(s: u8) {
    let s = s | u8::from(HOLD.load(Ordering::Relaxed));
    let base = CURSOR.load(Ordering::Relaxed) as usize as *mut u8;
    if !base.is_null() {
        unsafe { (*base.cast::<std::sync::atomic::AtomicU8>()).store(s, Ordering::Relaxed) }
    }
}

fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) }; // CLOCK_PROCESS_CPUTIME_ID
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

/// A call that burns more CPU time than its budget (30 s unless the check says otherwise) ends
/// the process with code 97. CPU time, not wall time: a loaded machine does not matter.
fn watch() {
    let mut last = u64::MAX;
    let mut since = 0;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let seq = SEQ.load(Ordering::Relaxed);
        let cpu = cpu_ms();
        if seq != last {
            last = seq;
            since = cpu;
        } else if cpu - since > BUDGET_MS.load(Ordering::Relaxed) {
            let base = CURSOR.load(Ordering::Relaxed) as usize as *mut u8;
            if unsafe { base.read_volatile() } == 1 {
                eprintln!("MONITOR: CPU budget of one call exceeded");
                unsafe { _exit(97) }
            }
            since = cpu;
        }
    }
}

pub fn release_cap() {
    alloc::set_limit(None);
}

/// A new call starts: its budget too.
pub fn tick() {
    SEQ.fetch_add(1, Ordering::Relaxed);
}

pub fn set_cpu_budget_ms(ms: u64) {
    BUDGET_MS.store(ms, Ordering::Relaxed);
}

// ---- panics -----------------------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Payload of panics injected on purpose.
pub struct Injected;

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        if IN.try_with(std::cell::Cell::get) == Ok(0) {
            eprintln!("MONITOR: panic outside the code under test: {info}");
        }
        let _ = PANIC.try_with(|p| {
            *p.borrow_mut() = info.to_string();
        });
    }));
}

pub enum Ended<R> {
    Returned(R),
    /// An injected panic arrived at the caller.
    Injected,
    Panicked(String),
}

/// Run the code under test: panics are caught, crashes in here are attributed to it.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Ended<R> {
    SEQ.fetch_add(1, Ordering::Relaxed);
    cursor_state(1);
    IN.with(|d| d.set(d.get() + 1));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN.with(|d| d.set(d.get() - 1));
    cursor_state(0);
    alloc::set_limit(None);
    match r {
        Ok(r) => Ended::Returned(r),
        Err(p) if p.is::<Injected>() => {
            drop(p);
            Ended::Injected
        }
        Err(p) => {
            drop(p);
            Ended::Panicked(PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
        }
    }
}

// ---- Ctx --------------------------------------------------------------------------------------

pub fn show(s: &str) -> String {
    let mut out = String::new();
    for (n, c) in s.chars().enumerate() {
        if n >= 300 {
            let _ = write!(out, "... ({} bytes)", s.len());
            break;
        }
        if c.is_control() || (!c.is_ascii() && c.is_whitespace()) {
            let _ = write!(out, "{}", c.escape_unicode());
        } else {
            out.push(c);
        }
    }
    out
}

pub fn jstr(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

impl Ctx {
    pub fn new(check: &str, tier: Tier, seed: u64, shard: usize, nshards: usize, secs: f64) -> Ctx {
        let s = rng::hash(format!("{check}/{seed}/{shard}").as_bytes());
        Ctx {
            check: check.to_owned(),
            tier,
            seed,
            shard,
            nshards,
            rng: Rng::new(s),
            evals: 0,
            distinct: HashSet::new(),
            distinct_enum: 0,
            violations: Vec::new(),
            samples: Vec::new(),
            obs: BTreeMap::new(),
            start: Instant::now(),
            secs,
            label: String::new(),
            input: String::new(),
            sampler: 1,
            max_violations: 5,
        }
    }

    /// Number for this tier.
    pub fn n(&self, mini: usize, quick: usize, thorough: usize) -> usize {
        match self.tier {
            Tier::Mini => mini,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    /// Per-shard share of a total number of random cases.
    pub fn share(&self, mini: usize, quick: usize, thorough: usize) -> usize {
        self.n(mini, quick, thorough).div_ceil(self.nshards)
    }

    pub fn mine(&self, index: usize) -> bool {
        index % self.nshards == self.shard
    }

    /// Out of time (only ends generation; never a verdict), or enough violations seen.
    pub fn done(&self) -> bool {
        self.violations.len() >= self.max_violations || self.start.elapsed().as_secs_f64() > self.secs
    }

    pub fn stop(&self) -> bool {
        self.violations.len() >= self.max_violations
    }

    /// Start a case that was drawn at random: counted as distinct by content.
    pub fn case(&mut self, label: &str, input: &str) {
        self.note(label, input);
        if cfg!(miri) {
            self.distinct.insert(self.evals);
        } else if self.distinct.len() < 6_000_000 {
            let h = rng::hash(input.as_bytes()) ^ rng::hash(label.as_bytes()).rotate_left(1);
            self.distinct.insert(h);
        }
    }

    /// Start a case of an enumeration, in which every case occurs once.
    pub fn enumerated(&mut self, label: &str, input: &str) {
        self.note(label, input);
        self.distinct_enum += 1;
    }

    pub fn note(&mut self, label: &str, input: &str) {
        self.evals += 1;
        if self.label != label {
            self.label.clear();
            self.label.push_str(label);
        }
        self.input.clear();
        self.input.push_str(input);
        cursor_write(label, input.as_bytes());
        if self.evals >= self.sampler && self.samples.len() < 8 {
            self.sampler = self.sampler * 7 + 3;
            self.samples.push(format!("{label}: {}", show(input)));
        }
    }

    pub fn seen(&mut self, key: &str, n: u64) {
        if let Some(x) = self.obs.get_mut(key) {
            *x += n;
        } else {
            self.obs.insert(key.to_owned(), n);
        }
    }

    pub fn max(&mut self, key: &str, n: u64) {
        let x = self.obs.entry(key.to_owned()).or_insert(0);
        *x = (*x).max(n);
    }

    pub fn violation(&mut self, what: &str, detail: String) {
        if self.violations.len() < self.max_violations {
            self.violations.push(Violation {
                what: what.to_owned(),
                detail,
                label: self.label.clone(),
                input: self.input.clone(),
            });
        }
    }

    /// Run the code under test; a panic is a violation of whatever is being checked.
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(f) {
            Ended::Returned(r) => Some(r),
            Ended::Injected => {
                self.violation("unexpected injected panic", String::new());
                None
            }
            Ended::Panicked(m) => {
                self.violation("panic", m);
                None
            }
        }
    }

    /// Heap cap for calls on an input of this size.
    pub fn heap_cap(&self, input_len: usize) {
        alloc::set_limit(Some((256 << 20) + 4096 * input_len as i64));
    }

    pub fn report(&self) -> String {
        let mut o = String::from("{");
        let _ = write!(
            o,
            "\"check\":{},\"shard\":{},\"evaluations\":{},\"distinct_enum\":{},\"distinct_hashed\":{},\"secs\":{:.3},",
            jstr(&self.check),
            self.shard,
            self.evals,
            self.distinct_enum,
            self.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        o.push_str("\"obs\":{");
        for (i, (k, v)) in self.obs.iter().enumerate() {
            let _ = write!(o, "{}{}:{v}", if i > 0 { "," } else { "" }, jstr(k));
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, jstr(s));
        }
        o.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"what\":{},\"detail\":{},\"label\":{},\"input\":{},\"input_len\":{}}}",
                if i > 0 { "," } else { "" },
                jstr(&v.what),
                jstr(&v.detail.chars().take(4000).collect::<String>()),
                jstr(&v.label),
                jstr(&v.input.chars().take(20_000).collect::<String>()),
                v.input.len()
            );
        }
        o.push_str("]}");
        o
    }
}
