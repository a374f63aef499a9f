#![allow(mismatched_lifetime_syntaxes)]

use mon::ctx::{self, Ctx, Tier};

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: mon::alloc::Counting = mon::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let check = args.get(1).expect("check id").clone();
    let mut tier = Tier::Quick;
    let mut seed = 1;
    let mut shard = (0, 1);
    let mut secs = 60.0;
    let mut out = None;
    let mut hashes = None;
    let mut rest = Vec::new();
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--tier" => {
                tier = match v.as_str() {
                    "mini" => Tier::Mini,
                    "quick" => Tier::Quick,
                    _ => Tier::Thorough,
                }
            }
            "--seed" => seed = v.parse().unwrap(),
            "--shard" => {
                let (a, b) = v.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--secs" => secs = v.parse().unwrap(),
            "--out" => out = Some(v),
            "--hashes" => hashes = Some(v),
            "--cursor" => ctx::cursor_open(&v),
            _ => {
                rest.push(args[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    if check == "merge" {
        // count distinct hashes over the shards' files
        let mut all: Vec<u64> = Vec::new();
        for f in &rest {
            let b = std::fs::read(f).unwrap();
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        println!("{}", all.len());
        return;
    }
    ctx::install_hook();
    let mut cx = Ctx::new(&check, tier, seed, shard.0, shard.1, secs);
    // The monitors' own recursion gets a large stack; the code under test is measured elsewhere.
    let cx = std::thread::Builder::new()
        .stack_size(if tier == Tier::Mini { 16 << 20 } else { 1 << 30 })
        .spawn(move || {
            mon::run(&mut cx, &rest);
            cx
        })
        .unwrap()
        .join();
    let Ok(cx) = cx else {
        eprintln!("MONITOR: internal error");
        std::process::exit(3);
    };
    let report = cx.report();
    if let Some(h) = hashes {
        let mut b = Vec::with_capacity(cx.distinct.len() * 8);
        for x in &cx.distinct {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(h, b).unwrap();
    }
    match out {
        Some(p) => std::fs::write(p, report).unwrap(),
        None => println!("{report}"),
    }
    std::process::exit(i32::from(!cx.violations.is_empty()));
}
