//! Replay stage: the contracts of each property as executable oracles, run against the real crate in /repo.
//! It finds a failing input for a broken contract, it never counts as proof.
#![feature(portable_simd)]
#![allow(dead_code, clippy::too_many_arguments, clippy::needless_range_loop, clippy::type_complexity)]

mod alloc;
mod anim;
mod arch;
mod ik;
mod jobs;
mod kernel;
mod pose;
mod rng;
mod store;
mod tracks;
mod util;

use rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Checked = alloc::Checked;

pub type R = Result<(), String>;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static NOTES: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}

/// Counts a kind of situation that was reached (evidence).
pub fn note(kind: &'static str) {
    NOTES.with(|n| *n.borrow_mut().entry(kind).or_insert(0) += 1);
}

fn mix(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    let mut r = Rng::new(h ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.u64()
}

fn run_case(f: fn(&mut Rng, u64) -> R, seed: u64, prop: &str, idx: u64) -> R {
    let mut rng = Rng::new(mix(seed, prop, idx));
    alloc::take_err();
    PANIC.with(|p| p.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, idx)));
    let heap = alloc::take_err();
    match r {
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        Ok(Err(e)) => Err(e),
        Ok(Ok(())) if heap != 0 => Err(format!(
            "heap misuse:{}{}{}{}",
            if heap & 1 != 0 { " write past the end of a block" } else { "" },
            if heap & 2 != 0 { " freed with another size than allocated" } else { "" },
            if heap & 4 != 0 { " freed with another alignment than allocated" } else { "" },
            if heap & 8 != 0 { " write before the start of a block" } else { "" },
        )),
        Ok(Ok(())) => Ok(()),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop: &'static str = Box::leak(args[1].clone().into_boxed_str());
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let secs: f64 = opt("--secs").map_or(10.0, |s| s.parse().unwrap());
    let threads: u64 = opt("--threads").map_or(8, |s| s.parse().unwrap());
    let scale: f64 = opt("--scale").map_or(1.0, |s| s.parse().unwrap());
    let trace = args.iter().any(|a| a == "--trace");

    let Some((f, cases)) = util::registry(prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let cases = ((cases as f64) * scale) as u64;

    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));

    if let Some(c) = opt("--case") {
        let idx: u64 = c.parse().unwrap();
        match run_case(f, seed, prop, idx) {
            Ok(()) => println!("case {idx}: ok"),
            Err(e) => {
                println!("case {idx}: FAIL {e}");
                std::process::exit(1);
            }
        }
        return;
    }

    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let done = AtomicU64::new(0);
    let live = AtomicU64::new(threads);
    let total: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let cur: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let since: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();

    std::thread::scope(|s| {
        for t in 0..threads {
            let (stop, fail, done, total, live, cur, since) = (&stop, &fail, &done, &total, &live, &cur, &since);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut idx = t;
                    while idx < cases && !stop.load(SeqCst) && start.elapsed().as_secs_f64() < secs {
                        if trace {
                            println!("TRACE {idx}");
                        }
                        cur[t as usize].store(idx, SeqCst);
                        since[t as usize].store(start.elapsed().as_millis() as u64, SeqCst);
                        let r = run_case(f, seed, prop, idx);
                        done.fetch_add(1, SeqCst);
                        if let Err(e) = r {
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().is_none_or(|(i, _)| idx < *i) {
                                *g = Some((idx, e));
                            }
                            stop.store(true, SeqCst);
                        }
                        idx += threads;
                    }
                    cur[t as usize].store(u64::MAX, SeqCst);
                    NOTES.with(|n| {
                        let mut g = total.lock().unwrap();
                        for (k, v) in n.borrow().iter() {
                            *g.entry(k).or_insert(0) += v;
                        }
                    });
                    live.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // Watchdog: a case takes milliseconds, one that runs for a minute does not terminate.
        while live.load(SeqCst) != 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for t in 0..threads as usize {
                let c = cur[t].load(SeqCst);
                if c != u64::MAX && now.saturating_sub(since[t].load(SeqCst)) > 60_000 {
                    println!(
                        "{}",
                        serde_json::json!({"result":"fail","property":prop,"seed":seed,"case":c,
                            "message":"the call does not return (no end after 60 s)"})
                    );
                    std::process::exit(1);
                }
            }
        }
    });

    let notes = total.into_inner().unwrap();
    let done = done.load(SeqCst);
    if let Some((idx, e)) = fail.into_inner().unwrap() {
        println!(
            "{}",
            serde_json::json!({"result":"fail","property":prop,"seed":seed,"case":idx,"message":e,
                "evaluations":done,"notes":notes,"wall_s":start.elapsed().as_secs_f64()})
        );
        std::process::exit(1);
    }
    println!(
        "{}",
        serde_json::json!({"result":"ok","property":prop,"seed":seed,"evaluations":done,"planned":cases,
            "notes":notes,"wall_s":start.elapsed().as_secs_f64()})
    );
}
