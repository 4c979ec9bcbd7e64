//! Replays behaviours of the TLA+ specification into bsn1 and bsn1_serde.
//!
//! usage: bsnh <property> [--memory] [--threads N] [--progress FILE] <file with TLC's output>...
//!
//! With --memory the operations are performed, but only what happens to the memory counts.

mod bulk;
mod core;
pub mod json;
#[cfg_attr(miri, allow(dead_code))]
mod mem;
mod misc;
mod obj;
mod serde;
mod text;
pub mod types;
mod util;

use json::{from_tlc_line, Json};
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use types::Registry;
use util::Cx;

// Miri does its own accounting.
#[cfg_attr(not(miri), global_allocator)]
#[allow(dead_code)]
static ALLOC: mem::Tracking = mem::Tracking;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const MAX_REPORTED: usize = 20;
const HANG_SECONDS: usize = 120;

fn dispatch(reg: &Registry, prop: &str, case: &Json, cx: &mut Cx) {
    match case.get("k").str() {
        "mem" => mem::misbehave(case.get("how").str()),
        "blk" => bulk::check(prop, case, cx),
        "ser" | "wr" | "de" | "flt" | "tst" | "prog" => serde::check(reg, prop, case, cx),
        "idcmp" if prop == "P30" => text::order(case, cx),
        "bld" | "cur" | "idcmp" | "err" => misc::check(prop, case, cx),
        "txt" => text::check(prop, case, cx),
        "obj" => obj::check(prop, case, cx),
        k => {
            core::check(prop, case, cx);
            if prop == "P09" && k == "tlv" {
                serde::hostile(reg, &case.get("in").bytes(), cx);
            }
        }
    }
}

/// Performs a case again and looks whether all memory comes back.
///
/// The first times may fill caches of the process, so only memory that is kept each time counts.
fn kept(reg: &Registry, prop: &str, case: &Json) -> Vec<String> {
    let mut least = isize::MAX;
    for _ in 0..3 {
        let before = mem::live();
        let mut cx = Cx::default();
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(reg, prop, case, &mut cx)));
        drop(r);
        drop(cx);
        PANIC.with(|p| *p.borrow_mut() = String::new());
        least = least.min(mem::live() - before);
        if least <= 0 {
            return Vec::new();
        }
    }
    vec![format!("keeps {} octets of memory", least)]
}

/// Replays with the types of the library and those given.
pub fn run(more: Vec<(String, Box<dyn types::Ops>)>) {
    let mut reg = types::library();
    reg.extend(more);
    let reg = &reg;

    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    let mut memory = false;
    let mut threads = 8;
    let mut progress = None;
    let mut files = Vec::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--memory" => memory = true,
            "--threads" => threads = args.next().unwrap().parse().unwrap(),
            "--progress" => progress = args.next(),
            _ => files.push(a),
        }
    }

    let mut cases: Vec<String> = Vec::new();
    for f in &files {
        let text = std::fs::read_to_string(f).expect("cannot read the cases");
        for line in text.lines() {
            if let Some(s) = from_tlc_line(line) {
                cases.push(s);
            } else if line.starts_with('{') {
                cases.push(line.to_string());
            }
        }
    }

    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "?".to_string(),
            },
        };
        let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            // The process is about to abort.
            let _ = writeln!(std::io::stdout(), "CRASH {} {} at {}", mem::current_case(), msg.replace('\n', " "), at);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));

    let next = AtomicUsize::new(0);
    let checks = AtomicUsize::new(0);
    let failed = AtomicUsize::new(0);
    let reports: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    let clocks: Vec<(AtomicUsize, AtomicUsize)> =
        (0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicUsize::new(0))).collect();
    let t0 = std::time::Instant::now();
    let running = AtomicUsize::new(threads);

    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, checks, failed, reports, cases, clocks, prop, progress, running) =
                (&next, &checks, &failed, &reports, &cases, &clocks, &prop, &progress, &running);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases.len() {
                            break;
                        }
                        if let Some(p) = progress {
                            let _ = std::fs::write(p, i.to_string());
                        }
                        mem::set_case(i);
                        clocks[t].1.store(i, Ordering::Relaxed);
                        clocks[t].0.store(t0.elapsed().as_secs() as usize, Ordering::Relaxed);

                        let case = Json::parse(&cases[i]);
                        let mut cx = Cx::default();
                        let r = catch_unwind(AssertUnwindSafe(|| dispatch(reg, prop, &case, &mut cx)));
                        if memory {
                            // Only what happens to the memory counts.
                            drop(r);
                            cx.fails = if cfg!(miri) { Vec::new() } else { kept(reg, prop, &case) };
                        } else if r.is_err() {
                            let msg = PANIC.with(|p| p.borrow().clone());
                            if msg.starts_with("harness:") {
                                println!("HARNESS-ERROR {} {} {}", i, msg, cases[i]);
                                std::process::exit(3);
                            }
                            cx.fails.push(format!("panicked: {}", msg));
                        }
                        checks.fetch_add(cx.checks as usize, Ordering::Relaxed);
                        if !cx.fails.is_empty() {
                            failed.fetch_add(1, Ordering::Relaxed);
                            let mut r = reports.lock().unwrap();
                            if r.len() < MAX_REPORTED {
                                cx.fails.truncate(5);
                                r.push((i, cx.fails.join(" | ")));
                            }
                        }
                    }
                    clocks[t].0.store(usize::MAX, Ordering::Relaxed);
                    running.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }

        while running.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let now = t0.elapsed().as_secs() as usize;
            for c in &clocks {
                let st = c.0.load(Ordering::Relaxed);
                if st != usize::MAX && now > st + HANG_SECONDS {
                    let i = c.1.load(Ordering::Relaxed);
                    println!("HANG {} {}", i, cases[i]);
                    std::process::exit(4);
                }
            }
        }
    });

    let mut reports = reports.into_inner().unwrap();
    reports.sort();
    for (i, msg) in &reports {
        println!("MISMATCH {}\t{}\t{}", i, msg.replace(['\n', '\t'], " "), cases[*i]);
    }
    println!("RESULT cases={} checks={} failed={}", cases.len(), checks.load(Ordering::Relaxed), failed.load(Ordering::Relaxed));
    if cfg!(miri) && reports.is_empty() {
        // Miri looks for leaks when the process ends regularly.
        return;
    }
    std::process::exit(if reports.is_empty() { 0 } else { 1 });
}
