//! An allocator that accounts what each thread holds, and stops the process at an absurd
//! request or a write past the end of a block.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;

pub struct Tracking;

/// No input of the harness comes near this size.
const ABSURD: usize = 2 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CASE: Cell<usize> = const { Cell::new(0) };
}

pub fn set_case(i: usize) {
    CASE.with(|c| c.set(i));
}

pub fn current_case() -> usize {
    CASE.with(|c| c.get())
}

/// Starts measuring, and returns what the thread holds now.
pub fn reset_peak() -> isize {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    live
}

/// What the thread holds.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

fn absurd(size: usize) {
    if size > ABSURD {
        report(b"HUGE-ALLOC ");
        std::process::exit(5);
    }
}

/// Names the current case, without allocating.
fn report(what: &[u8]) {
    {
        let mut out = std::io::stderr();
        let mut buf = [b' '; 40];
        let mut n = current_case();
        let mut i = buf.len();
        loop {
            i -= 1;
            buf[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        let _ = out.write_all(what);
        let _ = out.write_all(&buf[i..]);
        let _ = out.write_all(b"\n");
    }
}

/// Octets behind every block, which nobody may write.
const ZONE: usize = 16;
const CANARY: u8 = 0xc7;
/// What a block holds before it is written, and after it is freed.
const POISON: u8 = 0xa5;

fn wide(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + ZONE, l.align()) }
}

unsafe fn intact(p: *mut u8, l: Layout) {
    let zone = p.add(l.size()).cast::<[u8; ZONE]>().read_unaligned();
    if zone != [CANARY; ZONE] {
        report(b"OVERRUN ");
        std::process::exit(6);
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        absurd(l.size());
        add(l.size() as isize);
        let p = System.alloc(wide(l));
        if !p.is_null() {
            p.write_bytes(POISON, l.size().min(1 << 10));
            p.add(l.size()).write_bytes(CANARY, ZONE);
        }
        p
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        absurd(n);
        // Both blocks may be held while the octets are moved.
        add(n as isize);
        add(-(l.size() as isize));
        intact(p, l);
        let q = System.realloc(p, wide(l), n + ZONE);
        if !q.is_null() {
            if n > l.size() {
                q.add(l.size()).write_bytes(POISON, (n - l.size()).min(1 << 10));
            }
            q.add(n).write_bytes(CANARY, ZONE);
        }
        q
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        intact(p, l);
        p.write_bytes(POISON, (l.size() + ZONE).min(1 << 8));
        System.dealloc(p, wide(l))
    }
}

/// Does what ought to be noticed.
pub fn misbehave(how: &str) {
    let mut v: Vec<u8> = Vec::with_capacity(24);
    match how {
        "leak" => std::mem::forget(vec![1u8; 24]),
        "overrun" => unsafe { v.as_mut_ptr().add(24).write_volatile(1) },
        "unset" => {
            let i = unsafe { v.as_ptr().read_volatile() };
            v.push(i.wrapping_add(1));
        }
        _ => panic!("harness: {}", how),
    }
}
