mod adversary;
mod binding;
mod check;
mod disk;
mod engine;
mod gen;
mod genesis;
mod huge;
mod hashers;
mod linmock;
mod mocksim;
mod model;
mod net;
mod plan;
mod restore;
mod rng;
mod run;
mod shrink;
mod supervise;
mod tasks;
mod world;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

/// Notices allocations that no input of a run can justify; absurd ones fail.
struct Watched;

/// Nothing in a run needs this much at once.
pub const BIG: usize = 64 << 20;

#[inline]
fn note_alloc(n: usize) -> bool {
    if n > BIG {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
    }
    n <= (4 << 30)
}

unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note_alloc(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if note_alloc(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if note_alloc(n) { System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
}

#[global_allocator]
static ALLOC: Watched = Watched;

/// The biggest oversized allocation since the last call.
pub fn take_big_alloc() -> Option<usize> {
    BIGGEST.with(|b| if b.get() > 0 { Some(b.replace(0)) } else { None })
}

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x1234_5678) };
}

pub fn seed_entropy(s: u64) {
    ENTROPY.with(|e| e.set(s));
}

/// The standard library draws the seeds of its hash maps from here, so that they follow from the
/// seed of the run.
///
/// # Safety
/// As for getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    ENTROPY.with(|e| {
        let mut x = e.get();
        for i in 0..len {
            x = rng::mix(x);
            *buf.add(i) = x as u8;
        }
        e.set(x);
    });
    len as isize
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        world::LAST_PANIC.with(|l| *l.borrow_mut() = loc);
    }));
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let root = std::path::PathBuf::from(env("SIM_ROOT").unwrap_or_else(|| "/verif".into()));
    let tier = env("VERIF_TIER").filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => supervise::check(&a[2], seed, &root),
        Some("check-child") if a.len() >= 3 => {
            let secs: f64 = env("SIM_SECONDS").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 720.0 } else { 45.0 });
            check::check(check::Args {
                prop: a[2].clone(),
                seed,
                tier,
                budget: std::time::Duration::from_secs_f64(secs),
                workers: workers(),
                state: a.get(3).and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok()),
                root,
                level: check::LEVEL.into(),
            })
        }
        // case PROP SEED CASE VARIANT FILE: writes the plan of one case of a search, and runs it
        Some("case") if a.len() >= 7 => {
            let n = |i: usize| a[i].parse().unwrap_or(0);
            supervise::case(&a[2], n(3), n(4), n(5), &a[6], &root)
        }
        Some("replay") if a.len() >= 3 => supervise::replay(&a[2], a.iter().any(|x| x == "--quiet")),
        Some("replay-child") if a.len() >= 3 => check::replay(&a[2], a.iter().any(|x| x == "--quiet")),
        _ => {
            eprintln!("usage: jmtsim check PROP | replay FILE");
            3
        }
    };
    std::process::exit(code);
}

pub fn workers() -> usize {
    std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}
