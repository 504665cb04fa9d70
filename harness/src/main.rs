//! Conformance harness: drives the real crates and records traces for the TLA+ specifications.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

mod cross;
mod hislip;
mod line;
mod lock;
mod mini;
mod net;
mod rpcc;
mod sched;
mod status;
mod util;
mod vxi;

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub fn live_bytes() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

/// Spin mutex contention on a thread which is not controlled by the scheduler
pub fn on_unscheduled_contention() {
    // Single threaded drivers install their own handler
    let f = *CONTENTION.lock().unwrap();
    if let Some(f) = f {
        f()
    }
}

pub static CONTENTION: std::sync::Mutex<Option<fn()>> = std::sync::Mutex::new(None);

fn main() {
    lxi_device::verif::install(sched::hook);
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("command");
    let args = util::Args::parse(it);
    if args.get("quiet").is_some() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match cmd.as_str() {
        "lock-seq" => lock::seq(&args),
        "lock-conc" => lock::conc(&args),
        "lock-cycle" => lock::cycle(&args),
        "status" => status::run(&args),
        "hislip" => hislip::run(&args),
        "hislip-cycle" => hislip::cycle(&args),
        "vxi" => vxi::run(&args),
        "vxi-cycle" => vxi::cycle(&args),
        "line" => line::run(&args),
        "rpcc" => rpcc::run(&args),
        "net" => net::run(&args),
        "cross" => cross::run(&args),
        "net-serve" => net::child(&args),
        c => panic!("unknown command {c}"),
    }
    if util::STOPPED.load(Ordering::SeqCst) {
        println!("{}", serde_json::json!({"stopped": true}));
    }
}
