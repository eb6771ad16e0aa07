//! Virtual time.  `clock_gettime` is interposed for the whole process, so that std's
//! `Instant`/`SystemTime` and tokio's timers (all of which end in that libc symbol) follow
//! `VNOW`.  Every call moves time on by 100 ns so that two readings are never equal.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// nanoseconds; starts at 2026-01-01T00:00:00Z for both the realtime and the monotonic clock
pub const EPOCH_NS: u64 = 1_767_225_600_000_000_000;
static VNOW: AtomicU64 = AtomicU64::new(EPOCH_NS);
static REAL: AtomicBool = AtomicBool::new(true);

#[repr(C)]
pub struct Timespec {
    tv_sec: i64,
    tv_nsec: i64,
}

unsafe extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if REAL.load(Ordering::Relaxed) {
        // SYS_clock_gettime on x86_64
        return unsafe { syscall(228, clk as i64, ts) } as i32;
    }
    let now = VNOW.fetch_add(100, Ordering::Relaxed);
    unsafe {
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
    }
    0
}

pub fn go_virtual() {
    REAL.store(false, Ordering::SeqCst);
}
pub fn set_ms(ms: u64) {
    VNOW.store(EPOCH_NS + ms * 1_000_000, Ordering::SeqCst);
}
pub fn reset() {
    VNOW.store(EPOCH_NS, Ordering::SeqCst);
}
