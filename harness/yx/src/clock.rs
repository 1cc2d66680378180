//! Virtual, frozen time for code that reads the monotonic clock through std:
//! `clock_gettime` of this executable takes precedence over libc's.
use std::sync::atomic::{AtomicU64, Ordering};

pub static NOW_NS: AtomicU64 = AtomicU64::new(1_000_000_000_000);

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

/// # Safety
/// called by libc users with a valid pointer
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if id == 1 {
        let now = NOW_NS.load(Ordering::SeqCst);
        (*ts).sec = (now / 1_000_000_000) as i64;
        (*ts).nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    // SYS_clock_gettime on x86_64
    syscall(228, id as i64, ts) as i32
}

/// The monotonic clock moves only here.
pub fn advance(ms: u64) {
    NOW_NS.fetch_add(ms * 1_000_000, Ordering::SeqCst);
}
