//! Repeatable randomness: `getrandom` of this executable takes precedence over libc's.
use std::sync::atomic::{AtomicU64, Ordering};

static STATE: AtomicU64 = AtomicU64::new(1);

pub fn seed(s: u64) {
    STATE.store(s, Ordering::SeqCst);
}

/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let s = STATE.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::SeqCst);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        *buf.add(i) = (z >> 33) as u8;
    }
    len as isize
}
