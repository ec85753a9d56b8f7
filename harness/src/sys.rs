//! Process-level seams: hash seeds (getrandom), memory accounting, CPU watchdog.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static HASH_SEED: AtomicU64 = AtomicU64::new(0x5eed);
static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

/// Seed of all randomness handed to the process from now on.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Relaxed);
}
pub fn random_calls() -> u64 {
    RANDOM_CALLS.load(Relaxed)
}

/// Replaces libc's getrandom for the whole process: randomness comes from the simulator.
#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    _flags: libc::c_uint,
) -> libc::ssize_t {
    RANDOM_CALLS.fetch_add(1, Relaxed);
    let mut s = HASH_SEED.load(Relaxed);
    let p = buf.cast::<u8>();
    for i in 0..len {
        *p.add(i) = (crate::tape::splitmix(&mut s) >> 24) as u8;
    }
    HASH_SEED.store(s, Relaxed);
    len as libc::ssize_t
}

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static CAP: AtomicI64 = AtomicI64::new(i64::MAX);
pub const EXIT_MEMORY: i32 = 77;

fn add(n: i64) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
    if now > CAP.load(Relaxed) {
        unsafe { libc::_exit(EXIT_MEMORY) }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Cap further growth at `extra` bytes above what is live now; returns the level to measure from.
pub fn mem_cap(extra: i64) -> i64 {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    CAP.store(live.saturating_add(extra), Relaxed);
    live
}
pub fn mem_uncap() {
    CAP.store(i64::MAX, Relaxed);
}
pub fn mem_peak() -> i64 {
    PEAK.load(Relaxed)
}

extern "C" {
    fn setitimer(
        which: libc::c_int,
        new: *const libc::itimerval,
        old: *mut libc::itimerval,
    ) -> libc::c_int;
}

/// Kill the process (SIGPROF) if it burns this many CPU seconds without re-arming.
pub fn arm_cpu(secs: i64) {
    let it = libc::itimerval {
        it_interval: libc::timeval {
            tv_sec: 0,
            tv_usec: 0,
        },
        it_value: libc::timeval {
            tv_sec: secs,
            tv_usec: 0,
        },
    };
    unsafe {
        setitimer(2, &it, std::ptr::null_mut());
    }
}
