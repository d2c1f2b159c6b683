//! Seams for what std takes from the machine: the key of `RandomState`, and the clocks.
//!
//! `std::collections::HashMap`/`HashSet` take their keys from `getrandom`, once per thread. The
//! simulator defines that symbol itself, so that a run executed on its own thread sees hash keys
//! derived from the run's own tape: iteration order of every std hash container is then part of
//! the seeded, replayable schedule instead of an unowned source of nondeterminism.
//!
//! Likewise `clock_gettime`: on a thread of a run, `Instant` and `SystemTime` read a simulated clock
//! that starts anywhere, advances with every reading by an amount drawn from the run's seed (from
//! nothing to many seconds) and jumps ahead now and then. Threads without a seed see the real one.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def0) };
}
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Set before the first hash container is created on this thread.
pub fn set_thread_seed(s: u64) {
    SEED.with(|c| c.set(s));
    set_clock(s);
}
/// (nanoseconds, step per reading, jump every so many readings, readings)
type Clock = (u64, u64, u64, u64);
thread_local! {
    static CLOCK: Cell<Option<Clock>> = const { Cell::new(None) };
}
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
/// A simulated clock for this thread, of a pace drawn from `s`. Time never goes backwards.
pub fn set_clock(s: u64) {
    let h = crate::mix(s, 0xc10c);
    let step = [0, 1_000, 50_000, 1_000_000, 300_000_000, 20_000_000_000][(h % 6) as usize];
    let start = CLOCK.with(|c| c.get()).map_or(1_000_000_000_000 + (h >> 24), |c| c.0);
    CLOCK.with(|c| c.set(Some((start, step, 5 + (h >> 8) % 200, 0))));
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(Ordering::Relaxed)
}
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// # Safety
/// Same contract as clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if (0..=7).contains(&id) {
        if let Ok(Some((at, step, every, n))) = CLOCK.try_with(|c| c.get()) {
            let at = at + step + if n % every == every - 1 { 3_600_000_000_000 } else { 0 };
            let _ = CLOCK.try_with(|c| c.set(Some((at, step, every, n + 1))));
            CLOCK_READS.fetch_add(1, Ordering::Relaxed);
            (*t).sec = (at / 1_000_000_000) as i64;
            (*t).nsec = (at % 1_000_000_000) as i64;
            return 0;
        }
    }
    const SYS_CLOCK_GETTIME: i64 = if cfg!(target_arch = "aarch64") { 113 } else { 228 };
    if syscall(SYS_CLOCK_GETTIME, id as i64, t) == 0 { 0 } else { -1 }
}
pub fn interposed_calls() -> u64 {
    CALLS.load(Ordering::Relaxed)
}

/// # Safety
/// Same contract as getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let mut s = SEED.try_with(|c| c.get()).unwrap_or(1);
    for i in 0..len {
        s = crate::mix(s, i as u64 + 1);
        *buf.add(i) = (s >> 24) as u8;
    }
    len as isize
}

/// The value a fresh std hasher gives for a fixed input on this thread (digest of the hash keys).
pub fn probe() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let s = std::collections::hash_map::RandomState::new();
    let mut h = s.build_hasher();
    h.write_u64(42);
    h.finish()
}
