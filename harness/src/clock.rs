//! The system's clock as the library sees it: the executable's own `clock_gettime` takes the place of the one of the
//! C library, so that a case can set the time of day. Monotonic clocks are passed through.
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

/// Microseconds since 1970, negative for the real time
static NOW: AtomicI64 = AtomicI64::new(-1);
static REAL: AtomicUsize = AtomicUsize::new(0);

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: c_long,
}

type Gettime = extern "C" fn(c_int, *mut Timespec) -> c_int;

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

#[no_mangle]
pub extern "C" fn clock_gettime(clock: c_int, out: *mut Timespec) -> c_int {
    let now = NOW.load(Relaxed);
    // 0 is CLOCK_REALTIME, 5 its coarse variant
    if now >= 0 && (clock == 0 || clock == 5) {
        unsafe { *out = Timespec { sec: now / 1_000_000, nsec: now % 1_000_000 * 1000 } };
        return 0;
    }
    let mut real = REAL.load(Relaxed);
    if real == 0 {
        // -1 is RTLD_NEXT
        real = unsafe { dlsym(-1isize as *mut c_void, c"clock_gettime".as_ptr()) } as usize;
        REAL.store(real, Relaxed);
    }
    let real: Gettime = unsafe { std::mem::transmute(real) };
    real(clock, out)
}

/// Sets the time of day (microseconds since 1970)
pub fn set(now: i64) {
    NOW.store(now, Relaxed);
}

/// The real time is back when it is dropped
pub struct Guard;

impl Drop for Guard {
    fn drop(&mut self) {
        NOW.store(-1, Relaxed);
    }
}
