//! The time that this thread sees: the harness defines `clock_gettime`, so that a check can let hours pass in
//! the middle of a history, or stop the clock, for the code under test, for tokio's timers and for itself.

use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicUsize, Ordering};
use std::time::Duration;

#[repr(C)]
pub struct Timespec {
    sec: c_long,
    nsec: c_long,
}

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

type Real = unsafe extern "C" fn(c_int, *mut Timespec) -> c_int;
const NEXT: *mut c_void = -1isize as *mut c_void;
const MONOTONIC: c_int = 1;
const BILLION: i128 = 1_000_000_000;

static REAL: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    /// added to every clock
    static OFFSET: Cell<i128> = const { Cell::new(0) };
    /// what (real time, monotonic time) the clocks show while they are stopped, without the offset
    static STOPPED: Cell<Option<(i128, i128)>> = const { Cell::new(None) };
}

unsafe fn real(id: c_int, t: *mut Timespec) -> c_int {
    let mut f = REAL.load(Ordering::Relaxed);
    if f == 0 {
        f = dlsym(NEXT, c"clock_gettime".as_ptr()) as usize;
        if f == 0 {
            std::process::abort();
        }
        REAL.store(f, Ordering::Relaxed);
    }
    std::mem::transmute::<usize, Real>(f)(id, t)
}

/// For a whole process: where its clocks stand, and its number.
static ALL_STOPPED: AtomicBool = AtomicBool::new(false);
static ALL: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];
static PID: AtomicI32 = AtomicI32::new(0);
static REAL_PID: AtomicUsize = AtomicUsize::new(0);

/// # Safety
/// As the C function of this name.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    let p = PID.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let mut f = REAL_PID.load(Ordering::Relaxed);
    if f == 0 {
        f = dlsym(NEXT, c"getpid".as_ptr()) as usize;
        if f == 0 {
            std::process::abort();
        }
        REAL_PID.store(f, Ordering::Relaxed);
    }
    std::mem::transmute::<usize, unsafe extern "C" fn() -> c_int>(f)()
}

/// From now on every thread of this process sees this moment (seconds of either clock) and this process number.
pub fn stop_everything(realtime: i64, monotonic: i64, pid: i32) {
    ALL[0].store(realtime, Ordering::Relaxed);
    ALL[1].store(monotonic, Ordering::Relaxed);
    ALL_STOPPED.store(true, Ordering::SeqCst);
    PID.store(pid, Ordering::SeqCst);
}

fn read(id: c_int) -> i128 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { real(id, &mut t) };
    t.sec as i128 * BILLION + t.nsec as i128
}

/// # Safety
/// As the C function of this name.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut Timespec) -> c_int {
    let r = real(id, t);
    // (not the processor time clocks)
    if r != 0 || !(matches!(id, 0 | 1) || matches!(id, 4..=7)) {
        return r;
    }
    let mut stopped = STOPPED.get();
    let offset = OFFSET.get();
    if stopped.is_none() && ALL_STOPPED.load(Ordering::Relaxed) {
        let at = |i: usize| ALL[i].load(Ordering::Relaxed) as i128 * BILLION;
        stopped = Some((at(0), at(1)));
    }
    if stopped.is_none() && offset == 0 {
        return r;
    }
    let now = match stopped {
        Some((realtime, _)) if matches!(id, 0 | 5) => realtime,
        Some((_, monotonic)) => monotonic,
        None => (*t).sec as i128 * BILLION + (*t).nsec as i128,
    } + offset;
    (*t).sec = (now / BILLION) as c_long;
    (*t).nsec = (now % BILLION) as c_long;
    r
}

/// Lets time pass for this thread.
pub fn pass(d: Duration) {
    OFFSET.set(OFFSET.get() + d.as_nanos() as i128);
}

/// The time that really passes.
pub struct RealTime(i128);

impl RealTime {
    pub fn now() -> Self {
        RealTime(read(MONOTONIC))
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos((read(MONOTONIC) - self.0) as u64)
    }
}

struct Restore(i128, Option<(i128, i128)>);
impl Drop for Restore {
    fn drop(&mut self) {
        OFFSET.set(self.0);
        STOPPED.set(self.1);
    }
}

/// Runs with a clock of this thread's own, which goes on as it was before afterwards.
pub fn apart<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(OFFSET.get(), STOPPED.get());
    f()
}

/// Runs with this thread's clock stopped; it moves by `pass` only.
pub fn stopped<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(OFFSET.get(), STOPPED.get());
    STOPPED.set(Some((read(0), read(MONOTONIC))));
    f()
}

/// As `stopped`, at a given moment.
pub fn stopped_at<T>(at: (Duration, Duration), f: impl FnOnce() -> T) -> T {
    let _r = Restore(OFFSET.get(), STOPPED.get());
    OFFSET.set(0);
    STOPPED.set(Some((at.0.as_nanos() as i128, at.1.as_nanos() as i128)));
    f()
}

/// The check rests on this thread's clock really being the harness's.
pub fn works() -> bool {
    stopped(|| {
        let a = std::time::Instant::now();
        let s = std::time::SystemTime::now();
        std::thread::sleep(Duration::from_micros(50));
        let same = a == std::time::Instant::now() && s == std::time::SystemTime::now();
        pass(Duration::from_secs(3600));
        same && a.elapsed() == Duration::from_secs(3600)
    })
}
