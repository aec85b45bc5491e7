//! Steps of the system clock, as the process sees it.
//!
//! The program's own `clock_gettime` takes the place of the C library's, so that the wall clock
//! (and only that one) can be stepped forwards and backwards while the library runs.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::time::{Duration, SystemTime};

static STEP: AtomicI64 = AtomicI64::new(0);

#[cfg(not(htmon_san))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, tp) as libc::c_int;
    if r == 0 && id == libc::CLOCK_REALTIME {
        (*tp).tv_sec += STEP.load(Ordering::Relaxed) as libc::time_t;
    }
    r
}

/// Keeps stepping the wall clock until the process ends; `count` is told of each step seen.
pub fn unsteady(seed: u64, count: impl Fn() + Send + 'static) {
    static ON: AtomicBool = AtomicBool::new(false);
    if ON.swap(true, Ordering::SeqCst) {
        return;
    }
    std::thread::spawn(move || {
        let mut r = crate::rng::Rng::new(seed);
        loop {
            std::thread::sleep(Duration::from_millis(r.range(5, 400) as u64));
            let before = SystemTime::now();
            STEP.store(*r.pick(&[0, 0, 1, -1, 30, -30, 3600, -3600, 86400 * 400, -86400 * 400]), Ordering::SeqCst);
            let moved = match SystemTime::now().duration_since(before) {
                Ok(d) => d > Duration::from_millis(900),
                Err(_) => true,
            };
            if moved {
                count();
            }
        }
    });
}
