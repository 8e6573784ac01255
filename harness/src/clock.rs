//! A clock that can be moved on: `clock_gettime` of this process, shifted per thread. Hours pass in no time.
//! (Not under sanitizers, which have a `clock_gettime` of their own: there, `advance` does nothing.)
use std::time::{Duration, Instant};

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(vmon_san)))]
mod imp {
    use std::cell::Cell;
    thread_local! { pub static SHIFT: Cell<i64> = const { Cell::new(0) } }
    #[repr(C)]
    pub struct Timespec { s: i64, ns: i64 }
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
        let r = syscall(228, id, ts) as i32;
        if r == 0 && id == 1 {
            let shift = SHIFT.try_with(|s| s.get()).unwrap_or(0);
            if shift != 0 {
                let t = (*ts).ns + shift % 1_000_000_000;
                (*ts).s += shift / 1_000_000_000 + t / 1_000_000_000;
                (*ts).ns = t % 1_000_000_000;
            }
        }
        r
    }
    pub fn shift() -> i64 { SHIFT.with(|s| s.get()) }
    pub fn set(ns: i64) { SHIFT.with(|s| s.set(ns)) }
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(vmon_san))))]
mod imp {
    pub fn shift() -> i64 { 0 }
    pub fn set(_: i64) {}
}

/// Lets `d` pass on this thread's monotonic clock.
pub fn advance(d: Duration) { imp::set(imp::shift() + d.as_nanos() as i64) }
/// How far this thread's clock is ahead.
pub fn ahead() -> Duration { Duration::from_nanos(imp::shift() as u64) }
/// Back to real time when dropped.
pub struct Shifted(());
pub fn shifted() -> Option<Shifted> {
    let s = Shifted(());
    let t = Instant::now();
    advance(Duration::from_secs(7200));
    let works = (7200..7260).contains(&t.elapsed().as_secs());
    imp::set(0);
    works.then_some(s)
}
impl Drop for Shifted { fn drop(&mut self) { imp::set(0) } }
