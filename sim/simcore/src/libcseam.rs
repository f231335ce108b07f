//! libc functions through which std and third-party crates reach nondeterminism.  On a simulated thread they are
//! answered by the simulator, elsewhere they are the plain system calls.

use crate::world;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let w = world::raw();
    if w.is_null() || clk == libc::CLOCK_PROCESS_CPUTIME_ID || clk == libc::CLOCK_THREAD_CPUTIME_ID {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    }
    let t = (*w).now + (*w).mono_base;
    let extra = if clk == libc::CLOCK_REALTIME { 1_600_000_000 } else { 0 };
    (*ts).tv_sec = (t / 1_000_000_000) as i64 + extra;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let w = world::raw();
    if w.is_null() {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for x in b.iter_mut() {
        *x = (*w).rand_state.next() as u8;
    }
    len as libc::ssize_t
}

unsafe fn virt_sleep(req: *const libc::timespec) {
    let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    // the whole single-threaded process is asleep: only the clock moves
    (*world::raw()).now += d;
    *(*world::raw()).stats.entry("blocking_sleep").or_insert(0) += 1;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if world::raw().is_null() {
        return libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int;
    }
    virt_sleep(req);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if world::raw().is_null() {
        let r = libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem);
        return if r < 0 { *libc::__errno_location() } else { 0 };
    }
    if flags & libc::TIMER_ABSTIME != 0 {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let base = (*world::raw()).mono_base;
        let t = t.saturating_sub(base);
        if t > (*world::raw()).now {
            (*world::raw()).now = t;
        }
    } else {
        virt_sleep(req);
    }
    0
}

/// Set by the harness: called when a run exceeds its step budget; it must not return.
pub static mut ON_OVERRUN: Option<fn() -> !> = None;

pub fn check_overrun() {
    let w = world::raw();
    if w.is_null() {
        return;
    }
    unsafe {
        if (*w).overrun {
            if let Some(f) = ON_OVERRUN {
                f();
            }
        }
    }
}
