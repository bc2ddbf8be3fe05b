//! What the library could ask of its surroundings: environment variables and clocks. The calls of
//! the standard library end here; during a stage of C13 they give other answers.

use std::os::raw::{c_char, c_int, c_long};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};

/// 0: the real world; 1: every variable is set and each look at a clock is an hour later; 2: no
/// variable is set and the clocks stand still
static MODE: AtomicU32 = AtomicU32::new(0);
static SKEW: AtomicI64 = AtomicI64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

/// also keeps the functions below in the program
pub fn set_mode(m: u32) {
    MODE.store(m, SeqCst);
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: c_long,
}

extern "C" {
    static environ: *const *const c_char;
    fn syscall(n: c_long, ...) -> c_long;
}

#[cfg(all(not(miri), target_os = "linux", target_arch = "x86_64"))]
mod hooks {
    use super::*;

    /// # Safety
    /// as the C function
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        match MODE.load(SeqCst) {
            0 => (),
            m => {
                ENV_READS.fetch_add(1, SeqCst);
                return if m == 1 { b"1\0".as_ptr() as *mut c_char } else { std::ptr::null_mut() };
            }
        }
        let mut p = environ;
        if p.is_null() || name.is_null() {
            return std::ptr::null_mut();
        }
        while !(*p).is_null() {
            let (mut e, mut n) = (*p, name);
            while *n != 0 && *e == *n {
                e = e.add(1);
                n = n.add(1);
            }
            if *n == 0 && *e == b'=' as c_char {
                return e.add(1) as *mut c_char;
            }
            p = p.add(1);
        }
        std::ptr::null_mut()
    }

    /// # Safety
    /// as the C function
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut Timespec) -> c_int {
        const SYS_CLOCK_GETTIME: c_long = 228;
        let r = syscall(SYS_CLOCK_GETTIME, clock as c_long, ts) as c_int;
        match MODE.load(SeqCst) {
            0 => (),
            1 => {
                CLOCK_READS.fetch_add(1, SeqCst);
                (*ts).sec += SKEW.fetch_add(3600, SeqCst);
            }
            _ => {
                CLOCK_READS.fetch_add(1, SeqCst);
                (*ts).sec = 1_000_000_000;
                (*ts).nsec = 0;
            }
        }
        r
    }
}
