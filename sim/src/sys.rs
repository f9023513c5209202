//! Operating system seams: randomness and futexes.
//!
//! The standard library seeds its hash maps through `getrandom` and implements
//! its locks through the `futex` system call. Both symbols are defined here and
//! hence owned by the simulator.

use std::arch::asm;

use crate::world;

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const FUTEX_WAIT: i64 = 0;
const FUTEX_WAKE: i64 = 1;
const FUTEX_WAIT_BITSET: i64 = 9;
const FUTEX_WAKE_BITSET: i64 = 10;
const EAGAIN: i32 = 11;

extern "C" {
    fn __errno_location() -> *mut i32;
    static environ: *const *const std::ffi::c_char;
}

#[inline]
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

/// Wait on a word owned by the simulator
pub fn gate_wait(word: &std::sync::atomic::AtomicU32, expected: u32) {
    unsafe {
        raw_syscall(SYS_FUTEX, word as *const _ as i64, FUTEX_WAIT | 128, expected as i64, 0, 0, 0);
    }
}

/// Wake waiters on a word owned by the simulator
pub fn gate_wake(word: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw_syscall(SYS_FUTEX, word as *const _ as i64, FUTEX_WAKE | 128, i32::MAX as i64, 0, 0, 0);
    }
}

/// Replacement for libc's `syscall`
///
/// On x86-64, integer arguments of variadic functions are passed like those of
/// any other function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && world::in_task() {
        match b & 0x7f {
            FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    *__errno_location() = EAGAIN;
                    return -1;
                }
                world::futex_wait(a as u64);
                return 0;
            }
            FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                let n = world::futex_wake(a as u64, c as u64);
                // Threads outside of the simulation might wait, too
                let r = raw_syscall(SYS_FUTEX, a, b, c, d, e, f);
                return n as i64 + r.max(0);
            }
            _ => (),
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Replacement for libc's `getrandom`
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if world::in_task() {
        let out = std::slice::from_raw_parts_mut(buf, len);
        world::random_bytes(out);
        len as isize
    } else {
        raw_syscall(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
    }
}

/// Replacement for libc's `getenv`
///
/// Each task is taken for a process with an environment of its own. Variables
/// the run time looks at itself are left alone.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    if world::in_task() && world::in_lib() && !name.starts_with(b"RUST") {
        return match world::environment(name) % 6 {
            0 | 1 => std::ptr::null(),
            2 => c"".as_ptr(),
            3 => c"0".as_ptr(),
            4 => c"1".as_ptr(),
            _ => c"yes".as_ptr(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let var = std::ffi::CStr::from_ptr(*e).to_bytes();
        if var.len() > name.len() && var.starts_with(name) && var[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// Replacement for libc's `getpid`
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if world::in_task() && world::in_lib() {
        return (world::environment(b"pid") % 4_000_000) as i32 + 1;
    }
    raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// Replacement for libc's `clock_gettime`: tasks only see simulated time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut Timespec) -> i32 {
    if world::in_task() {
        let now = world::now();
        // Some day in 2021 for the wall clock
        let base = if clock == 0 { 1_630_000_000 } else { 1000 };
        *t = Timespec { sec: base + (now / 1_000_000) as i64, nsec: (now % 1_000_000) as i64 * 1000 };
        0
    } else {
        raw_syscall(228, clock as i64, t as i64, 0, 0, 0, 0) as i32
    }
}

/// Replacement for libc's `sched_yield`
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if world::in_task() {
        let lib = world::in_lib();
        world::set_lib(false);
        world::yield_now("sched_yield");
        world::set_lib(lib);
    } else {
        raw_syscall(24, 0, 0, 0, 0, 0, 0);
    }
    0
}

unsafe fn pass(req: *const Timespec) {
    let lib = world::in_lib();
    world::set_lib(false);
    world::sleep(((*req).sec as u64).saturating_mul(1_000_000).saturating_add((*req).nsec as u64 / 1000).max(1));
    world::set_lib(lib);
}

/// Replacement for libc's `nanosleep`
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if world::in_task() {
        pass(req);
        return 0;
    }
    let r = raw_syscall(35, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 { *__errno_location() = -r as i32; -1 } else { 0 }
}

/// Replacement for libc's `clock_nanosleep`
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if world::in_task() {
        if flags == 0 {
            pass(req);
        }
        return 0;
    }
    -raw_syscall(230, clock as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}
