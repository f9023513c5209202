//! Instrumentation seam.
//!
//! The library is compiled with two of LLVM's passes (see `rustc.sh`): one
//! calls back at every edge of the control flow graph, the other replaces
//! every atomic operation by a call. Both make further points at which the
//! scheduler may be entered; the former also tells which edges were reached.

use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::{Relaxed, SeqCst}};

use crate::world;

const MAX_EDGES: usize = 1 << 17;

static EDGES: AtomicU32 = AtomicU32::new(0);
static REACHED: [AtomicU8; MAX_EDGES] = [const { AtomicU8::new(0) }; MAX_EDGES];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        *p = EDGES.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let n = *guard as usize;
    if n < MAX_EDGES {
        REACHED[n].store(1, Relaxed);
    }
    world::on_edge();
}

/// Number of edges in the code under test
pub fn edges() -> u64 {
    EDGES.load(Relaxed) as u64
}

/// Edges reached by this process
pub fn reached() -> Vec<u64> {
    (1..MAX_EDGES).filter(|i| REACHED[*i].load(Relaxed) != 0).map(|i| i as u64).collect()
}

macro_rules! atomics {
    ($t:ty, $a:ty: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(p: *mut $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).load(SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            world::on_atomic();
            (*(p as *const $a)).store(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).swap(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).fetch_add(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).fetch_sub(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).fetch_and(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).fetch_or(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).fetch_xor(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t {
            world::on_atomic();
            (*(p as *const $a)).fetch_nand(v, SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            world::on_atomic();
            match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    }
}

atomics!(u8, AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add
    __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor
    __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add
    __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor
    __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add
    __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor
    __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add
    __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor
    __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(SeqCst)
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}
