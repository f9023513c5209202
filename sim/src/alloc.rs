//! Allocator seam.
//!
//! Every allocation carries a small header recording whether it was made by
//! library code (i.e. inside [crate::world::lib]). This allows accounting the
//! memory allocated on behalf of the library no matter who frees it. The
//! allocator is also a preemption seam: while library code runs in a simulated
//! task, the scheduler may be entered at any allocation.
//!
//! Library allocations are served from an arena at a fixed address, so that
//! addresses are decided by the run's seed and not by the operating system.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::{Acquire, Relaxed, Release}};

use crate::world;

pub struct SimAlloc;

/// Bytes currently allocated by library code
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
/// Maximum of the former since it was reset
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// Number of allocations currently held by library code
pub static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
/// Number of allocations made by library code during this run
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
/// Number of bytes which library code asked for during this run
pub static VOLUME: AtomicU64 = AtomicU64::new(0);

/// Limits of what a run may do on behalf of the library
const MAX_BYTES: i64 = 2 << 30;
const MAX_TOTAL: u64 = 300_000_000;

const TAG_LIB: u64 = 0x6c69_625f_6c69_6221;
const TAG_OTHER: u64 = 0x6f74_6865_725f_5f21;

// -------------------------------------------------------------------- arena

const BASE: usize = 0x6100_0000_0000;
const SIZE: usize = 64 << 30;
const REGIONS: usize = 8;
const REGION: usize = SIZE / REGIONS;
const MAX_BLOCK: usize = 256 << 20;

struct Arena {
    ready: bool,
    /// 0: ascending addresses, otherwise state of the generator for placements
    rng: u64,
    reuse: bool,
    used: [usize; REGIONS],
    high: usize,
    free: [usize; 40],
}

struct Global(UnsafeCell<Arena>, AtomicBool);
unsafe impl Sync for Global {}

static ARENA: Global = Global(
    UnsafeCell::new(Arena { ready: false, rng: 0, reuse: true, used: [0; REGIONS], high: 0, free: [0; 40] }),
    AtomicBool::new(false),
);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}

fn arena<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    while ARENA.1.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *ARENA.0.get() });
    ARENA.1.store(false, Release);
    r
}

/// Reserve the arena. Without it, everything comes from the system's allocator.
pub fn setup() -> bool {
    // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
    let p = unsafe { mmap(BASE as *mut u8, SIZE, 3, 0x02 | 0x20 | 0x4000 | 0x10_0000, -1, 0) };
    let ok = p as usize == BASE;
    arena(|a| a.ready = ok);
    ok
}

/// Start over with an empty arena, provided that nothing is allocated
pub fn reset(rng: u64, reuse: bool) -> bool {
    TOTAL.store(0, Relaxed);
    VOLUME.store(0, Relaxed);
    if LIVE_COUNT.load(Relaxed) != 0 {
        return false;
    }
    arena(|a| {
        if a.high > 64 << 20 {
            for r in 0..REGIONS {
                // MADV_DONTNEED
                unsafe { madvise((BASE + r * REGION) as *mut u8, a.used[r].max(1), 4); }
            }
            a.high = 0;
        }
        a.rng = rng;
        a.reuse = reuse;
        a.used = [0; REGIONS];
        a.free = [0; 40];
    });
    true
}

impl Arena {
    fn take(&mut self, class: usize) -> usize {
        if self.free[class] != 0 {
            let p = self.free[class];
            self.free[class] = unsafe { *((p + 16) as *const usize) };
            return p;
        }
        let size = 1usize << class;
        let r = if self.rng == 0 {
            0
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            (self.rng >> 40) as usize % REGIONS
        };
        let step = size.min(4096);
        let at = (self.used[r] + step - 1) & !(step - 1);
        if at + size > REGION {
            return 0;
        }
        self.used[r] = at + size;
        self.high += size;
        BASE + r * REGION + at
    }
}

fn class(size: usize) -> usize {
    size.max(32).next_power_of_two().trailing_zeros() as usize
}

fn owned(p: usize) -> bool {
    (BASE..BASE + SIZE).contains(&p)
}

unsafe fn get(full: Layout, lib: bool) -> *mut u8 {
    if lib && full.size() <= MAX_BLOCK && full.align() <= 4096 {
        let p = arena(|a| if a.ready { a.take(class(full.size().max(full.align()))) } else { 0 });
        if p != 0 {
            return p as *mut u8;
        }
    }
    System.alloc(full)
}

unsafe fn put(p: *mut u8, full: Layout) {
    if owned(p as usize) {
        arena(|a| if a.reuse {
            let c = class(full.size().max(full.align()));
            *((p as usize + 16) as *mut usize) = a.free[c];
            a.free[c] = p as usize;
        })
    } else {
        System.dealloc(p, full)
    }
}

// ---------------------------------------------------------------- interface

fn header(align: usize) -> usize {
    if align > 16 { align } else { 16 }
}

#[inline]
fn account(add: i64) {
    let now = LIVE_BYTES.fetch_add(add, Relaxed) + add;
    if now > PEAK.load(Relaxed) {
        PEAK.fetch_max(now, Relaxed);
    }
    if add > 0 && now > MAX_BYTES {
        world::set_lib(false);
        crate::sup::fatal("memory", "the library holds more than 2 GiB");
    }
}

fn full(layout: &Layout, size: usize) -> Option<(usize, Layout)> {
    let h = header(layout.align());
    Some((h, Layout::from_size_align(size.checked_add(h)?, layout.align().max(16)).ok()?))
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let lib = world::on_alloc();
        let Some((h, full)) = full(&layout, layout.size()) else { return std::ptr::null_mut() };
        if lib {
            account(layout.size() as i64);
            LIVE_COUNT.fetch_add(1, Relaxed);
            VOLUME.fetch_add(layout.size() as u64, Relaxed);
            if TOTAL.fetch_add(1, Relaxed) > MAX_TOTAL {
                world::set_lib(false);
                crate::sup::fatal("livelock", "more than 300 million allocations in one run");
            }
        }
        let p = get(full, lib);
        if p.is_null() {
            return p;
        }
        let user = p.add(h);
        (user.sub(16) as *mut u64).write(if lib { TAG_LIB } else { TAG_OTHER });
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        world::on_alloc();
        let tag = user.sub(16) as *mut u64;
        match tag.read() {
            TAG_LIB => {
                account(-(layout.size() as i64));
                LIVE_COUNT.fetch_sub(1, Relaxed);
            }
            TAG_OTHER => (),
            _ => crate::sup::fatal("heap", "freed something which was not allocated"),
        }
        tag.write(0);
        let (h, full) = full(&layout, layout.size()).unwrap();
        put(user.sub(h), full)
    }

    unsafe fn realloc(&self, user: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        world::on_alloc();
        let lib = (user.sub(16) as *mut u64).read() == TAG_LIB;
        let (h, old) = full(&layout, layout.size()).unwrap();
        let Some((_, full)) = full(&layout, new) else { return std::ptr::null_mut() };
        let base = user.sub(h);
        let p = if !lib {
            System.realloc(base, old, full.size())
        } else if owned(base as usize) && class(full.size().max(full.align())) == class(old.size().max(old.align())) {
            base
        } else {
            let p = get(full, true);
            if !p.is_null() {
                std::ptr::copy_nonoverlapping(base, p, old.size().min(full.size()));
                put(base, old);
            }
            p
        };
        if p.is_null() {
            return p;
        }
        if lib {
            account(new as i64 - layout.size() as i64);
            VOLUME.fetch_add(new as u64, Relaxed);
        }
        p.add(h)
    }
}
