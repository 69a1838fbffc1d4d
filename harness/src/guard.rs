//! A global allocator which checks how memory is used.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const LIVE: u64 = 0x11fe_b10c_a110_ca7e;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;
const TAIL: usize = 32;
const TAIL_OCTET: u8 = 0xa7;
const FRESH: u8 = 0xcb;
const FREED: u8 = 0xdd;
const HEAD: usize = 64;
const QUARANTINE: usize = 256;
const QUARANTINE_MAX: usize = 1 << 16;
const MOVE_MAX: usize = 4096;

#[repr(C)]
struct Header {
    guard: [u8; 16],
    size: usize,
    align: usize,
    base: usize,
    total: usize,
    magic: u64,
    pad: u64,
}

pub struct GuardAlloc;

static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static ERROR: AtomicUsize = AtomicUsize::new(0);
static ERROR_A: AtomicUsize = AtomicUsize::new(0);
static ERROR_B: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut RING: [usize; QUARANTINE] = [0; QUARANTINE];
static RING_AT: AtomicUsize = AtomicUsize::new(0);

fn report(code: usize, a: usize, b: usize) {
    if ERROR.compare_exchange(0, code, Relaxed, Relaxed).is_ok() {
        ERROR_A.store(a, Relaxed);
        ERROR_B.store(b, Relaxed);
    }
}

fn count(size: usize, blocks: usize) {
    LARGEST.fetch_max(size, Relaxed);
    LIVE_BLOCKS.fetch_add(blocks, Relaxed);
    let b = LIVE_BYTES.fetch_add(size, Relaxed) + size;
    PEAK.fetch_max(b, Relaxed);
}

unsafe fn release(user: usize) {
    let h = (user - HEAD) as *mut Header;
    let n = (*h).size;
    let s = std::slice::from_raw_parts(user as *const u8, n);
    if s.iter().any(|&b| b != FREED) {
        report(6, n, 0);
    }
    let (base, total, align) = ((*h).base, (*h).total, (*h).align.max(16));
    System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(total, align));
}

unsafe impl GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let size = l.size();
        if cfg!(miri) {
            // The interpreter sees all misuse itself: only counted.
            if size > LIMIT.load(Relaxed) {
                return std::ptr::null_mut();
            }
            count(size, 1);
            return System.alloc(l);
        }
        LARGEST.fetch_max(size, Relaxed);
        if size > isize::MAX as usize - 4096 || size > LIMIT.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let align = l.align().max(16);
        let lead = HEAD.max(align);
        // Large blocks get spare room, so that growing step by step stays cheap.
        let room = if size > MOVE_MAX { size + size / 2 } else { size };
        let total = lead + room + TAIL;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let user = base.add(lead);
        let h = user.sub(HEAD) as *mut Header;
        h.write(Header {
            guard: [TAIL_OCTET; 16],
            size,
            align: l.align(),
            base: base as usize,
            total,
            magic: LIVE,
            pad: 0xa7a7_a7a7_a7a7_a7a7,
        });
        user.write_bytes(FRESH, size);
        user.add(size).write_bytes(TAIL_OCTET, TAIL);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        let b = LIVE_BYTES.fetch_add(size, Relaxed) + size;
        PEAK.fetch_max(b, Relaxed);
        user
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if cfg!(miri) {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size(), Relaxed);
            return System.dealloc(p, l);
        }
        let h = p.sub(HEAD) as *mut Header;
        if (*h).magic == DEAD {
            report(1, l.size(), 0);
            return;
        }
        if (*h).magic != LIVE || (*h).pad != 0xa7a7_a7a7_a7a7_a7a7 {
            report(2, l.size(), 0);
            return; // not ours or ruined: leak it
        }
        let size = (*h).size;
        if size != l.size() || (*h).align != l.align() {
            report(3, size, l.size());
        }
        let tail = std::slice::from_raw_parts(p.add(size), TAIL);
        if tail.iter().any(|&b| b != TAIL_OCTET) {
            report(4, size, tail.iter().position(|&b| b != TAIL_OCTET).unwrap());
        }
        if (*h).guard.iter().any(|&b| b != TAIL_OCTET) {
            report(5, size, 0);
        }
        (*h).magic = DEAD;
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(size, Relaxed);
        p.write_bytes(FREED, size);
        if size > QUARANTINE_MAX {
            return release(p as usize);
        }
        while LOCK.compare_exchange(false, true, std::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let i = RING_AT.fetch_add(1, Relaxed) % QUARANTINE;
        let old = RING[i];
        RING[i] = p as usize;
        LOCK.store(false, std::sync::atomic::Ordering::Release);
        if old != 0 {
            release(old);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if cfg!(miri) {
            if new > LIMIT.load(Relaxed) {
                return std::ptr::null_mut();
            }
            LIVE_BYTES.fetch_sub(l.size(), Relaxed);
            count(new, 0);
            return System.realloc(p, l, new);
        }
        let h = p.sub(HEAD) as *mut Header;
        if (*h).magic == LIVE && (*h).size != l.size() {
            report(7, (*h).size, l.size());
        }
        if (*h).magic == LIVE && (*h).size > MOVE_MAX && new > MOVE_MAX {
            let size = (*h).size;
            let room = (*h).base + (*h).total - TAIL - p as usize;
            if new <= room {
                LARGEST.fetch_max(new, Relaxed);
                let tail = std::slice::from_raw_parts(p.add(size), TAIL);
                if tail.iter().any(|&b| b != TAIL_OCTET) {
                    report(4, size, tail.iter().position(|&b| b != TAIL_OCTET).unwrap());
                }
                if new > size {
                    p.add(size).write_bytes(FRESH, new - size);
                }
                p.add(new).write_bytes(TAIL_OCTET, TAIL);
                (*h).size = new;
                LIVE_BYTES.fetch_sub(size, Relaxed);
                let b = LIVE_BYTES.fetch_add(new, Relaxed) + new;
                PEAK.fetch_max(b, Relaxed);
                return p;
            }
        }
        // Small blocks always move.
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            let n = if (*h).magic == LIVE { (*h).size.min(new) } else { l.size().min(new) };
            std::ptr::copy_nonoverlapping(p, q, n);
            self.dealloc(p, l);
        }
        q
    }
}

/// What went wrong so far, if anything; forgets it.
pub fn take_error() -> Option<String> {
    if cfg!(miri) {
        return None;
    }
    // look through the quarantine for late writes
    while LOCK.compare_exchange(false, true, std::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let mut olds = [0usize; QUARANTINE];
    unsafe {
        for i in 0..QUARANTINE {
            olds[i] = RING[i];
            RING[i] = 0;
        }
    }
    LOCK.store(false, std::sync::atomic::Ordering::Release);
    for o in olds {
        if o != 0 {
            unsafe { release(o) }
        }
    }
    let code = ERROR.swap(0, Relaxed);
    let (a, b) = (ERROR_A.load(Relaxed), ERROR_B.load(Relaxed));
    Some(match code {
        0 => return None,
        1 => format!("a block of {a} octets was freed twice"),
        2 => format!("memory which is not an allocated block was freed as {a} octets"),
        3 => format!("a block of {a} octets was freed as {b} octets"),
        4 => format!("octets were written behind a block of {a} octets (offset {b} after its end)"),
        5 => format!("octets were written before a block of {a} octets"),
        6 => format!("octets were written into a freed block of {a} octets"),
        7 => format!("a block of {a} octets was reallocated as {b} octets"),
        _ => "unknown".into(),
    })
}
pub fn live_blocks() -> usize {
    LIVE_BLOCKS.load(Relaxed)
}
pub fn live_bytes() -> usize {
    LIVE_BYTES.load(Relaxed)
}
/// Starts measuring anew.
pub fn reset_peak() {
    LARGEST.store(0, Relaxed);
    PEAK.store(LIVE_BYTES.load(Relaxed), Relaxed);
}
pub fn largest() -> usize {
    LARGEST.load(Relaxed)
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
/// Requests beyond this size fail from now on.
pub fn set_limit(n: usize) {
    LIMIT.store(n, Relaxed);
}
pub const FRESH_OCTET: u8 = FRESH;
