//! Allocator that offers the scheduler a preemption point at every allocation
//! library code makes, and that can keep account of what library code holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::{Relaxed, SeqCst}};

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::alloc_point();
        EVER.fetch_add(l.size(), Relaxed);
        let p = System.alloc(l);
        if TRACK.load(SeqCst) && crate::rt::in_lib() && crate::rt::active() {
            ledger_add(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::alloc_point();
        EVER.fetch_add(l.size(), Relaxed);
        let p = System.alloc_zeroed(l);
        if TRACK.load(SeqCst) && crate::rt::in_lib() && crate::rt::active() {
            ledger_add(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(SeqCst) {
            ledger_remove(p as usize);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::alloc_point();
        let q = System.realloc(p, l, n);
        if TRACK.load(SeqCst) && !q.is_null() {
            // (a block that is older than the ledger and that library code makes
            // bigger counts as held from there on)
            let known = ledger_remove(p as usize);
            if known || (n > l.size() && crate::rt::in_lib() && crate::rt::active()) {
                ledger_add(q as usize, n);
            }
        }
        q
    }
}

/// bytes ever allocated by the process
static EVER: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub extern "C" fn kxsim_allocated() -> usize {
    EVER.load(Relaxed)
}
/// a pattern the library compiles costs what it cost the first time, although
/// the simulator remembers it
#[no_mangle]
pub extern "C" fn kxsim_charge(bytes: usize) {
    if TRACK.load(SeqCst) && crate::rt::in_lib() && crate::rt::active() {
        TOTAL.fetch_add(bytes, SeqCst);
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

// ---------------------------------------------------------------- the ledger

/// blocks library code allocated since the ledger was opened and that are not
/// freed yet (only while one simulated thread runs)
static TRACK: AtomicBool = AtomicBool::new(false);
static SLOTS: AtomicPtr<(usize, usize)> = AtomicPtr::new(std::ptr::null_mut());
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static FULL: AtomicBool = AtomicBool::new(false);
const BITS: u32 = 21;
const N: usize = 1 << BITS;

fn home(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - BITS)
}
unsafe fn ledger_add(p: usize, size: usize) {
    let t = SLOTS.load(SeqCst);
    if p == 0 || t.is_null() {
        return;
    }
    TOTAL.fetch_add(size, SeqCst);
    if BLOCKS.load(SeqCst) > N / 2 {
        FULL.store(true, SeqCst);
        return;
    }
    let mut i = home(p);
    while (*t.add(i)).0 != 0 {
        i = (i + 1) % N;
    }
    *t.add(i) = (p, size);
    BLOCKS.fetch_add(1, SeqCst);
    let held = BYTES.fetch_add(size, SeqCst) + size;
    PEAK.fetch_max(held, SeqCst);
}
unsafe fn ledger_remove(p: usize) -> bool {
    let t = SLOTS.load(SeqCst);
    if p == 0 || t.is_null() {
        return false;
    }
    let mut i = home(p);
    loop {
        let (q, size) = *t.add(i);
        if q == 0 {
            return false;
        }
        if q == p {
            BLOCKS.fetch_sub(1, SeqCst);
            BYTES.fetch_sub(size, SeqCst);
            break;
        }
        i = (i + 1) % N;
    }
    // close the gap
    let mut j = i;
    loop {
        j = (j + 1) % N;
        let (q, _) = *t.add(j);
        if q == 0 {
            break;
        }
        let k = home(q);
        let between = if i <= j { i < k && k <= j } else { i < k || k <= j };
        if !between {
            *t.add(i) = *t.add(j);
            i = j;
        }
    }
    *t.add(i) = (0, 0);
    true
}

pub struct Ledger;
impl Ledger {
    pub fn open() -> Ledger {
        unsafe {
            if SLOTS.load(SeqCst).is_null() {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    N * std::mem::size_of::<(usize, usize)>(),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED, "mmap");
                SLOTS.store(p as *mut _, SeqCst);
            }
            let t = SLOTS.load(SeqCst);
            if BLOCKS.load(SeqCst) > 0 {
                // (gives the pages back as well)
                libc::madvise(t as *mut _, N * std::mem::size_of::<(usize, usize)>(), libc::MADV_DONTNEED);
            }
        }
        BLOCKS.store(0, SeqCst);
        BYTES.store(0, SeqCst);
        PEAK.store(0, SeqCst);
        TOTAL.store(0, SeqCst);
        FULL.store(false, SeqCst);
        TRACK.store(true, SeqCst);
        Ledger
    }
    /// starts a new measurement of the most held at once and of all ever allocated
    pub fn mark(&self) {
        PEAK.store(BYTES.load(SeqCst), SeqCst);
        TOTAL.store(0, SeqCst);
    }
    /// most bytes held at once, and bytes allocated altogether, since the mark
    pub fn spent(&self) -> (usize, usize) {
        (PEAK.load(SeqCst), TOTAL.load(SeqCst))
    }
    /// (blocks, bytes) held; None if the ledger overflowed
    pub fn held(&self) -> Option<(usize, usize)> {
        if FULL.load(SeqCst) {
            None
        } else {
            Some((BLOCKS.load(SeqCst), BYTES.load(SeqCst)))
        }
    }
}
impl Drop for Ledger {
    fn drop(&mut self) {
        TRACK.store(false, SeqCst);
    }
}
