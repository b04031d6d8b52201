//! The memory of the harness process.  While a thread is "guarded", what it
//! allocates ends at an inaccessible page, starts out filled with a pattern,
//! is poisoned when released, and is not used again for long; every
//! allocation and release may be logged, for HeapTrace.tla to judge.
//!
//! Reads and writes past the end kill the process; writes before the start
//! or after the release disturb the poison; a result that depends on memory
//! nobody wrote differs from one pattern to the other.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

const PAGE: usize = 4096;
const DATA: usize = 2 * PAGE;
const SLOT: usize = DATA + PAGE;
const SLOTS: usize = 2048; // of one arena
const ARENAS: usize = 9;
const POISON: u8 = 0xDD;
static POISONED: [u8; DATA] = [POISON; DATA];

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

#[repr(C)]
struct Block {
    id: AtomicU32,
    size: AtomicU32,
    align: AtomicU32,
    live: AtomicBool,
    noted: AtomicBool,
}
struct Arena {
    lock: AtomicBool,
    // queue of free slots
    free: [AtomicU32; SLOTS],
    head: AtomicUsize,
    tail: AtomicUsize,
    blocks: [Block; SLOTS],
}
static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static STATE: AtomicPtr<Arena> = AtomicPtr::new(std::ptr::null_mut());
static IDS: AtomicU32 = AtomicU32::new(1);
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static GUARDED: AtomicU64 = AtomicU64::new(0);
/// disturbed poison and the like, of threads that keep no log
static BAD: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy)]
pub struct Ev {
    pub id: i64, // negative: released; 0: something is wrong
    pub size: u32,
    pub align: u32,
}
pub struct Log {
    pub ev: Vec<Ev>, // never grows while logging
    pub lost: bool,
}

thread_local! {
    static ARENA: Cell<usize> = const { Cell::new(usize::MAX) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static PATTERN: Cell<u8> = const { Cell::new(0xA5) };
    static CALL: Cell<bool> = const { Cell::new(false) };
    static LOG: Cell<*mut Log> = const { Cell::new(std::ptr::null_mut()) };
}

/// Must be called once, before anything is guarded.
pub fn start() {
    unsafe {
        let n = ARENAS * SLOTS * SLOT + PAGE;
        // no access, private, anonymous, no reservation of memory
        let p = mmap(std::ptr::null_mut(), n, 0, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "no address space for guarded memory");
        let l = Layout::new::<[Arena; ARENAS]>();
        let st = System.alloc_zeroed(l) as *mut Arena;
        for a in 0..ARENAS {
            let ar = &*st.add(a);
            for s in 0..SLOTS {
                let q = p.add(PAGE + (a * SLOTS + s) * SLOT);
                assert_eq!(mprotect(q, DATA, 3), 0, "guarded memory");
                ar.free[s].store(s as u32, Relaxed);
            }
            ar.tail.store(SLOTS, Relaxed);
        }
        STATE.store(st, SeqCst);
        BASE.store(p.add(PAGE), SeqCst);
    }
}
fn bad(code: u32, id: u32) {
    BAD.fetch_add(1, Relaxed);
    log(Ev { id: 0, size: code, align: id });
}
fn log(e: Ev) {
    let l = LOG.with(|l| l.get());
    if !l.is_null() {
        let l = unsafe { &mut *l };
        if l.ev.len() < l.ev.capacity() {
            l.ev.push(e);
        } else {
            l.lost = true;
        }
    }
}
unsafe fn lock(a: &Arena) {
    while a.lock.swap(true, Acquire) {
        std::hint::spin_loop();
    }
}
/// arena, slot, and the slot's first byte
unsafe fn place(p: *mut u8) -> Option<(&'static Arena, usize, *mut u8)> {
    let b = BASE.load(Relaxed);
    if b.is_null() {
        return None;
    }
    let off = (p as usize).wrapping_sub(b as usize);
    if off >= ARENAS * SLOTS * SLOT {
        return None;
    }
    let s = off / SLOT;
    Some((&*STATE.load(Relaxed).add(s / SLOTS), s % SLOTS, b.add(s * SLOT)))
}
unsafe fn take(l: Layout) -> *mut u8 {
    let b = BASE.load(Relaxed);
    if b.is_null() || l.size() > DATA || l.size() == 0 || l.align() > 64 {
        return std::ptr::null_mut();
    }
    let mut n = ARENA.with(|a| a.get());
    if n == usize::MAX {
        n = NEXT.fetch_add(1, Relaxed) % ARENAS;
        ARENA.with(|a| a.set(n));
    }
    let ar = &*STATE.load(Relaxed).add(n);
    lock(ar);
    let h = ar.head.load(Relaxed);
    if h == ar.tail.load(Relaxed) {
        ar.lock.store(false, Release);
        return std::ptr::null_mut();
    }
    let s = ar.free[h % SLOTS].load(Relaxed) as usize;
    ar.head.store(h + 1, Relaxed);
    ar.lock.store(false, Release);
    let q = b.add((n * SLOTS + s) * SLOT);
    let k = &ar.blocks[s];
    let old = k.id.load(Relaxed);
    if old != 0 && std::slice::from_raw_parts(q, DATA) != &POISONED[..] {
        bad(1, old); // written after the release
    }
    if old == 0 {
        std::ptr::write_bytes(q, POISON, DATA);
    }
    // as late as the alignment allows
    let off = (DATA - l.size()) & !(l.align() - 1);
    let id = IDS.fetch_add(1, Relaxed);
    k.id.store(id, Relaxed);
    k.size.store(l.size() as u32, Relaxed);
    k.align.store(l.align() as u32, Relaxed);
    k.live.store(true, Release);
    std::ptr::write_bytes(q.add(off), PATTERN.with(|p| p.get()), l.size());
    GUARDED.fetch_add(1, Relaxed);
    let noted = CALL.with(|c| c.get());
    k.noted.store(noted, Relaxed);
    if noted {
        log(Ev { id: id as i64, size: l.size() as u32, align: l.align() as u32 });
    }
    q.add(off)
}
unsafe fn give(p: *mut u8, l: Layout) -> bool {
    let Some((ar, s, q)) = place(p) else { return false };
    let k = &ar.blocks[s];
    let id = k.id.load(Relaxed);
    if k.noted.load(Relaxed) {
        log(Ev { id: -(id as i64), size: l.size() as u32, align: l.align() as u32 });
    }
    if !k.live.swap(false, AcqRel) {
        bad(2, id); // released before
        return true;
    }
    let (size, align) = (k.size.load(Relaxed) as usize, k.align.load(Relaxed) as usize);
    let off = (DATA - size) & !(align - 1);
    if size != l.size() || align != l.align() || q.add(off) != p {
        bad(3, id); // not what was allocated
    }
    if std::slice::from_raw_parts(q, off) != &POISONED[..off] || std::slice::from_raw_parts(q.add(off + size), DATA - off - size) != &POISONED[..DATA - off - size] {
        bad(4, id); // written outside
    }
    std::ptr::write_bytes(q, POISON, DATA);
    lock(ar);
    let t = ar.tail.load(Relaxed);
    ar.free[t % SLOTS].store(s as u32, Relaxed);
    ar.tail.store(t + 1, Relaxed);
    ar.lock.store(false, Release);
    true
}

pub struct Guarded;
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.with(|o| o.get()) {
            let p = take(l);
            if !p.is_null() {
                return p;
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.with(|o| o.get()) {
            let p = take(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
                return p;
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !give(p, l) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if place(p).is_none() && !ON.with(|o| o.get()) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

struct Back(bool);
impl Drop for Back {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}
fn with<R>(on: bool, f: impl FnOnce() -> R) -> R {
    let _b = Back(ON.with(|o| o.replace(on)));
    f()
}
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    with(true, f)
}
/// what the harness allocates for longer than a history
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    with(false, f)
}
/// what is allocated in f is allocated by a call of the library
pub fn call<R>(f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            CALL.with(|c| c.set(self.0));
        }
    }
    let _b = Back(CALL.with(|c| c.replace(true)));
    f()
}
pub fn guard_this_thread() {
    ON.with(|o| o.set(true));
}
pub fn wrong() -> u64 {
    BAD.load(Relaxed)
}

/// Runs f guarded, with what it allocates filled with the pattern, and
/// returns a copy of what it returns, with the log.
pub fn logged(pattern: u8, f: impl FnOnce() -> Vec<String>) -> (Vec<String>, Log) {
    let mut l = Log { ev: Vec::with_capacity(1 << 20), lost: false };
    let base = IDS.load(Relaxed) as i64;
    PATTERN.with(|p| p.set(pattern));
    LOG.with(|x| x.set(&mut l));
    let rows = on(f);
    let copy = off(|| rows.iter().map(|s| s.as_str().to_string()).collect());
    drop(rows);
    LOG.with(|x| x.set(std::ptr::null_mut()));
    for e in &mut l.ev {
        if e.id != 0 {
            // the names of blocks are arbitrary: count from one
            e.id = if e.id > 0 { e.id - base + 1 } else { e.id + base - 1 };
        }
    }
    (copy, l)
}
