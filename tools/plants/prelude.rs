// ---- shared support of the demonstrations -------------------------------------------------
#![allow(dead_code, unused_imports, unused_variables, unused_mut, deprecated, static_mut_refs)]
use fallible_collections as fc;
use fc::{TryClone, TryReserveError};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};

/// Checks every deallocation against its allocation; can refuse memory; counts.
struct Heap;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// allocations still granted to this thread; negative: all of them
    static GRANT: Cell<isize> = const { Cell::new(-1) };
    /// largest request granted to this thread
    static LARGEST: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn head(l: Layout) -> usize {
    l.align().max(32)
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let g = GRANT.with(|g| g.get());
        if g == 0 {
            return std::ptr::null_mut();
        }
        if g > 0 {
            GRANT.with(|c| c.set(g - 1));
        }
        if l.size() > LARGEST.with(|c| c.get()) {
            return std::ptr::null_mut();
        }
        let h = head(l);
        let Some(total) = l.size().checked_add(h) else { return std::ptr::null_mut() };
        let Ok(ll) = Layout::from_size_align(total, l.align().max(16)) else { return std::ptr::null_mut() };
        let p = System.alloc(ll);
        if p.is_null() {
            return p;
        }
        // poison, so that memory used without having been written shows
        std::ptr::write_bytes(p, 0xA5, total.min(1 << 16));
        let u = p.add(h);
        (u as *mut usize).sub(1).write(l.size());
        (u as *mut usize).sub(2).write(l.align());
        LIVE.fetch_add(1, SeqCst);
        ALLOCS.fetch_add(1, SeqCst);
        BYTES.fetch_add(l.size(), SeqCst);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let (s, a) = ((u as *mut usize).sub(1).read(), (u as *mut usize).sub(2).read());
        if (s, a) != (l.size(), l.align()) {
            BAD.fetch_add(1, SeqCst);
        }
        LIVE.fetch_sub(1, SeqCst);
        if a != l.align() || s == usize::MAX {
            return;
        }
        (u as *mut usize).sub(1).write(usize::MAX);
        let l = Layout::from_size_align_unchecked(s, a);
        System.dealloc(u.sub(head(l)), Layout::from_size_align_unchecked(s + head(l), a.max(16)));
    }
    unsafe fn realloc(&self, u: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(u, n, l.size().min(new));
            self.dealloc(u, l);
        }
        n
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

/// The next `n` allocations of this thread succeed, later ones are refused.
fn grant(n: isize) {
    GRANT.with(|g| g.set(n));
}
fn unlimited() {
    grant(-1);
}
/// Runs `f` with only `n` allocations granted.
fn with_grant<R>(n: isize, f: impl FnOnce() -> R) -> R {
    grant(n);
    let r = f();
    unlimited();
    r
}
/// Runs `f` with every request of more than `max` bytes refused.
fn with_limit<R>(max: usize, f: impl FnOnce() -> R) -> R {
    LARGEST.with(|c| c.set(max));
    let r = f();
    LARGEST.with(|c| c.set(usize::MAX));
    r
}
fn live() -> isize {
    LIVE.load(SeqCst)
}
fn allocs() -> usize {
    ALLOCS.load(SeqCst)
}
fn bad_frees() -> usize {
    BAD.load(SeqCst)
}

/// An element that knows whether it is alive and whose clone can be made to fail.
#[derive(Debug)]
struct D {
    id: u32,
    serial: usize,
    tag: Box<u32>,
}
static SERIAL: AtomicUsize = AtomicUsize::new(0);
static ALIVE: AtomicIsize = AtomicIsize::new(0);
const MAXD: usize = 1 << 20;
static mut DROPPED: [u8; MAXD] = [0; MAXD];
static DOUBLE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static CLONES: Cell<isize> = const { Cell::new(-1) };
    static PANIC_DROP: Cell<u32> = const { Cell::new(u32::MAX) };
}
/// The next `n` clones succeed, the one after that fails.
fn clones(n: isize) {
    CLONES.with(|c| c.set(n));
}
fn panic_on_drop_of(id: u32) {
    PANIC_DROP.with(|c| c.set(id));
}
fn alive() -> isize {
    ALIVE.load(SeqCst)
}
fn double_drops() -> usize {
    DOUBLE.load(SeqCst)
}
impl D {
    fn new(id: u32) -> D {
        ALIVE.fetch_add(1, SeqCst);
        D { id, serial: SERIAL.fetch_add(1, SeqCst) % MAXD, tag: Box::new(id) }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        let s = self.serial % MAXD;
        unsafe {
            if DROPPED[s] != 0 {
                DOUBLE.fetch_add(1, SeqCst);
                println!("element {} dropped twice", self.id);
                std::process::exit(66);
            }
            DROPPED[s] = 1;
        }
        ALIVE.fetch_sub(1, SeqCst);
        if PANIC_DROP.with(|c| c.get()) == self.id {
            PANIC_DROP.with(|c| c.set(u32::MAX));
            panic!("destructor of {} panics", self.id);
        }
    }
}
fn oom() -> TryReserveError {
    let mut v: Vec<[u8; 1024]> = Vec::new();
    v.try_reserve(!0).unwrap_err()
}
impl TryClone for D {
    fn try_clone(&self) -> Result<D, TryReserveError> {
        let n = CLONES.with(|c| c.get());
        if n == 0 {
            return Err(oom());
        }
        if n > 0 {
            CLONES.with(|c| c.set(n - 1));
        }
        Ok(D::new(self.id))
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.id == o.id
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
impl std::hash::Hash for D {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
fn main() {
    demo();
    assert_eq!(bad_frees(), 0, "a block was freed with a layout it was not allocated with");
    println!("ok");
}
// ---- the demonstration ---------------------------------------------------------------------
