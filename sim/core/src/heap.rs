//! SimHeap: the allocator seam. While the code under test runs (mode ON) every request is served
//! from a fixed-address checking arena and may be refused by the fault plan.
use crate::sim::{self, viol};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const OFF: u8 = 0; // harness: system allocator
pub const ON: u8 = 1; // code under test: arena, counted, refusable
pub const TRACK: u8 = 2; // harness building elements: arena, never refused, not counted

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 1 << 32;
const RECS: usize = 0x2800_0000_0000;
const MAXREC: usize = 1 << 23;
const HDR: usize = 16;
const TAIL: usize = 16;
const MAGIC: u64 = 0xA110_CA7E_D00D_F00D;
pub const P_NEW: u8 = 0xA5;
pub const P_FREE: u8 = 0xDD;
pub const P_GUARD: u8 = 0xFD;

thread_local! {
    pub static MODE: Cell<u8> = const { Cell::new(0) };
}
pub fn mode() -> u8 {
    MODE.with(|m| m.get())
}
pub fn set_mode(m: u8) -> u8 {
    MODE.with(|c| c.replace(m))
}
/// Scoped mode change.
pub struct ModeGuard(u8);
pub fn enter(m: u8) -> ModeGuard {
    ModeGuard(set_mode(m))
}
impl Drop for ModeGuard {
    fn drop(&mut self) {
        set_mode(self.0);
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
struct Rec {
    off: usize,
    size: usize,
    align: u32,
    live: u32,
}

pub struct Heap {
    mapped: bool,
    bump: usize,
    nrec: usize,
    pub live_blocks: usize,
    pub live_bytes: usize,
    // plan (armed per step)
    pub nth: [u32; 4],
    pub from: u32,
    pub outage: bool,
    pub quota: usize,
    pub maxreq: usize,
    // counters (per step)
    pub req: u32,        // requests made by the code under test in this step
    pub req_cb: u32,     // of which made by element callbacks (owned payloads)
    pub refused: u32,
    pub refused_big: u32, // refused because larger than the simulated machine
    pub in_cb: bool,
    pub own_max: usize, // largest single request of the crate since `cost_mark`
    pub own_sum: usize,
    pub own_n: u32,
    // totals
    pub tot_req: u64,
    pub tot_nth: u64,
    pub tot_from: u64,
    pub tot_outage: u64,
    pub tot_quota: u64,
    pub tot_big: u64,
    pub tot_freed: u64,
    pub moved: bool,
}
static mut H: Heap = Heap {
    mapped: false,
    bump: 0,
    nrec: 0,
    live_blocks: 0,
    live_bytes: 0,
    nth: [0; 4],
    from: 0,
    outage: false,
    quota: usize::MAX,
    maxreq: 4 << 20,
    req: 0,
    req_cb: 0,
    refused: 0,
    refused_big: 0,
    in_cb: false,
    own_max: 0,
    own_sum: 0,
    own_n: 0,
    tot_req: 0,
    tot_nth: 0,
    tot_from: 0,
    tot_outage: 0,
    tot_quota: 0,
    tot_big: 0,
    tot_freed: 0,
    moved: true,
};
pub fn h() -> &'static mut Heap {
    unsafe { &mut *core::ptr::addr_of_mut!(H) }
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(a: *mut u8, len: usize, adv: i32) -> i32;
}

fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}
fn rec(i: usize) -> &'static mut Rec {
    unsafe { &mut *(RECS as *mut Rec).add(i) }
}

impl Heap {
    pub fn init(&mut self) {
        if self.mapped {
            return;
        }
        unsafe {
            // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
            for (b, l) in [(BASE, SIZE), (RECS, MAXREC * std::mem::size_of::<Rec>())] {
                let p = mmap(b as *mut u8, l, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
                if p as usize != b {
                    eprintln!("HARNESS: cannot map simulated heap");
                    std::process::exit(2);
                }
            }
        }
        self.mapped = true;
    }
    pub fn reset(&mut self) {
        self.init();
        if self.bump > (32 << 20) {
            unsafe {
                madvise(BASE as *mut u8, self.bump, 4);
                madvise(RECS as *mut u8, self.nrec * std::mem::size_of::<Rec>(), 4);
            }
        }
        self.bump = 4096;
        self.nrec = 0;
        self.live_blocks = 0;
        self.live_bytes = 0;
        self.outage = false;
        self.quota = usize::MAX;
        self.maxreq = 4 << 20;
        self.arm(&[], 0);
    }
    pub fn arm(&mut self, nth: &[u32], from: u32) {
        self.nth = [0; 4];
        for (i, n) in nth.iter().take(4).enumerate() {
            self.nth[i] = *n;
        }
        self.from = from;
        self.req = 0;
        self.req_cb = 0;
        self.refused = 0;
        self.refused_big = 0;
        self.mark();
    }
    pub fn mark(&mut self) {
        self.own_max = 0;
        self.own_sum = 0;
        self.own_n = 0;
    }
    /// size of the live block that starts at `p`
    pub fn block_bytes(&self, p: *const u8) -> Option<usize> {
        if !in_arena(p as *mut u8) {
            return None;
        }
        self.lookup(p as *mut u8).filter(|i| rec(*i).live == 1).map(|i| rec(i).size)
    }
    fn refuse(&mut self, size: usize) -> bool {
        self.req += 1;
        self.tot_req += 1;
        if self.in_cb {
            self.req_cb += 1;
        } else {
            self.own_max = self.own_max.max(size);
            self.own_sum += size;
            self.own_n += 1;
        }
        if self.req == 5_000_000 {
            sim::hang("more than five million allocation requests in one step");
        }
        let mut r = false;
        if size > self.maxreq {
            self.tot_big += 1;
            self.refused_big += 1;
            r = true;
        } else if self.outage {
            self.tot_outage += 1;
            r = true;
        } else if self.nth.contains(&self.req) {
            self.tot_nth += 1;
            r = true;
        } else if self.from != 0 && self.req >= self.from {
            self.tot_from += 1;
            r = true;
        } else if self.live_bytes + size > self.quota {
            self.tot_quota += 1;
            r = true;
        }
        if r {
            self.refused += 1;
        }
        sim::dig(0xA110C ^ ((size as u64) << 8) ^ r as u64);
        r
    }
    unsafe fn raw_alloc(&mut self, l: Layout, zero: bool) -> *mut u8 {
        let (size, align) = (l.size(), l.align());
        let mut start = self.bump + HDR;
        let a = align.max(16);
        start = (start + a - 1) & !(a - 1);
        let end = start + size + TAIL;
        if end > SIZE || self.nrec >= MAXREC {
            self.refused += 1;
            self.refused_big += 1;
            return core::ptr::null_mut();
        }
        let p = (BASE + start) as *mut u8;
        *(p.sub(16) as *mut u64) = MAGIC ^ start as u64;
        *(p.sub(8) as *mut u64) = self.nrec as u64;
        core::ptr::write_bytes(p, if zero { 0 } else { P_NEW }, size);
        core::ptr::write_bytes(p.add(size), P_GUARD, TAIL);
        *rec(self.nrec) = Rec { off: start, size, align: align as u32, live: 1 };
        self.nrec += 1;
        self.live_blocks += 1;
        self.live_bytes += size;
        self.bump = end;
        p
    }
    fn lookup(&self, p: *mut u8) -> Option<usize> {
        let off = p as usize - BASE;
        if off < 4096 + HDR || off >= self.bump || off % 16 != 0 {
            return None;
        }
        unsafe {
            if *(p.sub(16) as *const u64) != MAGIC ^ off as u64 {
                return None;
            }
            let i = *(p.sub(8) as *const u64) as usize;
            if i >= self.nrec || rec(i).off != off {
                return None;
            }
            Some(i)
        }
    }
    fn check_tail(&self, i: usize) -> bool {
        let r = rec(i);
        unsafe {
            let t = (BASE + r.off + r.size) as *const u8;
            (0..TAIL).all(|k| *t.add(k) == P_GUARD)
                && *((BASE + r.off - 16) as *const u64) == MAGIC ^ r.off as u64
        }
    }
    unsafe fn raw_free(&mut self, p: *mut u8, l: Layout, what: &str) -> bool {
        let i = match self.lookup(p) {
            None => {
                viol("heap", || format!("{what} of an address that is not the start of a block"));
                return false;
            }
            Some(i) => i,
        };
        let r = rec(i);
        if r.live != 1 {
            viol("heap", || format!("{what} of an already released block of {} bytes", r.size));
            return false;
        }
        if r.size != l.size() || r.align as usize != l.align() {
            viol("heap", || {
                format!("{what} with layout size={} align={} of a block requested with size={} align={}", l.size(), l.align(), r.size, r.align)
            });
        }
        if !self.check_tail(i) {
            viol("heap", || format!("memory outside a block of {} bytes was overwritten", r.size));
        }
        r.live = 0;
        self.live_blocks -= 1;
        self.live_bytes -= r.size;
        self.tot_freed += 1;
        sim::dig(0xF4EE ^ ((r.size as u64) << 16));
        core::ptr::write_bytes(p, P_FREE, r.size);
        true
    }
    unsafe fn raw_realloc(&mut self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        // shrinking in place is legal too; both behaviours are simulated, chosen per run
        let n = self.raw_alloc(nl, false);
        if n.is_null() {
            return n;
        }
        let ok = match self.lookup(p) {
            Some(i) => rec(i).size,
            None => 0,
        };
        core::ptr::copy_nonoverlapping(p, n, ok.min(new));
        self.raw_free(p, l, "realloc");
        n
    }
    /// Full scan: guards of live blocks, poison of released blocks.
    pub fn scan(&mut self) {
        for i in 0..self.nrec {
            if !self.check_tail(i) {
                let r = *rec(i);
                viol("heap", || format!("memory outside a block of {} bytes was overwritten", r.size));
                return;
            }
            let r = rec(i);
            if r.live == 0 {
                let s = unsafe { std::slice::from_raw_parts((BASE + r.off) as *const u8, r.size) };
                if s.iter().any(|b| *b != P_FREE) {
                    viol("heap", || format!("a released block of {} bytes was written to", r.size));
                    return;
                }
            }
        }
    }
    pub fn peak(&self) -> usize {
        self.bump
    }
}

pub struct SimHeap;
unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = mode();
        if m == OFF || std::thread::panicking() {
            // a panic's own payload and message are the runtime's, not the crate's
            return System.alloc(l);
        }
        self.sim_alloc(l, false, m)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let m = mode();
        if m == OFF || std::thread::panicking() {
            return System.alloc_zeroed(l);
        }
        self.sim_alloc(l, true, m)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            let hh = h();
            if mode() == ON {
                sim::yield_point(1);
            }
            hh.raw_free(p, l, "release");
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let m = mode();
        if (m == OFF || std::thread::panicking()) && !in_arena(p) {
            return System.realloc(p, l, new);
        }
        let hh = h();
        if m == ON {
            sim::yield_point(0);
            if new == 0 {
                viol("heap", || "zero-sized reallocation request".to_string());
            }
            if hh.refuse(new) {
                return core::ptr::null_mut();
            }
        }
        if in_arena(p) {
            hh.raw_realloc(p, l, new)
        } else {
            let n = hh.raw_alloc(Layout::from_size_align_unchecked(new, l.align()), false);
            if !n.is_null() {
                core::ptr::copy_nonoverlapping(p, n, l.size().min(new));
                System.dealloc(p, l);
            }
            n
        }
    }
}
impl SimHeap {
    #[inline(never)]
    unsafe fn sim_alloc(&self, l: Layout, zero: bool, m: u8) -> *mut u8 {
        let hh = h();
        if m == ON {
            sim::yield_point(0);
            if l.size() == 0 {
                viol("heap", || "zero-sized allocation request".to_string());
            }
            if hh.refuse(l.size()) {
                return core::ptr::null_mut();
            }
        }
        hh.raw_alloc(l, zero)
    }
}
