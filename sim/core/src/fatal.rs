//! How a run ends when the process dies.
#![allow(static_mut_refs)]
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};

// ---------------------------------------------------------------- fatal ends
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    pub fn _exit(c: i32) -> !;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn open(p: *const u8, fl: i32, ...) -> i32;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
#[repr(C)]
struct SigAction {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
pub static RUN: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicUsize = AtomicUsize::new(0);
static OPP: AtomicPtr<u8> = AtomicPtr::new(core::ptr::null_mut());
static OPL: AtomicUsize = AtomicUsize::new(0);
pub static TICK_RUN: AtomicU64 = AtomicU64::new(u64::MAX);
pub static TICKS: AtomicU64 = AtomicU64::new(0);
static ALTSTACK: [u64; 16384] = [0; 16384];
static mut ALTBUF: [u64; 16384] = ALTSTACK;

pub fn set_crash_step(i: usize, op: &'static str) {
    STEP.store(i, Ordering::Relaxed);
    OPP.store(op.as_ptr() as *mut u8, Ordering::Relaxed);
    OPL.store(op.len(), Ordering::Relaxed);
}
struct Line([u8; 512], usize);
impl Line {
    fn s(&mut self, x: &[u8]) {
        for c in x {
            if self.1 < 511 {
                self.0[self.1] = *c;
                self.1 += 1;
            }
        }
    }
    fn n(&mut self, mut v: u64) {
        let mut b = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            b[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        self.s(&b[i..]);
    }
}
pub fn emit_fatal(class: &str, msg: &str) -> ! {
    let mut l = Line([0; 512], 0);
    l.s(b"\nV ");
    l.n(RUN.load(Ordering::Relaxed));
    l.s(b" ");
    l.s(class.as_bytes());
    l.s(b" ");
    l.n(STEP.load(Ordering::Relaxed) as u64);
    l.s(b" ");
    let n = OPL.load(Ordering::Relaxed);
    if n > 0 {
        l.s(unsafe { std::slice::from_raw_parts(OPP.load(Ordering::Relaxed), n) });
    } else {
        l.s(b"-");
    }
    l.s(b" ");
    l.s(msg.as_bytes());
    l.s(b"\n");
    unsafe {
        write(1, l.0.as_ptr() as *const std::ffi::c_void, l.1);
        _exit(if class == "hang" { 12 } else { 11 })
    }
}
extern "C" fn on_signal(sig: i32) {
    let m = match sig {
        6 => "the process aborted",
        4 => "illegal instruction (abort)",
        7 => "bus error",
        8 => "arithmetic trap",
        11 => "segmentation fault",
        _ => "fatal signal",
    };
    emit_fatal("crash", m)
}
extern "C" fn on_tick(_: i32) {
    let r = RUN.load(Ordering::Relaxed);
    if TICK_RUN.swap(r, Ordering::Relaxed) == r {
        if TICKS.fetch_add(1, Ordering::Relaxed) + 1 >= 10 {
            emit_fatal("hang", "no progress for twenty seconds of processor time")
        }
    } else {
        TICKS.store(0, Ordering::Relaxed);
    }
}
pub fn install() {
    unsafe {
        let ss = StackT { sp: core::ptr::addr_of_mut!(ALTBUF) as *mut u8, flags: 0, size: 16384 * 8 };
        sigaltstack(&ss, core::ptr::null_mut());
        for s in [4, 6, 7, 8, 11] {
            let a = SigAction { h: on_signal as *const () as usize, mask: [0; 16], flags: 0x08000000 | 0x40000000, restorer: 0 };
            sigaction(s, &a, core::ptr::null_mut());
        }
        let a = SigAction { h: on_tick as *const () as usize, mask: [0; 16], flags: 0x08000000 | 0x10000000, restorer: 0 };
        sigaction(26, &a, core::ptr::null_mut());
        setitimer(1, &[2, 0, 2, 0], core::ptr::null_mut());
    }
}

