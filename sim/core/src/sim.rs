//! Simulator state: callback seam, element ledger, violations, digest, step protocol.
use crate::heap::{self, h, OFF, ON};
use crate::trace::Step;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Kinds of callback into user code.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Clone = 0,
    Cmp = 1,
    Hash = 2,
    Drop = 3,
    Call = 4,
    Next = 5,
    Io = 6,
    Fmt = 7,
}
pub const NK: usize = 8;
pub const KNAMES: [&str; NK] = ["clone", "cmp", "hash", "drop", "call", "next", "io", "fmt"];

#[derive(Clone, Copy)]
pub struct Obj {
    pub live: bool,
    pub val: u32,
    pub origin: u32,
}

pub struct Injected;

pub struct Sim {
    pub viols: Vec<(&'static str, String)>,
    pub digest: u64,
    // run
    pub run: u64,
    pub step: usize,
    pub op: &'static str,
    pub ordmode: u64,
    pub hashmode: u64,
    pub chaos: u64, // state of the inconsistent comparison generator
    pub seedctr: u64,
    pub after_panic: bool, // an injected panic happened in this run (leaks tolerated from then on)
    pub zleak: i64,
    // ledger
    pub objs: Vec<Obj>,
    pub live: i64,
    pub zlive: i64,
    pub leaked: i64,
    // step plan
    pub pk: u8,
    pub pn: u32,
    pub efail: u32,
    pub cnt: [u32; NK],
    pub clone_failed: u32,
    pub injected: bool,
    pub io_err: u32,
    pub panic_msg: String,
    // totals
    pub runs: u64,
    pub steps: u64,
    pub tot_panic: [u64; NK],
    pub tot_clonefail: u64,
    pub tot_io: BTreeMap<&'static str, u64>,
    pub opstats: BTreeMap<(&'static str, &'static str), u64>,
    /// observations that leave contents and models in step, and that the profile does not own
    pub soft: BTreeMap<(&'static str, &'static str), u64>,
    pub prof: Option<&'static crate::gen::Prof>,
    pub feats: HashSet<u64>,
    pub known: bool,
    pub sched: Option<fn(u8)>,
    pub odig: u64,
    pub multi: bool,
    pub had_err: bool,
    /// calls into user code the next operation may make, by kind; consumed by it
    pub allow: [u32; NK],
    /// the same for the rest of the step, drawn on once `allow` is spent
    pub pool: [u32; NK],
}
static mut S: Option<Box<Sim>> = None;
pub fn s() -> &'static mut Sim {
    unsafe { (*core::ptr::addr_of_mut!(S)).as_mut().unwrap() }
}
pub fn init() {
    let sim = Sim {
        viols: vec![],
        digest: 0,
        run: 0,
        step: 0,
        op: "",
        ordmode: 0,
        hashmode: 0,
        chaos: 0,
        seedctr: 0,
        after_panic: false,
        zleak: 0,
        objs: vec![],
        live: 0,
        zlive: 0,
        leaked: 0,
        pk: 255,
        pn: 0,
        efail: 0,
        cnt: [0; NK],
        clone_failed: 0,
        injected: false,
        io_err: 0,
        panic_msg: String::new(),
        runs: 0,
        steps: 0,
        tot_panic: [0; NK],
        tot_clonefail: 0,
        tot_io: BTreeMap::new(),
        opstats: BTreeMap::new(),
        soft: BTreeMap::new(),
        prof: None,
        feats: HashSet::new(),
        known: false,
        sched: None,
        odig: 0,
        multi: false,
        had_err: false,
        allow: [0; NK],
        pool: [0; NK],
    };
    unsafe {
        *core::ptr::addr_of_mut!(S) = Some(Box::new(sim));
    }
    h().init();
    std::panic::set_hook(Box::new(|info| {
        heap::set_mode(OFF);
        let m = info.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        s().panic_msg = format!("{m} at {loc}");
        if heap::mode() == OFF && std::env::var_os("FCSIM_TRACE_PANIC").is_some() {
            eprintln!("panic: {m} at {loc}");
        }
    }));
}
pub fn reset_run(run: u64) {
    let z = s();
    z.viols.clear();
    z.digest = 0xcbf29ce484222325;
    z.run = run;
    z.step = 0;
    z.op = "start";
    z.ordmode = 0;
    z.hashmode = 0;
    z.chaos = 0x1234567;
    z.seedctr = 0;
    z.after_panic = false;
    z.zleak = 0;
    z.objs.clear();
    z.objs.push(Obj { live: false, val: 0, origin: 0 });
    z.live = 0;
    z.zlive = 0;
    z.leaked = 0;
    z.known = false;
    z.sched = None;
    z.odig = 0;
    z.multi = false;
    z.had_err = false;
    disarm();
    h().reset();
}
#[inline]
pub fn dig(x: u64) {
    let z = s();
    z.digest = (z.digest ^ x).wrapping_mul(0x100000001b3).rotate_left(29) ^ (x >> 17);
}
/// Measurements: an excess says nothing about the contents, so a run can go on after one that is not
/// its property's business, instead of hiding what would have followed.
const SOFT: &[&str] = &["work", "cost", "needless", "alloc", "reserve", "spurious", "mem", "fmt"];
pub fn viol(class: &'static str, f: impl FnOnce() -> String) {
    let z = s();
    if let Some(p) = z.prof {
        if SOFT.contains(&class) && !p.threads && !crate::props::owns(p, class, z.op, z.had_err, z.after_panic, h().refused > 0) {
            let _g = heap::enter(OFF);
            *z.soft.entry((class, z.op)).or_insert(0) += 1;
            return;
        }
    }
    if z.viols.len() < 6 {
        let _g = heap::enter(OFF);
        let m = f();
        z.viols.push((class, m));
    }
}
pub fn failed() -> bool {
    !s().viols.is_empty()
}
pub fn hang(m: &str) -> ! {
    crate::fatal::emit_fatal("hang", m)
}
#[inline]
pub fn yield_point(kind: u8) {
    if let Some(f) = s().sched {
        f(kind)
    }
}

pub fn disarm() {
    let z = s();
    z.pk = 255;
    z.pn = 0;
    z.efail = 0;
    z.cnt = [0; NK];
    z.allow = [0; NK];
    z.pool = [0; NK];
    z.clone_failed = 0;
    z.injected = false;
    z.io_err = 0;
}
pub fn begin_step(i: usize, st: &Step) {
    let z = s();
    disarm();
    z.step = i;
    z.op = st.op;
    z.steps += 1;
    if let Some((k, n)) = st.p {
        z.pk = k;
        z.pn = n;
    }
    z.efail = st.e;
    h().arm(&st.f, st.from);
    crate::fatal::set_crash_step(i, st.op);
    dig(i as u64 ^ 0x57E9);
}

/// Called by every user callback. Returns true if a fallible callback must report failure.
pub fn cb(k: K) -> bool {
    if heap::mode() != ON {
        return false;
    }
    let z = s();
    yield_point(2);
    let c = &mut z.cnt[k as usize];
    *c += 1;
    if *c == 20_000_000 {
        hang("more than twenty million callbacks in one step");
    }
    let c = *c;
    if z.pk == k as u8 && z.pn == c && !std::thread::panicking() {
        z.tot_panic[k as usize] += 1;
        z.injected = true;
        z.after_panic = true;
        z.pk = 255;
        dig(0xBAD0 ^ k as u64);
        heap::set_mode(OFF);
        std::panic::resume_unwind(Box::new(Injected));
    }
    if k == K::Clone && z.efail == c {
        z.tot_clonefail += 1;
        z.clone_failed += 1;
        dig(0xC10E);
        return true;
    }
    false
}

/// The next operation may call user code of kind `k` up to `n` more times. Kinds it was not given
/// (clone, compare, hash, closure, iterator step, format) it must not call at all.
pub fn may(k: K, n: usize) {
    let a = &mut s().allow[k as usize];
    *a = a.saturating_add(n.min(u32::MAX as usize) as u32);
}
/// As `may`, for all further operations of this step together.
pub fn pool(k: K, n: usize) {
    let a = &mut s().pool[k as usize];
    *a = a.saturating_add(n.min(u32::MAX as usize) as u32);
}
struct Budget([u32; NK], [u32; NK]);
fn budget() -> Budget {
    let z = s();
    Budget(std::mem::replace(&mut z.allow, [0; NK]), z.cnt)
}
impl Budget {
    fn settle(&self) {
        let z = s();
        if z.after_panic || z.ordmode == crate::elem::CHAOS {
            return;
        }
        for k in [K::Clone, K::Cmp, K::Hash, K::Call, K::Next, K::Fmt] {
            let (n, most) = (z.cnt[k as usize] - self.1[k as usize], self.0[k as usize]);
            if n > most {
                let p = &mut z.pool[k as usize];
                if n - most > *p {
                    let most = most + *p;
                    viol("work", || format!("{} made {n} {} call(s) into user code where at most {most} are needed", s().op, KNAMES[k as usize]));
                }
                *p = p.saturating_sub(n - most);
            }
        }
    }
}

/// Run code of the crate under test. None: an injected panic propagated (as it must).
pub fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    let b = budget();
    let r = {
        let g = heap::enter(ON);
        let r = catch_unwind(AssertUnwindSafe(f));
        heap::set_mode(OFF);
        drop(g);
        heap::set_mode(OFF);
        r
    };
    b.settle();
    match r {
        Ok(x) => {
            if s().injected {
                // the panic was raised but somebody swallowed it
                viol("panic", || "an injected user panic did not reach the caller".into());
            }
            Some(x)
        }
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                s().injected = false;
                dig(0x9A21C);
                None
            } else {
                s().after_panic = true;
                if s().ordmode == crate::elem::CHAOS {
                    // a comparison that contradicts itself may make operations panic
                    std::mem::forget(p);
                    return None;
                }
                let m = s().panic_msg.clone();
                let fault = h().refused > 0;
                viol(if fault { "abort" } else { "panic" }, || format!("unexpected panic{}: {m}", if fault { " after a refused request" } else { "" }));
                std::mem::forget(p);
                None
            }
        }
    }
}
/// As `call`, for operations that must not need memory.
pub fn pure<T>(f: impl FnOnce() -> T) -> Option<T> {
    let before = h().req;
    let r = call(f);
    let n = h().req - before;
    if n > 0 {
        viol("alloc", || format!("{} made {n} allocation request(s) although it cannot report failure", s().op));
    }
    r
}
/// As `call`, for operations that may or must panic by documented contract (bad index, bad range,
/// bulk operations without an error channel). Err(true): an injected panic; Err(false): their own.
pub fn call_panicky<T>(f: impl FnOnce() -> T) -> Result<T, bool> {
    let b = budget();
    let r = {
        let g = heap::enter(ON);
        let r = catch_unwind(AssertUnwindSafe(f));
        heap::set_mode(OFF);
        drop(g);
        heap::set_mode(OFF);
        r
    };
    b.settle();
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            let inj = p.downcast_ref::<Injected>().is_some();
            s().injected = false;
            std::mem::forget(p);
            Err(inj)
        }
    }
}
/// Harness-side inspection of containers: no faults, no counting; a panic is a violation.
pub fn look<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(x) => Some(x),
        Err(p) => {
            heap::set_mode(OFF);
            let m = s().panic_msg.clone();
            viol("panic", || format!("panic while inspecting the container: {m}"));
            std::mem::forget(p);
            None
        }
    }
}

/// Record the outcome of an operation for reach statistics.
pub fn outcome(o: &'static str, size: usize) {
    let z = s();
    *z.opstats.entry((z.op, o)).or_insert(0) += 1;
    let b = (usize::BITS - size.leading_zeros()) as u64;
    let hh = h();
    let f = crate::rng::mix(hash_str(z.op) ^ hash_str(o).rotate_left(13) ^ (b << 3) ^ ((hh.refused.min(3) as u64) << 40) ^ ((z.clone_failed.min(1) as u64) << 44) ^ ((hh.outage as u64) << 46) ^ ((hh.req.min(4) as u64) << 48));
    z.feats.insert(f);
    z.odig = crate::rng::mix(z.odig ^ f ^ ((size as u64) << 7));
    if o == "err" {
        z.had_err = true;
    }
    dig(f);
}
pub fn hash_str(x: &str) -> u64 {
    x.bytes().fold(0xcbf29ce484222325, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn io_count(k: &'static str) {
    *s().tot_io.entry(k).or_insert(0) += 1;
}

/// An operation returned an allocation error: was it entitled to?
/// `impossible`: the request exceeds any address space, so an error is the only right answer.
pub fn err_justified(impossible: bool) {
    let z = s();
    z.had_err = true;
    if h().refused == 0 && z.clone_failed == 0 && !impossible {
        viol("spurious", || format!("{} reported an allocation error although no request was refused", s().op));
    }
}

/// requests of the crate itself in this step, not counting those of element callbacks
pub fn own_requests() -> u32 {
    h().req - h().req_cb
}
/// An operation that visibly needs no new memory must not ask for any: a refusal would be spurious.
pub fn needless(before: u32, what: &str) {
    let n = own_requests() - before;
    if n > 0 && s().ordmode != crate::elem::CHAOS {
        viol("needless", || format!("{}: {n} allocation request(s) for {what}", s().op));
    }
}

/// Memory obtained by a successful insertion must be memory it keeps.
pub fn kept(blocks_before: usize, what: &str) {
    let hh = h();
    let z = s();
    if z.multi || hh.refused > 0 || z.ordmode == crate::elem::CHAOS {
        return;
    }
    if hh.own_n as usize != hh.live_blocks.wrapping_sub(blocks_before) {
        viol("needless", || format!("{}: {} allocation request(s) for {what}, of which {} were kept", s().op, hh.own_n, hh.live_blocks as i64 - blocks_before as i64));
    }
}
/// The crate's own requests since the last `mark` were no larger and no more than the operation needs.
pub fn cost(max_bytes: usize, max_requests: u32, need: impl std::fmt::Display) {
    let hh = h();
    if s().ordmode == crate::elem::CHAOS {
        return;
    }
    if hh.own_max > max_bytes {
        viol("cost", || format!("{}: a request of {} bytes where at most {max_bytes} are needed ({need})", s().op, hh.own_max));
    }
    if hh.own_n > max_requests + hh.refused {
        viol("cost", || format!("{}: {} requests where at most {max_requests} are needed ({need})", s().op, hh.own_n));
    }
}

/// Element ledger.
pub fn new_obj(val: u32, origin: u32) -> u32 {
    let z = s();
    let _g = heap::enter(OFF);
    let id = z.objs.len() as u32;
    z.objs.push(Obj { live: true, val, origin });
    z.live += 1;
    dig(0x0B1 ^ ((id as u64) << 20) ^ val as u64);
    id
}
pub fn drop_obj(id: u32, val: u32) {
    let z = s();
    match z.objs.get_mut(id as usize) {
        None => viol("own", || format!("drop of something that was never an element (id {id})")),
        Some(o) if !o.live => viol("own", || format!("element {id} (value {val}) dropped twice")),
        Some(o) => {
            if o.val != val {
                let ov = o.val;
                viol("own", || format!("element {id} dropped with value {val} instead of {ov}"));
            }
            o.live = false;
            z.live -= 1;
            dig(0xD209 ^ ((id as u64) << 20));
        }
    }
}
pub fn check_obj(id: u32, val: u32) -> bool {
    match s().objs.get(id as usize) {
        None => {
            viol("own", || format!("access to something that was never an element (id {id})"));
            false
        }
        Some(o) if !o.live => {
            viol("own", || format!("access to element {id} (value {val}) after it was dropped"));
            false
        }
        Some(o) => {
            if o.val != val {
                let ov = o.val;
                viol("own", || format!("element {id} has value {val} instead of {ov}"));
                return false;
            }
            true
        }
    }
}
