//! World "thr": several threads, each with containers of its own plus read access to shared ones.
//! Real threads, but exactly one runs at a time: a baton changes hands only at the yield points of
//! the simulator (allocator requests, releases and callbacks), where the trace says so.
use crate::elem::*;
use crate::heap::{self, h, OFF};
use crate::rng::mix;
use crate::sim::*;
use crate::trace::{Step, Trace};
use crate::world::World;
use fallible_collections::{TryClone, TryVec};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};


struct Ctx {
    pk: u8,
    pn: u32,
    efail: u32,
    cnt: [u32; NK],
    allow: [u32; NK],
    pool: [u32; NK],
    clone_failed: u32,
    injected: bool,
    io_err: u32,
    panic_msg: String,
    step: usize,
    op: &'static str,
    after_panic: bool,
    had_err: bool,
    seedctr: u64,
    odig: u64,
    nth: [u32; 4],
    from: u32,
    outage: bool,
    quota: usize,
    req: u32,
    req_cb: u32,
    refused: u32,
    refused_big: u32,
    in_cb: bool,
    own_max: usize,
    own_sum: usize,
    own_n: u32,
}
fn fresh(seed: u64) -> Ctx {
    Ctx {
        pk: 255,
        pn: 0,
        efail: 0,
        cnt: [0; NK],
        allow: [0; NK],
        pool: [0; NK],
        clone_failed: 0,
        injected: false,
        io_err: 0,
        panic_msg: String::new(),
        step: 0,
        op: "start",
        after_panic: false,
        had_err: false,
        seedctr: seed,
        odig: 0,
        nth: [0; 4],
        from: 0,
        outage: false,
        quota: usize::MAX,
        req: 0,
        req_cb: 0,
        refused: 0,
        refused_big: 0,
        in_cb: false,
        own_max: 0,
        own_sum: 0,
        own_n: 0,
    }
}
fn swap(c: &mut Ctx) {
    let z = s();
    let hh = h();
    macro_rules! sw { ($o:ident: $($f:ident),*) => { $( std::mem::swap(&mut c.$f, &mut $o.$f); )* } }
    sw!(z: pk, pn, efail, cnt, allow, pool, clone_failed, injected, io_err, panic_msg, step, op, after_panic, had_err, seedctr, odig);
    sw!(hh: nth, from, outage, quota, req, req_cb, refused, refused_big, in_cb, own_max, own_sum, own_n);
}

struct Baton {
    lock: Mutex<usize>,
    cond: Condvar,
    ctx: Vec<Ctx>,
    alive: Vec<bool>,
    yields: u64,
    plan: Vec<(u64, u32)>,
    next: usize,
    switches: u64,
}
static mut B: Option<Box<Baton>> = None;
fn b() -> &'static mut Baton {
    unsafe { (*core::ptr::addr_of_mut!(B)).as_mut().unwrap() }
}
thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
}
const MAIN: usize = usize::MAX;

fn wait_for(me: usize) {
    let bt = b();
    let mut g = bt.lock.lock().unwrap();
    while *g != me {
        g = bt.cond.wait(g).unwrap();
    }
}
fn hand(to: usize) {
    let bt = b();
    *bt.lock.lock().unwrap() = to;
    bt.cond.notify_all();
}
/// the simulator's preemption point
fn preempt(kind: u8) {
    let bt = b();
    bt.yields += 1;
    if bt.next >= bt.plan.len() || bt.plan[bt.next].0 > bt.yields {
        return;
    }
    let _g = heap::enter(OFF);
    let (_, c) = bt.plan[bt.next];
    bt.next += 1;
    let me = TID.with(|t| t.get());
    let n = bt.alive.len();
    let mut to = me;
    for q in 0..n {
        let cand = (c as usize + q) % n;
        if bt.alive[cand] && cand != me {
            to = cand;
            break;
        }
    }
    if to == me {
        return;
    }
    dig(0x5C4ED ^ (to as u64) << 8 ^ (kind as u64) << 20);
    bt.switches += 1;
    swap(&mut bt.ctx[me]);
    swap(&mut bt.ctx[to]);
    hand(to);
    wait_for(me);
}
fn finish_thread(me: usize) {
    let bt = b();
    swap(&mut bt.ctx[me]);
    bt.alive[me] = false;
    match bt.alive.iter().position(|x| *x) {
        Some(to) => {
            swap(&mut bt.ctx[to]);
            hand(to)
        }
        None => hand(MAIN),
    }
}

struct Shared {
    v: TryVec<Plain>,
    vk: Vec<M>,
    #[cfg(feature = "cfg_unstable")]
    m: fallible_collections::btree::BTreeMap<Plain, Plain>,
    #[cfg(not(feature = "cfg_unstable"))]
    m: fallible_collections::TryHashMap<Plain, Plain>,
    mk: Vec<(M, M)>,
}
impl Shared {
    fn new(n: usize) -> Shared {
        // what these operations cost is not the question here
        s().pool = [1 << 20; NK];
        let es: Vec<Plain> = (0..n as u32).map(|x| Plain::mk(x * 3)).collect();
        let vk = es.iter().map(|e| e.m()).collect();
        let mut sh = Shared { v: TryVec::from(es), vk, m: Default::default(), mk: vec![] };
        for x in 0..n as u32 {
            let (k, v) = (Plain::mk(x * 2), Plain::mk(x));
            let (km, vm) = (k.m(), v.m());
            #[cfg(feature = "cfg_unstable")]
            let r = call(|| sh.m.try_insert(k, v).is_ok());
            #[cfg(not(feature = "cfg_unstable"))]
            let r = call(|| sh.m.insert(k, v).is_ok());
            if r == Some(true) {
                sh.mk.push((km, vm));
            }
        }
        sh.mk.sort_by_key(|x| ordkey(x.0.val));
        sh
    }
    fn entries(&self) -> i64 {
        (self.vk.len() + self.mk.len() * 2) as i64
    }
    fn op(&self, st: &Step) {
        let n = self.vk.len();
        s().pool = [1 << 20; NK];
        match st.op {
            "sh.vec" => {
                let p = st.a as usize % (n + 1);
                let r = pure(|| (self.v.len(), self.v.get(p).map(|x| x.m()), self.v.iter().map(|x| x.m()).eq(self.vk.iter().copied()), self.v == self.v));
                if let Some(r) = r {
                    if r != (n, self.vk.get(p).copied(), true, true) {
                        viol("isolation", || "a shared vector read differently while other threads ran".into());
                    }
                }
                outcome("ok", n);
            }
            "sh.vecclone" => match call(|| self.v.try_clone()) {
                Some(Ok(c)) => {
                    let cm: Vec<M> = c.iter().map(|x| x.m()).collect();
                    if cm.len() != n || !cm.iter().zip(&self.vk).all(|(a, b)| is_clone(*a, *b)) {
                        viol("isolation", || "a clone of a shared vector differs from it".into());
                    }
                    outcome("ok", n);
                    pure(move || drop(c));
                }
                Some(Err(_)) => {
                    err_justified(false);
                    outcome("err", n);
                }
                None => outcome("panic", n),
            },
            "sh.map" => {
                let q = st.a as u32 % (2 * n as u32 + 3);
                let got = pure(|| self.m.get(&Q(q)).map(|v| v.m()));
                let want = self.mk.iter().find(|x| ordkey(x.0.val) == ordkey(q)).map(|x| x.1);
                if let Some(got) = got {
                    if got != want {
                        viol("isolation", || format!("lookup of {q} in a shared map gave {got:?}, expected {want:?}"));
                    }
                }
                outcome("ok", n);
            }
            "sh.mapiter" => {
                let got = pure(|| {
                    let mut v: Vec<(M, M)> = {
                        let _g = heap::enter(OFF);
                        Vec::with_capacity(self.mk.len() + 1)
                    };
                    for (k, x) in self.m.iter() {
                        yield_point(3);
                        let _g = heap::enter(OFF);
                        v.push((k.m(), x.m()));
                    }
                    let _g = heap::enter(OFF);
                    v.sort_by_key(|x| ordkey(x.0.val));
                    let r = v == self.mk;
                    drop(v);
                    r
                });
                if got == Some(false) {
                    viol("isolation", || "iteration of a shared map missed or repeated entries".into());
                }
                outcome("ok", n);
            }
            _ => match call(|| self.m.try_clone()) {
                Some(Ok(c)) => {
                    let mut cm: Vec<(M, M)> = c.iter().map(|(k, v)| (k.m(), v.m())).collect();
                    cm.sort_by_key(|x| ordkey(x.0.val));
                    if cm.len() != n || !cm.iter().zip(&self.mk).all(|(a, b)| is_clone(a.0, b.0) && is_clone(a.1, b.1)) {
                        viol("isolation", || "a clone of a shared map differs from it".into());
                    }
                    outcome("ok", n);
                    pure(move || drop(c));
                }
                Some(Err(_)) => {
                    err_justified(false);
                    outcome("err", n);
                }
                None => outcome("panic", n),
            },
        }
    }
}
#[derive(Clone, Copy)]
struct P(usize);
unsafe impl Send for P {}

fn one(w: &mut dyn World, sh: &Shared, i: usize, st: &Step) {
    begin_step(i, st);
    match st.op {
        "outage_on" => h().outage = true,
        "outage_off" => h().outage = false,
        "quota" => {}
        "probe" => {
            h().outage = false;
            w.probe();
        }
        o if o.starts_with("sh.") => sh.op(st),
        _ => w.step(st),
    }
    let z = s();
    z.odig = mix(z.odig ^ w.content());
}

/// Each round starts on a fresh thread: the platform's hash keys are per thread, so the shared
/// containers are built with the same keys every time.
fn round(t: &Trace, spec: &[(&str, &str)], only: Option<usize>) -> Vec<u64> {
    let a = (P(t as *const Trace as usize), P(&spec as *const &[(&str, &str)] as usize));
    match std::thread::spawn(move || {
        let (t, sp) = a;
        unsafe { round_here(&*(t.0 as *const Trace), *(sp.0 as *const &[(&str, &str)]), only) }
    })
    .join()
    {
        Ok(r) => r,
        Err(_) => {
            eprintln!("HARNESS: panic in the scheduler: {}", s().panic_msg);
            std::process::exit(2)
        }
    }
}
/// Run the threads of `only` (all, or one alone). Returns the outcome digest of each thread.
fn round_here(t: &Trace, spec: &[(&str, &str)], only: Option<usize>) -> Vec<u64> {
    let z = s();
    z.multi = true;
    z.ordmode = t.get("ord", 0);
    z.hashmode = t.get("hash", 0);
    z.seedctr = 99;
    if t.get("maxreq", 0) != 0 {
        h().maxreq = t.get("maxreq", 0) as usize;
    }
    let sh = Shared::new(t.get("shared", 8) as usize);
    let n = spec.len();
    let mut plan: Vec<(u64, u32)> = t.steps.iter().filter(|x| x.op == "preempt").map(|x| (x.a, x.c as u32)).collect();
    if only.is_some() {
        plan.clear();
    }
    plan.sort();
    let bt = Baton {
        lock: Mutex::new(MAIN),
        cond: Condvar::new(),
        ctx: (0..n).map(|i| fresh(t.get("hseed", 0) + 1000 * i as u64)).collect(),
        alive: (0..n).map(|i| only.map_or(true, |o| o == i)).collect(),
        yields: 0,
        plan,
        next: 0,
        switches: 0,
    };
    unsafe { *core::ptr::addr_of_mut!(B) = Some(Box::new(bt)) };
    let (tp, shp) = (P(t as *const Trace as usize), P(&sh as *const Shared as usize));
    let mut hs = vec![];
    for me in 0..n {
        if !b().alive[me] {
            continue;
        }
        let (world, elem) = (spec[me].0.to_string(), spec[me].1.to_string());
        hs.push(std::thread::spawn(move || {
            let (tp, shp) = (tp, shp);
            let t = unsafe { &*(tp.0 as *const Trace) };
            let sh = unsafe { &*(shp.0 as *const Shared) };
            TID.with(|x| x.set(me));
            wait_for(me);
            let mut w = match crate::make_world(&world, &elem, t) {
                Some(w) => w,
                None => {
                    eprintln!("HARNESS: unknown world {world}/{elem}");
                    std::process::exit(2);
                }
            };
            let mut dead = false;
            for (i, st) in t.steps.iter().enumerate() {
                if st.op == "preempt" || st.t as usize != me {
                    continue;
                }
                if failed() {
                    dead = true;
                    break;
                }
                one(&mut *w, sh, i, st);
            }
            if dead || failed() {
                std::mem::forget(w);
            } else {
                begin_step(t.steps.len(), &Step { op: "finish", ..Default::default() });
                h().outage = false;
                w.finish();
            }
            finish_thread(me);
        }));
    }
    z.sched = Some(preempt);
    let first = b().alive.iter().position(|x| *x).unwrap();
    swap(&mut b().ctx[first]);
    hand(first);
    wait_for(MAIN);
    z.sched = None;
    for x in hs {
        let _ = x.join();
    }
    let bt = b();
    let any_panic = bt.ctx.iter().any(|c| c.after_panic);
    let res: Vec<u64> = bt.ctx.iter().map(|c| c.odig).collect();
    if only.is_none() {
        *z.opstats.entry(("(scheduler)", "switches")).or_insert(0) += bt.switches;
        *z.opstats.entry(("(scheduler)", "yield points")).or_insert(0) += bt.yields;
    }
    if !failed() {
        let want = sh.entries();
        let have = z.live + z.zlive;
        if have < want || (have > want && !any_panic) {
            viol("lost", || format!("{have} live elements after all threads ended, {want} are in the shared containers"));
        }
        pure(move || drop(sh));
        if !any_panic && !failed() {
            if z.live + z.zlive != 0 {
                viol("lost", || "elements of a shared container were not dropped".into());
            }
            if h().live_blocks != 0 {
                viol("leak", || format!("{} heap block(s) never released", h().live_blocks));
            }
        }
        h().scan();
    } else {
        std::mem::forget(sh);
    }
    res
}

pub fn execute(t: &Trace, run: u64) {
    let spec: Vec<(&str, &str)> = t.elem.split('+').map(|x| x.split_once(':').unwrap_or((x, ""))).collect();
    let mut solo = vec![0u64; spec.len()];
    let mut t = t.clone();
    for i in 0..spec.len() {
        for attempt in 0..4 {
            reset_run(run);
            solo[i] = round(&t, &spec, Some(i))[i];
            if !failed() {
                break;
            }
            // The thread fails on its own: that is no interaction. Only what it does before that
            // point takes part in the concurrent execution.
            let at = if attempt < 2 && s().op != "finish" { s().step } else { 0 };
            for (n, st) in t.steps.iter_mut().enumerate() {
                if st.t as usize == i && st.op != "preempt" && n >= at {
                    st.t = u32::MAX;
                }
            }
        }
        if failed() {
            for v in s().viols.iter_mut() {
                v.0 = "solo";
            }
            return;
        }
    }
    let t = &t;
    reset_run(run);
    let res = round(t, &spec, None);
    s().runs += 1;
    if !failed() {
        for i in 0..spec.len() {
            if res[i] != solo[i] {
                viol("isolation", || format!("thread {i} obtained other results than when running alone"));
            }
        }
    }
    for v in s().viols.iter_mut() {
        if v.0 != "isolation" {
            v.1 = format!("[{}] {} (no thread fails when running alone)", v.0, v.1);
            v.0 = "isolation";
        }
    }
}
