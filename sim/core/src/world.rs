//! Worlds: a set of containers with reference models, driven step by step.
use crate::heap::h;
use crate::sim::*;
use crate::trace::{Step, Trace};

pub struct OpDef {
    pub name: &'static str,
    pub w: u32,
    pub list: bool,
}
pub const fn op(name: &'static str, w: u32) -> OpDef {
    OpDef { name, w, list: false }
}
pub const fn opl(name: &'static str, w: u32) -> OpDef {
    OpDef { name, w, list: true }
}

pub trait World {
    fn step(&mut self, st: &Step);
    /// number of elements the models say are stored
    fn live(&self) -> i64;
    /// after all faults have stopped every container must serve requests again
    fn probe(&mut self);
    /// release everything
    fn finish(self: Box<Self>);
    fn size(&self) -> usize;
    /// digest of what the containers hold, comparable between two executions of the same steps
    fn content(&self) -> u64 {
        0
    }
}

pub struct Report {
    pub viols: Vec<(&'static str, String)>,
    pub step: usize,
    pub op: &'static str,
    pub digest: u64,
}

type Make = fn(&str, &str, &Trace) -> Option<Box<dyn World>>;
type Thr = fn(&Trace, u64);
static mut MAKE: Option<Make> = None;
static mut THR: Option<Thr> = None;
pub fn set_hooks(m: Make, t: Thr) {
    unsafe {
        MAKE = Some(m);
        THR = Some(t);
    }
}
pub fn execute(t: &Trace, run: u64) -> Report {
    reset_run(run);
    let z = s();
    z.ordmode = t.get("ord", 0);
    z.hashmode = t.get("hash", 0);
    z.seedctr = t.get("hseed", 0);
    z.chaos = t.get("hseed", 0) ^ 0x77;
    let hh = h();
    hh.moved = true;
    if t.get("maxreq", 0) != 0 {
        hh.maxreq = t.get("maxreq", 0) as usize;
    }
    if t.world == "thr" {
        unsafe { (THR.unwrap())(t, run) };
        let z = s();
        return Report { viols: std::mem::take(&mut z.viols), step: z.step, op: z.op, digest: z.digest };
    }
    let mut w: Box<dyn World> = match unsafe { MAKE.unwrap() }(&t.world, &t.elem, t) {
        Some(w) => w,
        None => {
            eprintln!("HARNESS: unknown world {}/{}", t.world, t.elem);
            std::process::exit(2);
        }
    };
    let mut dead = false;
    for (i, st) in t.steps.iter().enumerate() {
        begin_step(i, st);
        match st.op {
            "outage_on" => hh.outage = true,
            "outage_off" => {
                hh.outage = false;
                hh.quota = usize::MAX;
            }
            "quota" => hh.quota = hh.live_bytes + st.c as usize,
            "probe" => {
                hh.outage = false;
                hh.quota = usize::MAX;
                w.probe();
            }
            _ => {
                let p0: u64 = s().tot_panic.iter().sum();
                w.step(st);
                if (st.b >> 20) & 1 == 0 && ["map", "set", "hash"].contains(&t.world.as_str()) && s().tot_panic.iter().sum::<u64>() > p0 && !failed() {
                    // take apart what the panic left behind, in an order the trace decides
                    check_live(&*w);
                    let purge = Step { op: "drain", a: st.a ^ 5, b: st.b, c: 1 << 20, ..Default::default() };
                    begin_step(i, &purge);
                    w.step(&purge);
                }
            }
        }
        check_live(&*w);
        if failed() {
            dead = true;
            break;
        }
    }
    let z = s();
    if dead {
        std::mem::forget(w);
    } else {
        begin_step(t.steps.len(), &Step { op: "finish", ..Default::default() });
        hh.outage = false;
        hh.quota = usize::MAX;
        w.finish();
        if !failed() {
            let lost = z.live + z.zlive - z.leaked;
            if lost != 0 {
                viol("lost", || format!("{lost} element(s) not dropped after every container is gone"));
            }
            if !z.after_panic && hh.live_blocks != 0 {
                viol("leak", || format!("{} heap block(s), {} bytes, never released", hh.live_blocks, hh.live_bytes));
            }
            hh.scan();
        }
    }
    z.runs += 1;
    Report { viols: std::mem::take(&mut z.viols), step: z.step, op: z.op, digest: z.digest }
}

pub fn check_live(w: &dyn World) {
    let z = s();
    let want = w.live();
    let have = z.live + z.zlive;
    if z.after_panic {
        // leaks are tolerated after a caught panic, but nothing may exist twice or vanish
        let l = have - want;
        if l < 0 {
            viol("own", || format!("{have} live elements but the containers show {want} after a panic"));
        }
        if l > z.leaked {
            z.leaked = l;
        }
        if l < z.leaked {
            viol("own", || format!("{} leaked element(s) were dropped later", z.leaked - l));
        }
        return;
    }
    if have != want {
        viol("lost", || format!("after {}: {have} live elements, but {want} are stored: {}", z.op, if have > want { "some were leaked or duplicated" } else { "some were lost" }));
    }
}
