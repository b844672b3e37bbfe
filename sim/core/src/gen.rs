//! Seeded generation of traces: one integer gives the world, the history and every fault.
use crate::rng::{mix, Rng};
use crate::sim::{hash_str, NK};
use crate::trace::{Step, Trace};
use crate::world::OpDef;

/// Fault mix of a run, chosen swarm-style.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F {
    None,
    Sparse,    // few steps have one refused request
    Dense,     // most steps have refused requests
    From,      // from some request on, the rest of the step is refused
    Outage,    // phases of total outage
    Quota,     // phases with a byte quota
    CloneFail, // element clones fail
    Mixed,     // all of the above, sparsely
    Panic,     // callbacks panic
    PanicMem,  // callbacks panic and memory is refused
}

pub struct Prof {
    pub id: &'static str,
    pub worlds: &'static [(&'static str, &'static [&'static str], u32)], // world, element choices, weight
    pub faults: &'static [(F, u32)],
    pub classes: &'static [&'static str],
    pub boost: &'static [(&'static str, u32)], // op prefix -> weight factor
    pub maxsteps: u64,
    pub chaos: bool,
    pub threads: bool,
}

/// kinds of panics that make sense: all
fn panic_kind(r: &mut Rng) -> u8 {
    *r.pick(&[0u8, 0, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7][..]) % NK as u8
}

pub const SHARED_OPS: &[&str] = &["sh.vec", "sh.vecclone", "sh.map", "sh.mapclone", "sh.mapiter"];
const BULK: &[&str] = &["append", "extend", "from_iter", "try_clone", "clone", "split_off", "op_or", "op_and", "op_sub", "op_xor", "fill"];
pub fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    mix(mix(seed ^ 0xFA11_1B1E) ^ hash_str(id).rotate_left(7) ^ mix(run))
}

pub type Worlds<'a> = &'a [(&'static str, &'static [&'static str], u32)];
pub fn generate(p: &Prof, seed: u64, run: u64, worlds: Worlds, ops_of: &dyn Fn(&str) -> &'static [OpDef]) -> Trace {
    let mut r = Rng::new(run_seed(seed, p.id, run));
    if p.threads {
        return threads(p, &mut r, worlds, ops_of);
    }
    one(p, &mut r, worlds, ops_of, None)
}
/// Several independent histories, interleaved by an explicit list of preemptions.
fn threads(p: &Prof, r: &mut Rng, worlds: Worlds, ops_of: &dyn Fn(&str) -> &'static [OpDef]) -> Trace {
    let n = r.range(2, 4) as u32;
    let mut t = Trace { world: "thr".into(), ..Default::default() };
    let mut specs = vec![];
    // twins: the same kind of container everywhere, possibly with one operation prevailing
    let mut worlds = worlds;
    let mut focus = None;
    if r.chance(1, 2) {
        let i = r.below(worlds.len() as u64) as usize;
        worlds = &worlds[i..i + 1];
        if r.chance(2, 3) {
            let ops = ops_of(worlds[0].0);
            focus = Some(ops[r.below(ops.len() as u64) as usize].name);
        }
    }
    for i in 0..n {
        let x = one(p, r, worlds, ops_of, focus);
        specs.push(format!("{}:{}", x.world, x.elem));
        if i == 0 {
            t.cfg = x.cfg.clone();
        }
        for mut st in x.steps {
            st.t = i;
            if r.chance(1, 6) {
                t.steps.push(Step { op: *r.pick(SHARED_OPS), a: r.below(60), f: st.f.clone(), from: st.from, e: st.e, p: st.p, t: i, ..Default::default() });
            }
            t.steps.push(st);
        }
    }
    t.elem = specs.join("+");
    t.cfg.push(("shared".into(), *r.pick(&[3u64, 8, 20, 45][..])));
    let gap = *r.pick(&[1u64, 2, 5, 15, 40, 120][..]);
    let mut at = 0;
    for _ in 0..r.range(1, 120) {
        at += 1 + r.below(gap * 2);
        t.steps.push(Step { op: "preempt", a: at, c: r.below(n as u64), ..Default::default() });
    }
    t
}
fn one(p: &Prof, r: &mut Rng, worlds: Worlds, ops_of: &dyn Fn(&str) -> &'static [OpDef], focus: Option<&str>) -> Trace {
    let r = &mut *r;
    let tot: u64 = worlds.iter().map(|w| w.2 as u64).sum();
    let mut x = r.below(tot);
    let mut wi = 0;
    for (i, w) in worlds.iter().enumerate() {
        if x < w.2 as u64 {
            wi = i;
            break;
        }
        x -= w.2 as u64;
    }
    let (world, elems, _) = worlds[wi];
    let elem = *r.pick(elems);
    let mut t = Trace { world: world.into(), elem: elem.into(), ..Default::default() };
    let ft: u64 = p.faults.iter().map(|f| f.1 as u64).sum();
    let mut x = r.below(ft);
    let mut f = F::None;
    for (k, w) in p.faults {
        if x < *w as u64 {
            f = *k;
            break;
        }
        x -= *w as u64;
    }
    let ord = if r.chance(1, 2) { 0 } else { r.below(4) };
    if p.chaos && r.chance(1, 6) {
        t.cfg.push(("ord".into(), 9));
        t.cfg.push(("hash".into(), 9));
    } else {
        if ord != 0 {
            t.cfg.push(("ord".into(), ord));
        }
        if r.chance(1, 3) {
            t.cfg.push(("hash".into(), r.range(1, 3)));
        }
    }
    t.cfg.push(("hseed".into(), r.next() >> 40));
    let cap = *r.pick(&[8u64, 30, 30, 120, 120, 700, 3000][..]);
    let dom = *r.pick(&[3u64, 12, 40, 40, 200, 1000, 100000][..]);
    let csize = *r.pick(&[3u64, 8, 30, 30, 200, 700][..]);
    let mut nsteps = 1 + if r.chance(1, 3) { r.below(12) } else { r.below(p.maxsteps) };
    let (mut cap, mut dom, mut csize) = (cap, dom, csize);
    if focus.is_none() && !p.threads && r.chance(1, if ["vec", "copy", "io"].contains(&world) { 30 } else { 150 }) {
        // a few operations on much larger contents: thresholds and widths that small ones cannot reach
        let linear = ["vec", "copy", "io", "hash"].contains(&world);
        let wide = linear && r.chance(1, if world == "hash" { 12 } else { 6 });
        cap = if wide { 80_000 } else { 12_000 };
        csize = cap;
        dom = 1_000_000;
        nsteps = 1 + r.below(if wide { 5 } else { 9 });
        let op = match world {
            "vec" => "resize_with",
            "copy" => "c.resize",
            "io" => "write",
            "hash" => "insert_many",
            _ => "fill",
        };
        if world != "ptr" && r.chance(2, 3) {
            t.steps.push(Step { op, a: r.below(dom), b: r.next() >> 24, c: cap - r.below(cap / 8), ..Default::default() });
        }
        t.cfg.push(("maxreq".into(), 64 << 20));
    }
    t.cfg.push(("cap".into(), cap));
    let ops = ops_of(world);
    let mut ws: Vec<u64> = Vec::with_capacity(ops.len());
    let swarm = r.below(4);
    for o in ops {
        let mut w = o.w as u64 * 4;
        for (pre, k) in p.boost {
            if o.name.starts_with(pre) {
                w *= *k as u64;
            }
        }
        let m = r.next();
        w = match swarm {
            0 => w,
            1 => w * (m % 3),
            2 => if m % 4 == 0 { w * 4 } else { w / 2 },
            _ => if m % 2 == 0 { w * 3 } else { w / 4 },
        };
        if focus == Some(o.name) {
            w = w.max(o.w as u64 * 4) * 25;
        }
        ws.push(w);
    }
    let mut tw: u64 = ws.iter().sum();
    if tw == 0 {
        for (i, o) in ops.iter().enumerate() {
            ws[i] = o.w as u64;
        }
        tw = ws.iter().sum();
    }
    let mut phase = false;
    // occurrences deep inside an operation need larger ordinals now and then
    let ordinal = |r: &mut Rng| -> u32 {
        match r.below(8) {
            0..=2 => 1,
            3 => 2,
            4 => 3,
            5 => 1 + r.below(6) as u32,
            6 => 1 + r.below(24) as u32,
            _ => 1 + r.tail(400) as u32,
        }
    };
    let warm = if r.chance(1, 2) { r.below(nsteps + 1) } else { 0 };
    for i in 0..nsteps {
        let mut x = r.below(tw);
        let mut oi = 0;
        for (k, w) in ws.iter().enumerate() {
            if x < *w {
                oi = k;
                break;
            }
            x -= *w;
        }
        let o = &ops[oi];
        let mut st = Step { op: o.name, a: r.below(dom), b: r.next() >> 24, c: r.tail(csize), ..Default::default() };
        if csize >= 12_000 && r.chance(1, 6) {
            st.c = csize - r.below(csize / 8);
        }
        if o.list {
            let n = if r.chance(1, 12) { r.tail(csize.clamp(60, 3000)) } else { r.tail(14) };
            // thresholds are powers of two
            let n = if csize >= 12_000 && r.chance(1, 3) { (64 << r.below(8)) + r.below(6) - 2 } else { n };
            st.v = (0..n).map(|_| r.below(dom) as u32).collect();
        }
        if i >= warm {
            let fk = match f {
                F::Mixed => *r.pick(&[F::None, F::None, F::Sparse, F::From, F::Outage, F::Quota, F::CloneFail][..]),
                F::PanicMem => *r.pick(&[F::None, F::Sparse, F::Panic, F::From, F::Panic][..]),
                k => k,
            };
            match fk {
                F::None | F::Mixed | F::PanicMem => {}
                F::Sparse => {
                    if r.chance(1, 5) {
                        st.f = vec![ordinal(r)];
                    }
                }
                F::Dense => {
                    if r.chance(4, 5) {
                        st.f = (0..1 + r.below(2)).map(|_| ordinal(r)).collect();
                    }
                }
                F::From => {
                    if r.chance(1, 3) {
                        st.from = ordinal(r);
                    }
                }
                F::Outage => {
                    if r.chance(1, 6) {
                        phase = !phase;
                        t.steps.push(Step { op: if phase { "outage_on" } else { "outage_off" }, ..Default::default() });
                    }
                }
                F::Quota => {
                    if r.chance(1, 8) {
                        phase = !phase;
                        t.steps.push(if phase { Step { op: "quota", c: r.tail(4096), ..Default::default() } } else { Step { op: "outage_off", ..Default::default() } });
                    }
                }
                F::CloneFail => {
                    if r.chance(2, 5) {
                        st.e = ordinal(r);
                    }
                }
                F::Panic => {
                    if r.chance(1, 3) {
                        st.p = Some((panic_kind(r), ordinal(r)));
                        if BULK.contains(&st.op) && r.chance(1, 2) {
                            // deep inside an operation that touches every element
                            st.p = Some((*r.pick(&[1u8, 1, 0, 3, 5][..]), 1 + r.below(90) as u32));
                        }
                    }
                }
            }
        }
        t.steps.push(st);
    }
    if r.chance(3, 4) {
        t.steps.push(Step { op: "probe", ..Default::default() });
    }
    t
}
