//! fcsim: deterministic simulation of fallible_collections under allocation failure, failing clones,
//! panicking callbacks, adversarial readers and thread preemption.
#![allow(static_mut_refs)]
extern crate alloc;
use fcsim_core::{elem, fatal, gen, heap, props, rng, sim, trace, world};
mod iters;
#[cfg(not(feature = "cfg_unstable"))]
mod w_hash;
mod w_io;
#[cfg(feature = "cfg_unstable")]
mod w_map;
mod w_ptr;
#[cfg(feature = "cfg_unstable")]
mod w_set;
mod w_thr;
mod w_vec;

use elem::*;
use std::collections::HashMap;
use std::io::Write;
use fatal::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use trace::Trace;
use world::{OpDef, Report, World};

#[global_allocator]
static GLOBAL: heap::SimHeap = heap::SimHeap;

pub const CONFIG: &str = if cfg!(feature = "cfg_unstable") {
    "unstable"
} else if cfg!(feature = "cfg_brown") {
    "brown"
} else {
    "std"
};

// ---------------------------------------------------------------- randomness of the platform
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = next_seed() as u8;
    }
    len as isize
}
fn next_seed() -> u64 {
    if !READY.load(Ordering::Relaxed) {
        return 4;
    }
    let z = sim::s();
    z.seedctr = z.seedctr.wrapping_add(1);
    rng::mix(z.seedctr)
}
static READY: AtomicBool = AtomicBool::new(false);
#[cfg(feature = "cfg_brown")]
struct SimSeeds;
#[cfg(feature = "cfg_brown")]
impl ahash::random_state::RandomSource for SimSeeds {
    fn gen_hasher_seed(&self) -> usize {
        next_seed() as usize
    }
}

// ---------------------------------------------------------------- worlds
pub fn make_world(world: &str, elem: &str, t: &Trace) -> Option<Box<dyn World>> {
    let cap = t.get("cap", 60) as usize;
    let _ = cap;
    let bulkfault = t.get("bulkfault", 0) != 0;
    let _ = bulkfault;
    macro_rules! els { ($w:ident, $($a:expr),*) => { match elem {
        "plain" => Box::new($w::<Plain>::new($($a),*)) as Box<dyn World>,
        "owning" => Box::new($w::<Own>::new($($a),*)),
        "zst" => Box::new($w::<Z>::new($($a),*)),
        "big" => Box::new($w::<Big>::new($($a),*)),
        "aligned" => Box::new($w::<Al>::new($($a),*)),
        "trivial" => Box::new($w::<Tr>::new($($a),*)),
        _ => return None,
    } } }
    macro_rules! kvs { ($w:ident, $($a:expr),*) => { match elem {
        "plain" => Box::new($w::<Plain, Plain>::new($($a),*)) as Box<dyn World>,
        "owning" => Box::new($w::<Own, Own>::new($($a),*)),
        "zst" => Box::new($w::<Z, Z>::new($($a),*)),
        "mixed" => Box::new($w::<Plain, Z>::new($($a),*)),
        "big" => Box::new($w::<Big, Own>::new($($a),*)),
        "aligned" => Box::new($w::<Al, Plain>::new($($a),*)),
        "trivial" => Box::new($w::<Tr, Tr>::new($($a),*)),
        "trivkey" => Box::new($w::<Tr, Own>::new($($a),*)),
        "trivval" => Box::new($w::<Own, Tr>::new($($a),*)),
        _ => return None,
    } } }
    Some(match world {
        "vec" => {
            use w_vec::VecWorld;
            els!(VecWorld, cap)
        }
        "ptr" => {
            use w_ptr::PtrWorld;
            els!(PtrWorld,)
        }
        "copy" => match elem {
            "u8" => Box::new(w_io::CopyWorld::<u8>::new(cap)),
            "u32" => Box::new(w_io::CopyWorld::<u32>::new(cap)),
            _ => Box::new(w_io::CopyWorld::<w_io::Wide>::new(cap)),
        },
        #[cfg(not(feature = "cfg_brown"))]
        "io" => Box::new(w_io::IoWorld::new(cap)),
        #[cfg(feature = "cfg_unstable")]
        "map" => {
            use w_map::MapWorld;
            kvs!(MapWorld, cap, bulkfault)
        }
        #[cfg(feature = "cfg_unstable")]
        "set" => {
            use w_set::SetWorld;
            els!(SetWorld, cap, bulkfault)
        }
        #[cfg(not(feature = "cfg_unstable"))]
        "hash" => {
            use w_hash::HashWorld;
            kvs!(HashWorld, cap)
        }
        _ => return None,
    })
}
pub fn ops_of(world: &str) -> &'static [OpDef] {
    match world {
        "vec" => w_vec::OPS,
        "ptr" => w_ptr::OPS,
        "copy" => w_io::COPY_OPS,
        #[cfg(not(feature = "cfg_brown"))]
        "io" => w_io::IO_OPS,
        #[cfg(feature = "cfg_unstable")]
        "map" => w_map::OPS,
        #[cfg(feature = "cfg_unstable")]
        "set" => w_set::OPS,
        #[cfg(not(feature = "cfg_unstable"))]
        "hash" => w_hash::OPS,
        _ => &[],
    }
}
fn exec(t: &Trace, run: u64) -> Report {
    // std's hash keys are per thread: a fresh thread makes them a function of the run
    if cfg!(feature = "cfg_std") && !["vec", "copy", "io"].contains(&t.world.as_str()) {
        struct P(*const Trace);
        unsafe impl Send for P {}
        let p = P(t);
        return std::thread::scope(|sc| {
            sc.spawn(move || {
                let p = p;
                world::execute(unsafe { &*p.0 }, run)
            })
            .join()
            .unwrap_or_else(|_| {
                eprintln!("HARNESS: panic in the simulator: {}", sim::s().panic_msg);
                std::process::exit(2)
            })
        });
    }
    match std::panic::catch_unwind(|| world::execute(t, run)) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("HARNESS: panic in the simulator: {} (run {run} step {} {})", sim::s().panic_msg, sim::s().step, sim::s().op);
            std::process::exit(2)
        }
    }
}

// ---------------------------------------------------------------- command line
fn prof(id: &str) -> &'static gen::Prof {
    let p = props::PROFS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("HARNESS: no profile {id}");
        std::process::exit(2)
    });
    sim::s().prof = Some(p);
    p
}
fn worlds_here(p: &gen::Prof) -> Vec<(&'static str, &'static [&'static str], u32)> {
    p.worlds.iter().filter(|w| !ops_of(w.0).is_empty()).copied().collect()
}
fn owned<'a>(p: &gen::Prof, r: &'a Report) -> Option<&'a (&'static str, String)> {
    let z = sim::s();
    r.viols.iter().find(|v| props::owns(p, v.0, r.op, z.had_err, z.after_panic, heap::h().refused > 0))
}
fn esc(x: &str) -> String {
    x.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}
fn gen_trace(p: &'static gen::Prof, seed: u64, run: u64) -> Trace {
    let w = worlds_here(p);
    let mut t = gen::generate(p, seed, run, &w, &ops_of);
    if p.id == "C07" || p.id == "C06" || p.id == "C05" {
        // memory safety is owed even by operations that have no way to report failure
        t.cfg.push(("bulkfault".into(), run & 1));
    }
    t
}

fn cmd_run(a: &HashMap<String, String>) {
    let g = |k: &str, d: u64| a.get(k).map_or(d, |v| v.parse().unwrap());
    let p = prof(&a["prop"]);
    let (seed, from, to, m, r, cap) = (g("seed", 1), g("from", 0), g("to", 1000), g("mod", 1), g("rem", 0), g("cap", 3600));
    let known: Vec<Vec<String>> = a.get("known").map_or(vec![], |k| k.split(";;").filter(|x| !x.is_empty()).map(|x| x.split('|').map(|y| y.to_string()).collect()).collect());
    if worlds_here(p).is_empty() {
        eprintln!("HARNESS: property {} has nothing to drive in configuration {CONFIG}", p.id);
        std::process::exit(2);
    }
    let start = std::time::Instant::now();
    let prog: Option<&'static AtomicU64> = a.get("out").map(|o| unsafe {
        // the current run survives any kind of death
        std::fs::write(format!("{o}.prog"), [255u8; 8]).unwrap();
        let f = format!("{o}.prog\0");
        let fd = open(f.as_ptr(), 2);
        let p = mmap(core::ptr::null_mut(), 8, 3, 1, fd, 0);
        assert!(p as isize != -1, "cannot map {f}");
        &*(p as *const AtomicU64)
    });
    let mut digs: Vec<u64> = vec![];
    let mut foreign: std::collections::BTreeMap<String, u64> = Default::default();
    let mut worldn: std::collections::BTreeMap<String, u64> = Default::default();
    let mut knownhit: std::collections::BTreeSet<String> = Default::default();
    let mut done = 0u64;
    let mut next = to;
    let out = std::io::stdout();
    for run in (from..to).filter(|x| x % m == r) {
        if done % 16 == 0 && start.elapsed().as_secs() >= cap {
            next = run;
            break;
        }
        RUN.store(run, Ordering::Relaxed);
        if let Some(p) = prog {
            p.store(run, Ordering::Relaxed);
        }
        let t = gen_trace(p, seed, run);
        let rep = exec(&t, run);
        done += 1;
        digs.push(rep.digest);
        *worldn.entry(format!("{}/{}", t.world, if t.world == "thr" { "several" } else { &t.elem })).or_insert(0) += 1;
        if rep.viols.is_empty() {
            continue;
        }
        if let Some(v) = owned(p, &rep) {
            if let Some(k) = known.iter().find(|k| k[0] == v.0 && (k[1] == "*" || k[1] == rep.op) && v.1.contains(&k[2])) {
                if knownhit.insert(k.join("|")) {
                    println!("K {}", k.join("|"));
                }
                continue;
            }
            println!("V {run} {} {} {} {}", v.0, rep.step, rep.op, v.1.replace('\n', " "));
            let _ = out.lock().flush();
            next = run;
            break;
        } else {
            let v = &rep.viols[0];
            *foreign.entry(format!("{} {}", v.0, rep.op)).or_insert(0) += 1;
            if a.contains_key("verbose") {
                println!("N {run} {} {} {} {}", v.0, rep.step, rep.op, v.1.replace('\n', " "));
            }
        }
    }
    let z = sim::s();
    let hh = heap::h();
    let js = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",");
    let panics = (0..sim::NK).filter(|i| z.tot_panic[*i] > 0).map(|i| format!("\"panic in {}\":{}", sim::KNAMES[i], z.tot_panic[i])).collect::<Vec<_>>().join(",");
    let io = z.tot_io.iter().map(|(k, v)| format!("\"source {k}\":{v}")).collect::<Vec<_>>().join(",");
    let mut faults = vec![
        format!("\"single refused request\":{}", hh.tot_nth),
        format!("\"request refused to the end of the step\":{}", hh.tot_from),
        format!("\"request refused in an outage\":{}", hh.tot_outage),
        format!("\"request over a byte quota\":{}", hh.tot_quota),
        format!("\"request larger than the machine\":{}", hh.tot_big),
        format!("\"element clone failure\":{}", z.tot_clonefail),
    ];
    for x in [panics, io] {
        if !x.is_empty() {
            faults.push(x);
        }
    }
    for ((c, o), n) in &z.soft {
        *foreign.entry(format!("{c} {o}")).or_insert(0) += n;
    }
    let ops = z.opstats.iter().map(|((o, k), v)| format!("\"{o} {k}\":{v}")).collect::<Vec<_>>().join(",");
    println!(
        "S {{\"config\":\"{CONFIG}\",\"runs\":{done},\"next\":{next},\"steps\":{},\"requests\":{},\"releases\":{},\"secs\":{:.3},\"faults\":{{{}}},\"ops\":{{{ops}}},\"foreign\":{{{}}},\"worlds\":{{{}}}}}",
        z.steps,
        hh.tot_req,
        hh.tot_freed,
        start.elapsed().as_secs_f64(),
        faults.join(","),
        js(&foreign),
        js(&worldn)
    );
    if let Some(o) = a.get("out") {
        let b: Vec<u8> = digs.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{o}.dig"), b);
        let b: Vec<u8> = z.feats.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{o}.feat"), b);
    }
}
fn read_trace(f: &str) -> Trace {
    let x = std::fs::read_to_string(f).unwrap_or_else(|e| {
        eprintln!("HARNESS: {f}: {e}");
        std::process::exit(2)
    });
    Trace::parse(&x).unwrap_or_else(|e| {
        eprintln!("HARNESS: {f}: {e}");
        std::process::exit(2)
    })
}
/// Runs a candidate in a child process. 0: no violation of the property.
fn probe(t: &Trace, p: &'static gen::Prof) -> i32 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            let n = open(b"/dev/null\0".as_ptr(), 1);
            dup2(n, 1);
            dup2(n, 2);
            setitimer(1, &[1, 0, 1, 0], core::ptr::null_mut());
            TICK_RUN.store(u64::MAX, Ordering::Relaxed);
            TICKS.store(0, Ordering::Relaxed);
            RUN.store(1, Ordering::Relaxed);
            let r = exec(t, 1);
            let c = match owned(p, &r) {
                None => 0,
                Some(v) => 20 + (sim::hash_str(v.0) % 200) as i32,
            };
            _exit(c);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st & 0x7f != 0 {
            return 11;
        }
        let c = st >> 8 & 255;
        if c == 2 {
            0
        } else {
            c
        }
    }
}
fn cmd_minimise(f: &str, o: &str, p: &'static gen::Prof, secs: u64) {
    let start = std::time::Instant::now();
    let mut t = read_trace(f);
    let want = probe(&t, p);
    if want == 0 {
        println!("NOT-REPRODUCED");
        std::process::exit(3);
    }
    let late = || start.elapsed().as_secs() >= secs;
    let mut tries = 0u64;
    let mut ok = |c: &Trace| {
        tries += 1;
        !late() && probe(c, p) == want
    };
    // remove steps
    let mut n = (t.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < t.steps.len() {
            let mut c = t.clone();
            let e = (i + n).min(c.steps.len());
            c.steps.drain(i..e);
            if ok(&c) {
                t = c;
                any = true;
            } else {
                i += n;
            }
        }
        if late() || (n == 1 && !any) {
            break;
        }
        if n > 1 {
            n = n / 2;
        }
    }
    // simplify what is left
    for _ in 0..3 {
        let mut any = false;
        for i in (0..t.cfg.len()).rev() {
            let mut c = t.clone();
            c.cfg.remove(i);
            if ok(&c) {
                t = c;
                any = true;
            }
        }
        for i in 0..t.steps.len() {
            let mut cands: Vec<Box<dyn Fn(&mut trace::Step)>> = vec![
                Box::new(|s| s.f.clear()),
                Box::new(|s| s.from = 0),
                Box::new(|s| s.e = 0),
                Box::new(|s| s.p = None),
                Box::new(|s| {
                    s.f.pop();
                }),
                Box::new(|s| s.f.iter_mut().for_each(|x| *x = (*x / 2).max(1))),
                Box::new(|s| s.c = 0),
                Box::new(|s| s.c /= 2),
                Box::new(|s| s.c = s.c.saturating_sub(1)),
                Box::new(|s| s.a = 0),
                Box::new(|s| s.a /= 2),
                Box::new(|s| s.v.clear()),
                Box::new(|s| {
                    let n = s.v.len() / 2;
                    s.v.truncate(n)
                }),
                Box::new(|s| {
                    if !s.v.is_empty() {
                        s.v.remove(0);
                    }
                }),
                Box::new(|s| s.v.iter_mut().for_each(|x| *x /= 2)),
                Box::new(|s| s.b &= 0xff),
                Box::new(|s| s.b &= 0xffff),
                Box::new(|s| s.b &= 3),
                Box::new(|s| s.b = 0),
            ];
            for k in 0..20 {
                cands.push(Box::new(move |s| s.b &= !(1 << k)));
            }
            for f in &cands {
                loop {
                    let mut c = t.clone();
                    f(&mut c.steps[i]);
                    if c.steps[i] != t.steps[i] && ok(&c) {
                        t = c;
                        any = true;
                    } else {
                        break;
                    }
                }
            }
        }
        for n in [1usize] {
            let mut i = 0;
            while i < t.steps.len() {
                let mut c = t.clone();
                c.steps.drain(i..(i + n).min(t.steps.len()));
                if ok(&c) {
                    t = c;
                    any = true;
                } else {
                    i += 1;
                }
            }
        }
        if !any || late() {
            break;
        }
    }
    std::fs::write(o, t.to_text()).unwrap();
    println!("MINIMISED {} steps in {tries} tries", t.steps.len());
}
fn cmd_replay(f: &str, p: &'static gen::Prof) {
    let t = read_trace(f);
    RUN.store(1, Ordering::Relaxed);
    let r = exec(&t, 1);
    match owned(p, &r) {
        Some(v) => println!("V 1 {} {} {} {}", v.0, r.step, r.op, v.1.replace('\n', " ")),
        None => {
            for v in &r.viols {
                println!("N 1 {} {} {} {}", v.0, r.step, r.op, v.1);
            }
            println!("OK");
        }
    }
    println!("D {:016x}", r.digest);
}
fn main() {
    sim::init();
    world::set_hooks(make_world, w_thr::execute);
    READY.store(true, Ordering::Relaxed);
    #[cfg(feature = "cfg_brown")]
    {
        let _ = ahash::random_state::set_random_source(SimSeeds);
    }
    install();
    let args: Vec<String> = std::env::args().collect();
    let mut a = HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            a.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    match pos.first().map(|x| x.as_str()) {
        Some("run") => cmd_run(&a),
        Some("gen") => {
            let p = prof(&a["prop"]);
            print!("{}", gen_trace(p, a["seed"].parse().unwrap(), a["run"].parse().unwrap()).to_text());
        }
        Some("minimise") => cmd_minimise(&pos[1], &pos[2], prof(&a["prop"]), a.get("secs").map_or(30, |x| x.parse().unwrap())),
        Some("replay") => cmd_replay(&pos[1], prof(&a["prop"])),
        _ => {
            eprintln!("usage: fcsim run|gen|minimise|replay");
            std::process::exit(2);
        }
    }
}
