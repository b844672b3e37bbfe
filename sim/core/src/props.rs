//! What each property's check drives, injects and owns.
use crate::gen::{Prof, F};

type W = (&'static str, &'static [&'static str], u32);
const EL: &[&str] = &["plain", "owning", "zst", "big", "aligned", "trivial"];
const KV: &[&str] = &["plain", "plain", "owning", "mixed", "big", "aligned", "zst", "trivval", "trivkey", "trivial"];
const CP: &[&str] = &["u8", "u32", "wide"];
const NONE: &[&str] = &["-"];
const VEC: W = ("vec", EL, 6);
const MAP: W = ("map", KV, 9);
const SET: W = ("set", EL, 6);
const HASH: W = ("hash", KV, 6);
const PTR: W = ("ptr", EL, 4);
const COPY: W = ("copy", CP, 2);
const IO: W = ("io", NONE, 3);
const ALL: &[W] = &[VEC, MAP, SET, HASH, PTR, COPY, IO];

const FULL: &[(F, u32)] = &[(F::Dense, 3), (F::Sparse, 4), (F::From, 3), (F::Outage, 2), (F::Quota, 2), (F::CloneFail, 2), (F::Mixed, 4), (F::None, 1)];
const MOSTLY_OK: &[(F, u32)] = &[(F::None, 6), (F::Sparse, 3), (F::Mixed, 3), (F::Outage, 1), (F::Dense, 1)];
const B0: &[(&str, u32)] = &[];

const fn p(id: &'static str, worlds: &'static [W], faults: &'static [(F, u32)], classes: &'static [&'static str], boost: &'static [(&'static str, u32)], maxsteps: u64, chaos: bool) -> Prof {
    Prof { id, worlds, faults, classes, boost, maxsteps, chaos, threads: false }
}

// classes: "x" always; "x@a|b" when the operation's name contains a or b; "x!err" once an operation
// has reported an allocation error in the run; "x!ref" if memory was refused during the very step;
// "x!panic" once a user panic was caught in the run.
pub const PROFS: &[Prof] = &[
    p("C01", ALL, FULL, &["crash", "hang", "abort", "panic", "state!ref", "result!ref", "lost!ref", "own!ref", "read!ref", "write!ref", "fmt!ref"], B0, 90, false),
    p("C02", ALL, &[(F::None, 3), (F::Outage, 4), (F::Quota, 3), (F::Sparse, 2), (F::Dense, 1), (F::Mixed, 2), (F::CloneFail, 1)], &["crash", "hang", "spurious", "needless", "cost!err"], B0, 70, false),
    p("C03", &[VEC, HASH, COPY, IO], &[(F::None, 3), (F::Outage, 2), (F::Dense, 2), (F::Sparse, 2), (F::Mixed, 1)], &["crash", "hang", "reserve"], &[("reserve", 4), ("burst", 5), ("with_cap", 3), ("c.reserve", 3), ("c.burst", 4), ("v.insert", 2)], 60, false),
    p("C04", ALL, FULL, &["crash", "hang", "atomic", "state!err", "own!err", "lost!err", "result!err", "iter!err", "panic!err", "abort"], &[("insert", 2), ("split_off", 2), ("build_full", 4), ("entry", 2)], 90, false),
    p("C05", ALL, FULL, &["crash", "hang", "own", "lost"], &[("into_iter", 2), ("split_off", 2)], 100, false),
    p("C06", ALL, FULL, &["crash", "hang", "heap", "leak", "own"], B0, 100, false),
    p("C07", ALL, &[(F::Panic, 6), (F::PanicMem, 2), (F::None, 1)], &["crash", "hang", "own", "heap", "panicstate", "panic", "state!panic", "result!panic", "iter!panic"], &[("append", 8), ("split_off", 5), ("v.trunc", 3), ("from_iter", 3), ("extend", 2), ("fill", 3), ("entry", 1), ("op_", 2), ("clone", 3), ("try_clone", 2)], 60, true),
    p("C08", ALL, &[(F::None, 2), (F::Outage, 5), (F::Quota, 2)], &["crash", "hang", "alloc", "panic!ref", "abort"], B0, 90, false),
    p("C09", &[VEC, VEC, COPY], MOSTLY_OK, &["crash", "hang", "state", "result", "iter", "own", "lost", "atomic", "panic"], B0, 160, false),
    p("C10", &[MAP], MOSTLY_OK, &["crash", "hang", "state", "result", "iter", "own", "lost", "atomic", "panic", "abort"], B0, 200, false),
    p("C11", &[SET], MOSTLY_OK, &["crash", "hang", "state", "result", "iter", "own", "lost", "atomic", "panic", "abort"], B0, 160, false),
    p("C12", &[HASH], MOSTLY_OK, &["crash", "hang", "state", "result", "iter", "own", "lost", "atomic", "panic", "abort"], B0, 160, false),
    p("C13", &[MAP, SET, VEC, HASH], &[(F::None, 5), (F::Outage, 3), (F::Mixed, 2)], &["crash", "hang", "iter", "own", "lost", "panic@iter|range|keys|values|diff|union|inter|sym", "result@iter|range|keys|values|diff|union|inter|sym", "alloc@iter|range|keys|values|diff|union|inter|sym|ref_into"], &[("iter", 5), ("into_iter", 6), ("range", 6), ("keys", 5), ("values", 5), ("difference", 3), ("union", 3), ("intersection", 3), ("symdiff", 3), ("t.iter_mut", 5), ("t.ref_into", 5), ("fill", 2)], 100, false),
    p("C14", ALL, &[(F::None, 2), (F::Sparse, 3), (F::Dense, 2), (F::CloneFail, 5), (F::Mixed, 2), (F::From, 2), (F::Panic, 2)], &["crash", "hang", "own", "lost", "leak", "state@clone|concat|from_slice|extend|resize", "result@clone", "atomic@clone|concat"], &[("try_clone", 10), ("clone", 6), ("box_clone", 4), ("tbox_clone", 4), ("deep_clone", 6), ("nest", 4), ("opt_clone", 4), ("t.concat", 4), ("t.from_slice", 4), ("v.resize_nc", 2)], 60, false),
    p("C15", &[IO], &[(F::None, 4), (F::Sparse, 2), (F::Dense, 2), (F::Outage, 2), (F::Quota, 1), (F::Panic, 2), (F::Mixed, 2)], &["crash", "hang", "read", "spurious@read", "panic@read", "abort@read", "reserve@read", "panicstate@read"], &[("read", 5)], 60, false),
    p("C16", &[IO], &[(F::None, 3), (F::Sparse, 2), (F::Dense, 3), (F::Outage, 3), (F::Quota, 1), (F::Mixed, 2)], &["crash", "hang", "write", "spurious@write|copy|flush", "panic@write|copy|flush", "abort@write|copy|flush"], &[("write", 5), ("copy", 4)], 60, false),
    p("C17", &[VEC], &[(F::None, 3), (F::Sparse, 3), (F::Dense, 4), (F::From, 3), (F::Outage, 2), (F::Panic, 3)], &["crash", "hang", "state@collect|from_iterator|to_vec", "spurious@collect|from_iterator|to_vec", "abort@collect|from_iterator|to_vec", "panic@collect|from_iterator|to_vec", "result@collect|from_iterator|to_vec", "atomic@collect|from_iterator|to_vec", "leak", "own", "lost"], &[("v.collect", 25), ("v.from_iterator", 25), ("t.to_vec", 20)], 40, false),
    p("C18", &[PTR], &[(F::None, 3), (F::Sparse, 3), (F::Dense, 4), (F::Outage, 2), (F::Quota, 2)], &["crash", "hang", "fmt", "spurious@fmt", "abort@fmt", "panic@fmt"], &[("fmt", 30)], 40, false),
    p("C19", &[PTR], FULL, &["crash", "hang", "state", "result", "own", "lost", "heap", "leak", "panic", "abort", "spurious"], &[("fmt", 1)], 90, false),
    p("C20", &[MAP, SET], &[(F::None, 3), (F::Dense, 3), (F::Sparse, 3), (F::Mixed, 3), (F::From, 2)], &["crash", "hang", "mem", "leak", "work@get|contains|insert|remove|entry|drain|fill"], &[("remove", 2), ("drain", 3), ("drain_clone", 3), ("split_off", 3), ("append", 3), ("build_full", 3), ("from_iter", 3), ("fill", 2)], 160, false),
    p("C24", ALL, &[(F::None, 5), (F::Sparse, 2), (F::Dense, 1), (F::Mixed, 2), (F::From, 1)], &["crash", "hang", "cost", "needless"], &[("insert_many", 3), ("burst", 2), ("churn", 2), ("try_clone", 2), ("split_off", 2), ("append", 2)], 120, false),
    p("C25", ALL, MOSTLY_OK, &["crash", "hang", "work"], &[("append", 2), ("split_off", 3), ("relations", 3), ("subset_build", 3), ("difference", 2), ("intersection", 2), ("try_clone", 3), ("get", 3), ("contains", 3), ("range", 2), ("cmp", 2)], 120, false),
    Prof {
        id: "C21",
        worlds: &[VEC, MAP, SET, HASH, PTR, COPY, IO],
        faults: &[(F::None, 3), (F::Sparse, 2), (F::Dense, 2), (F::Outage, 1), (F::CloneFail, 1), (F::Panic, 2), (F::Mixed, 2)],
        classes: &["crash", "hang", "isolation"],
        boost: B0,
        maxsteps: 40,
        chaos: false,
        threads: true,
    },
];

pub fn owns(p: &Prof, class: &str, op: &str, had_err: bool, after_panic: bool, refused: bool) -> bool {
    p.classes.iter().any(|c| {
        if let Some((k, subs)) = c.split_once('@') {
            k == class && subs.split('|').any(|x| op.contains(x))
        } else if let Some((k, cond)) = c.split_once('!') {
            k == class
                && match cond {
                    "err" => had_err,
                    "ref" => refused,
                    _ => after_panic,
                }
        } else {
            *c == class
        }
    })
}
