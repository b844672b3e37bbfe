//! World "set": three BTreeSet<T> (small, medium, large) and their algebra against sorted lists.
use crate::elem::*;
use crate::heap::h;
use crate::sim::*;
use crate::trace::Step;
use crate::w_map::{walk, bulk, chaos, drive, drive_fwd, finish, finish_any, in_bounds, max_blocks, inverted, length, levels, node_bytes, mk_bounds, vio, Fnv, Hint};
use crate::w_vec::{hint, vals, LieIter};
use crate::world::*;
use fallible_collections::btree::BTreeSet;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::ops::Bound;

pub const OPS: &[OpDef] = &[
    op("insert", 16), op("replace", 6), op("contains", 2), op("get", 2), op("remove", 8), op("take", 5), op("range", 4), op("range_bad", 1),
    op("difference", 5), op("symdiff", 4), op("intersection", 5), op("union", 4), op("relations", 8), op("subset_build", 5),
    op("op_sub", 2), op("op_xor", 2), op("op_and", 2), op("op_or", 2), op("append", 2), op("split_off", 3), op("iter", 4), op("into_iter", 3),
    opl("extend", 2), opl("from_iter", 1), opl("extend_ref", 1), op("clone", 1), op("cmp", 1), op("debug", 1), op("hash", 1), op("reshape", 1), op("clear", 1), op("new", 1), op("fill", 6), op("drain", 4), op("drain_clone", 1),
];

pub struct Slot<T: Elem> {
    m: BTreeSet<T>,
    k: Vec<M>,
}
pub struct SetWorld<T: Elem> {
    s: Vec<Slot<T>>,
    cap: usize,
    tick: u64,
    bulkfault: bool,
}
fn pos(k: &[M], val: u32) -> Result<usize, usize> {
    k.binary_search_by(|x| ordkey(x.val).cmp(&ordkey(val)))
}
fn has(k: &[M], m: &M) -> bool {
    pos(k, m.val).is_ok()
}
fn read<T: Elem>(m: &BTreeSet<T>) -> Vec<M> {
    m.iter().map(|k| k.m()).collect()
}
fn okeys(k: &[M]) -> Vec<u32> {
    k.iter().map(|m| ordkey(m.val)).collect()
}

/// comparisons that combining a set of n elements with one of m takes
fn joint(what: &str, n: usize, m: usize) -> usize {
    let (few, many) = match what {
        "difference" | "op_sub" => (n, m),
        "intersection" | "op_and" => (n.min(m), n.max(m)),
        "subset" if n > m => return 8,
        "subset" => (n, m),
        _ => (n.max(m), n.min(m)),
    };
    let side_by_side = 2 * (n + m) + 8;
    let one_by_one = few * walk(many) + 8;
    if few > many / 8 {
        side_by_side
    } else if few < many / 32 {
        one_by_one
    } else {
        side_by_side.max(one_by_one)
    }
}

impl<T: Elem> SetWorld<T> {
    pub fn new(cap: usize, bulkfault: bool) -> Self {
        SetWorld { s: (0..3).map(|_| Slot { m: BTreeSet::new(), k: vec![] }).collect(), cap, tick: 0, bulkfault }
    }
    fn resync(&mut self, i: usize, allowed: &[M], mark: u32) {
        let old = std::mem::take(&mut self.s[i].k);
        let c = match look(|| read(&self.s[i].m)) {
            Some(c) => c,
            None => return,
        };
        let sl = &self.s[i];
        let olds: std::collections::HashSet<u32> = old.iter().map(|x| x.id).chain(allowed.iter().map(|m| m.id)).collect();
        let mut ids: Vec<u32> = c.iter().map(|x| x.id).filter(|x| *x != 0).collect();
        for id in &ids {
            if *id < mark && !olds.contains(id) {
                vio("panicstate", || format!("after a panic the set holds element {id}, which the operation was never given"));
            }
        }
        ids.sort();
        if ids.windows(2).any(|w| w[0] == w[1]) {
            viol("own", || "an element is stored twice after a panic".into());
        }
        if look(|| sl.m.len()) != Some(c.len()) {
            viol("panicstate", || format!("after a panic len() disagrees with {} iterated elements", c.len()));
        }
        if !chaos() {
            if c.windows(2).any(|w| ordkey(w[0].val) >= ordkey(w[1].val)) {
                viol("panicstate", || format!("elements out of order after a panic: {:?}", vals(&c)));
            }
            for x in &c {
                if look(|| sl.m.contains(&Q(x.val))) != Some(true) {
                    viol("panicstate", || format!("element {x:?} cannot be found after a panic"));
                    break;
                }
            }
        }
        self.s[i].k = c;
    }
    fn same(&mut self, i: usize, class: &'static str, full: bool) {
        if failed() {
            return;
        }
        self.tick += 1;
        if chaos() {
            let mark = s().objs.len() as u32;
            let all: Vec<M> = self.s.iter().flat_map(|x| x.k.clone()).collect();
            self.resync(i, &all, mark);
            return;
        }
        let sl = &self.s[i];
        if look(|| (sl.m.len(), sl.m.is_empty())) != Some((sl.k.len(), sl.k.is_empty())) {
            viol(class, || format!("after {} length is {:?}, expected {}", s().op, look(|| sl.m.len()), sl.k.len()));
            return;
        }
        if sl.k.len() > 200 && !full && self.tick % 6 != 0 {
            return;
        }
        let r = look(|| {
            let mut it = sl.m.iter();
            sl.k.iter().all(|x| it.next().map_or(false, |k| k.m() == *x)) && it.next().is_none()
        });
        if r == Some(false) {
            let c = look(|| sl.m.iter().take(sl.k.len() + 5).map(|k| k.m()).collect::<Vec<_>>()).unwrap_or_default();
            let d = c.iter().zip(&sl.k).position(|(a, b)| a != b).unwrap_or(c.len().min(sl.k.len()));
            let lo = d.saturating_sub(3);
            viol(class, || format!("contents after {} differ at position {d}: {:?}, expected {:?}", s().op, vals(&c[lo.min(c.len())..]), vals(&sl.k[lo..])));
        }
    }
    fn memory(&self) {
        if s().after_panic || s().multi || failed() {
            return;
        }
        let mut owned = 0;
        let mut max = 0;
        for sl in &self.s {
            owned += sl.k.len() * T::OWN;
            max += max_blocks(sl.k.len());
        }
        let have = h().live_blocks;
        if have > owned + max {
            vio("mem", || format!("{} node blocks for {:?} elements after {}", have - owned, self.s.iter().map(|x| x.k.len()).collect::<Vec<_>>(), s().op));
        }
    }
    fn insert_one(&mut self, i: usize, a: u32, replace: bool) -> bool {
        let len = self.s[i].k.len();
        let p = pos(&self.s[i].k, T::norm(a));
        if p.is_err() && len >= self.cap {
            return true;
        }
        let mark = s().objs.len() as u32;
        let e = T::mk(a);
        let m = e.m();
        let sl = &mut self.s[i];
        let mut out = None;
        let r0 = own_requests();
        h().mark();
        let blocks = h().live_blocks;
        may(K::Cmp, walk(len));
        let r = if replace {
            call(|| sl.m.replace(e)).map(|r| {
                r.map(|o| {
                    out = o;
                    true
                })
            })
        } else {
            call(|| sl.m.try_insert(e))
        };
        if p.is_ok() {
            needless(r0, "an element that is present");
        } else if matches!(r, Some(Ok(true))) {
            kept(blocks, "a new element");
        }
        cost(node_bytes::<T, ()>(), levels(len) + 1, format_args!("one element more than {len}"));
        match r {
            Some(Ok(b)) => {
                if replace {
                    let got = out.as_ref().map(|x| x.m());
                    let want = p.ok().map(|x| sl.k[x]);
                    if got != want {
                        vio("result", || format!("replace returned {got:?}, expected {want:?}"));
                    }
                } else if b != p.is_err() {
                    vio("result", || format!("insert returned {b}"));
                }
                match p {
                    Ok(x) => {
                        if replace {
                            sl.k[x] = m;
                        }
                        outcome("replaced", len);
                    }
                    Err(x) => {
                        sl.k.insert(x, m);
                        outcome("new", len);
                    }
                }
                call(|| drop(out));
                true
            }
            Some(Err(_)) => {
                err_justified(false);
                outcome("err", len);
                self.same(i, "atomic", true);
                false
            }
            None => {
                outcome("panic", len);
                self.resync(i, &[m], mark);
                false
            }
        }
    }
    fn remove_one(&mut self, i: usize, a: u32, take: bool) -> bool {
        let len = self.s[i].k.len();
        let mark = s().objs.len() as u32;
        let sl = &mut self.s[i];
        may(K::Cmp, walk(len));
        let r = if take { pure(|| sl.m.take(&Q(a))).map(|o| (o.is_some(), o)) } else { pure(|| sl.m.remove(&Q(a))).map(|b| (b, None)) };
        match r {
            Some((b, o)) => {
                let want = pos(&sl.k, a).ok().map(|x| sl.k.remove(x));
                if b != want.is_some() || (take && o.as_ref().map(|x| x.m()) != want) {
                    vio("result", || format!("{} gave {b} {:?}, expected {want:?}", s().op, o.as_ref().map(|x| x.m())));
                }
                outcome(if b { "some" } else { "none" }, len);
                call(|| drop(o));
                true
            }
            None => {
                outcome("panic", len);
                self.resync(i, &[], mark);
                false
            }
        }
    }
    fn replace_set(&mut self, i: usize, m: BTreeSet<T>, k: Vec<M>) {
        let o = std::mem::replace(&mut self.s[i].m, m);
        self.s[i].k = k;
        pure(|| drop(o));
    }
    /// expected results of set algebra, as (either, either) candidates ordered
    fn algebra(&self, what: &str, i: usize, j: usize) -> Vec<M> {
        let (a, b) = (&self.s[i].k, &self.s[j].k);
        let mut v: Vec<M> = match what {
            "difference" | "op_sub" => a.iter().filter(|m| !has(b, m)).copied().collect(),
            "symdiff" | "op_xor" => a.iter().filter(|m| !has(b, m)).chain(b.iter().filter(|m| !has(a, m))).copied().collect(),
            "intersection" | "op_and" => a.iter().filter(|m| has(b, m)).copied().collect(),
            _ => a.iter().chain(b.iter().filter(|m| !has(a, m))).copied().collect(),
        };
        v.sort_by_key(|m| ordkey(m.val));
        v
    }
}

impl<T: Elem> World for SetWorld<T> {
    fn step(&mut self, st: &Step) {
        let i = ((st.b & 0xff) % 3) as usize;
        let j = (i + 1 + ((st.b >> 3) & 1) as usize) % 3;
        let a = st.a as u32;
        let len = self.s[i].k.len();
        let mark = s().objs.len() as u32;
        let bits = st.b >> 8;
        let take = if st.a % 3 == 0 { usize::MAX >> 1 } else { st.c as usize };
        let mut full = false;
        match st.op {
            "insert" => {
                self.insert_one(i, a, false);
            }
            "replace" => {
                self.insert_one(i, a, true);
            }
            "fill" => {
                // the three sets are kept at different scales so that size-dependent strategies are all reached
                let lim = [self.cap.min(16), self.cap.min(300), self.cap][i];
                let n = (st.c as usize * 2).min(lim.saturating_sub(len));
                for q in 0..n {
                    let kk = match (bits >> 4) % 3 {
                        0 => a.wrapping_add(q as u32),
                        1 => a.wrapping_add((n - q) as u32 * 2),
                        _ => crate::rng::mix(bits ^ q as u64) as u32 % (n as u32 * 3 + 1),
                    };
                    if !self.insert_one(i, kk, q % 4 == 3) || failed() {
                        break;
                    }
                }
            }
            "subset_build" => {
                // make slot i a subset (sometimes nearly) of slot j
                let lopsided = (bits >> 8) % 8 == 0 && self.cap > 150 && !chaos();
                if lopsided {
                    // a few elements of many, the last one included
                    for q in 0..self.cap.min(450) as u32 {
                        if self.s[j].k.len() >= self.cap || !self.insert_one(j, q * 7, false) || failed() {
                            break;
                        }
                    }
                    self.same(j, "state", true);
                }
                let n = (st.c as usize).min(self.s[j].k.len());
                let step = (self.s[j].k.len() / n.max(1)).max(1);
                let keys: Vec<u32> = if lopsided {
                    self.s[j].k.iter().rev().step_by(1 + (bits >> 12) as usize % 150).map(|m| m.val).take(1 + (bits >> 20) as usize % 4).collect()
                } else {
                    self.s[j].k.iter().step_by(step).map(|m| m.val).take(self.cap).collect()
                };
                if bits & 1 == 0 {
                    if let Some(m) = pure(BTreeSet::new) {
                        self.replace_set(i, m, vec![]);
                    }
                }
                for k in keys {
                    if !self.insert_one(i, k, false) || failed() {
                        break;
                    }
                }
                if bits & 2 != 0 && !failed() {
                    self.insert_one(i, a, false);
                }
            }
            "drain" => {
                let n = (st.c as usize * 2).min(len);
                for q in 0..n {
                    let l = self.s[i].k.len();
                    if l == 0 {
                        break;
                    }
                    let at = match (bits >> 4) % 4 {
                        0 => 0,
                        1 => l - 1,
                        2 => a as usize % l,
                        _ => crate::rng::mix(bits ^ q as u64) as usize % l,
                    };
                    let kk = self.s[i].k[at].val;
                    if !self.remove_one(i, kk, q % 2 == 0) || failed() {
                        break;
                    }
                    self.memory();
                    if chaos() {
                        self.same(i, "state", true);
                    }
                }
            }
            "drain_clone" => {
                if chaos() || s().after_panic {
                    return;
                }
                let others = h().live_blocks;
                let sl = &self.s[i];
                may(K::Clone, len);
                may(K::Cmp, 2 * len);
                let mut c = match bulk(false, || sl.m.clone()) {
                    Some(c) => c,
                    _ => return,
                };
                let mut k = look(|| read(&c)).unwrap_or_default();
                while !k.is_empty() && !failed() {
                    let l = k.len();
                    let p = match (bits >> 4) % 4 {
                        0 => 0,
                        1 => l - 1,
                        2 => a as usize % l,
                        _ => crate::rng::mix(bits ^ l as u64) as usize % l,
                    };
                    let e = k.remove(p);
                    may(K::Cmp, walk(l));
                    match pure(|| c.remove(&Q(e.val))) {
                        Some(o) => {
                            if !o {
                                vio("result", || format!("{e:?} could not be removed from a clone"));
                            }
                        }
                        None => break,
                    }
                    let nodes = h().live_blocks.wrapping_sub(others).wrapping_sub(k.len() * T::OWN);
                    if !s().multi && nodes > max_blocks(k.len()) {
                        vio("mem", || format!("{nodes} node blocks for {} elements while a clone of {len} elements is drained", k.len()));
                    }
                }
                outcome("ok", len);
                call(|| drop(c));
            }
            "contains" | "get" => {
                let key = if len > 0 && bits & 1 == 0 { self.s[i].k[(bits >> 2) as usize % len].val ^ ((bits >> 1) as u32 & 1) } else { a };
                let sl = &self.s[i];
                may(K::Cmp, 2 * walk(len));
                if let Some((c, g)) = pure(|| (sl.m.contains(&Q(key)), sl.m.get(&Q(key)).map(|x| x.m()))) {
                    let want = pos(&sl.k, key).ok().map(|x| sl.k[x]);
                    if c != want.is_some() || g != want {
                        vio("result", || format!("contains/get gave {c} {g:?}, expected {want:?}"));
                    }
                    outcome(if c { "some" } else { "none" }, len);
                }
            }
            "remove" | "take" => {
                let key = if len > 0 && bits & 3 != 0 { self.s[i].k[(bits >> 2) as usize % len].val } else { a };
                self.remove_one(i, key, st.op == "take");
            }
            "range" | "range_bad" => {
                let (lo, hi, bad) = mk_bounds(st);
                let (lo, hi, bad) = if st.op == "range_bad" { inverted(a, bits) } else { (lo, hi, bad) };
                let sl = &self.s[i];
                if chaos() {
                    return;
                }
                may(K::Cmp, 2 * walk(len));
                if bad {
                    if call_panicky(|| sl.m.range((lo, hi)).count()).is_ok() {
                        vio("result", || "an inverted range did not panic".into());
                    }
                } else {
                    let mut exp: VecDeque<M> = sl.k.iter().filter(|x| in_bounds(x.val, &lo, &hi)).copied().collect();
                    let half = (take / 2).min(exp.len() / 2);
                    if let Some(mut it) = pure(|| sl.m.range((lo, hi))) {
                        if drive(&mut it, &mut exp, bits, half, Hint::Bound, |k| k.m()) {
                            if let Some(mut it2) = pure(|| it.clone()) {
                                let mut e2 = exp.clone();
                                drive(&mut it2, &mut e2, bits.rotate_right(9), take, Hint::Bound, |k| k.m());
                            }
                            if drive(&mut it, &mut exp, bits.rotate_right(17), take, Hint::Bound, |k| k.m()) {
                                finish_any(it, exp, bits >> 23, |k| k.m());
                            }
                        }
                    }
                }
                outcome("ok", len);
            }
            "iter" => {
                if chaos() {
                    return;
                }
                let sl = &self.s[i];
                let mut exp: VecDeque<M> = sl.k.iter().copied().collect();
                let half = (take / 2).min(len / 2);
                if let Some(mut it) = pure(|| if bits & 4 == 0 { sl.m.iter() } else { (&sl.m).into_iter() }) {
                    if drive(&mut it, &mut exp, bits, half, Hint::Exact, |k| k.m()) {
                        if let Some(mut it2) = pure(|| it.clone()) {
                            let mut e2 = exp.clone();
                            drive(&mut it2, &mut e2, bits.rotate_right(9), take, Hint::Exact, |k| k.m());
                        }
                        let l = pure(|| it.len());
                        if l.is_some() && l != Some(exp.len()) {
                            vio("iter", || format!("len() {l:?} with {} left", exp.len()));
                        }
                        if bits & 0x3000 == 0 {
                            may(K::Cmp, 2 * exp.len());
                            let r = pure(|| (it.clone().min().map(|k| k.m()), it.clone().max().map(|k| k.m())));
                            if r.is_some() && r != Some((exp.front().copied(), exp.back().copied())) {
                                vio("iter", || format!("min and max are {r:?} of {exp:?}"));
                            }
                        }
                        if drive(&mut it, &mut exp, bits.rotate_right(17), take, Hint::Exact, |k| k.m()) {
                                finish_any(it, exp, bits >> 23, |k| k.m());
                            }
                    }
                }
                outcome("ok", len);
            }
            "into_iter" => {
                let m = std::mem::replace(&mut self.s[i].m, BTreeSet::new());
                let mut exp: VecDeque<M> = std::mem::take(&mut self.s[i].k).into();
                if let Some(mut it) = pure(|| m.into_iter()) {
                    let mut kept = vec![];
                    let n = if st.a % 4 == 0 { usize::MAX >> 1 } else { st.c as usize };
                    let mut conv = |k: T| {
                        let r = k.m();
                        kept.push(k);
                        r
                    };
                    let ok = drive(&mut it, &mut exp, bits, n, Hint::Exact, &mut conv);
                    if ok {
                        length(pure(|| it.len()), exp.len());
                    }
                    if ok && bits & 0x3000 == 0 {
                        finish_any(it, exp, bits >> 23, &mut conv);
                    } else {
                        pure(|| drop(it));
                    }
                    look(|| kept.iter().for_each(|k| drop(k.m())));
                    call(|| drop(kept));
                }
                outcome("ok", len);
            }
            "difference" | "symdiff" | "intersection" | "union" => {
                if chaos() {
                    return;
                }
                let exp: VecDeque<M> = self.algebra(st.op, i, j).into();
                let (x, y) = (&self.s[i], &self.s[j]);
                // union delivers the left operand's object; intersection may deliver either's
                let eq = |g: &M, w: &M| g == w || st.op == "intersection" && (ordkey(g.val) == ordkey(w.val) && (x.k.contains(g) || y.k.contains(g)) && has(&x.k, g) && has(&y.k, g));
                let half = (take / 2).min(exp.len() / 2);
                pool(K::Cmp, 2 * joint(st.op, x.k.len(), y.k.len()) + 16);
                macro_rules! go {
                    ($mk:expr) => {{
                        let mut exp = exp.clone();
                        if let Some(mut it) = pure(|| $mk) {
                            if drive_fwd(&mut it, &mut exp, bits, half, Hint::Bound, |k| k.m(), eq) {
                                if let Some(mut it2) = pure(|| it.clone()) {
                                    let mut e2 = exp.clone();
                                    if drive_fwd(&mut it2, &mut e2, bits.rotate_right(9), take, Hint::Bound, |k| k.m(), eq) {
                                        finish(it2, e2, bits >> 23, |k| k.m(), eq);
                                    }
                                }
                                if bits & 0x3000 == 0 {
                                    finish(it, exp, bits >> 25, |k| k.m(), eq);
                                } else {
                                    drive_fwd(&mut it, &mut exp, bits.rotate_right(17), usize::MAX >> 1, Hint::Bound, |k| k.m(), eq);
                                }
                            }
                        }
                    }};
                }
                match st.op {
                    "difference" => go!(x.m.difference(&y.m)),
                    "symdiff" => go!(x.m.symmetric_difference(&y.m)),
                    "intersection" => go!(x.m.intersection(&y.m)),
                    _ => go!(x.m.union(&y.m)),
                }
                outcome(if x.k.len() > y.k.len() / 16 { "stitch" } else { "probe" }, exp.len());
            }
            "op_sub" | "op_xor" | "op_and" | "op_or" => {
                if chaos() {
                    return;
                }
                let exp = self.algebra(st.op, i, j);
                let k = 3 - i - j;
                let bf = self.bulkfault;
                may(K::Cmp, joint(st.op, self.s[i].k.len(), self.s[j].k.len()) + exp.len() * walk(exp.len()));
                may(K::Clone, exp.len());
                h().mark();
                let r = {
                    let (x, y) = (&self.s[i].m, &self.s[j].m);
                    match st.op {
                        "op_sub" => bulk(bf, || x - y),
                        "op_xor" => bulk(bf, || x ^ y),
                        "op_and" => bulk(bf, || x & y),
                        _ => bulk(bf, || x | y),
                    }
                };
                cost(usize::MAX, 4 + 2 * max_blocks(exp.len()) as u32, format_args!("a set of {} elements", exp.len()));
                if exp.len() > self.cap {
                    call(|| drop(r));
                    return;
                }
                match r {
                    Some(m) => {
                        let c = look(|| read(&m)).unwrap_or_default();
                        let (x, y) = (&self.s[i].k, &self.s[j].k);
                        let ok = c.len() == exp.len() && c.iter().zip(&exp).all(|(g, w)| is_clone(*g, *w) || (s().op == "op_and" && has(x, w) && has(y, w) && x.iter().chain(y).any(|q| ordkey(q.val) == ordkey(w.val) && is_clone(*g, *q))));
                        if !ok {
                            vio("state", || format!("{} gave {:?}, expected clones of {:?}", s().op, vals(&c), vals(&exp)));
                        }
                        self.replace_set(k, m, c);
                        outcome("ok", exp.len());
                    }
                    None => outcome("panic", exp.len()),
                }
                self.same(k, "state", true);
                self.same(j, "state", true);
                full = true;
            }
            "relations" => {
                if chaos() {
                    return;
                }
                let (x, y) = (&self.s[i], &self.s[j]);
                let (xl, yl) = (x.k.len(), y.k.len());
                let ask = |what: &str, n: usize, m: usize, f: &dyn Fn() -> bool| {
                    may(K::Cmp, joint(what, n, m));
                    pure(f)
                };
                let d = ask("intersection", xl, yl, &|| x.m.is_disjoint(&y.m));
                let b = ask("subset", xl, yl, &|| x.m.is_subset(&y.m));
                let p = ask("subset", yl, xl, &|| x.m.is_superset(&y.m));
                let e = ask("subset", xl, xl, &|| x.m.is_subset(&x.m));
                if let (Some(d), Some(b), Some(p), Some(e)) = (d, b, p, e) {
                    let wd = !x.k.iter().any(|m| has(&y.k, m));
                    let wb = x.k.iter().all(|m| has(&y.k, m));
                    let wp = y.k.iter().all(|m| has(&x.k, m));
                    if (d, b, p, e) != (wd, wb, wp, true) {
                        vio("result", || format!("disjoint/subset/superset gave {:?}, expected {:?} for {:?} and {:?}", (d, b, p), (wd, wb, wp), vals(&x.k), vals(&y.k)));
                    }
                    outcome(if wb { "subset" } else if wp { "superset" } else if wd { "disjoint" } else { "mixed" }, len);
                }
            }
            "append" => {
                if len + self.s[j].k.len() > self.cap {
                    return;
                }
                let bf = self.bulkfault;
                let (x, y) = if i < j {
                    let (l, r) = self.s.split_at_mut(j);
                    (&mut l[i], &mut r[0])
                } else {
                    let (l, r) = self.s.split_at_mut(i);
                    (&mut r[0], &mut l[j])
                };
                h().mark();
                may(K::Cmp, 2 * (len + y.k.len()) + 8);
                let r = bulk(bf, || x.m.append(&mut y.m));
                cost(node_bytes::<T, ()>(), max_blocks(len + y.k.len()) as u32 + levels(len + y.k.len()), format_args!("appending {} elements to {len}", y.k.len()));
                match r {
                    Some(()) => {
                        let ys = std::mem::take(&mut y.k);
                        let old = std::mem::take(&mut x.k);
                        if !chaos() {
                            let c = look(|| read(&x.m)).unwrap_or_default();
                            let (mut i, mut j, mut ok) = (0, 0, true);
                            for g in &c {
                                let (o, y) = (old.get(i), ys.get(j));
                                let side = match (o, y) {
                                    (Some(o), Some(y)) => ordkey(o.val).cmp(&ordkey(y.val)),
                                    (Some(_), None) => std::cmp::Ordering::Less,
                                    _ => std::cmp::Ordering::Greater,
                                };
                                ok &= match (side, o, y) {
                                    (std::cmp::Ordering::Less, Some(o), _) => g == o,
                                    (std::cmp::Ordering::Equal, Some(o), Some(y)) => g == o || g == y,
                                    (_, _, Some(y)) => g == y,
                                    _ => false,
                                };
                                i += side.is_le() as usize;
                                j += side.is_ge() as usize;
                            }
                            ok &= i >= old.len() && j >= ys.len();
                            if !ok {
                                vio("state", || format!("append gave {:?} from {:?} and {:?}", vals(&c), vals(&old), vals(&ys)));
                            }
                            x.k = c;
                        }
                        outcome("ok", ys.len());
                        self.same(j, "state", true);
                    }
                    None => {
                        let all = y.k.clone();
                        self.resync(i, &all, mark);
                        self.resync(j, &[], mark);
                        outcome("panic", len);
                    }
                }
                full = true;
            }
            "split_off" => {
                let key = if len > 0 && bits & 1 == 0 { self.s[i].k[(bits >> 3) as usize % len].val } else { a };
                let sl = &mut self.s[i];
                h().mark();
                may(K::Cmp, 2 * walk(len));
                let r = call(|| sl.m.try_split_off(&Q(key)));
                cost(node_bytes::<T, ()>(), levels(len) + 1, format_args!("splitting {len} elements"));
                match r {
                    Some(Ok(m)) => {
                        let p = pos(&sl.k, key).unwrap_or_else(|p| p);
                        let k = if chaos() { look(|| read(&m)).unwrap_or_default() } else { sl.k.split_off(p) };
                        outcome("ok", len);
                        self.replace_set(j, m, k);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", len);
                        self.same(i, "atomic", true);
                    }
                    None => {
                        outcome("panic", len);
                        self.resync(i, &[], mark);
                    }
                }
                full = true;
                self.same(j, "state", true);
            }
            "extend" | "from_iter" => {
                if len + st.v.len() > self.cap.max(60) {
                    return;
                }
                let items: VecDeque<T> = st.v.iter().map(|v| T::mk(*v)).collect();
                let ms: Vec<M> = items.iter().map(|x| x.m()).collect();
                let n = ms.len();
                let beyond = if (st.b >> 37) & 3 == 0 { (0..3).map(|v| T::mk(9000 + v)).collect() } else { Default::default() };
                let it = LieIter::new(items, hint(bits, n), beyond);
                let bf = self.bulkfault;
                let mut want = if st.op == "extend" { self.s[i].k.clone() } else { vec![] };
                if !chaos() {
                    for e in &ms {
                        if let Err(p) = pos(&want, e.val) {
                            want.insert(p, *e);
                        }
                    }
                }
                h().mark();
                let most = 4 + 2 * max_blocks(want.len()) as u32;
                may(K::Cmp, n * walk(len + n));
                may(K::Next, n + 1);
                if st.op == "extend" {
                    let sl = &mut self.s[i];
                    let r = bulk(bf, || sl.m.extend(it));
                    cost(usize::MAX, most, format_args!("extended by {n} elements"));
                    match r {
                        Some(()) => {
                            sl.k = want;
                            outcome("ok", n);
                        }
                        None => {
                            outcome("panic", n);
                            self.resync(i, &ms, mark);
                        }
                    }
                } else {
                    let r = bulk(bf, || it.collect::<BTreeSet<T>>());
                    cost(usize::MAX, most, format_args!("collected {n} elements"));
                    match r {
                        Some(m) => {
                            self.replace_set(i, m, want);
                            outcome("ok", n);
                        }
                        None => outcome("panic", n),
                    }
                }
                full = true;
            }
            "clone" => {
                let bf = self.bulkfault;
                h().mark();
                may(K::Clone, len);
                may(K::Cmp, 2 * len);
                if st.b >> 8 & 12 == 4 {
                    // into an existing set
                    let (l, r) = self.s.split_at_mut(i.max(j));
                    let (x, y) = if i < j { (&l[i], &mut r[0]) } else { (&r[0], &mut l[j]) };
                    if bulk(bf, || y.m.clone_from(&x.m)).is_some() {
                        let c = look(|| read(&y.m)).unwrap_or_default();
                        if c.len() != x.k.len() || !c.iter().zip(&x.k).all(|(g, w)| is_clone(*g, *w)) {
                            vio("state", || format!("clone_from gave {:?} of {:?}", vals(&c), vals(&x.k)));
                        }
                        y.k = c;
                        self.same(j, "state", true);
                        outcome("ok", len);
                    } else {
                        self.resync(j, &[], mark);
                        outcome("panic", len);
                    }
                    self.same(i, "state", true);
                    return;
                }
                let sl = &self.s[i];
                let r = bulk(bf, || sl.m.clone());
                cost(usize::MAX, 4 + 2 * max_blocks(len) as u32, format_args!("a clone of {len} elements"));
                match r {
                    Some(m) => {
                        let c = look(|| read(&m)).unwrap_or_default();
                        if c.len() != sl.k.len() || !c.iter().zip(&sl.k).all(|(g, w)| is_clone(*g, *w)) {
                            vio("state", || format!("clone {:?} of {:?}", vals(&c), vals(&sl.k)));
                        }
                        self.replace_set(j, m, c);
                        outcome("ok", len);
                    }
                    None => outcome("panic", len),
                }
                self.same(j, "state", true);
            }
            "extend_ref" => {
                let (mut m, mut w) = (BTreeSet::new(), std::collections::BTreeSet::new());
                let (x, y) = st.v.split_at(st.v.len() / 2);
                for v in x {
                    let r = bulk(false, || m.try_insert(*v));
                    if r.map(|x| x.ok()) != Some(Some(w.insert(*v))) {
                        vio("result", || "insertion of a plain integer gave a wrong result".into());
                    }
                }
                let bf = self.bulkfault;
                if bulk(bf, || m.extend(y.iter())).is_some() {
                    w.extend(y.iter());
                    if look(|| m.iter().eq(w.iter()) && m.len() == w.len()) != Some(true) {
                        vio("state", || format!("extending by reference gave {m:?}, expected {w:?}"));
                    }
                }
                outcome("ok", w.len());
                pure(|| drop(m));
            }
            "cmp" => {
                let (x, y) = (&self.s[i], &self.s[j]);
                may(K::Cmp, 12 * x.k.len().min(y.k.len()) + 12);
                if let Some((e, c, p)) = pure(|| (x.m == y.m, x.m.cmp(&y.m), x.m.partial_cmp(&y.m))) {
                    let w: Ordering = okeys(&x.k).cmp(&okeys(&y.k));
                    if e != (w == Ordering::Equal) || c != w || p != Some(w) {
                        vio("result", || format!("comparison of sets gave {e} {c:?} {p:?}, expected {w:?}"));
                    }
                }
                may(K::Cmp, 24 * x.k.len().min(y.k.len()) + 24);
                if let Some(g) = pure(|| (x.m != y.m, x.m < y.m, x.m <= y.m, x.m > y.m, x.m >= y.m)) {
                    let w: Ordering = okeys(&x.k).cmp(&okeys(&y.k));
                    if g != (w.is_ne(), w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()) {
                        vio("result", || format!("!=, <, <=, >, >= of sets gave {g:?} where the order is {w:?}"));
                    }
                }
                outcome("ok", len);
            }
            "debug" => {
                let mut sink = Sink(String::new());
                let sl = &self.s[i];
                use std::fmt::Write;
                may(K::Fmt, len);
                if pure(|| {
                    let _ = write!(sink, "{:?}", sl.m);
                })
                .is_some()
                {
                    let want = format!("{{{}}}", sl.k.iter().map(|x| format!("{}", x.val)).collect::<Vec<_>>().join(", "));
                    if sink.0 != want {
                        vio("result", || format!("debug output {} instead of {want}", sink.0));
                    }
                }
                let mut sink = Sink(String::new());
                let y = &self.s[j].m;
                let yl = self.s[j].k.len();
                may(K::Fmt, 8 * (len + yl));
                may(K::Cmp, 8 * (len + yl) + 64);
                let _ = pure(|| {
                    let _ = write!(sink, "{:?}{:?}{:?}{:?}{:?}", sl.m.iter(), sl.m.union(y), sl.m.difference(y), sl.m.intersection(y), sl.m.symmetric_difference(y));
                });
                outcome("ok", len);
            }
            "hash" => {
                use std::hash::{Hash, Hasher};
                let hs = |m: &BTreeSet<T>| {
                    let mut hh = Fnv(0xcbf29ce484222325);
                    m.hash(&mut hh);
                    hh.finish()
                };
                let (x, y) = (&self.s[i], &self.s[j]);
                may(K::Hash, x.k.len() + y.k.len());
                if let Some((p, q)) = pure(|| (hs(&x.m), hs(&y.m))) {
                    if okeys(&x.k) == okeys(&y.k) && p != q {
                        vio("result", || "equal sets hash differently".into());
                    }
                }
            }
            "reshape" => {
                if chaos() {
                    return;
                }
                let k: Vec<M> = self.s[i].k.clone();
                let mut m = BTreeSet::new();
                let mut aux = BTreeSet::new();
                for q in 0..k.len() {
                    let at = if bits & 1 == 0 { q } else { k.len() - 1 - q };
                    let e = T::mk(k[at].val);
                    may(K::Cmp, 2 * walk(k.len()));
                    let to = if bits & 2 == 0 && q % 2 == 1 { &mut aux } else { &mut m };
                    if bulk(false, || to.try_insert(e)).is_none() {
                        call(|| drop((m, aux)));
                        return;
                    }
                }
                may(K::Cmp, 2 * k.len() + 8);
                if bulk(false, || m.append(&mut aux)).is_none() {
                    call(|| drop((m, aux)));
                    return;
                }
                use std::hash::{Hash, Hasher};
                let hs = |m: &BTreeSet<T>| {
                    let mut hh = Fnv(0xcbf29ce484222325);
                    m.hash(&mut hh);
                    hh.finish()
                };
                let x = &self.s[i].m;
                may(K::Cmp, 12 * k.len());
                may(K::Hash, 4 * k.len());
                pool(K::Cmp, 8 * k.len() + 8 * walk(k.len()) * (k.len() / 16 + 1) + 16);
                if let Some(r) = pure(|| (hs(x) == hs(&m), *x == m, m == *x, x.cmp(&m), m.partial_cmp(x), x.is_subset(&m), m.is_superset(x))) {
                    if r != (true, true, true, Ordering::Equal, Some(Ordering::Equal), true, true) {
                        vio("result", || format!("equal sets of {} elements, built differently: hash, ==, ==, cmp, partial_cmp, subset, superset say {r:?}", k.len()));
                    }
                }
                outcome("ok", len);
                call(|| drop((m, aux)));
            }
            "clear" => {
                let sl = &mut self.s[i];
                match pure(|| sl.m.clear()) {
                    Some(()) => {
                        sl.k.clear();
                        outcome("ok", len);
                    }
                    None => self.resync(i, &[], mark),
                }
            }
            "new" => {
                let m = if bits & 1 == 0 { pure(BTreeSet::new) } else { pure(BTreeSet::default) };
                if let Some(m) = m {
                    self.replace_set(i, m, vec![]);
                }
            }
            _ => unreachable!("op {}", st.op),
        }
        self.same(i, "state", full);
        self.memory();
    }
    fn content(&self) -> u64 {
        self.s.iter().fold(2, |d, x| mix_elems(d, x.k.iter()))
    }
    fn live(&self) -> i64 {
        (self.s.iter().map(|x| x.k.len()).sum::<usize>() * T::COUNT) as i64
    }
    fn probe(&mut self) {
        let cap = self.cap;
        self.cap = usize::MAX >> 1;
        for i in 0..3 {
            s().op = "insert";
            for q in 0..8u32 {
                let base = self.s[i].k.get(self.s[i].k.len() * q as usize / 8).map_or(0, |x| x.val);
                let r = self.insert_one(i, base.wrapping_add(q), false);
                if !r && !failed() && !chaos() {
                    viol("spurious", || "an insertion failed after all faults had stopped".into());
                }
                if failed() {
                    return;
                }
            }
            self.same(i, "state", true);
            let keys: Vec<u32> = self.s[i].k.iter().step_by(5).map(|x| x.val).take(12).collect();
            s().op = "remove";
            if !chaos() {
                for k in keys {
                    self.remove_one(i, k, false);
                }
            }
            self.same(i, "state", true);
        }
        self.cap = cap;
        self.memory();
    }
    fn finish(self: Box<Self>) {
        pure(move || drop(self));
    }
    fn size(&self) -> usize {
        self.s.iter().map(|x| x.k.len()).max().unwrap_or(0)
    }
}
