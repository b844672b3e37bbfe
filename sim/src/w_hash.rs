//! World "hash": two TryHashMap<K, V> against reference maps.
use crate::elem::*;
use crate::heap::{self, h, OFF};
use crate::sim::*;
use crate::trace::Step;
use crate::world::*;
use fallible_collections::{TryClone, TryHashMap, TryReserveError};
use std::collections::{BTreeMap, HashSet};
use crate::sim::K as K_;

pub const OPS: &[OpDef] = &[
    op("insert", 24), op("insert_many", 6), op("get", 8), op("get_own", 2), op("remove", 14), op("drain", 4), op("iter", 5), op("into_iter", 3), op("with_cap", 4),
    op("with_cap_huge", 1), op("burst", 5), op("try_clone", 5), op("debug", 2), op("new", 2), op("len", 3), op("churn", 4),
];

type Kv = (M, M);
pub struct Slot<K: Elem, V: Elem> {
    m: TryHashMap<K, V>,
    k: BTreeMap<u32, Kv>,
    /// insertions still covered by a granted capacity
    promised: usize,
}
pub struct HashWorld<K: Elem, V: Elem> {
    s: Vec<Slot<K, V>>,
    cap: usize,
    tick: u64,
}
fn chaos() -> bool {
    s().ordmode == CHAOS
}
fn vio(class: &'static str, f: impl FnOnce() -> String) {
    if !chaos() {
        viol(class, f)
    }
}
fn kvals<'a>(k: impl Iterator<Item = &'a Kv>) -> Vec<(u32, u32, u32, u32)> {
    let mut v: Vec<_> = k.map(|x| (x.0.id, x.0.val, x.1.id, x.1.val)).collect();
    v.sort();
    v.truncate(40);
    v
}
fn read<K: Elem, V: Elem>(m: &TryHashMap<K, V>) -> Vec<Kv> {
    m.iter().map(|(k, v)| (k.m(), v.m())).collect()
}

/// bytes of the largest table the documented growth policy (power-of-two tables, at most 7/8 full,
/// doubled when more than half of that is in use) can ask for
fn table<K, V>(buckets: usize) -> usize {
    buckets * (std::mem::size_of::<(K, V)>() + 1) + 64 + std::mem::align_of::<(K, V)>()
}
/// keys were made to share hash values
fn coll() -> bool {
    s().hashmode != 0
}
/// one lookup: its hash, and comparisons with keys that look alike
fn lookup(len: usize) {
    may(K_::Hash, 1);
    may(K_::Cmp, if coll() { 2 * len + 2 } else { 8 + len / 8 });
}
/// n insertions into a table of len entries: what rebuilding and cleaning the table takes in all
fn rebuilds(len: usize, n: usize) {
    pool(K_::Hash, 4 * (len + 2 * n) + 16);
}
impl<K: Elem, V: Elem> HashWorld<K, V> {
    pub fn new(cap: usize) -> Self {
        HashWorld { s: (0..2).map(|_| Slot { m: call(TryHashMap::default).expect("default map"), k: BTreeMap::new(), promised: 0 }).collect(), cap, tick: 0 }
    }
    fn resync(&mut self, i: usize, allowed: &[M], mark: u32) {
        let old = std::mem::take(&mut self.s[i].k);
        self.s[i].promised = 0;
        let c = match look(|| read(&self.s[i].m)) {
            Some(c) => c,
            None => return,
        };
        let sl = &mut self.s[i];
        let olds: HashSet<u32> = old.values().flat_map(|x| [x.0.id, x.1.id]).chain(allowed.iter().map(|m| m.id)).collect();
        let mut ids: Vec<u32> = c.iter().flat_map(|x| [x.0.id, x.1.id]).filter(|x| *x != 0).collect();
        for id in &ids {
            if *id < mark && !olds.contains(id) {
                vio("panicstate", || format!("after a panic the map holds element {id}, which the operation was never given"));
            }
        }
        ids.sort();
        if ids.windows(2).any(|w| w[0] == w[1]) {
            viol("own", || "an element is stored twice after a panic".into());
        }
        if look(|| sl.m.len()) != Some(c.len()) {
            viol("panicstate", || format!("after a panic len() disagrees with {} iterated entries", c.len()));
        }
        for (n, x) in c.iter().enumerate() {
            if chaos() {
                // inconsistent hashing: keys need not be unique, remember entries by position
                sl.k.insert(n as u32, *x);
                continue;
            }
            if sl.k.insert(ordkey(x.0.val), *x).is_some() {
                viol("panicstate", || format!("key {} is stored twice after a panic", x.0.val));
            }
            if look(|| sl.m.get(&Q(x.0.val)).map(|v| v.m())) != Some(Some(x.1)) {
                viol("panicstate", || format!("entry {x:?} cannot be found after a panic"));
                break;
            }
        }
    }
    fn same(&mut self, i: usize, class: &'static str, full: bool) {
        if failed() {
            return;
        }
        if chaos() {
            let mark = s().objs.len() as u32;
            let all: Vec<M> = self.s.iter().flat_map(|x| x.k.values().flat_map(|y| [y.0, y.1])).collect();
            self.resync(i, &all, mark);
            return;
        }
        let sl = &self.s[i];
        self.tick += 1;
        if look(|| sl.m.len()) != Some(sl.k.len()) {
            viol(class, || format!("after {} length is {:?}, expected {}", s().op, look(|| sl.m.len()), sl.k.len()));
            return;
        }
        if sl.k.len() > 100 && !full && self.tick % 5 != 0 {
            return;
        }
        let c = match look(|| read(&sl.m)) {
            Some(c) => c,
            None => return,
        };
        let ok = c.len() == sl.k.len() && c.iter().all(|x| sl.k.get(&ordkey(x.0.val)) == Some(x));
        let mut uniq: Vec<u32> = c.iter().map(|x| ordkey(x.0.val)).collect();
        uniq.sort();
        uniq.dedup();
        if !ok || uniq.len() != c.len() {
            viol(class, || format!("contents after {}: {:?}, expected {:?}", s().op, kvals(c.iter()), kvals(sl.k.values())));
            return;
        }
        for x in sl.k.values() {
            if look(|| sl.m.get(&Q(x.0.val)).map(|v| v.m())) != Some(Some(x.1)) {
                viol(class, || format!("after {} the entry with key {} cannot be found", s().op, x.0.val));
                return;
            }
        }
    }
    fn insert_one(&mut self, i: usize, a: u32, vv: u32) -> bool {
        let hk = ordkey(K::norm(a));
        let exists = self.s[i].k.contains_key(&hk);
        if !exists && self.s[i].k.len() >= self.cap {
            return true;
        }
        let mark = s().objs.len() as u32;
        let (k, v) = (K::mk(a), V::mk(vv));
        let (km, vm) = (k.m(), v.m());
        let sl = &mut self.s[i];
        let len = sl.k.len();
        let r0 = h().req;
        h().mark();
        let ref0 = h().refused;
        lookup(len);
        may(K_::Hash, 1);
        let r = call(|| sl.m.insert(k, v));
        if h().refused == ref0 {
            cost(table::<K, V>(5 * (len + 1) + 16), 1, format_args!("{} entries", len + 1));
        }
        if sl.promised > 0 {
            if h().req != r0 {
                vio("reserve", || format!("an insertion within the granted capacity requested memory ({} more were promised)", sl.promised));
            }
            if let Some(Err(_)) = r {
                vio("reserve", || format!("an insertion within the granted capacity failed ({} more were promised)", sl.promised));
            }
            sl.promised -= 1;
        }
        match r {
            Some(Ok(o)) => {
                let got = look(|| o.as_ref().map(|e| e.m())).flatten();
                let want = sl.k.get(&hk).map(|x| x.1);
                if got != want {
                    vio("result", || format!("insert of key {a} returned {got:?}, expected {want:?}"));
                }
                match sl.k.get_mut(&hk) {
                    Some(x) => x.1 = vm,
                    None => {
                        sl.k.insert(hk, (km, vm));
                    }
                }
                outcome(if want.is_some() { "replaced" } else { "new" }, len);
                call(|| drop(o));
                true
            }
            Some(Err(_)) => {
                err_justified(false);
                outcome("err", len);
                self.same(i, "atomic", true);
                false
            }
            None => {
                outcome("panic", len);
                self.resync(i, &[km, vm], mark);
                false
            }
        }
    }
    fn remove_one(&mut self, i: usize, a: u32) {
        let mark = s().objs.len() as u32;
        let hk = ordkey(K::norm(a));
        let sl = &mut self.s[i];
        let len = sl.k.len();
        lookup(len);
        match pure(|| sl.m.remove(&Q(K::norm(a)))) {
            Some(o) => {
                let want = sl.k.remove(&hk).map(|x| x.1);
                let got = look(|| o.as_ref().map(|e| e.m())).flatten();
                if got != want {
                    vio("result", || format!("remove of key {a} returned {got:?}, expected {want:?}"));
                }
                outcome(if want.is_some() { "some" } else { "none" }, len);
                call(|| drop(o));
            }
            None => self.resync(i, &[], mark),
        }
    }
    fn replace(&mut self, i: usize, m: TryHashMap<K, V>, k: BTreeMap<u32, Kv>, promised: usize) {
        let o = std::mem::replace(&mut self.s[i].m, m);
        self.s[i].k = k;
        self.s[i].promised = promised;
        pure(|| drop(o));
    }
    fn burst(&mut self, i: usize, n: usize, a: u32) {
        let hh = h();
        let was = hh.outage;
        hh.outage = true;
        for q in 0..n {
            if !self.insert_one(i, a.wrapping_add(q as u32 * 7), q as u32) || failed() {
                break;
            }
            if q % 5 == 4 {
                self.remove_one(i, a.wrapping_add(q as u32 * 7));
            }
        }
        hh.outage = was;
    }
}
impl<K: Elem, V: Elem> World for HashWorld<K, V> {
    fn step(&mut self, st: &Step) {
        let i = (st.b & 1) as usize;
        let j = 1 - i;
        let bits = st.b >> 2;
        let a = st.a as u32;
        let len = self.s[i].k.len();
        let mark = s().objs.len() as u32;
        match st.op {
            "insert" => {
                rebuilds(len, 1);
                self.insert_one(i, a, bits as u32 & 0xfff);
            }
            "insert_many" => {
                let most = if self.cap > 3000 && s().hashmode == 0 { self.cap } else { 300 };
                rebuilds(len, (st.c as usize).min(most));
                let r0 = own_requests();
                for q in 0..(st.c as u32).min(most as u32) {
                    if !self.insert_one(i, a.wrapping_add(q.wrapping_mul(1 + (bits as u32 & 3))), q) || failed() {
                        break;
                    }
                }
                let (n, l) = (own_requests() - r0, self.s[i].k.len());
                if h().refused == 0 && n > 2 + usize::BITS - l.leading_zeros() {
                    vio("cost", || format!("growing from {len} to {l} entries took {n} requests"));
                }
            }
            "churn" => {
                rebuilds(len, (st.c as usize).min(200));
                // alternating removal and insertion: tombstones
                for q in 0..(st.c as u32).min(200) {
                    self.remove_one(i, a.wrapping_add(q));
                    if !self.insert_one(i, a.wrapping_add(q).wrapping_add(len as u32), q) || failed() {
                        break;
                    }
                }
            }
            "get" | "get_own" => {
                let sl = &self.s[i];
                let got = if st.op == "get" {
                    lookup(len);
                    pure(|| sl.m.get(&Q(K::norm(a))).map(|v| v.m()))
                } else {
                    let k = K::mk(a);
                    lookup(len);
                    let g = pure(|| sl.m.get::<K>(&k).map(|v| v.m()));
                    call(|| drop(k));
                    g
                };
                if let Some(got) = got {
                    let want = sl.k.get(&ordkey(K::norm(a))).map(|x| x.1);
                    if got != want {
                        vio("result", || format!("get of key {a} gave {got:?}, expected {want:?}"));
                    }
                    outcome(if want.is_some() { "some" } else { "none" }, len);
                }
            }
            "remove" => self.remove_one(i, a),
            "drain" => {
                let n = (st.c as usize).min(len);
                let keys: Vec<u32> = self.s[i].k.values().skip(bits as usize % (len - n + 1)).take(n).map(|x| x.0.val).collect();
                for k in keys {
                    self.remove_one(i, k);
                    if failed() {
                        break;
                    }
                }
            }
            "iter" => {
                let sl = &self.s[i];
                let mut left: BTreeMap<u32, Kv> = sl.k.clone();
                let mut it = match pure(|| sl.m.iter()) {
                    Some(it) => it,
                    None => return,
                };
                let take = if bits & 1 == 0 { len + 2 } else { st.c as usize };
                for q in 0..take {
                    let want = len.saturating_sub(q);
                    if it.size_hint() != (want, Some(want)) || it.len() != want {
                        vio("iter", || format!("size hint {:?} with {want} entries left", it.size_hint()));
                    }
                    let g = match pure(|| it.next()) {
                        Some(g) => g.map(|(k, v)| (k.m(), v.m())),
                        None => return,
                    };
                    match g {
                        None => {
                            if !left.is_empty() && q >= len {
                                vio("iter", || "iteration ended early".into());
                            }
                            break;
                        }
                        Some(x) => {
                            if !chaos() && left.remove(&ordkey(x.0.val)) != Some(x) {
                                vio("iter", || format!("iteration yielded {x:?} unexpectedly"));
                                return;
                            }
                        }
                    }
                }
                if take > len && !left.is_empty() {
                    vio("iter", || format!("iteration missed {} entries", left.len()));
                }
                outcome("ok", len);
            }
            "into_iter" => {
                let m = match call(TryHashMap::default) {
                    Some(m) => m,
                    None => return,
                };
                let m = std::mem::replace(&mut self.s[i].m, m);
                self.s[i].promised = 0;
                let mut left = std::mem::take(&mut self.s[i].k);
                let take = if bits & 1 == 0 { len + 2 } else { st.c as usize };
                let mut it = match pure(|| m.into_iter()) {
                    Some(it) => it,
                    None => return,
                };
                let mut n = 0;
                for _ in 0..take {
                    if it.size_hint() != (len - n, Some(len - n)) {
                        vio("iter", || format!("owning iterator size hint {:?} with {} entries left", it.size_hint(), len - n));
                    }
                    match pure(|| it.next()) {
                        Some(Some(x)) => {
                            n += 1;
                            let y = (x.0.m(), x.1.m());
                            if !chaos() && left.remove(&ordkey(y.0.val)) != Some(y) {
                                vio("iter", || format!("owning iteration yielded {y:?} unexpectedly"));
                            }
                            call(|| drop(x));
                        }
                        _ => break,
                    }
                    if failed() || n > len {
                        break;
                    }
                }
                if take > len && n != len {
                    vio("iter", || format!("owning iteration yielded {n} of {len} entries"));
                }
                pure(|| drop(it));
                outcome("ok", len);
            }
            "with_cap" | "burst" => {
                let n = (st.c as usize).min(if st.op == "burst" { 700 } else { 2000 });
                h().mark();
                let r = call(|| TryHashMap::with_capacity(n));
                cost(table::<K, V>(5 * n / 2 + 16), 1, format_args!("a capacity of {n}"));
                match r {
                    Some(Ok(m)) => {
                        self.replace(i, m, BTreeMap::new(), n);
                        outcome("ok", n);
                        if st.op == "burst" {
                            self.burst(i, n.min(self.cap), a);
                        }
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", n);
                    }
                    None => {}
                }
            }
            "with_cap_huge" => {
                let n = [usize::MAX, usize::MAX / 2, usize::MAX / 8 * 7, isize::MAX as usize + 1, usize::MAX / 16, 1 << 61, (1 << 32) + (bits >> 3) as usize % 40][(bits % 7) as usize];
                let fits = K::ZST && V::ZST;
                match call(|| TryHashMap::<K, V>::with_capacity(n)) {
                    Some(Ok(m)) => {
                        viol("result", || format!("capacity {n} was granted"));
                        std::mem::forget(m);
                    }
                    Some(Err(_)) => {
                        err_justified(true);
                        outcome("err", 0);
                    }
                    None => {}
                }
                let _ = fits;
            }
            "try_clone" => {
                let r: Option<Result<TryHashMap<K, V>, TryReserveError>> = {
                    let sl = &self.s[i];
                    h().mark();
                    may(K_::Clone, 2 * len);
                    may(K_::Hash, 2 * len);
                    may(K_::Cmp, if coll() { len * len } else { len });
                    let r = call(|| sl.m.try_clone());
                    cost(table::<K, V>(5 * len / 2 + 16), 1, format_args!("a clone of {len} entries"));
                    r
                };
                match r {
                    Some(Ok(m)) => {
                        let c = look(|| read(&m)).unwrap_or_default();
                        let src = &self.s[i].k;
                        let mut nk = BTreeMap::new();
                        if chaos() {
                            for (n, x) in c.iter().enumerate() {
                                nk.insert(n as u32, *x);
                            }
                        } else {
                            for x in &c {
                                let ok = src.get(&ordkey(x.0.val)).map_or(false, |y| is_clone(x.0, y.0) && is_clone(x.1, y.1));
                                if !ok || nk.insert(ordkey(x.0.val), *x).is_some() {
                                    viol("result", || format!("clone holds {x:?}, which is no clone of a source entry"));
                                }
                            }
                            if nk.len() != src.len() {
                                viol("result", || format!("clone holds {} of {} entries", nk.len(), src.len()));
                            }
                        }
                        self.replace(j, m, nk, 0);
                        outcome("ok", len);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", len);
                        self.same(i, "atomic", true);
                    }
                    None => {
                        outcome("panic", len);
                        self.resync(i, &[], mark);
                    }
                }
                self.same(j, "state", true);
            }
            "debug" => {
                let sl = &self.s[i];
                let mut sink = Sink(String::new());
                use std::fmt::Write;
                may(K_::Fmt, 2 * len);
                if pure(|| {
                    let _ = write!(sink, "{:?}", sl.m);
                })
                .is_some()
                {
                    let body = sink.0.strip_prefix('{').and_then(|x| x.strip_suffix('}'));
                    let mut got: Vec<String> = body.unwrap_or("?").split(", ").filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                    let mut want: Vec<String> = sl.k.values().map(|x| format!("{}: {}", x.0.val, x.1.val)).collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        vio("result", || format!("debug output {} does not list the entries", sink.0));
                    }
                }
                outcome("ok", len);
            }
            "new" => {
                if let Some(m) = pure(TryHashMap::default) {
                    self.replace(i, m, BTreeMap::new(), 0);
                }
                outcome("ok", len);
            }
            "len" => {
                let sl = &self.s[i];
                if let Some(n) = pure(|| sl.m.len()) {
                    if n != len {
                        vio("result", || format!("len() is {n}, expected {len}"));
                    }
                }
                outcome("ok", len);
            }
            _ => unreachable!("op {}", st.op),
        }
        self.same(i, "state", false);
        let _ = (heap::mode(), OFF);
    }
    fn content(&self) -> u64 {
        self.s.iter().fold(4, |d, x| mix_elems(d, x.k.values().flat_map(|e| [&e.0, &e.1])))
    }
    fn live(&self) -> i64 {
        self.s.iter().map(|x| x.k.len() * (K::COUNT + V::COUNT)).sum::<usize>() as i64
    }
    fn probe(&mut self) {
        let cap = self.cap;
        self.cap = usize::MAX >> 1;
        for i in 0..2 {
            s().op = "insert";
            rebuilds(self.s[i].k.len(), 10);
            for q in 0..10u32 {
                let r = self.insert_one(i, 5_000_000 + q, 7);
                if !r && !failed() && !chaos() {
                    viol("spurious", || "an insertion failed after all faults had stopped".into());
                }
                if failed() {
                    return;
                }
            }
            self.same(i, "state", true);
        }
        self.cap = cap;
    }
    fn finish(self: Box<Self>) {
        pure(move || drop(self));
    }
    fn size(&self) -> usize {
        self.s.iter().map(|x| x.k.len()).max().unwrap_or(0)
    }
}
