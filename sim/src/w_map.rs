//! World "map": two BTreeMap<K, V> against sorted-list models.
use crate::elem::*;
pub use crate::iters::*;
use crate::heap::{self, h, OFF};
use crate::sim::*;
use crate::trace::Step;
use crate::w_vec::{hint, vals, LieIter};
use crate::world::*;
use fallible_collections::btree::map::{BTreeMap, Entry};
use fallible_collections::TryClone;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::ops::Bound;

pub const OPS: &[OpDef] = &[
    op("insert", 24), op("entry", 16), op("get", 4), op("get_mut", 2), op("remove", 14), op("index", 1), op("range", 5), op("range_mut", 3),
    op("range_bad", 1), op("iter", 4), op("iter_mut", 2), op("keys", 2), op("values", 2), op("values_mut", 1), op("into_iter", 2),
    op("try_clone", 3), op("clone", 1), op("append", 2), op("split_off", 3), opl("extend", 2), opl("from_iter", 1), opl("extend_ref", 1), op("cmp", 1), op("debug", 1),
    op("hash", 1), op("reshape", 1), op("clear", 1), op("drop", 1), op("new", 1), op("fill", 5), op("drain", 5), op("build_full", 3), op("drain_clone", 2), op("insert_many", 4), op("views", 1),
];

pub type Kv = (M, M);
pub struct Slot<K: Elem, V: Elem> {
    pub m: BTreeMap<K, V>,
    pub k: Vec<Kv>,
}
pub struct MapWorld<K: Elem, V: Elem> {
    s: Vec<Slot<K, V>>,
    cap: usize,
    tick: u64,
    bulkfault: bool,
}

pub fn pos(k: &[Kv], val: u32) -> Result<usize, usize> {
    k.binary_search_by(|x| ordkey(x.0.val).cmp(&ordkey(val)))
}
pub fn kvals(k: &[Kv]) -> Vec<(u32, u32, u32, u32)> {
    k.iter().take(40).map(|x| (x.0.id, x.0.val, x.1.id, x.1.val)).collect()
}

/// Operations whose signature cannot express failure although they build nodes: out of the "never
/// panics" property by their signature. Memory is granted, unless the run asks for memory-safety only.
pub fn bulk<T>(faulty: bool, f: impl FnOnce() -> T) -> Option<T> {
    let hh = h();
    if faulty {
        let before = hh.refused;
        return match call_panicky(f) {
            Ok(x) => Some(x),
            Err(injected) => {
                s().after_panic = true;
                if !injected && hh.refused == before && !chaos() {
                    let m = s().panic_msg.clone();
                    viol("panic", || format!("unexpected panic: {m}"));
                }
                None
            }
        };
    }
    let (o, q, n, fr) = (hh.outage, hh.quota, hh.nth, hh.from);
    hh.outage = false;
    hh.quota = usize::MAX;
    hh.nth = [0; 4];
    hh.from = 0;
    let r = call(f);
    hh.outage = o;
    hh.quota = q;
    hh.nth = n;
    hh.from = fr;
    r
}

/// what the Debug output of an iterator over entries must be: the entries still to come
fn shows(what: &str, it: &dyn std::fmt::Debug, exp: &VecDeque<Kv>) {
    if chaos() {
        return;
    }
    use std::fmt::Write;
    let mut sink = Sink(String::new());
    may(K_::Fmt, 2 * exp.len());
    if pure(|| {
        let _ = write!(sink, "{:?}", it);
    })
    .is_some()
    {
        let want = format!("[{}]", exp.iter().map(|x| format!("({}, {})", x.0.val, x.1.val)).collect::<Vec<_>>().join(", "));
        if sink.0 != want {
            vio("iter", || format!("debug output of {what} is {} instead of {want}", sink.0));
        }
    }
}
pub fn bound(kind: u64, v: u32) -> Bound<Q> {
    match kind % 3 {
        0 => Bound::Included(Q(v)),
        1 => Bound::Excluded(Q(v)),
        _ => Bound::Unbounded,
    }
}
pub fn in_bounds(val: u32, lo: &Bound<Q>, hi: &Bound<Q>) -> bool {
    let k = ordkey(val);
    (match lo {
        Bound::Included(q) => k >= ordkey(q.0),
        Bound::Excluded(q) => k > ordkey(q.0),
        Bound::Unbounded => true,
    }) && (match hi {
        Bound::Included(q) => k <= ordkey(q.0),
        Bound::Excluded(q) => k < ordkey(q.0),
        Bound::Unbounded => true,
    })
}
/// bounds the wrong way round, in every combination of included and excluded, when `a` sorts after its neighbour
pub fn inverted(a: u32, bits: u64) -> (Bound<Q>, Bound<Q>, bool) {
    let both = bits & 0x18 == 0x18;
    (bound((bits >> 3) & 1, a), bound((bits >> 4) & 1, a ^ 1), ordkey(a) > ordkey(a ^ 1) || (both && ordkey(a) == ordkey(a ^ 1)))
}
/// None: the pair of bounds is documented to panic
pub fn mk_bounds(st: &Step) -> (Bound<Q>, Bound<Q>, bool) {
    let a = st.a as u32;
    let b = a.wrapping_add(((st.b >> 8) as u32) % (st.c as u32 + 2));
    let (k1, k2) = (st.b >> 1, st.b >> 4);
    let (mut x, mut y) = (a, b);
    if ordkey(x) > ordkey(y) {
        std::mem::swap(&mut x, &mut y);
    }
    let lo = bound(k1, x);
    let hi = bound(k2, y);
    let same = ordkey(x) == ordkey(y);
    let bad = match (&lo, &hi) {
        (Bound::Excluded(_), Bound::Excluded(_)) => same,
        _ => false,
    };
    (lo, hi, bad)
}

fn read<K: Elem, V: Elem>(m: &BTreeMap<K, V>) -> Vec<Kv> {
    m.iter().map(|(k, v)| (k.m(), v.m())).collect()
}
/// every node but the root holds at least four entries (an insertion splits 11 entries into 4 and 7)
pub fn max_blocks(n: usize) -> usize {
    1 + n.saturating_sub(1) / 4
}

/// upper bound for the bytes of one tree node: eleven entries, twelve edges, a small header
pub fn node_bytes<K, V>() -> usize {
    11 * (std::mem::size_of::<K>() + std::mem::size_of::<V>()) + 12 * 8 + 24 + 3 * std::mem::align_of::<(K, V)>()
}
/// levels of a tree of n entries whose nodes hold at least four
pub fn levels(n: usize) -> u32 {
    let (mut l, mut least) = (1, 1);
    while least * 5 + 4 <= n {
        least = least * 5 + 4;
        l += 1;
    }
    l
}

/// comparisons of one walk from the root to a key, generously
pub fn walk(n: usize) -> usize {
    16 * levels(n) as usize + 8
}

impl<K: Elem, V: Elem> MapWorld<K, V> {
    pub fn new(cap: usize, bulkfault: bool) -> Self {
        MapWorld { s: (0..2).map(|_| Slot { m: BTreeMap::new(), k: vec![] }).collect(), cap, tick: 0, bulkfault }
    }
    fn resync(&mut self, i: usize, allowed: &[M], mark: u32) {
        let old = std::mem::take(&mut self.s[i].k);
        let c = match look(|| read(&self.s[i].m)) {
            Some(c) => c,
            None => return,
        };
        let sl = &self.s[i];
        let olds: std::collections::HashSet<u32> = old.iter().flat_map(|x| [x.0.id, x.1.id]).chain(allowed.iter().map(|m| m.id)).collect();
        let mut ids: Vec<u32> = c.iter().flat_map(|x| [x.0.id, x.1.id]).filter(|x| *x != 0).collect();
        for id in &ids {
            if *id < mark && !olds.contains(id) {
                vio("panicstate", || format!("after a panic the map holds element {id}, which the operation was never given"));
            }
        }
        ids.sort();
        if ids.windows(2).any(|w| w[0] == w[1]) {
            viol("own", || "an element is stored twice after a panic".into());
        }
        if look(|| sl.m.len()) != Some(c.len()) {
            viol("panicstate", || format!("after a panic len() disagrees with {} iterated entries", c.len()));
        }
        if !chaos() {
            if c.windows(2).any(|w| ordkey(w[0].0.val) >= ordkey(w[1].0.val)) {
                viol("panicstate", || format!("keys out of order after a panic: {:?}", kvals(&c)));
            }
            for x in &c {
                if look(|| sl.m.get_key_value(&Q(x.0.val)).map(|(k, v)| (k.m(), v.m()))) != Some(Some(*x)) {
                    viol("panicstate", || format!("entry {x:?} cannot be found after a panic"));
                    break;
                }
            }
        }
        self.s[i].k = c;
    }
    fn same(&mut self, i: usize, class: &'static str, full: bool) {
        if failed() {
            return;
        }
        let sl = &self.s[i];
        self.tick += 1;
        if chaos() {
            let mark = s().objs.len() as u32;
            let all: Vec<M> = self.s.iter().flat_map(|x| x.k.iter().flat_map(|y| [y.0, y.1])).collect();
            self.resync(i, &all, mark);
            return;
        }
        if look(|| (sl.m.len(), sl.m.is_empty())) != Some((sl.k.len(), sl.k.is_empty())) {
            viol(class, || format!("after {} length is {:?}, expected {}", s().op, look(|| sl.m.len()), sl.k.len()));
            return;
        }
        if sl.k.len() > 200 && !full && self.tick % 6 != 0 {
            return;
        }
        let r = look(|| {
            let mut it = sl.m.iter();
            sl.k.iter().all(|x| it.next().map_or(false, |(k, v)| k.m() == x.0 && v.m() == x.1)) && it.next().is_none()
        });
        if r == Some(false) {
            let c = look(|| sl.m.iter().take(sl.k.len() + 5).map(|(k, v)| (k.m(), v.m())).collect::<Vec<_>>()).unwrap_or_default();
            let d = c.iter().zip(&sl.k).position(|(a, b)| a != b).unwrap_or(c.len().min(sl.k.len()));
            let lo = d.saturating_sub(3);
            viol(class, || format!("contents after {} differ at position {d}: {:?}, expected {:?}", s().op, kvals(&c[lo.min(c.len())..]), kvals(&sl.k[lo..])));
        }
    }
    fn memory(&self) {
        if s().after_panic || s().multi || failed() {
            return;
        }
        let mut owned = 0;
        let mut max = 0;
        for sl in &self.s {
            owned += sl.k.len() * (K::OWN + V::OWN);
            max += max_blocks(sl.k.len());
        }
        let have = h().live_blocks;
        if have > owned + max {
            vio("mem", || format!("{} node blocks for {:?} entries after {}", have - owned, self.s.iter().map(|x| x.k.len()).collect::<Vec<_>>(), s().op));
        }
    }
    fn insert_one(&mut self, i: usize, a: u32, vv: u32) -> bool {
        let len = self.s[i].k.len();
        let p = pos(&self.s[i].k, K::norm(a));
        if p.is_err() && len >= self.cap {
            return true;
        }
        let mark = s().objs.len() as u32;
        let (k, v) = (K::mk(a), V::mk(vv));
        let (km, vm) = (k.m(), v.m());
        let sl = &mut self.s[i];
        let r0 = own_requests();
        h().mark();
        let blocks = h().live_blocks;
        may(K_::Cmp, walk(len));
        let r = call(|| sl.m.try_insert(k, v));
        if p.is_err() && matches!(r, Some(Ok(None))) {
            kept(blocks, "a new entry");
        }
        cost(node_bytes::<K, V>(), levels(len) + 1, format_args!("one entry more than {len}"));
        if p.is_ok() {
            needless(r0, "overwriting a present key");
        }
        match r {
            Some(Ok(o)) => {
                match p {
                    Ok(x) => {
                        let want = sl.k[x].1;
                        let got = look(|| o.as_ref().map(|e| e.m())).flatten();
                        if got != Some(want) {
                            vio("result", || format!("insert of an existing key returned {got:?}, expected {want:?}"));
                        }
                        sl.k[x].1 = vm;
                        outcome("replaced", len);
                    }
                    Err(x) => {
                        if o.is_some() {
                            vio("result", || "insert of a new key returned an old value".into());
                        }
                        sl.k.insert(x, (km, vm));
                        outcome("new", len);
                    }
                }
                call(|| drop(o));
                true
            }
            Some(Err(_)) => {
                err_justified(false);
                outcome("err", len);
                self.same(i, "atomic", true);
                false
            }
            None => {
                outcome("panic", len);
                self.resync(i, &[km, vm], mark);
                false
            }
        }
    }
    fn drain_clone(&mut self, i: usize, a: u32, bits: u64) {
        let len = self.s[i].k.len();
        // a copy has the shape of the original: take it apart completely, watching its nodes
        if chaos() || s().after_panic {
            return;
        }
        let others = h().live_blocks;
        let sl = &self.s[i];
        may(K_::Clone, 2 * len);
        may(K_::Cmp, 2 * len);
        let mut c = match bulk(false, || sl.m.try_clone()) {
            Some(Ok(c)) => c,
            _ => return,
        };
        let mut k = self.check_clone(&c, i);
        while !k.is_empty() && !failed() {
            let l = k.len();
            let p = match (bits >> 4) % 4 {
                0 => 0,
                1 => l - 1,
                2 => a as usize % l,
                _ => crate::rng::mix(bits ^ l as u64) as usize % l,
            };
            let e = k.remove(p);
            may(K_::Cmp, walk(l));
            match pure(|| c.remove(&Q(e.0.val))) {
                Some(o) => {
                    if look(|| o.as_ref().map(|x| x.m())).flatten() != Some(e.1) {
                        vio("result", || format!("remove from a clone returned {:?}, expected {:?}", o.as_ref().map(|x| x.m()), e.1));
                    }
                    call(|| drop(o));
                }
                None => break,
            }
            let nodes = h().live_blocks.wrapping_sub(others).wrapping_sub(k.len() * (K::OWN + V::OWN));
            if !s().multi && nodes > max_blocks(k.len()) {
                vio("mem", || format!("{nodes} node blocks for {} entries while a clone of {len} entries is drained", k.len()));
            }
        }
        outcome("ok", len);
        call(|| drop(c));
    }
    fn remove_one(&mut self, i: usize, a: u32) -> bool {
        let len = self.s[i].k.len();
        let mark = s().objs.len() as u32;
        let sl = &mut self.s[i];
        may(K_::Cmp, walk(len));
        match pure(|| sl.m.remove(&Q(a))) {
            Some(o) => {
                let got = look(|| o.as_ref().map(|e| e.m())).flatten();
                let want = pos(&sl.k, a).ok().map(|x| sl.k.remove(x).1);
                if got != want {
                    vio("result", || format!("remove returned {got:?}, expected {want:?}"));
                }
                outcome(if got.is_some() { "some" } else { "none" }, len);
                call(|| drop(o));
                true
            }
            None => {
                outcome("panic", len);
                self.resync(i, &[], mark);
                false
            }
        }
    }
    fn entry(&mut self, i: usize, st: &Step) {
        let a = st.a as u32;
        let len = self.s[i].k.len();
        let p = pos(&self.s[i].k, K::norm(a));
        let kind = (st.b >> 8) % 12;
        if p.is_err() && len >= self.cap {
            return;
        }
        let mark = s().objs.len() as u32;
        let k = K::mk(a);
        let km = k.m();
        let vv = (st.b >> 16) as u32 & 0xffff;
        let v = V::mk(vv);
        let vm = v.m();
        let nv = V::norm(vv ^ 1);
        let sl = &mut self.s[i];
        let want = p.ok().map(|x| sl.k[x]);
        // what the entry call observed: (occupied, key seen, value seen)
        let mut seen: (Option<bool>, Option<M>, Option<M>) = (None, None, None);
        let sn = &mut seen;
        enum Out<K, V> {
            Ref(M),
            Kv(K, V),
            Val(V),
            Key(K),
            Nothing,
        }
        let mut spare = Some(v);
        let spare_r = &mut spare;
        let calls = std::cell::Cell::new(0);
        let r0 = own_requests();
        h().mark();
        let blocks = h().live_blocks;
        may(K_::Cmp, walk(len));
        may(K_::Call, matches!((kind, p), (1 | 2, Err(_)) | (3, Ok(_))) as usize);
        let r = call(|| -> Result<Out<K, V>, fallible_collections::TryReserveError> {
            let e = sl.m.try_entry(k)?;
            sn.0 = Some(matches!(e, Entry::Occupied(_)));
            match kind {
                0 => e.or_try_insert(spare_r.take().unwrap()).map(|r| Out::Ref(r.m())),
                1 => e
                    .or_try_insert_with(|| {
                        cb(K_::Call);
                        calls.set(calls.get() + 1);
                        spare_r.take().unwrap()
                    })
                    .map(|r| Out::Ref(r.m())),
                2 => e.or_default().map(|r| Out::Ref(r.m())),
                3 => e
                    .and_modify(|x| {
                        cb(K_::Call);
                        calls.set(calls.get() + 1);
                        x.set(nv)
                    })
                    .or_try_insert(spare_r.take().unwrap())
                    .map(|r| Out::Ref(r.m())),
                4 => {
                    sn.1 = Some(e.key().m());
                    if vv & 1 == 1 {
                        let _g = heap::enter(OFF);
                        let mut sk = Sink(String::new());
                        use std::fmt::Write;
                        let _ = write!(sk, "{:?}", e);
                        let w = match want {
                            Some(w) => format!("Entry(OccupiedEntry {{ key: {}, value: {} }})", w.0.val, w.1.val),
                            None => format!("Entry(VacantEntry({}))", km.val),
                        };
                        if sk.0 != w {
                            vio("result", || format!("debug output of an entry is {} instead of {w}", sk.0));
                        }
                    }
                    Ok(Out::Nothing)
                }
                _ => match e {
                    Entry::Vacant(ve) => {
                        sn.1 = Some(ve.key().m());
                        if kind == 5 {
                            Ok(Out::Key(ve.into_key()))
                        } else if kind == 6 {
                            {
                                let _g = heap::enter(OFF);
                                let mut sk = Sink(String::new());
                                use std::fmt::Write;
                                let _ = write!(sk, "{:?}", ve);
                            }
                            Ok(Out::Nothing)
                        } else {
                            ve.try_insert(spare_r.take().unwrap()).map(|r| {
                                r.set(nv);
                                Out::Ref(r.m())
                            })
                        }
                    }
                    Entry::Occupied(mut oe) => {
                        sn.1 = Some(oe.key().m());
                        sn.2 = Some(oe.get().m());
                        match kind {
                            5 => Ok(Out::Nothing),
                            6 => Ok(Out::Val(oe.insert(spare_r.take().unwrap()))),
                            7 => {
                                oe.get_mut().set(nv);
                                Ok(Out::Nothing)
                            }
                            8 => Ok(Out::Val(oe.remove())),
                            9 => {
                                let (k, v) = oe.remove_entry();
                                Ok(Out::Kv(k, v))
                            }
                            10 => {
                                let _g = heap::enter(OFF);
                                let mut sk = Sink(String::new());
                                use std::fmt::Write;
                                let _ = write!(sk, "{:?}", oe);
                                Ok(Out::Nothing)
                            }
                            _ => {
                                let r = oe.into_mut();
                                r.set(nv);
                                Ok(Out::Ref(r.m()))
                            }
                        }
                    }
                },
            }
        });
        if want.is_some() {
            needless(r0, "an entry of a present key");
        } else if matches!((kind, &r), (0 | 1 | 3, Some(Ok(_)))) {
            kept(blocks, "a vacant entry's value");
        }
        cost(node_bytes::<K, V>(), levels(len) + 1, format_args!("one entry more than {len}"));
        match r {
            Some(Ok(out)) => {
                if seen.0 != Some(want.is_some()) {
                    vio("result", || format!("entry occupied={:?}, expected {}", seen.0, want.is_some()));
                }
                if let Some(w) = want {
                    if seen.1.map_or(false, |x| x != w.0) && kind != 4 {
                        vio("result", || format!("entry key {:?}, expected the stored {:?}", seen.1, w.0));
                    }
                    if let Some(x) = seen.1 {
                        if ordkey(x.val) != ordkey(w.0.val) {
                            vio("result", || "entry key is another key".into());
                        }
                    }
                    if seen.2.map_or(false, |x| x != w.1) {
                        vio("result", || format!("entry value {:?}, expected {:?}", seen.2, w.1));
                    }
                } else if seen.1.map_or(false, |x| x != km) {
                    vio("result", || format!("vacant entry key {:?}, expected {km:?}", seen.1));
                }
                let zst = V::ZST;
                let mut modified = |mut m: M| {
                    if !zst {
                        m.val = nv
                    };
                    m
                };
                let sl = &mut self.s[i];
                if chaos() {
                } else if let Ok(x) = p {
                    let old = sl.k[x].1;
                    match (kind, &out) {
                        (0 | 1 | 2, Out::Ref(m)) if *m == old => {}
                        (3, Out::Ref(m)) if *m == modified(old) => sl.k[x].1 = *m,
                        (4 | 5 | 10, Out::Nothing) => {}
                        (6, Out::Val(o)) if o.m() == old => sl.k[x].1 = vm,
                        (7, Out::Nothing) => sl.k[x].1 = modified(old),
                        (8, Out::Val(o)) if o.m() == old => {
                            sl.k.remove(x);
                        }
                        (9, Out::Kv(kk, vv)) if (kk.m(), vv.m()) == sl.k[x] => {
                            sl.k.remove(x);
                        }
                        (11, Out::Ref(m)) if *m == modified(old) => sl.k[x].1 = *m,
                        _ => vio("result", || format!("entry operation {kind} on an occupied entry gave a wrong result")),
                    }
                    if (kind == 1 || kind == 3) && calls.get() != (kind == 3) as i32 {
                        vio("result", || format!("closure of entry operation {kind} called {} times on an occupied entry", calls.get()));
                    }
                } else if let Err(x) = p {
                    match (kind, &out) {
                        (0 | 1 | 3, Out::Ref(m)) if *m == vm => sl.k.insert(x, (km, vm)),
                        (2, Out::Ref(m)) if m.val == V::norm(DEFVAL) => sl.k.insert(x, (km, *m)),
                        (4 | 6, Out::Nothing) => {}
                        (5, Out::Key(kk)) if kk.m() == km => {}
                        (7..=11, Out::Ref(m)) if *m == modified(vm) => sl.k.insert(x, (km, *m)),
                        _ => vio("result", || format!("entry operation {kind} on a vacant entry gave a wrong result")),
                    }
                    if (kind == 1 || kind == 3) && calls.get() != (kind == 1) as i32 {
                        vio("result", || format!("closure of entry operation {kind} called {} times on a vacant entry", calls.get()));
                    }
                }
                outcome(if want.is_some() { "occupied" } else { "vacant" }, len);
                call(|| drop(out));
                self.same(i, "state", false);
            }
            Some(Err(_)) => {
                err_justified(false);
                outcome("err", len);
                self.same(i, "atomic", true);
            }
            None => {
                outcome("panic", len);
                let dv = M { id: vm.id, val: nv };
                self.resync(i, &[km, vm, dv], mark);
            }
        }
        if spare.is_some() {
            call(|| drop(spare));
        }
    }
    fn replace(&mut self, i: usize, m: BTreeMap<K, V>, k: Vec<Kv>) {
        let o = std::mem::replace(&mut self.s[i].m, m);
        self.s[i].k = k;
        pure(|| drop(o));
    }
    fn check_clone(&mut self, c: &BTreeMap<K, V>, src: usize) -> Vec<Kv> {
        let got = look(|| read(c)).unwrap_or_default();
        let want = &self.s[src].k;
        let ok = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| is_clone(a.0, b.0) && is_clone(a.1, b.1)) && look(|| c.len()) == Some(want.len());
        if !ok {
            vio("state", || format!("clone {:?} of {:?}", kvals(&got), kvals(want)));
        }
        got
    }
}
use crate::sim::K as K_;

impl<K: Elem, V: Elem> World for MapWorld<K, V> {
    fn step(&mut self, st: &Step) {
        let i = (st.b & 1) as usize;
        let j = 1 - i;
        let a = st.a as u32;
        let len = self.s[i].k.len();
        let mark = s().objs.len() as u32;
        let bits = st.b >> 8;
        let take = if st.a % 3 == 0 { usize::MAX >> 1 } else { st.c as usize };
        let mut full = false;
        match st.op {
            "insert" => {
                self.insert_one(i, a, (st.b >> 8) as u32 & 0xffff);
            }
            "insert_many" => {
                // a cluster of inserts near a point, each facing the same fault plan
                let n = (st.c as usize).min(40);
                for q in 0..n {
                    h().arm(&st.f, st.from);
                    if !self.insert_one(i, a.wrapping_add((q as u32).wrapping_mul(1 + (bits as u32 & 3))), q as u32) && s().after_panic {
                        break;
                    }
                    if failed() {
                        return;
                    }
                }
            }
            "fill" => {
                let n = (st.c as usize * 2).min(self.cap.saturating_sub(len));
                let stride = 1 + (bits as u32 % 3);
                for q in 0..n {
                    let kk = match (bits >> 4) % 3 {
                        0 => a.wrapping_add(q as u32 * stride),
                        1 => a.wrapping_add((n - q) as u32 * stride),
                        _ => crate::rng::mix(bits ^ q as u64) as u32 % (n as u32 * 3 + 1),
                    };
                    if !self.insert_one(i, kk, q as u32) || failed() {
                        break;
                    }
                }
            }
            "drain" => {
                let n = (st.c as usize * 2).min(len);
                for q in 0..n {
                    let l = self.s[i].k.len();
                    if l == 0 {
                        break;
                    }
                    let at = match (bits >> 4) % 4 {
                        0 => 0,
                        1 => l - 1,
                        2 => a as usize % l,
                        _ => crate::rng::mix(bits ^ q as u64) as usize % l,
                    };
                    let kk = self.s[i].k[at].0.val;
                    if !self.remove_one(i, kk) || failed() {
                        break;
                    }
                    self.memory();
                    if chaos() {
                        self.same(i, "state", true);
                    }
                }
            }
            "build_full" => {
                // appending sorted runs produces completely full nodes
                let n = if bits & 3 == 0 { 130 + crate::rng::mix(bits) as usize % 600 } else { st.c as usize * 3 };
                let n = n.min(self.cap.saturating_sub(len));
                let mut other = BTreeMap::new();
                let mut om = vec![];
                {
                    let mut vv: Vec<(K, V)> = (0..n).map(|q| (K::mk(a.wrapping_add(q as u32 * 2)), V::mk(q as u32))).collect();
                    vv.sort_by(|x, y| ordkey(x.0.m().val).cmp(&ordkey(y.0.m().val)));
                    vv.dedup_by(|x, y| ordkey(x.0.m().val) == ordkey(y.0.m().val));
                    om.extend(vv.iter().map(|x| (x.0.m(), x.1.m())));
                    let mut it = vv.into_iter();
                    // first entry apart: append merges two non-empty maps
                    let first = it.next();
                    if let Some((k, v)) = first {
                        let mut one = BTreeMap::new();
                        let _ = one.try_insert(k, v);
                        may(K_::Cmp, n * walk(n) + 2 * n + 8);
                        let r = bulk(false, || {
                            other.extend(it);
                            one.append(&mut other);
                        });
                        if r.is_none() {
                            // panic while building: give up on this value
                            call(|| {
                                drop(one);
                                drop(other)
                            });
                            outcome("panic", n);
                            return;
                        }
                        std::mem::swap(&mut one, &mut other);
                        call(|| drop(one));
                    }
                }
                if chaos() {
                    let k = look(|| read(&other)).unwrap_or_default();
                    self.replace(i, other, k);
                } else {
                    self.replace(i, other, om);
                }
                full = true;
                outcome("ok", n);
                if bits & 0xC == 0 {
                    self.drain_clone(i, a, bits);
                }
            }
            "drain_clone" => self.drain_clone(i, a, bits),
            "entry" => {
                self.entry(i, st);
                if failed() {
                    return;
                }
            }
            "get" => {
                let sl = &self.s[i];
                may(K_::Cmp, 3 * walk(len));
                let r = pure(|| {
                    let g = sl.m.get(&Q(a)).map(|v| v.m());
                    let kv = sl.m.get_key_value(&Q(a)).map(|(k, v)| (k.m(), v.m()));
                    let c = sl.m.contains_key(&Q(a));
                    (g, kv, c)
                });
                if let Some((g, kv, c)) = r {
                    let want = pos(&sl.k, a).ok().map(|x| sl.k[x]);
                    if g != want.map(|x| x.1) || kv != want || c != want.is_some() {
                        vio("result", || format!("lookup gave {g:?} {kv:?} {c}, expected {want:?}"));
                    }
                    outcome(if want.is_some() { "some" } else { "none" }, len);
                }
            }
            "get_mut" => {
                let nv = bits as u32 & 0xfff;
                let sl = &mut self.s[i];
                may(K_::Cmp, walk(len));
                let r = pure(|| {
                    sl.m.get_mut(&Q(a)).map(|v| {
                        let o = v.m();
                        v.set(nv);
                        o
                    })
                });
                match r {
                    Some(g) => {
                        let want = pos(&sl.k, a).ok();
                        if g != want.map(|x| sl.k[x].1) {
                            vio("result", || format!("get_mut gave {g:?}"));
                        }
                        if let Some(x) = want {
                            if !V::ZST {
                                sl.k[x].1.val = nv;
                            }
                        }
                        outcome("ok", len);
                    }
                    None => self.resync(i, &[], mark),
                }
            }
            "remove" => {
                // bias towards keys that are present
                let key = if len > 0 && bits & 3 != 0 { self.s[i].k[(bits >> 2) as usize % len].0.val } else { a };
                self.remove_one(i, key);
            }
            "index" => {
                let sl = &self.s[i];
                let want = pos(&sl.k, a).ok().map(|x| sl.k[x].1);
                may(K_::Cmp, walk(len));
                if want.is_some() || chaos() {
                    if let (Some(g), false) = (pure(|| sl.m[&Q(a)].m()), chaos()) {
                        if Some(g) != want {
                            vio("result", || format!("index gave {g:?}, expected {want:?}"));
                        }
                    }
                } else {
                    if call_panicky(|| sl.m[&Q(a)].m()).is_ok() {
                        vio("result", || "indexing a missing key did not panic".into());
                    }
                }
                outcome("ok", len);
            }
            "range" | "range_bad" => {
                let (lo, hi, bad) = mk_bounds(st);
                let sl = &self.s[i];
                let (lo, hi, bad) = if st.op == "range_bad" {
                    inverted(a, bits)
                } else {
                    (lo, hi, bad)
                };
                if bad {
                    let sl = &mut self.s[i];
                    may(K_::Cmp, 2 * walk(len));
                    let r = if bits & 1 == 0 { call_panicky(|| sl.m.range((lo, hi)).count()) } else { call_panicky(|| sl.m.range_mut((lo, hi)).count()) };
                    if r.is_ok() {
                        vio("result", || "an inverted range did not panic".into());
                    }
                    outcome("bad", len);
                } else {
                    let mut exp: VecDeque<Kv> = sl.k.iter().filter(|x| in_bounds(x.0.val, &lo, &hi)).copied().collect();
                    let n = exp.len();
                    may(K_::Cmp, 2 * walk(len));
                    if let Some(mut it) = pure(|| sl.m.range((lo, hi))) {
                        let half = if take > n { n / 2 } else { take / 2 };
                        if !chaos() {
                            if drive(&mut it, &mut exp, bits, half, Hint::Bound, |(k, v)| (k.m(), v.m())) {
                                // a clone continues independently
                                if let Some(mut it2) = pure(|| it.clone()) {
                                    let mut e2 = exp.clone();
                                    drive(&mut it2, &mut e2, bits.rotate_right(9), take, Hint::Bound, |(k, v)| (k.m(), v.m()));
                                }
                                if drive(&mut it, &mut exp, bits.rotate_right(17), take, Hint::Bound, |(k, v)| (k.m(), v.m())) {
                                    finish_any(it, exp, bits >> 23, |(k, v)| (k.m(), v.m()));
                                }
                            }
                        } else {
                            let _ = call(|| {
                                let mut c = 0;
                                while let Some((k, _)) = it.next() {
                                    k.m();
                                    c += 1;
                                    if c > len + 5 {
                                        break;
                                    }
                                }
                            });
                        }
                    }
                    outcome("ok", n);
                }
            }
            "range_mut" => {
                let (lo, hi, bad) = mk_bounds(st);
                if !bad && !chaos() {
                    let nv = (bits >> 20) as u32 & 0xfff;
                    let sl = &mut self.s[i];
                    let mut exp: VecDeque<Kv> = sl.k.iter().filter(|x| in_bounds(x.0.val, &lo, &hi)).copied().collect();
                    let n = exp.len();
                    let mut touched = vec![];
                    may(K_::Cmp, 2 * walk(len));
                    if let Some(mut it) = pure(|| sl.m.range_mut((lo, hi))) {
                        if bits & 0x30 == 0 {
                            shows("RangeMut", &it, &exp);
                        }
                        let mut conv = |(k, v): (&K, &mut V)| {
                            let r = (k.m(), v.m());
                            v.set(nv);
                            touched.push(r.0);
                            r
                        };
                        if drive(&mut it, &mut exp, bits, take, Hint::Bound, &mut conv) && bits & 0x3000 == 0 {
                            finish_any(it, exp, bits >> 23, &mut conv);
                        }
                    }
                    if !V::ZST {
                        for t in touched {
                            if let Some(x) = sl.k.iter_mut().find(|x| x.0 == t) {
                                x.1.val = nv;
                            }
                        }
                    }
                    outcome("ok", n);
                }
            }
            "iter" | "keys" | "values" => {
                let sl = &self.s[i];
                let mut exp: VecDeque<Kv> = sl.k.iter().copied().collect();
                let half = (take / 2).min(len / 2);
                if chaos() {
                    return;
                }
                macro_rules! go {
                    ($mk:expr, $conv:expr, $exp:expr) => {{
                        let mut exp = $exp;
                        if let Some(mut it) = pure(|| $mk) {
                            if drive(&mut it, &mut exp, bits, half, Hint::Exact, $conv) {
                                if let Some(mut it2) = pure(|| it.clone()) {
                                    let mut e2 = exp.clone();
                                    drive(&mut it2, &mut e2, bits.rotate_right(9), take, Hint::Exact, $conv);
                                }
                                let l = pure(|| it.len());
                                if l != Some(exp.len()) && l.is_some() {
                                    vio("iter", || format!("len() {l:?} with {} left", exp.len()));
                                }
                                if drive(&mut it, &mut exp, bits.rotate_right(17), take, Hint::Exact, $conv) {
                                    finish_any(it, exp, bits >> 23, $conv);
                                }
                            }
                        }
                    }};
                }
                match st.op {
                    "iter" if bits & 4 == 0 => go!(sl.m.iter(), |(k, v): (&K, &V)| (k.m(), v.m()), std::mem::take(&mut exp)),
                    "iter" => go!((&sl.m).into_iter(), |(k, v): (&K, &V)| (k.m(), v.m()), std::mem::take(&mut exp)),
                    "keys" => go!(sl.m.keys(), |k: &K| k.m(), exp.iter().map(|x| x.0).collect::<VecDeque<M>>()),
                    _ => go!(sl.m.values(), |v: &V| v.m(), exp.iter().map(|x| x.1).collect::<VecDeque<M>>()),
                }
                outcome("ok", len);
            }
            "iter_mut" | "values_mut" => {
                if chaos() {
                    return;
                }
                let nv = (bits >> 20) as u32 & 0xfff;
                let sl = &mut self.s[i];
                let mut touched: Vec<M> = vec![];
                if st.op == "iter_mut" {
                    let mut exp: VecDeque<Kv> = sl.k.iter().copied().collect();
                    if let Some(mut it) = pure(|| if bits & 8 == 0 { sl.m.iter_mut() } else { (&mut sl.m).into_iter() }) {
                        length(pure(|| it.len()), exp.len());
                        let mut conv = |(k, v): (&K, &mut V)| {
                            let r = (k.m(), v.m());
                            v.set(nv);
                            touched.push(r.1);
                            r
                        };
                        if drive(&mut it, &mut exp, bits, take, Hint::Exact, &mut conv) {
                            length(pure(|| it.len()), exp.len());
                            if bits & 0x3000 == 0 {
                                finish_any(it, exp, bits >> 23, &mut conv);
                            }
                        }
                    }
                } else {
                    let mut exp: VecDeque<M> = sl.k.iter().map(|x| x.1).collect();
                    if let Some(mut it) = pure(|| sl.m.values_mut()) {
                        length(pure(|| it.len()), exp.len());
                        let mut conv = |v: &mut V| {
                            let r = v.m();
                            v.set(nv);
                            touched.push(r);
                            r
                        };
                        if drive(&mut it, &mut exp, bits, take, Hint::Exact, &mut conv) && bits & 0x3000 == 0 {
                            finish_any(it, exp, bits >> 23, &mut conv);
                        }
                    }
                }
                if !V::ZST {
                    let ids: std::collections::HashSet<u32> = touched.iter().map(|t| t.id).collect();
                    for x in sl.k.iter_mut().filter(|x| ids.contains(&x.1.id)) {
                        x.1.val = nv;
                    }
                }
                outcome("ok", len);
            }
            "into_iter" => {
                let m = std::mem::replace(&mut self.s[i].m, BTreeMap::new());
                let mut exp: VecDeque<Kv> = std::mem::take(&mut self.s[i].k).into();
                if let Some(mut it) = pure(|| m.into_iter()) {
                    let mut kept: Vec<(K, V)> = vec![];
                    let n = if st.a % 4 == 0 { usize::MAX >> 1 } else { st.c as usize };
                    let mut conv = |(k, v): (K, V)| {
                        let r = (k.m(), v.m());
                        kept.push((k, v));
                        r
                    };
                    let ok = drive(&mut it, &mut exp, bits, n, Hint::Exact, &mut conv);
                    if ok {
                        length(pure(|| it.len()), exp.len());
                        if bits & 0x30 == 0 {
                            shows("IntoIter", &it, &exp);
                        }
                    }
                    // items already delivered stay valid while the rest is dropped
                    if ok && bits & 0x3000 == 0 {
                        finish_any(it, exp, bits >> 23, &mut conv);
                    } else {
                        pure(|| drop(it));
                    }
                    look(|| {
                        for (k, v) in &kept {
                            k.m();
                            v.m();
                        }
                    });
                    call(|| drop(kept));
                }
                outcome("ok", len);
            }
            "try_clone" => {
                let sl = &self.s[i];
                h().mark();
                may(K_::Clone, 2 * len);
                may(K_::Cmp, 2 * len);
                let r = call(|| sl.m.try_clone());
                cost(node_bytes::<K, V>(), max_blocks(len) as u32, format_args!("a clone of {len} entries"));
                match r {
                    Some(Ok(c)) => {
                        let k = self.check_clone(&c, i);
                        self.replace(j, c, k);
                        outcome("ok", len);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", len);
                    }
                    None => outcome("panic", len),
                }
                full = true;
            }
            "clone" => {
                let bf = self.bulkfault;
                h().mark();
                may(K_::Clone, 2 * len);
                may(K_::Cmp, 2 * len);
                if bits & 12 == 4 {
                    // into an existing map
                    let (l, r) = self.s.split_at_mut(1);
                    let (x, y) = if i == 0 { (&l[0], &mut r[0]) } else { (&r[0], &mut l[0]) };
                    if bulk(bf, || y.m.clone_from(&x.m)).is_some() {
                        let c = std::mem::replace(&mut self.s[j].m, BTreeMap::new());
                        let k = self.check_clone(&c, i);
                        self.s[j].m = c;
                        self.s[j].k = k;
                        self.same(j, "state", true);
                        outcome("ok", len);
                    } else {
                        self.resync(j, &[], mark);
                        outcome("panic", len);
                    }
                    self.same(i, "state", true);
                    return;
                }
                let sl = &self.s[i];
                let r = bulk(bf, || sl.m.clone());
                cost(usize::MAX, 4 + 2 * max_blocks(len) as u32, format_args!("a clone of {len} entries"));
                match r {
                    Some(c) => {
                        let k = self.check_clone(&c, i);
                        self.replace(j, c, k);
                        outcome("ok", len);
                    }
                    None => outcome("panic", len),
                }
                full = true;
            }
            "append" => {
                if len + self.s[j].k.len() > self.cap {
                    return;
                }
                let bf = self.bulkfault;
                let (l, r) = self.s.split_at_mut(1);
                let (x, y) = if i == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) };
                h().mark();
                may(K_::Cmp, 2 * (len + y.k.len()) + 8);
                let r = bulk(bf, || x.m.append(&mut y.m));
                cost(node_bytes::<K, V>(), max_blocks(len + y.k.len()) as u32 + levels(len + y.k.len()), format_args!("appending {} entries to {len}", y.k.len()));
                match r {
                    Some(()) => {
                        let ys = std::mem::take(&mut y.k);
                        let old = std::mem::take(&mut x.k);
                        if !chaos() {
                            let c = look(|| read(&x.m)).unwrap_or_default();
                            // which of two equal key objects stays is not specified
                            let (mut i, mut j, mut ok) = (0, 0, true);
                            for g in &c {
                                let (o, y) = (old.get(i), ys.get(j));
                                let side = match (o, y) {
                                    (Some(o), Some(y)) => ordkey(o.0.val).cmp(&ordkey(y.0.val)),
                                    (Some(_), None) => std::cmp::Ordering::Less,
                                    _ => std::cmp::Ordering::Greater,
                                };
                                ok &= match (side, o, y) {
                                    (std::cmp::Ordering::Less, Some(o), _) => g == o,
                                    (std::cmp::Ordering::Equal, Some(o), Some(y)) => g.1 == y.1 && (g.0 == o.0 || g.0 == y.0),
                                    (_, _, Some(y)) => g == y,
                                    _ => false,
                                };
                                i += side.is_le() as usize;
                                j += side.is_ge() as usize;
                            }
                            ok &= i >= old.len() && j >= ys.len();
                            if !ok {
                                vio("state", || format!("append gave {:?} from {:?} and {:?}", kvals(&c), kvals(&old), kvals(&ys)));
                            }
                            x.k = c;
                        }
                        outcome("ok", ys.len());
                        self.same(j, "state", true);
                    }
                    None => {
                        let all: Vec<M> = y.k.iter().flat_map(|x| [x.0, x.1]).collect();
                        self.resync(i, &all, mark);
                        self.resync(j, &[], mark);
                        outcome("panic", len);
                    }
                }
                full = true;
            }
            "split_off" => {
                let key = if len > 0 && bits & 1 == 0 { self.s[i].k[(bits >> 3) as usize % len].0.val } else { a };
                let sl = &mut self.s[i];
                h().mark();
                may(K_::Cmp, 2 * walk(len));
                let r = call(|| sl.m.split_off(&Q(key)));
                cost(node_bytes::<K, V>(), levels(len) + 1, format_args!("splitting {len} entries"));
                match r {
                    Some(Ok(m)) => {
                        let p = match pos(&sl.k, key) {
                            Ok(p) => p,
                            Err(p) => p,
                        };
                        let k = if chaos() { look(|| read(&m)).unwrap_or_default() } else { sl.k.split_off(p) };
                        outcome("ok", len);
                        self.replace(j, m, k);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", len);
                        self.same(i, "atomic", true);
                    }
                    None => {
                        outcome("panic", len);
                        self.resync(i, &[], mark);
                    }
                }
                full = true;
                self.same(j, "state", true);
            }
            "extend" | "from_iter" => {
                if len + st.v.len() > self.cap.max(60) {
                    return;
                }
                let items: VecDeque<(K, V)> = st.v.iter().enumerate().map(|(q, v)| (K::mk(*v), V::mk(q as u32))).collect();
                let ms: Vec<Kv> = items.iter().map(|x| (x.0.m(), x.1.m())).collect();
                let n = ms.len();
                let beyond = if (st.b >> 37) & 3 == 0 { (0..3).map(|v| (K::mk(9000 + v), V::mk(v))).collect() } else { Default::default() };
                let it = LieIter::new(items, hint(bits, n), beyond);
                let bf = self.bulkfault;
                let mut want = if st.op == "extend" { self.s[i].k.clone() } else { vec![] };
                if !chaos() {
                    for e in &ms {
                        match pos(&want, e.0.val) {
                            Ok(p) => want[p].1 = e.1,
                            Err(p) => want.insert(p, *e),
                        }
                    }
                }
                let allowed: Vec<M> = ms.iter().flat_map(|x| [x.0, x.1]).collect();
                h().mark();
                let most = 4 + 2 * max_blocks(want.len()) as u32;
                may(K_::Cmp, n * walk(len + n));
                may(K_::Next, n + 1);
                if st.op == "extend" {
                    let sl = &mut self.s[i];
                    let r = bulk(bf, || sl.m.extend(it));
                    cost(usize::MAX, most, format_args!("extended by {n} entries"));
                    match r {
                        Some(()) => {
                            sl.k = want;
                            outcome("ok", n);
                        }
                        None => {
                            outcome("panic", n);
                            self.resync(i, &allowed, mark);
                        }
                    }
                } else {
                    let r = bulk(bf, || it.collect::<BTreeMap<K, V>>());
                    cost(usize::MAX, most, format_args!("collected {n} entries"));
                    match r {
                        Some(m) => {
                            self.replace(i, m, want);
                            outcome("ok", n);
                        }
                        None => outcome("panic", n),
                    }
                }
                full = true;
            }
            "extend_ref" => {
                // copies taken through references, against the standard map
                let (mut m, mut w) = (BTreeMap::new(), std::collections::BTreeMap::new());
                for (q, v) in st.v.iter().enumerate().take(st.v.len() / 2) {
                    let r = bulk(false, || m.try_insert(*v, q as u32));
                    let o = w.insert(*v, q as u32);
                    if r.map(|x| x.ok()) != Some(Some(o)) {
                        vio("result", || "insertion of a plain integer gave a wrong result".into());
                    }
                }
                let src: std::collections::BTreeMap<u32, u32> = st.v.iter().skip(st.v.len() / 2).map(|v| (*v, v ^ 77)).collect();
                let bf = self.bulkfault;
                if bulk(bf, || m.extend(src.iter())).is_some() {
                    w.extend(src.iter());
                    if look(|| m.iter().eq(w.iter()) && m.len() == w.len()) != Some(true) {
                        vio("state", || format!("extending by reference gave {m:?}, expected {w:?}"));
                    }
                }
                outcome("ok", w.len());
                pure(|| drop(m));
            }
            "cmp" => {
                let f = |k: &[Kv]| k.iter().map(|x| (ordkey(x.0.val), ordkey(x.1.val))).collect::<Vec<_>>();
                let (x, y) = (&self.s[i], &self.s[j]);
                let least = x.k.len().min(y.k.len());
                may(K_::Cmp, 12 * least + 12);
                if let Some((e, c, p)) = pure(|| (x.m == y.m, x.m.cmp(&y.m), x.m.partial_cmp(&y.m))) {
                    let w: Ordering = f(&x.k).cmp(&f(&y.k));
                    if e != (w == Ordering::Equal) || c != w || p != Some(w) {
                        vio("result", || format!("comparison of maps gave {e} {c:?} {p:?}, expected {w:?}"));
                    }
                }
                may(K_::Cmp, 24 * least + 24);
                if let Some(g) = pure(|| (x.m != y.m, x.m < y.m, x.m <= y.m, x.m > y.m, x.m >= y.m)) {
                    let w: Ordering = f(&x.k).cmp(&f(&y.k));
                    if g != (w.is_ne(), w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()) {
                        vio("result", || format!("!=, <, <=, >, >= of maps gave {g:?} where the order is {w:?}"));
                    }
                }
                may(K_::Cmp, 2 * len);
                if let Some(e) = pure(|| x.m == x.m) {
                    if !e {
                        vio("result", || "a map differs from itself".into());
                    }
                }
                outcome("ok", len);
            }
            "debug" => {
                let mut sink = Sink(String::new());
                let sl = &self.s[i];
                use std::fmt::Write;
                may(K_::Fmt, 2 * len);
                if pure(|| {
                    let _ = write!(sink, "{:?}", sl.m);
                })
                .is_some()
                {
                    let want = format!("{{{}}}", sl.k.iter().map(|x| format!("{}: {}", x.0.val, x.1.val)).collect::<Vec<_>>().join(", "));
                    if sink.0 != want {
                        vio("result", || format!("debug output {} instead of {want}", sink.0));
                    }
                }
                let mut sink = Sink(String::new());
                may(K_::Fmt, 6 * len);
                if pure(|| {
                    let _ = write!(sink, "{:?}{:?}{:?}{:?}", sl.m.iter(), sl.m.keys(), sl.m.values(), sl.m.range::<Q, _>(..));
                })
                .is_some()
                {
                    let j = |f: &dyn Fn(&Kv) -> String| format!("[{}]", sl.k.iter().map(|x| f(x)).collect::<Vec<_>>().join(", "));
                    let e = j(&|x| format!("({}, {})", x.0.val, x.1.val));
                    let want = format!("{e}{}{}{e}", j(&|x| format!("{}", x.0.val)), j(&|x| format!("{}", x.1.val)));
                    if sink.0 != want {
                        vio("result", || format!("debug output of the views {} instead of {want}", sink.0));
                    }
                }
                outcome("ok", len);
            }
            "hash" => {
                use std::hash::{Hash, Hasher};
                let hs = |m: &BTreeMap<K, V>| {
                    let mut hh = Fnv(0xcbf29ce484222325);
                    m.hash(&mut hh);
                    hh.finish()
                };
                let f = |k: &[Kv]| k.iter().map(|x| (ordkey(x.0.val), ordkey(x.1.val))).collect::<Vec<_>>();
                let (x, y) = (&self.s[i], &self.s[j]);
                may(K_::Hash, 2 * (x.k.len() + y.k.len()));
                if let Some((p, q)) = pure(|| (hs(&x.m), hs(&y.m))) {
                    if f(&x.k) == f(&y.k) && p != q {
                        vio("result", || "equal maps hash differently".into());
                    }
                }
                outcome("ok", len);
            }
            "reshape" => {
                // the same entries, put together in another way: nothing but the tree's shape may differ
                if chaos() {
                    return;
                }
                let k: Vec<Kv> = self.s[i].k.clone();
                let mk = |x: &Kv| (K::mk(x.0.val), V::mk(x.1.val));
                let mut m = BTreeMap::new();
                let mut aux = BTreeMap::new();
                for q in 0..k.len() {
                    let at = if bits & 1 == 0 { q } else { k.len() - 1 - q };
                    let (kk, vv) = mk(&k[at]);
                    may(K_::Cmp, 2 * walk(k.len()));
                    let to = if bits & 2 == 0 && q % 2 == 1 { &mut aux } else { &mut m };
                    if bulk(false, || to.try_insert(kk, vv)).is_none() {
                        call(|| drop((m, aux)));
                        return;
                    }
                }
                may(K_::Cmp, 2 * k.len() + 8);
                if bulk(false, || m.append(&mut aux)).is_none() {
                    call(|| drop((m, aux)));
                    return;
                }
                use std::hash::{Hash, Hasher};
                let hs = |m: &BTreeMap<K, V>| {
                    let mut hh = Fnv(0xcbf29ce484222325);
                    m.hash(&mut hh);
                    hh.finish()
                };
                let x = &self.s[i].m;
                may(K_::Cmp, 12 * k.len());
                may(K_::Hash, 4 * k.len());
                if let Some(r) = pure(|| (hs(x) == hs(&m), *x == m, m == *x, x.cmp(&m), m.partial_cmp(x))) {
                    if r != (true, true, true, Ordering::Equal, Some(Ordering::Equal)) {
                        vio("result", || format!("equal maps of {} entries, built differently: hash, ==, ==, cmp, partial_cmp say {r:?}", k.len()));
                    }
                }
                outcome("ok", len);
                call(|| drop((m, aux)));
            }
            "views" => {
                let sl = &self.s[i];
                if let Some((l, e, f, b)) = pure(|| (sl.m.len(), sl.m.is_empty(), sl.m.iter().next().map(|x| x.0.m()), sl.m.iter().next_back().map(|x| x.0.m()))) {
                    if (l, e) != (len, len == 0) || f != sl.k.first().map(|x| x.0) || b != sl.k.last().map(|x| x.0) {
                        vio("result", || "length, first or last disagree with the contents".into());
                    }
                }
                outcome("ok", len);
            }
            "clear" => {
                let sl = &mut self.s[i];
                match pure(|| sl.m.clear()) {
                    Some(()) => {
                        sl.k.clear();
                        outcome("ok", len);
                    }
                    None => self.resync(i, &[], mark),
                }
            }
            "drop" | "new" => {
                let m = if st.op == "new" { pure(BTreeMap::new) } else { pure(BTreeMap::default) };
                if let Some(m) = m {
                    self.replace(i, m, vec![]);
                }
                outcome("ok", len);
            }
            _ => unreachable!("op {}", st.op),
        }
        self.same(i, "state", full);
        self.memory();
    }
    fn content(&self) -> u64 {
        self.s.iter().fold(1, |d, x| mix_elems(d, x.k.iter().flat_map(|e| [&e.0, &e.1])))
    }
    fn live(&self) -> i64 {
        self.s.iter().map(|x| x.k.len() * (K::COUNT + V::COUNT)).sum::<usize>() as i64
    }
    fn probe(&mut self) {
        let cap = self.cap;
        self.cap = usize::MAX >> 1;
        for i in 0..2 {
            s().op = "insert";
            for q in 0..8u32 {
                let base = self.s[i].k.get(self.s[i].k.len() * q as usize / 8).map_or(0, |x| x.0.val);
                let r = self.insert_one(i, base.wrapping_add(q), 7);
                if !r && !failed() && !chaos() {
                    viol("spurious", || "an insertion failed after all faults had stopped".into());
                }
                if failed() {
                    return;
                }
            }
            self.same(i, "state", true);
            let keys: Vec<u32> = self.s[i].k.iter().step_by(5).map(|x| x.0.val).take(12).collect();
            s().op = "remove";
            if !chaos() {
                for k in keys {
                    self.remove_one(i, k);
                }
            }
            self.same(i, "state", true);
        }
        self.cap = cap;
        self.memory();
    }
    fn finish(self: Box<Self>) {
        pure(move || drop(self));
    }
    fn size(&self) -> usize {
        self.s.iter().map(|x| x.k.len()).max().unwrap_or(0)
    }
}

pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
#[allow(unused)]
fn _u() {
    let _ = vals(&[]);
}
