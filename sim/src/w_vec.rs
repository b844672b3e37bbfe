//! World "vec": two Vec<T> driven through FallibleVec and two TryVec<T>, with list models.
use crate::elem::*;
use crate::heap::{h, OFF};
use crate::sim::*;
use crate::trace::Step;
use crate::world::*;
use fallible_collections::{FallibleVec, TryClone, TryCollect, TryFromIterator, TryReserveError, TryVec};
use std::convert::TryFrom;

pub const OPS: &[OpDef] = &[
    op("push", 10), op("push", 6), op("reserve", 4), op("reserve_huge", 1), op("with_cap", 2), op("with_cap_huge", 1),
    op("pop", 4), op("clear", 1), op("append", 4), op("resize_with", 4), op("extend", 5), op("clone", 3), op("burst", 3),
    op("slice_mut", 2), op("eq", 2), op("debug", 1), op("drop", 1), op("replace_new", 1), op("into_iter", 3), op("iter", 3),
    op("v.push_gb", 6), op("v.insert", 8), op("v.insert_oob", 1), op("v.resize_nc", 5), op("v.trunc_nc", 3), op("v.remove", 3), op("v.huge_grow", 2),
    opl("v.collect", 3), opl("v.from_iterator", 2), op("v.to_try", 2), opl("v.from_vec", 1), op("v.retain", 1),
    op("t.concat", 2), op("t.from_slice", 2), op("t.iter_mut", 2), op("t.ref_into_iter", 2), op("t.to_vec", 2),
    op("v.elem_macro", 2), opl("v.list_macro", 1),
];

pub trait VecLike<T: Elem>: Sized {
    fn v_new() -> Self;
    fn v_default() -> Self {
        Self::v_new()
    }
    fn v_with_cap(n: usize) -> Result<Self, TryReserveError>;
    fn v_reserve(&mut self, n: usize) -> Result<(), TryReserveError>;
    fn v_push(&mut self, x: T) -> Result<(), TryReserveError>;
    fn v_append(&mut self, o: &mut Self) -> Result<(), TryReserveError>;
    fn v_resize_with<F: FnMut() -> T>(&mut self, n: usize, f: F) -> Result<(), TryReserveError>;
    fn v_extend(&mut self, s: &[T]) -> Result<(), TryReserveError>;
    fn v_clone(&self) -> Result<Self, TryReserveError>;
    fn v_slice(&self) -> &[T];
    fn v_slice_mut(&mut self) -> &mut [T];
    fn v_pop(&mut self) -> Option<T>;
    fn v_clear(&mut self);
    fn v_is_empty(&self) -> bool;
    fn v_into_iter(self) -> std::vec::IntoIter<T>;
    fn v_debug(&self, s: &mut Sink);
    fn v_cap(&self) -> usize {
        0
    }
}
impl<T: Elem> VecLike<T> for Vec<T> {
    fn v_new() -> Self {
        Vec::new()
    }
    fn v_with_cap(n: usize) -> Result<Self, TryReserveError> {
        FallibleVec::try_with_capacity(n)
    }
    fn v_reserve(&mut self, n: usize) -> Result<(), TryReserveError> {
        FallibleVec::try_reserve(self, n)
    }
    fn v_push(&mut self, x: T) -> Result<(), TryReserveError> {
        FallibleVec::try_push(self, x)
    }
    fn v_append(&mut self, o: &mut Self) -> Result<(), TryReserveError> {
        FallibleVec::try_append(self, o)
    }
    fn v_resize_with<F: FnMut() -> T>(&mut self, n: usize, f: F) -> Result<(), TryReserveError> {
        FallibleVec::try_resize_with(self, n, f)
    }
    fn v_extend(&mut self, s: &[T]) -> Result<(), TryReserveError> {
        FallibleVec::try_extend_from_slice_no_copy(self, s)
    }
    fn v_clone(&self) -> Result<Self, TryReserveError> {
        self.try_clone()
    }
    fn v_slice(&self) -> &[T] {
        self
    }
    fn v_slice_mut(&mut self) -> &mut [T] {
        self
    }
    fn v_pop(&mut self) -> Option<T> {
        self.pop()
    }
    fn v_clear(&mut self) {
        self.clear()
    }
    fn v_is_empty(&self) -> bool {
        self.is_empty()
    }
    fn v_into_iter(self) -> std::vec::IntoIter<T> {
        self.into_iter()
    }
    fn v_debug(&self, s: &mut Sink) {
        use std::fmt::Write;
        let _ = write!(s, "{:?}", self);
    }
    fn v_cap(&self) -> usize {
        self.capacity()
    }
}
impl<T: Elem> VecLike<T> for TryVec<T> {
    fn v_new() -> Self {
        TryVec::new()
    }
    fn v_default() -> Self {
        TryVec::default()
    }
    fn v_with_cap(n: usize) -> Result<Self, TryReserveError> {
        TryVec::with_capacity(n)
    }
    fn v_reserve(&mut self, n: usize) -> Result<(), TryReserveError> {
        self.reserve(n)
    }
    fn v_push(&mut self, x: T) -> Result<(), TryReserveError> {
        self.push(x)
    }
    fn v_append(&mut self, o: &mut Self) -> Result<(), TryReserveError> {
        self.append(o)
    }
    fn v_resize_with<F: FnMut() -> T>(&mut self, n: usize, f: F) -> Result<(), TryReserveError> {
        self.resize_with(n, f)
    }
    fn v_extend(&mut self, s: &[T]) -> Result<(), TryReserveError> {
        self.extend_from_slice(s)
    }
    fn v_clone(&self) -> Result<Self, TryReserveError> {
        self.try_clone()
    }
    fn v_slice(&self) -> &[T] {
        self.as_slice()
    }
    fn v_slice_mut(&mut self) -> &mut [T] {
        self.as_mut_slice()
    }
    fn v_pop(&mut self) -> Option<T> {
        self.pop()
    }
    fn v_clear(&mut self) {
        self.clear()
    }
    fn v_is_empty(&self) -> bool {
        self.is_empty()
    }
    fn v_into_iter(self) -> std::vec::IntoIter<T> {
        self.into_iter()
    }
    fn v_debug(&self, s: &mut Sink) {
        use std::fmt::Write;
        let _ = write!(s, "{:?}", self);
    }
}

#[derive(Default)]
pub struct Mdl {
    pub m: Vec<M>,
    /// total length the vector was promised to reach without further memory
    pub floor: usize,
    /// longest length so far: a vector does not give memory back on its own
    pub peak: usize,
}
pub struct Slot<V> {
    pub v: V,
    pub k: Mdl,
}
pub struct VecWorld<T: Elem> {
    v: [Slot<Vec<T>>; 2],
    t: [Slot<TryVec<T>>; 2],
    big: usize,
}

/// An iterator with a configurable, possibly wrong, size hint, which may start again after it ended.
pub struct LieIter<T> {
    pub items: std::collections::VecDeque<T>,
    pub hint: (usize, Option<usize>),
    /// not part of the sequence: what polling past the end gives
    pub beyond: std::collections::VecDeque<T>,
    pub ended: bool,
    /// the hint shrinks with every item, as those of honest iterators do
    pub shrinks: bool,
    pub taken: usize,
}
impl<T> LieIter<T> {
    pub fn new(items: std::collections::VecDeque<T>, hint: (usize, Option<usize>), beyond: std::collections::VecDeque<T>) -> Self {
        LieIter { shrinks: items.len() % 2 == 0, taken: 0, items, hint, beyond, ended: false }
    }
}
impl<T> Iterator for LieIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        cb(K::Next);
        let _g = crate::heap::enter(OFF);
        if self.ended {
            return self.beyond.pop_front();
        }
        self.ended = self.items.is_empty();
        self.taken += 1;
        self.items.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let t = if self.shrinks { self.taken } else { 0 };
        (self.hint.0.saturating_sub(t), self.hint.1.map(|u| u.saturating_sub(t)))
    }
}
pub fn hint(sel: u64, n: usize) -> (usize, Option<usize>) {
    match sel % 12 {
        // honest exact claims, then honest loose ones, then lies
        7 => (n / 2, Some(n / 2)),
        8 => (n.saturating_sub(1), Some(n.saturating_sub(1))),
        9 => (n + 1 + (sel >> 8) as usize % 9, Some(n + 1 + (sel >> 8) as usize % 9)),
        10 => (0, Some(0)),
        11 => (n + 3, None),
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (0, Some(n)),
        3 => (n / 2, Some(n * 2 + 1)),
        4 => (n / 2, None),
        5 => (n.saturating_sub(1), Some(usize::MAX)),
        _ => (0, Some(n + 1000)),
    }
}
pub fn huge(sel: u64, len: usize, size: usize) -> usize {
    let s = size.max(1);
    match sel % 8 {
        0 => usize::MAX,
        6 => (1 << 32) + (sel >> 3) as usize % 40,
        7 => 1 << 40,
        1 => usize::MAX - len,
        2 => (isize::MAX as usize) / s + 1,
        3 => usize::MAX / s,
        4 => usize::MAX / s + (s > 1) as usize,
        _ => (usize::MAX - len).saturating_add(1).max(isize::MAX as usize),
    }
}

pub fn contents<T: Elem>(s: &[T]) -> Vec<M> {
    s.iter().map(|x| x.m()).collect()
}
/// actual == base ++ clones of a prefix of src; returns the number of clones
pub fn base_plus_clones(actual: &[M], base: &[M], src: impl Fn(usize) -> Option<M>) -> Option<usize> {
    if actual.len() < base.len() || &actual[..base.len()] != base {
        return None;
    }
    let ext = &actual[base.len()..];
    for (i, c) in ext.iter().enumerate() {
        match src(i) {
            Some(m) if is_clone(*c, m) => {}
            _ => return None,
        }
    }
    Some(ext.len())
}

fn promise<V>(s: &Slot<V>, newlen: usize, ok: bool, req0: u32, cb0: u32, cap0: usize) {
    let hh = h();
    if newlen <= cap0 {
        needless(req0 - cb0, "elements there is room for");
    }
    if newlen <= s.k.floor {
        let own = (hh.req - req0) - (hh.req_cb - cb0);
        if own > 0 {
            viol("reserve", || format!("{} to length {newlen} requested memory although {} elements were promised", crate::sim::s().op, s.k.floor));
        }
        if !ok && crate::sim::s().clone_failed == 0 && hh.req_cb == cb0 {
            viol("reserve", || format!("{} to length {newlen} failed although {} elements were promised", crate::sim::s().op, s.k.floor));
        }
    }
}

/// capacity of a vector whose buffer is a block of the simulated heap
pub fn block_cap<T>(s: &[T]) -> Option<usize> {
    let z = std::mem::size_of::<T>();
    if z == 0 {
        return Some(usize::MAX);
    }
    h().block_bytes(s.as_ptr() as *const u8).map(|b| b / z)
}
/// What a vector of capacity `cap0` may ask for to hold `need` elements: that many, or twice what
/// it had, or the smallest buffer worth having.
pub fn vec_cost<T>(cap0: usize, need: usize, what: &str) {
    let z = std::mem::size_of::<T>();
    let min = if z == 1 { 8 } else if z <= 1024 { 4 } else { 1 };
    let n = if z == 0 { 0 } else { need.max(cap0.saturating_mul(2)).max(min) };
    cost(n.saturating_mul(z), (z != 0) as u32, format_args!("{what}: {need} elements, capacity before {cap0}"));
}
/// Growth by small steps must be geometric, or n insertions cost n requests.
pub fn geometric<T>(cap0: Option<usize>, cap1: Option<usize>) {
    if let (Some(a), Some(b)) = (cap0, cap1) {
        if a >= 4 && b > a && b < a + a / 2 && h().refused == 0 && crate::sim::s().ordmode != CHAOS {
            viol("cost", || format!("{}: full buffer of {a} elements replaced by one of only {b}", crate::sim::s().op));
        }
    }
}

/// After an injected panic the model is re-read from the container.
fn resync<T: Elem, V: VecLike<T>>(s: &mut Slot<V>, allowed: &[M], mark: u32) {
    if let Some(c) = look(|| contents(s.v.v_slice())) {
        let given: std::collections::HashSet<(u32, u32)> = s.k.m.iter().chain(allowed).map(|m| (m.id, m.val)).collect();
        for (i, m) in c.iter().enumerate() {
            if m.id != 0 && m.id < mark && !given.contains(&(m.id, m.val)) {
                viol("panicstate", || format!("after a panic position {i} holds {m:?}, which the operation was never given"));
            }
        }
        let mut ids: Vec<u32> = c.iter().map(|m| m.id).filter(|x| *x != 0).collect();
        ids.sort();
        if ids.windows(2).any(|w| w[0] == w[1]) {
            viol("own", || "an element is stored twice after a panic".into());
        }
        s.k.m = c;
    }
}

fn same<T: Elem, V: VecLike<T>>(s: &Slot<V>, class: &'static str) -> bool {
    let r = look(|| {
        let a = s.v.v_slice();
        a.len() == s.k.m.len() && a.iter().zip(&s.k.m).all(|(x, m)| x.m() == *m) && s.v.v_is_empty() == s.k.m.is_empty()
    });
    if r == Some(false) {
        let c = look(|| contents(s.v.v_slice()));
        viol(class, || format!("contents after {}: {:?}, expected {:?}", crate::sim::s().op, vals(c.as_deref().unwrap_or(&[])), vals(&s.k.m)));
    }
    r.unwrap_or(false)
}
pub fn vals(m: &[M]) -> Vec<(u32, u32)> {
    m.iter().take(40).map(|m| (m.id, m.val)).collect()
}

impl<T: Elem> VecWorld<T> {
    pub fn new(cap: usize) -> Self {
        VecWorld {
            v: [Slot { v: Vec::new(), k: Mdl::default() }, Slot { v: Vec::new(), k: Mdl::default() }],
            t: [Slot { v: TryVec::new(), k: Mdl::default() }, Slot { v: TryVec::new(), k: Mdl::default() }],
            big: cap,
        }
    }
    fn common<V: VecLike<T>>(sl: &mut [Slot<V>; 2], st: &Step, cap: usize) {
        let i = (st.b & 1) as usize;
        let (l, r) = sl.split_at_mut(1);
        let (x, y) = if i == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) };
        let len = x.k.m.len();
        let room = cap.saturating_sub(len);
        let n = (st.c as usize).min(room);
        let hh = h();
        hh.mark();
        let (r0, c0) = (hh.req, hh.req_cb);
        let p0 = x.v.v_cap().max(x.k.peak);
        let mark = s().objs.len() as u32;
        let bc = look(|| block_cap(x.v.v_slice())).flatten();
        let known = |z: &Slot<V>| look(|| block_cap(z.v.v_slice())).flatten().unwrap_or(0).max(z.v.v_cap()).max(z.k.peak).max(z.k.m.len());
        let bcm = known(x).max(known(y));
        let need = match st.op {
            "push" => len + 1,
            "burst" | "reserve" => len + n,
            "with_cap" => n,
            "append" => len + y.k.m.len(),
            "resize_with" => len + n,
            "extend" => len + y.k.m.len().min(n),
            "clone" => len,
            _ => 0,
        };
        let mut class = "state";
        match st.op {
            "push" => {
                if room == 0 {
                    return;
                }
                let e = T::mk(st.a as u32);
                let m = e.m();
                match call(|| x.v.v_push(e)) {
                    Some(Ok(())) => {
                        x.k.m.push(m);
                        outcome("ok", len);
                        promise(x, len + 1, true, r0, c0, p0);
                    }
                    Some(Err(_)) => {
                        class = "atomic";
                        err_justified(false);
                        outcome("err", len);
                        promise(x, len + 1, false, r0, c0, p0);
                    }
                    None => {
                        outcome("panic", len);
                        resync(x, &[m], mark)
                    }
                }
            }
            "burst" => {
                // reserve, then fill the whole reservation during a total outage
                match call(|| x.v.v_reserve(n)) {
                    Some(Ok(())) => {
                        x.k.floor = x.k.floor.max(len + n);
                        let was = hh.outage;
                        hh.outage = true;
                        for j in 0..n {
                            let e = T::mk(st.a as u32 + j as u32);
                            let m = e.m();
                            match call(|| x.v.v_push(e)) {
                                Some(Ok(())) => x.k.m.push(m),
                                Some(Err(_)) => {
                                    viol("reserve", || format!("push {j} of {n} reserved elements failed during an outage"));
                                    break;
                                }
                                None => break,
                            }
                        }
                        hh.outage = was;
                        outcome("ok", n);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        class = "atomic";
                        outcome("err", n);
                    }
                    None => resync(x, &[], mark),
                }
            }
            "reserve" => match call(|| x.v.v_reserve(n)) {
                Some(Ok(())) => {
                    x.k.floor = x.k.floor.max(len + n);
                    outcome("ok", n);
                }
                Some(Err(_)) => {
                    class = "atomic";
                    err_justified(false);
                    outcome("err", n);
                }
                None => resync(x, &[], mark),
            },
            "reserve_huge" => {
                let n = huge(st.a, len, std::mem::size_of::<T>());
                let fits = T::ZST && n.checked_add(len).is_some();
                match call(|| x.v.v_reserve(n)) {
                    Some(Ok(())) if !fits => viol("result", || format!("reserving {n} elements was granted")),
                    Some(Ok(())) => outcome("ok", 0),
                    Some(Err(_)) => {
                        class = "atomic";
                        err_justified(!fits);
                        outcome("err", 0);
                    }
                    None => resync(x, &[], mark),
                }
            }
            "with_cap" => match call(|| V::v_with_cap(n)) {
                Some(Ok(v)) => {
                    let o = std::mem::replace(&mut x.v, v);
                    x.k.m.clear();
                    x.k.floor = n;
                    call(|| drop(o));
                    outcome("ok", n);
                }
                Some(Err(_)) => {
                    err_justified(false);
                    class = "atomic";
                    outcome("err", n);
                }
                None => {}
            },
            "with_cap_huge" => {
                let n = huge(st.a, 0, std::mem::size_of::<T>());
                let fits = T::ZST;
                match call(|| V::v_with_cap(n)) {
                    Some(Ok(_)) if !fits => viol("result", || format!("capacity {n} was granted")),
                    Some(Ok(_)) => outcome("ok", 0),
                    Some(Err(_)) => {
                        err_justified(!fits);
                        outcome("err", 0);
                    }
                    None => {}
                }
            }
            "pop" => match pure(|| x.v.v_pop()) {
                Some(g) => {
                    let want = x.k.m.pop();
                    let got = look(|| g.as_ref().map(|e| e.m())).flatten();
                    if got != want {
                        viol("result", || format!("pop returned {got:?}, expected {want:?}"));
                    }
                    outcome(if want.is_some() { "some" } else { "none" }, len);
                    call(|| drop(g));
                }
                None => resync(x, &[], mark),
            },
            "clear" => match pure(|| x.v.v_clear()) {
                Some(()) => {
                    x.k.m.clear();
                    outcome("ok", len);
                }
                None => resync(x, &[], mark),
            },
            "append" => {
                if len + y.k.m.len() > cap {
                    return;
                }
                match call(|| x.v.v_append(&mut y.v)) {
                    Some(Ok(())) => {
                        let n = y.k.m.len();
                        x.k.m.append(&mut y.k.m);
                        promise(x, len + n, true, r0, c0, p0);
                        outcome("ok", n);
                        same(y, "state");
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        promise(x, len + y.k.m.len(), false, r0, c0, p0);
                        class = "atomic";
                        outcome("err", y.k.m.len());
                        same(y, "atomic");
                    }
                    None => {
                        resync(x, &y.k.m.clone(), mark);
                        resync(y, &[], mark);
                    }
                }
            }
            "resize_with" => {
                let to = if st.a & 1 == 0 { len + n } else { len - (st.c as usize).min(len) };
                let base = st.a as u32;
                let mut made = 0u32;
                let mp = &mut made;
                may(K::Call, to.saturating_sub(len));
                match call(|| {
                    x.v.v_resize_with(to, || {
                        cb(K::Call);
                        *mp += 1;
                        T::mk(base + *mp)
                    })
                }) {
                    Some(Ok(())) => {
                        if to <= len {
                            x.k.m.truncate(to);
                        } else {
                            let c = look(|| contents(x.v.v_slice())).unwrap_or_default();
                            let good = c.len() == to && c[..len] == x.k.m[..] && c[len..].iter().enumerate().all(|(j, m)| m.val == T::norm(base + 1 + j as u32)) && made as usize == to - len;
                            if !good {
                                viol("state", || format!("resize_with {len}->{to} gave {:?} after {made} calls", vals(&c)));
                            }
                            x.k.m = c;
                        }
                        promise(x, to, true, r0, c0, p0);
                        outcome(if to <= len { "shrink" } else { "ok" }, to);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        if to <= len {
                            viol("spurious", || "shrinking resize_with failed".into());
                        }
                        promise(x, to, false, r0, c0, p0);
                        class = "atomic";
                        outcome("err", to);
                    }
                    None => {
                        outcome("panic", to);
                        resync(x, &[], mark)
                    }
                }
            }
            "extend" => {
                let yl = y.k.m.len();
                let from = if yl == 0 { 0 } else { st.a as usize % yl };
                let cnt = (yl - from).min(n);
                let src: Vec<M> = y.k.m[from..from + cnt].to_vec();
                let ys = look(|| &y.v.v_slice()[from..from + cnt]);
                let ys = match ys {
                    Some(s) => s,
                    None => return,
                };
                may(K::Clone, cnt);
                match call(|| x.v.v_extend(ys)) {
                    Some(r) => {
                        Self::absorb(x, r.is_ok(), cnt, |j| src.get(j).copied(), T::OWN);
                        promise(x, len + cnt, r.is_ok(), r0, c0, p0);
                        outcome(if r.is_ok() { "ok" } else { "err" }, cnt);
                    }
                    None => {
                        outcome("panic", cnt);
                        resync(x, &[], mark)
                    }
                }
                same(y, "atomic");
            }
            "clone" => {
                may(K::Clone, len);
                match call(|| x.v.v_clone()) {
                    Some(Ok(v)) => {
                        let mut nu = Slot { v, k: Mdl::default() };
                        let xm = &x.k.m;
                        Self::absorb(&mut nu, true, len, |j| xm.get(j).copied(), T::OWN);
                        let o = std::mem::replace(&mut y.v, nu.v);
                        y.k = nu.k;
                        call(|| drop(o));
                        outcome("ok", len);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        class = "atomic";
                        outcome("err", len);
                    }
                    None => outcome("panic", len),
                }
                same(y, "state");
            }
            "slice_mut" => {
                // mutation through the slice view
                if len > 0 {
                    let p = st.a as usize % len;
                    let q = st.c as usize % len;
                    let nv = (st.b >> 8) as u32 & 0xffff;
                    if pure(|| {
                        let sl = x.v.v_slice_mut();
                        sl.swap(p, q);
                        sl[p].set(nv);
                    })
                    .is_some()
                    {
                        x.k.m.swap(p, q);
                        if !T::ZST {
                            x.k.m[p].val = nv;
                        }
                    } else {
                        resync(x, &[], mark);
                    }
                }
                outcome("ok", len);
            }
            "debug" => {
                let mut sink = Sink(String::new());
                may(K::Fmt, len);
                if pure(|| x.v.v_debug(&mut sink)).is_some() {
                    let want = format!("{:?}", x.k.m.iter().map(|m| m.val).collect::<Vec<_>>());
                    if sink.0 != want {
                        viol("result", || format!("debug output {} instead of {want}", sink.0));
                    }
                }
                outcome("ok", len);
            }
            "drop" => {
                let o = std::mem::replace(&mut x.v, V::v_new());
                x.k = Mdl::default();
                pure(|| drop(o));
                outcome("ok", len);
            }
            "replace_new" => {
                if let Some(v) = pure(if st.a & 1 == 0 { V::v_new } else { V::v_default }) {
                    let o = std::mem::replace(&mut x.v, v);
                    x.k = Mdl::default();
                    pure(|| drop(o));
                }
                outcome("ok", len);
            }
            "into_iter" => {
                let o = std::mem::replace(&mut x.v, V::v_new());
                let mut m: std::collections::VecDeque<M> = std::mem::take(&mut x.k).m.into();
                if let Some(mut it) = pure(|| o.v_into_iter()) {
                    let take = if st.a % 4 == 0 { m.len() } else { (st.c as usize).min(m.len()) };
                    let mut bits = st.b >> 8;
                    for _ in 0..take {
                        let back = bits & 1 == 1;
                        bits = bits.rotate_right(1);
                        let sh = look(|| it.size_hint());
                        if sh != Some((m.len(), Some(m.len()))) {
                            viol("iter", || format!("owning iterator size hint {sh:?} with {} left", m.len()));
                        }
                        let g = pure(|| if back { it.next_back() } else { it.next() });
                        let w = if back { m.pop_back() } else { m.pop_front() };
                        let got = g.as_ref().map(|e| e.as_ref().map(|e| e.m())).flatten();
                        if got != w {
                            viol("iter", || format!("owning iterator gave {got:?}, expected {w:?}"));
                        }
                        call(|| drop(g));
                    }
                    if m.is_empty() {
                        if let Some(Some(_)) = pure(|| it.next()) {
                            viol("iter", || "owning iterator continued past the end".into());
                        }
                    }
                    pure(|| drop(it));
                }
                outcome("ok", len);
            }
            "eq" | "iter" => {}
            _ => unreachable!("op {}", st.op),
        }
        if !matches!(st.op, "reserve_huge" | "with_cap_huge") {
            vec_cost::<T>(if st.op == "with_cap" || st.op == "clone" { 0 } else { bcm }, need, st.op);
        }
        if matches!(st.op, "push" | "append" | "extend" | "resize_with") {
            geometric::<T>(bc, look(|| block_cap(x.v.v_slice())).flatten());
        }
        x.k.peak = if (st.op == "with_cap" && class == "state" && x.k.m.is_empty()) || st.op == "into_iter" { x.k.m.len() } else { x.k.peak.max(x.k.m.len()) };
        same(x, class);
    }
    /// the vector was extended with clones; `ok` demands all of them
    fn absorb<V: VecLike<T>>(x: &mut Slot<V>, ok: bool, n: usize, src: impl Fn(usize) -> Option<M>, _own: usize) {
        let c = look(|| contents(x.v.v_slice())).unwrap_or_default();
        match base_plus_clones(&c, &x.k.m, |i| if i < n { src(i) } else { None }) {
            Some(k) if k == n || !ok => {}
            _ => viol(if ok { "state" } else { "atomic" }, || {
                format!("{} (ok={ok}) turned {:?} into {:?}, expected the old contents followed by {}{n} clone(s)", crate::sim::s().op, vals(&x.k.m), vals(&c), if ok { "" } else { "at most " })
            }),
        }
        if !ok {
            err_justified(false);
        }
        x.k.m = c;
    }
    fn special(&mut self, st: &Step) {
        let cap = self.big;
        let i = (st.b & 1) as usize;
        let j = 1 - i;
        let hh = h();
        hh.mark();
        let (r0, c0) = (hh.req, hh.req_cb);
        let p0 = self.v[i].v.capacity();
        let mark = s().objs.len() as u32;
        let len = self.v[i].k.m.len();
        let room = cap.saturating_sub(len);
        let mut class = "state";
        match st.op {
            "v.push_gb" | "v.insert" => {
                if room == 0 {
                    return;
                }
                let x = &mut self.v[i];
                let e = T::mk(st.a as u32);
                let m = e.m();
                let at = if st.op == "v.insert" { (st.b >> 8) as usize % (len + 1) } else { len };
                let r = if st.op == "v.insert" { call(|| FallibleVec::try_insert(&mut x.v, at, e)) } else { call(|| FallibleVec::try_push_give_back(&mut x.v, e)) };
                vec_cost::<T>(p0, len + 1, "one more");
                geometric::<T>(Some(p0), Some(x.v.capacity()));
                match r {
                    Some(Ok(())) => {
                        x.k.m.insert(at, m);
                        promise(x, len + 1, true, r0, c0, p0);
                        outcome("ok", len);
                    }
                    Some(Err((back, _))) => {
                        err_justified(false);
                        promise(x, len + 1, false, r0, c0, p0);
                        let g = look(|| back.m());
                        if g != Some(m) {
                            viol("atomic", || format!("{} handed back {g:?} instead of {m:?}", st.op));
                        }
                        class = "atomic";
                        call(|| drop(back));
                        outcome("err", len);
                    }
                    None => resync(x, &[m], mark),
                }
            }
            "v.insert_oob" => {
                // documented contract of Vec::insert: index out of bounds panics; nothing may be damaged
                let x = &mut self.v[i];
                let e = T::mk(st.a as u32);
                let m = e.m();
                let r = call_panicky(|| FallibleVec::try_insert(&mut x.v, len + 1 + (st.c as usize), e));
                match r {
                    Ok(Ok(())) => viol("result", || "insertion beyond the end succeeded".into()),
                    Ok(Err((b, _))) => {
                        err_justified(false);
                        if b.m() != m {
                            viol("atomic", || "a different element was handed back".into());
                        }
                        class = "atomic";
                    }
                    Err(_) => {}
                }
                outcome("ok", len);
            }
            "v.huge_grow" => {
                // growth requests no address space can hold
                let x = &mut self.v[i];
                let to = huge(st.c, 0, std::mem::size_of::<T>());
                if T::ZST {
                    return;
                }
                let r = if st.a & 1 == 0 {
                    let e = T::mk(st.a as u32);
                    call(|| FallibleVec::try_resize_no_copy(&mut x.v, to, e))
                } else {
                    call(|| FallibleVec::try_resize_with(&mut x.v, to, || T::mk(1)))
                };
                match r {
                    Some(Ok(())) => viol("result", || format!("resize to {to} elements succeeded")),
                    Some(Err(_)) => class = "atomic",
                    None => resync(x, &[], mark),
                }
                outcome("err", len);
            }
            "v.resize_nc" | "v.trunc_nc" => {
                let x = &mut self.v[i];
                let to = if st.op == "v.resize_nc" { len + (st.c as usize).min(room) } else { len - (st.c as usize).min(len) };
                let e = T::mk(st.a as u32);
                let m = e.m();
                may(K::Clone, to.saturating_sub(len));
                let r = call(|| FallibleVec::try_resize_no_copy(&mut x.v, to, e));
                vec_cost::<T>(p0, to, "resized");
                geometric::<T>(Some(p0), Some(x.v.capacity()));
                match r {
                    Some(Ok(())) if to <= len => {
                        x.k.m.truncate(to);
                        promise(x, to, true, r0, c0, p0);
                        outcome("shrink", len - to);
                    }
                    Some(r) => {
                        // the value itself may fill one of the new places, unless the call fails: then it is dropped
                        let c = look(|| contents(x.v.v_slice())).unwrap_or_default();
                        let n = to.saturating_sub(len);
                        let base = &x.k.m;
                        let good = c.len() >= len && c[..len] == base[..] && c.len() - len <= n && (r.is_err() || c.len() == to) && c[len..].iter().all(|q| *q == m || is_clone(*q, m)) && c[len..].iter().filter(|q| m.id != 0 && **q == m).count() <= r.is_ok() as usize;
                        if !good {
                            viol(if r.is_ok() { "state" } else { "atomic" }, || format!("resize {len}->{to} with clones of {m:?} (ok={}) gave {:?}", r.is_ok(), vals(&c)));
                        }
                        if r.is_err() {
                            err_justified(false);
                            if to <= len {
                                viol("spurious", || "truncation failed".into());
                            }
                        }
                        x.k.m = c;
                        promise(x, to, r.is_ok(), r0, c0, p0);
                        outcome(if r.is_ok() { "ok" } else { "err" }, n);
                    }
                    None => {
                        outcome("panic", to);
                        resync(x, &[m], mark)
                    }
                }
            }
            "v.remove" => {
                let x = &mut self.v[i];
                if len > 0 {
                    let at = st.a as usize % len;
                    if let Some(e) = pure(|| x.v.remove(at)) {
                        let w = x.k.m.remove(at);
                        if e.m() != w {
                            viol("result", || "remove returned another element".into());
                        }
                        call(|| drop(e));
                    }
                }
                outcome("ok", len);
            }
            "v.retain" => {
                let x = &mut self.v[i];
                if !T::ZST {
                    let k = (st.a % 3) as u32 + 1;
                    if pure(|| x.v.retain(|e| e.m().val % k != 0)).is_some() {
                        x.k.m.retain(|m| m.val % k != 0);
                    } else {
                        resync(x, &[], mark);
                    }
                }
            }
            "v.collect" | "v.from_iterator" => {
                let items: std::collections::VecDeque<T> = st.v.iter().map(|v| T::mk(*v)).collect();
                let ms: Vec<M> = items.iter().map(|x| x.m()).collect();
                let hi = hint(st.a, ms.len());
                let beyond = if (st.b >> 9) & 3 == 0 { (0..3).map(|v| T::mk(9000 + v)).collect() } else { Default::default() };
                let it = LieIter::new(items, hi, beyond);
                may(K::Next, ms.len() + 1);
                let r = if st.op == "v.collect" { call(|| it.try_collect::<Vec<T>>()) } else { call(|| <Vec<T> as TryFromIterator<T>>::try_from_iterator(it)) };
                // room for what was claimed or delivered, doubling while it grows
                let n = ms.len();
                let z = std::mem::size_of::<T>();
                cost((2 * n).max(n + hi.0).max(8) * z, if z == 0 { 0 } else { 2 + (usize::BITS - n.leading_zeros()) }, format_args!("collecting {n} items, claimed {hi:?}"));
                match r {
                    Some(Ok(v)) => {
                        let x = &mut self.v[i];
                        let o = std::mem::replace(&mut x.v, v);
                        x.k = Mdl { m: ms, floor: 0, peak: 0 };
                        call(|| drop(o));
                        outcome("ok", len);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", st.v.len());
                    }
                    None => outcome("panic", st.v.len()),
                }
            }
            "v.from_vec" => {
                // TryVec::from(Vec)
                let v: Vec<T> = st.v.iter().map(|v| T::mk(*v)).collect();
                let ms = contents(&v);
                let peak = v.capacity();
                if let Some(t) = pure(|| TryVec::from(v)) {
                    let o = std::mem::replace(&mut self.t[i].v, t);
                    self.t[i].k = Mdl { m: ms, floor: 0, peak };
                    call(|| drop(o));
                }
                outcome("ok", st.v.len());
            }
            "v.to_try" => {
                let v = std::mem::take(&mut self.v[i].v);
                let mut k = std::mem::take(&mut self.v[i].k);
                k.peak = v.capacity();
                if let Some(t) = pure(|| TryVec::from(v)) {
                    let o = std::mem::replace(&mut self.t[i].v, t);
                    self.t[i].k = k;
                    call(|| drop(o));
                }
                outcome("ok", len);
            }
            "t.to_vec" => {
                let t = std::mem::replace(&mut self.t[i].v, TryVec::new());
                let k = std::mem::take(&mut self.t[i].k);
                let n = k.m.len();
                let z = std::mem::size_of::<T>();
                let r = call(|| t.into_iter().try_collect::<Vec<T>>());
                cost((2 * n).max(8) * z, if z == 0 { 0 } else { 2 + (usize::BITS - n.leading_zeros()) }, format_args!("collecting {n} items"));
                if let Some(r) = r {
                    match r {
                        Ok(v) => {
                            let o = std::mem::replace(&mut self.v[i].v, v);
                            self.v[i].k = Mdl { m: k.m, floor: 0, peak: 0 };
                            call(|| drop(o));
                        }
                        Err(_) => err_justified(false),
                    }
                }
            }
            "t.concat" => {
                // nested vector assembled from the live slots by clones made outside of fault injection
                let mut parts: Vec<TryVec<T>> = vec![];
                let mut ms: Vec<M> = vec![];
                let nparts = 1 + (st.a % 4) as usize;
                for p in 0..nparts {
                    let sz = ((st.c >> p) as usize) % 6;
                    let es: Vec<T> = (0..sz).map(|q| T::mk((p * 10 + q) as u32)).collect();
                    ms.extend(es.iter().map(|e| e.m()));
                    parts.push(TryVec::from(es));
                }
                let nest: TryVec<TryVec<T>> = TryVec::from(parts);
                may(K::Clone, ms.len());
                let r = call(|| nest.concat());
                vec_cost::<T>(0, ms.len(), "concat");
                match r {
                    Some(Ok(v)) => {
                        let c = look(|| contents(v.as_slice())).unwrap_or_default();
                        if c.len() != ms.len() || !c.iter().zip(&ms).all(|(a, b)| is_clone(*a, *b)) {
                            viol("state", || format!("concat gave {:?} for {:?}", vals(&c), vals(&ms)));
                        }
                        let x = &mut self.t[i];
                        let o = std::mem::replace(&mut x.v, v);
                        x.k = Mdl { m: c, floor: 0, peak: 0 };
                        call(|| drop(o));
                        outcome("ok", ms.len());
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", ms.len());
                    }
                    None => outcome("panic", ms.len()),
                }
                let back: Vec<M> = nest.iter().flat_map(|v| contents(v.as_slice())).collect();
                if back != ms {
                    viol("atomic", || "concat changed its source".into());
                }
                call(|| drop(nest));
            }
            "t.from_slice" => {
                let src = self.v[i].k.m.clone();
                let sl: &[T] = &self.v[i].v;
                may(K::Clone, src.len());
                let r = call(|| TryVec::try_from(sl));
                vec_cost::<T>(0, src.len(), "copied");
                match r {
                    Some(Ok(v)) => {
                        let mut nu = Slot { v, k: Mdl::default() };
                        Self::absorb(&mut nu, true, src.len(), |q| src.get(q).copied(), T::OWN);
                        let x = &mut self.t[j];
                        let o = std::mem::replace(&mut x.v, nu.v);
                        x.k = nu.k;
                        call(|| drop(o));
                        outcome("ok", src.len());
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", src.len());
                    }
                    None => outcome("panic", src.len()),
                }
            }
            "t.iter_mut" => {
                let x = &mut self.t[i];
                let n = x.k.m.len();
                let take = if st.a & 1 == 0 { n + 1 } else { st.c as usize };
                let nv = (st.b >> 8) as u32 & 0xfff;
                let mut got = vec![];
                let mut hints = vec![];
                let ok = pure(|| {
                    let mut it = x.v.iter_mut();
                    for q in 0..take {
                        {
                            let _g = crate::heap::enter(OFF);
                            hints.push(it.size_hint());
                        }
                        match it.next() {
                            Some(e) => {
                                let _g = crate::heap::enter(OFF);
                                got.push(e.m());
                                e.set(nv + q as u32);
                            }
                            None => break,
                        }
                    }
                })
                .is_some();
                if ok {
                    let want = &x.k.m[..take.min(n)];
                    if got != want {
                        viol("iter", || format!("iter_mut gave {:?}, expected {:?}", vals(&got), vals(want)));
                    }
                    for (q, hq) in hints.iter().enumerate() {
                        if *hq != (n - q, Some(n - q)) {
                            viol("iter", || format!("iter_mut size hint {hq:?} with {} left", n - q));
                        }
                    }
                    if !T::ZST {
                        for (q, m) in x.k.m.iter_mut().take(take).enumerate() {
                            m.val = nv + q as u32;
                        }
                    }
                }
                outcome("ok", n);
            }
            "t.ref_into_iter" => {
                let x = &self.t[i];
                let n = x.k.m.len();
                let mut got = vec![];
                let mut hints = vec![];
                pure(|| {
                    let mut it = x.v.iter();
                    loop {
                        {
                            let _g = crate::heap::enter(OFF);
                            hints.push(it.size_hint());
                        }
                        match it.next() {
                            Some(e) => {
                                let _g = crate::heap::enter(OFF);
                                got.push(e.m());
                            }
                            None => break,
                        }
                    }
                });
                if got != x.k.m {
                    viol("iter", || format!("iter gave {:?}, expected {:?}", vals(&got), vals(&x.k.m)));
                }
                for (q, hq) in hints.iter().enumerate() {
                    if *hq != (n - q, Some(n - q)) {
                        viol("iter", || format!("iter size hint {hq:?} with {} left", n - q));
                    }
                }
                let bits = st.b >> 8;
                if let Some(mut it) = pure(|| x.v.iter()) {
                    let mut exp: std::collections::VecDeque<M> = x.k.m.iter().copied().collect();
                    if crate::iters::drive_fwd(&mut it, &mut exp, bits, st.c as usize, crate::iters::Hint::Exact, |e| e.m(), |a, b| a == b) {
                        crate::iters::finish(it, exp, bits >> 23, |e| e.m(), |a, b| a == b);
                    }
                }
                let mut got = vec![];
                pure(|| {
                    for e in &x.v {
                        let _g = crate::heap::enter(OFF);
                        got.push(e.m());
                    }
                });
                if got != x.k.m {
                    viol("iter", || format!("for loop gave {:?}, expected {:?}", vals(&got), vals(&x.k.m)));
                }
                outcome("ok", n);
            }
            "v.elem_macro" | "v.list_macro" => self.macros(st, i),
            _ => unreachable!("op {}", st.op),
        }
        if self.v.iter().all(|x| same(x, class)) {
            let _ = self.t.iter().all(|x| same(x, class));
        }
    }
    #[cfg(not(feature = "cfg_unstable"))]
    fn macros(&mut self, _st: &Step, _i: usize) {}
    #[cfg(feature = "cfg_unstable")]
    fn macros(&mut self, st: &Step, i: usize) {
        let x = &mut self.v[i];
        if st.op == "v.elem_macro" {
            let n = (st.c as usize).min(self.big);
            let e = T::mk(st.a as u32);
            let m = e.m();
            may(K::Clone, n);
            let r = if st.b & 2 == 0 { call(|| fallible_collections::try_vec![e; n]) } else { call(|| fallible_collections::vec::try_from_elem(e, n)) };
                vec_cost::<T>(0, n, "repeated element");
            match r {
                Some(Ok(v)) => {
                    let c = look(|| contents(&v)).unwrap_or_default();
                    if c.len() != n || !c.iter().all(|q| *q == m || is_clone(*q, m)) {
                        viol("state", || format!("try_vec![{m:?}; {n}] gave {:?}", vals(&c)));
                    }
                    let o = std::mem::replace(&mut x.v, v);
                    x.k = Mdl { m: c, floor: 0, peak: 0 };
                    call(|| drop(o));
                    outcome("ok", n);
                }
                Some(Err(_)) => {
                    err_justified(false);
                    outcome("err", n);
                }
                None => outcome("panic", n),
            }
        } else {
            let g = |k: usize| T::mk(st.v.get(k).copied().unwrap_or(k as u32));
            let (e, f, q) = (g(0), g(1), g(2));
            let ms = vec![e.m(), f.m(), q.m()];
            match call(|| fallible_collections::try_vec![e, f, q]) {
                Some(Ok(v)) => {
                    let o = std::mem::replace(&mut x.v, v);
                    x.k = Mdl { m: ms, floor: 0, peak: 0 };
                    call(|| drop(o));
                    outcome("ok", 3);
                }
                Some(Err(_)) => {
                    err_justified(false);
                    outcome("err", 3);
                }
                None => outcome("panic", 3),
            }
        }
    }
    fn equality(&mut self, st: &Step) {
        // TryVec == TryVec, == Vec, == &[T]
        let vm = |m: &Mdl| m.m.iter().map(|m| ordkey(m.val)).collect::<Vec<_>>();
        let (a, b) = (vm(&self.t[0].k), vm(&self.t[1].k));
        let (c, d) = (vm(&self.v[0].k), vm(&self.v[1].k));
        let t = &self.t;
        let v = &self.v;
        let sl: &[T] = &v[1].v;
        may(K::Cmp, 2 * a.len() + a.len().min(c.len()) + b.len().min(d.len()));
        if let Some((e1, e2, e3, e4)) = pure(|| (t[0].v == t[1].v, t[0].v == v[0].v, t[1].v == sl, t[0].v == t[0].v)) {
            if (e1, e2, e3, e4) != (a == b, a == c, b == d, true) && crate::sim::s().ordmode != CHAOS {
                viol("result", || format!("comparisons gave {:?}, expected {:?}", (e1, e2, e3, e4), (a == b, a == c, b == d, true)));
            }
        }
        may(K::Cmp, a.len() + a.len().min(c.len()) + b.len().min(d.len()));
        if let Some(e) = pure(|| (t[0].v != t[1].v, t[0].v != v[0].v, t[1].v != sl)) {
            if e != (a != b, a != c, b != d) && crate::sim::s().ordmode != CHAOS {
                viol("result", || format!("!= gave {e:?}, expected {:?}", (a != b, a != c, b != d)));
            }
        }
        // make equality reachable: copy a prefix into the other slot every now and then
        let _ = st;
        outcome("ok", a.len());
    }
    fn views(&mut self, st: &Step) {
        let i = (st.b & 1) as usize;
        let t = &mut self.t[i];
        let n = t.k.m.len();
        if let Some((l, e, f, la)) = pure(|| (t.v.len(), t.v.is_empty(), t.v.first().map(|x| x.m()), t.v.last().map(|x| x.m()))) {
            if (l, e, f, la) != (n, n == 0, t.k.m.first().copied(), t.k.m.last().copied()) {
                viol("result", || "length/first/last disagree with the contents".into());
            }
        }
        if n > 0 {
            let p = st.a as usize % n;
            if let Some((a, b, c)) = pure(|| {
                let tail: usize = t.v[p..].len();
                let b = t.v[p].m();
                let c = t.v.get(p).map(|x| x.m());
                (tail, b, c)
            }) {
                if a != n - p || b != t.k.m[p] || c != Some(t.k.m[p]) {
                    viol("result", || "indexing disagrees with the contents".into());
                }
            }
        }
        outcome("ok", n);
    }
}
impl<T: Elem> World for VecWorld<T> {
    fn step(&mut self, st: &Step) {
        match st.op {
            "eq" => self.equality(st),
            "iter" => self.views(st),
            o if o.starts_with("v.") || o.starts_with("t.") => self.special(st),
            _ => {
                if st.b & 2 == 0 {
                    Self::common(&mut self.v, st, self.big)
                } else {
                    Self::common(&mut self.t, st, self.big)
                }
            }
        }
    }
    fn content(&self) -> u64 {
        self.t.iter().fold(self.v.iter().fold(3, |d, x| mix_elems(d, x.k.m.iter())), |d, x| mix_elems(d, x.k.m.iter()))
    }
    fn live(&self) -> i64 {
        ((self.v.iter().map(|x| x.k.m.len()).sum::<usize>() + self.t.iter().map(|x| x.k.m.len()).sum::<usize>()) * T::COUNT) as i64
    }
    fn probe(&mut self) {
        for i in 0..4u64 {
            let st = Step { op: "push", a: 5, b: i & 3, ..Default::default() };
            self.must(&st, "push");
            let st = Step { op: "reserve", c: 3, b: i & 3, ..Default::default() };
            self.must(&st, "reserve");
        }
    }
    fn finish(self: Box<Self>) {
        let VecWorld { v, t, .. } = *self;
        pure(move || {
            drop(v);
            drop(t);
        });
    }
    fn size(&self) -> usize {
        self.v.iter().map(|x| x.k.m.len()).max().unwrap_or(0)
    }
}
impl<T: Elem> VecWorld<T> {
    fn must(&mut self, st: &Step, what: &'static str) {
        s().op = what;
        if st.b & 2 == 0 {
            Self::common(&mut self.v, st, usize::MAX >> 1)
        } else {
            Self::common(&mut self.t, st, usize::MAX >> 1)
        }
    }
}
