//! World "io": limited reads into and writes to TryVec<u8> (std_io), from scripted sources.
//! World "copy": vectors of Copy elements and text.
use crate::heap::{self, h, OFF};
use crate::sim::*;
use crate::trace::Step;
use crate::w_vec::{block_cap, geometric, vec_cost};
use crate::world::*;
use fallible_collections::{FallibleVec, TryClone, TryVec};
use std::convert::TryFrom;

pub const COPY_OPS: &[OpDef] = &[
    op("c.push", 6), op("c.resize", 8), op("c.extend", 8), op("c.extend_nc", 4), op("c.insert", 4), op("c.truncate", 3), op("c.shrink", 2), op("c.reserve", 3), op("c.burst", 3),
    op("c.clone", 2), op("c.append", 2), op("c.drop", 1), op("c.huge", 3), op("s.from_str", 4), op("s.eq", 3), op("s.as_ref", 1), op("s.extend", 4), op("s.clone", 2), op("s.from_elem", 4), op("s.concat", 2),
    op("bt_extend", 3), op("s.debug", 1),
];

pub trait Val: Copy + PartialEq + std::fmt::Debug + TryClone + 'static {
    fn v(x: u64) -> Self;
}
impl Val for u8 {
    fn v(x: u64) -> u8 {
        crate::rng::mix(x) as u8
    }
}
impl Val for u32 {
    fn v(x: u64) -> u32 {
        crate::rng::mix(x) as u32
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Wide([u64; 9]);
impl TryClone for Wide {
    fn try_clone(&self) -> Result<Self, fallible_collections::TryReserveError> {
        if cb(K::Clone) {
            return Err(crate::elem::tre());
        }
        Ok(*self)
    }
}
impl Val for Wide {
    fn v(x: u64) -> Wide {
        Wide([crate::rng::mix(x); 9])
    }
}

struct Cs<T> {
    v: Vec<T>,
    k: Vec<T>,
    floor: usize,
}
pub fn bytes_digest(d: u64, b: &[u8]) -> u64 {
    b.iter().fold(crate::rng::mix(d ^ b.len() as u64), |d, x| crate::rng::mix(d ^ *x as u64))
}
pub struct CopyWorld<T: Val> {
    c: [Cs<T>; 2],
    s: [TryVec<u8>; 2],
    sk: [Vec<u8>; 2],
    cap: usize,
    n: u64,
}
impl<T: Val> CopyWorld<T> {
    pub fn new(cap: usize) -> Self {
        CopyWorld { c: [Cs { v: vec![], k: vec![], floor: 0 }, Cs { v: vec![], k: vec![], floor: 0 }], s: [TryVec::new(), TryVec::new()], sk: Default::default(), cap, n: 0 }
    }
    fn text(st: &Step) -> String {
        let base = ["", "a", "fallible", "größe", "a longer piece of text that does not fit a small allocation"][st.a as usize % 5];
        base.repeat(1 + st.c as usize % 7)
    }
}
fn promise(op: &str, floor: usize, newlen: usize, ok: bool, r0: u32) {
    if newlen <= floor {
        if h().req != r0 {
            viol("reserve", || format!("{op} to length {newlen} requested memory although {floor} elements were promised"));
        }
        if !ok && s().clone_failed == 0 {
            viol("reserve", || format!("{op} to length {newlen} failed although {floor} elements were promised"));
        }
    }
}
impl<T: Val> World for CopyWorld<T> {
    fn step(&mut self, st: &Step) {
        let i = (st.b & 1) as usize;
        let j = 1 - i;
        self.n += 1;
        let val = T::v(st.a ^ (self.n << 32));
        let len = self.c[i].k.len();
        let slen = self.sk[i].len();
        let room = self.cap.saturating_sub(len);
        let n = (st.c as usize).min(room);
        let r0 = h().req;
        h().mark();
        let cap0 = self.c[i].v.capacity();
        let scap = block_cap(&self.s[i]);
        let both = len + self.c[j].k.len();
        let mut class = "state";
        // finish a call that either succeeds as modelled or fails without effect
        macro_rules! done { ($r:expr, $newlen:expr, $apply:expr) => {{
            let r = $r;
            match r {
                Some(Ok(())) => {
                    promise(st.op, self.c[i].floor, $newlen, true, r0);
                    let k = &mut self.c[i].k;
                    #[allow(clippy::redundant_closure_call)]
                    ($apply)(k);
                    outcome("ok", len);
                }
                Some(Err(_)) => {
                    class = "atomic";
                    err_justified(false);
                    promise(st.op, self.c[i].floor, $newlen, false, r0);
                    outcome("err", len);
                }
                None => outcome("panic", len),
            }
        }} }
        match st.op {
            "c.push" => {
                if room == 0 {
                    return;
                }
                let v = &mut self.c[i].v;
                done!(call(|| v.try_push(val)), len + 1, |k: &mut Vec<T>| k.push(val))
            }
            "c.insert" => {
                if room == 0 {
                    return;
                }
                let at = (st.b >> 8) as usize % (len + 1);
                let v = &mut self.c[i].v;
                done!(call(|| v.try_insert(at, val).map_err(|e| e.1)), len + 1, |k: &mut Vec<T>| k.insert(at, val))
            }
            "c.resize" => {
                let v = &mut self.c[i].v;
                done!(call(|| v.try_resize(len + n, val)), len + n, |k: &mut Vec<T>| k.resize(len + n, val))
            }
            "c.shrink" => {
                let to = if len == 0 { 0 } else { st.c as usize % (len + 1) };
                let v = &mut self.c[i].v;
                if pure(|| v.try_resize(to, val).is_ok()) == Some(false) {
                    viol("spurious", || "shrinking failed".into());
                } else {
                    self.c[i].k.truncate(to);
                }
                outcome("ok", len);
            }
            "c.truncate" => {
                let to = if len == 0 { 0 } else { st.c as usize % (len + 1) };
                let v = &mut self.c[i].v;
                if pure(|| v.try_resize_no_copy(to, val).is_ok()) == Some(false) {
                    viol("spurious", || "shrinking failed".into());
                } else {
                    self.c[i].k.truncate(to);
                }
                outcome("ok", len);
            }
            "c.extend" => {
                let src: Vec<T> = (0..n as u64).map(|q| T::v(st.a + q)).collect();
                let v = &mut self.c[i].v;
                done!(call(|| v.try_extend_from_slice(&src)), len + n, |k: &mut Vec<T>| k.extend(&src))
            }
            "c.extend_nc" => {
                let src: Vec<T> = (0..n as u64).map(|q| T::v(st.a + q)).collect();
                let v = &mut self.c[i].v;
                may(K::Clone, n);
                let r = call(|| v.try_extend_from_slice_no_copy(&src));
                let x = &mut self.c[i];
                let got = x.v.len();
                match r {
                    Some(Ok(())) => {
                        promise(st.op, x.floor, len + n, true, r0);
                        x.k.extend(&src);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        promise(st.op, x.floor, len + n, false, r0);
                        // an element clone failed: a prefix may have been added
                        if got > len && (s().clone_failed == 0 || got > len + n) {
                            viol("atomic", || format!("failed extend changed the length from {len} to {got}"));
                        } else if got >= len {
                            x.k.extend(&src[..got - len]);
                        }
                    }
                    None => {
                        if got >= len && got <= len + n {
                            x.k.extend(&src[..got - len]);
                        }
                    }
                }
                outcome("extend", n);
            }
            "c.append" => {
                if len + self.c[j].k.len() > self.cap {
                    return;
                }
                let (l, r) = self.c.split_at_mut(1);
                let (x, y) = if i == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) };
                let nl = len + y.k.len();
                match call(|| x.v.try_append(&mut y.v)) {
                    Some(Ok(())) => {
                        promise(st.op, x.floor, nl, true, r0);
                        x.k.append(&mut y.k);
                        outcome("ok", nl);
                    }
                    Some(Err(_)) => {
                        class = "atomic";
                        err_justified(false);
                        promise(st.op, x.floor, nl, false, r0);
                        outcome("err", nl);
                    }
                    None => {}
                }
            }
            "c.reserve" | "c.burst" => {
                let v = &mut self.c[i].v;
                match call(|| FallibleVec::try_reserve(v, n)) {
                    Some(Ok(())) => {
                        let x = &mut self.c[i];
                        x.floor = x.floor.max(len + n);
                        if st.op == "c.burst" && n > 0 {
                            let hh = h();
                            let was = hh.outage;
                            hh.outage = true;
                            let half = n / 2;
                            let src: Vec<T> = (0..half as u64).map(|q| T::v(st.a + q)).collect();
                            let r = call(|| x.v.try_extend_from_slice(&src).is_ok() && x.v.try_resize(len + n, val).is_ok());
                            hh.outage = was;
                            if r == Some(false) {
                                viol("reserve", || format!("{n} reserved elements could not be added during an outage"));
                            } else {
                                x.k.extend(&src);
                                x.k.resize(len + n, val);
                            }
                        }
                        outcome("ok", n);
                    }
                    Some(Err(_)) => {
                        class = "atomic";
                        err_justified(false);
                        outcome("err", n);
                    }
                    None => {}
                }
            }
            "c.clone" => {
                let v = &self.c[i].v;
                may(K::Clone, len);
                match call(|| v.try_clone()) {
                    Some(Ok(c)) => {
                        let o = std::mem::replace(&mut self.c[j].v, c);
                        self.c[j].k = self.c[i].k.clone();
                        self.c[j].floor = 0;
                        call(|| drop(o));
                        outcome("ok", len);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        class = "atomic";
                        outcome("err", len);
                    }
                    None => {}
                }
            }
            "c.drop" => {
                let o = std::mem::take(&mut self.c[i].v);
                self.c[i].k.clear();
                self.c[i].floor = 0;
                pure(|| drop(o));
                outcome("ok", len);
            }
            "c.huge" => {
                let sz = std::mem::size_of::<T>();
                let n = crate::w_vec::huge(st.a, 0, sz).max(1 << 40);
                let v = &mut self.c[i].v;
                let bad = match st.c % 3 {
                    0 => call(|| v.try_resize(n, val).is_ok()),
                    1 => call(|| v.try_resize_no_copy(n, val).is_ok()),
                    _ => call(|| v.try_resize_with(n, || val).is_ok()),
                };
                if bad == Some(true) {
                    viol("result", || format!("growing to {n} elements was granted"));
                }
                class = "atomic";
                outcome("err", len);
            }
            "s.from_str" => {
                let t = Self::text(st);
                match call(|| TryVec::<u8>::try_from(t.as_str())) {
                    Some(Ok(v)) => {
                        let o = std::mem::replace(&mut self.s[i], v);
                        self.sk[i] = t.into_bytes();
                        call(|| drop(o));
                        outcome("ok", slen);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", slen);
                    }
                    None => {}
                }
            }
            "s.eq" => {
                let t = Self::text(st);
                let b = t.as_bytes();
                let v = &self.s[i];
                let k = &self.sk[i];
                let own = String::from_utf8_lossy(k).into_owned();
                let ow: &str = &own;
                if let Some((x, y, z, w)) = pure(|| (*v == t.as_str(), *v == b, *v == *k, *v == ow)) {
                    let eq = k == b;
                    if (x, y, z, w) != (eq, eq, true, k == own.as_bytes()) {
                        viol("result", || "text comparison disagrees with the contents".into());
                    }
                }
                if let Some(e) = pure(|| (*v != t.as_str(), *v != b, *v != ow)) {
                    if e != (k != b, k != b, k != own.as_bytes()) {
                        viol("result", || "!= on text disagrees with the contents".into());
                    }
                }
                outcome("ok", slen);
            }
            "s.as_ref" => {
                let v = &self.s[i];
                let r: Option<bool> = pure(|| AsRef::<[u8]>::as_ref(v) == self.sk[i].as_slice());
                if r == Some(false) {
                    viol("result", || "as_ref disagrees with the contents".into());
                }
                outcome("ok", slen);
            }
            "s.debug" => {
                let mut sink = crate::elem::Sink(String::new());
                use std::fmt::Write;
                let v = &self.s[i];
                pure(|| {
                    let _ = write!(sink, "{:?}", v);
                });
                if sink.0 != format!("{:?}", self.sk[i]) {
                    viol("result", || format!("debug output {} for {:?}", sink.0, self.sk[i]));
                }
                outcome("ok", slen);
            }
            "s.extend" => {
                let t = Self::text(st);
                if slen + t.len() > self.cap.max(500) {
                    return;
                }
                let v = &mut self.s[i];
                match call(|| v.extend_from_slice(t.as_bytes())) {
                    Some(Ok(())) => {
                        self.sk[i].extend_from_slice(t.as_bytes());
                        outcome("ok", slen);
                    }
                    Some(Err(_)) => {
                        class = "atomic";
                        err_justified(false);
                        outcome("err", slen);
                    }
                    None => {}
                }
            }
            "s.clone" => {
                let v = &self.s[i];
                match call(|| v.try_clone()) {
                    Some(Ok(c)) => {
                        let o = std::mem::replace(&mut self.s[j], c);
                        self.sk[j] = self.sk[i].clone();
                        call(|| drop(o));
                        outcome("ok", slen);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", slen);
                    }
                    None => {}
                }
            }
            "s.concat" => {
                let parts: Vec<TryVec<u8>> = (0..1 + st.a as usize % 4).map(|q| TryVec::from(vec![q as u8; (st.c as usize >> q) % 9])).collect();
                let want: Vec<u8> = parts.iter().flat_map(|p| p.iter().copied()).collect();
                let nest = TryVec::from(parts);
                match call(|| nest.concat()) {
                    Some(Ok(v)) => {
                        let o = std::mem::replace(&mut self.s[i], v);
                        self.sk[i] = want;
                        call(|| drop(o));
                    }
                    Some(Err(_)) => err_justified(false),
                    None => {}
                }
                drop(nest);
                outcome("ok", slen);
            }
            "s.from_elem" => {
                let n = (st.c as usize).min(self.cap);
                #[cfg(feature = "cfg_unstable")]
                {
                    let b = st.a as u8;
                    let huge = st.b >> 8 & 15 == 0;
                    let n = if huge { crate::w_vec::huge(st.a, 0, 1) } else { n };
                    let r = if st.b >> 12 & 1 == 0 { call(|| fallible_collections::try_vec![b; n]) } else { call(|| fallible_collections::vec::try_from_elem(b, n)) };
                    match r {
                        Some(Ok(v)) => {
                            if v.len() != n || v.iter().any(|x| *x != b) {
                                viol("state", || format!("try_vec![{b}; {n}] is wrong"));
                            }
                            let o = std::mem::replace(&mut self.s[i], TryVec::from(v));
                            self.sk[i] = vec![b; n];
                            call(|| drop(o));
                            outcome("ok", n);
                        }
                        Some(Err(_)) => {
                            err_justified(huge);
                            outcome("err", n);
                        }
                        None => {}
                    }
                    may(K::Clone, n.min(500));
                    match call(|| fallible_collections::try_vec![val; n.min(500)]) {
                        Some(Ok(v)) => {
                            if v.len() != n.min(500) || v.iter().any(|x| *x != val) {
                                viol("state", || format!("try_vec![{val:?}; {n}] is wrong"));
                            }
                            call(|| drop(v));
                        }
                        Some(Err(_)) => err_justified(false),
                        None => {}
                    }
                }
                let _ = n;
            }
            "bt_extend" => {
                #[cfg(feature = "cfg_unstable")]
                {
                    use crate::w_map::bulk;
                    use fallible_collections::btree::{BTreeMap, BTreeSet};
                    let mut m: BTreeMap<u32, u16> = BTreeMap::new();
                    let mut t: BTreeSet<u32> = BTreeSet::new();
                    let mut km = std::collections::BTreeMap::new();
                    let n = (st.c as usize).min(300);
                    let src: Vec<(u32, u16)> = (0..n as u64).map(|q| (crate::rng::mix(st.a + q) as u32 % (1 + n as u32), q as u16)).collect();
                    for (a, b) in &src {
                        km.insert(*a, *b);
                    }
                    bulk(false, || m.extend(src.iter().map(|(a, b)| (a, b))));
                    bulk(false, || t.extend(src.iter().map(|x| &x.0)));
                    let got: Vec<(u32, u16)> = m.iter().map(|(a, b)| (*a, *b)).collect();
                    let want: Vec<(u32, u16)> = km.iter().map(|(a, b)| (*a, *b)).collect();
                    let ts: Vec<u32> = t.iter().copied().collect();
                    if got != want || ts != want.iter().map(|x| x.0).collect::<Vec<_>>() || m.len() != want.len() || t.len() != want.len() {
                        viol("state", || "extending a tree by references lost or misplaced entries".into());
                    }
                    call(|| {
                        drop(m);
                        drop(t)
                    });
                    outcome("ok", n);
                }
            }
            _ => unreachable!("op {}", st.op),
        }
        match st.op {
            "c.push" | "c.insert" => vec_cost::<T>(cap0, len + 1, "one more"),
            "c.resize" | "c.extend" | "c.extend_nc" | "c.reserve" | "c.burst" => vec_cost::<T>(cap0, len + n, "grown"),
            "c.append" => vec_cost::<T>(cap0, both, "appended"),
            "c.clone" => vec_cost::<T>(0, len, "cloned"),
            "s.from_str" => vec_cost::<u8>(0, Self::text(st).len(), "copied text"),
            "s.clone" => vec_cost::<u8>(0, slen, "cloned"),
            "s.extend" => vec_cost::<u8>(scap.unwrap_or(slen), slen + Self::text(st).len(), "extended"),
            _ => {}
        }
        if matches!(st.op, "c.push" | "c.insert" | "c.resize" | "c.extend" | "c.extend_nc" | "c.append") {
            geometric::<T>(Some(cap0), Some(self.c[i].v.capacity()));
        }
        if st.op == "s.extend" {
            geometric::<u8>(scap, block_cap(&self.s[i]));
        }
        for q in 0..2 {
            let x = &self.c[q];
            if x.v != x.k {
                viol(class, || format!("contents after {} have length {}, expected {} (or differ)", st.op, x.v.len(), x.k.len()));
            }
            if self.s[q].as_slice() != self.sk[q].as_slice() {
                viol(class, || format!("text after {} has length {}, expected {} (or differs)", st.op, self.s[q].len(), self.sk[q].len()));
            }
        }
    }
    fn content(&self) -> u64 {
        let d = self.sk.iter().fold(5, |d, x| bytes_digest(d, x));
        self.c.iter().fold(d, |d, x| crate::rng::mix(d ^ x.v.len() as u64 ^ x.v.iter().zip(&x.k).filter(|(a, b)| a == b).count() as u64))
    }
    fn live(&self) -> i64 {
        0
    }
    fn probe(&mut self) {
        for q in 0..2 {
            for o in ["c.push", "c.resize", "s.extend", "c.extend"] {
                s().op = o;
                self.cap += 10;
                self.step(&Step { op: o, a: 2, b: q, c: 3, ..Default::default() });
            }
        }
    }
    fn finish(self: Box<Self>) {
        let CopyWorld { c, s, .. } = *self;
        let [a, b] = c;
        pure(move || {
            drop(a.v);
            drop(b.v);
            drop(s);
        });
    }
    fn size(&self) -> usize {
        self.c[0].k.len()
    }
}

#[cfg(not(feature = "cfg_brown"))]
pub use io::{IoWorld, IO_OPS};
#[cfg(not(feature = "cfg_brown"))]
mod io {
    use super::*;
    use fallible_collections::{try_read_up_to, TryRead};
    use std::io::{self, Read, Write};

    pub const IO_OPS: &[OpDef] = &[
        opl("read_up_to", 12), opl("read_take", 8), opl("read_into", 6), op("read_huge", 2), op("write", 12), op("write_all", 6), opl("write_vec", 4), op("write_fmt", 4), opl("copy", 4), op("flush", 1),
        op("clear", 2), op("pop", 2), op("reserve", 4), op("push", 3), op("new", 1), op("write_huge", 1), op("burst", 4),
    ];
    #[derive(Clone, Copy, PartialEq)]
    enum Ev {
        Data(usize),
        Intr,
        Fail,
        Block,
    }
    /// A byte source that follows a script of short reads, interruptions and errors, then ends or
    /// goes on delivering whole buffers.
    struct Script {
        ev: Vec<Ev>,
        at: usize,
        part: usize,
        pos: u64,
        base: u64,
        endless: bool,
        errors: u32,
        eof_seen: bool,
        req_at_read: u32,
    }
    pub fn byte(base: u64, pos: u64) -> u8 {
        crate::rng::mix(base ^ (pos << 20)) as u8
    }
    impl Script {
        fn new(v: &[u32], base: u64, endless: bool) -> Script {
            let ev = v
                .iter()
                .map(|x| match x % 11 {
                    0 => Ev::Intr,
                    1 if x % 7 == 3 => Ev::Fail,
                    2 if x % 13 == 5 => Ev::Block,
                    3 => Ev::Data(1),
                    4 => Ev::Data((x / 11 % 4000) as usize),
                    _ => Ev::Data((x / 11 % 40 + 1) as usize),
                })
                .collect();
            Script { ev, at: 0, part: 0, pos: 0, base, endless, errors: 0, eof_seen: false, req_at_read: u32::MAX }
        }
        fn total(&self) -> (u64, bool, bool) {
            // bytes before the first hard error, whether there is one, endless
            let mut n = 0;
            for e in &self.ev {
                match e {
                    Ev::Data(x) => n += *x as u64,
                    Ev::Fail | Ev::Block => return (n, true, false),
                    Ev::Intr => {}
                }
            }
            (n, false, self.endless)
        }
    }
    impl Read for Script {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            cb(K::Io);
            let _g = heap::enter(OFF);
            if self.req_at_read == u32::MAX {
                self.req_at_read = h().req;
            }
            loop {
                if buf.is_empty() {
                    return Ok(0);
                }
                let n = match self.ev.get(self.at) {
                    None => {
                        if self.endless {
                            usize::MAX
                        } else {
                            self.eof_seen = true;
                            io_count("eof");
                            return Ok(0);
                        }
                    }
                    Some(Ev::Intr) => {
                        self.at += 1;
                        io_count("interrupted");
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                    Some(Ev::Fail) => {
                        self.errors += 1;
                        self.at += 1;
                        io_count("read error");
                        return Err(io::ErrorKind::ConnectionReset.into());
                    }
                    Some(Ev::Block) => {
                        self.errors += 1;
                        self.at += 1;
                        io_count("would block");
                        return Err(io::ErrorKind::WouldBlock.into());
                    }
                    Some(Ev::Data(n)) => *n - self.part,
                };
                if n == 0 {
                    self.at += 1;
                    self.part = 0;
                    continue;
                }
                let k = n.min(buf.len());
                for x in buf[..k].iter_mut() {
                    *x = byte(self.base, self.pos);
                    self.pos += 1;
                }
                self.part += k;
                if k == n && self.at < self.ev.len() {
                    self.at += 1;
                    self.part = 0;
                }
                if k < buf.len() {
                    io_count("short read");
                } else {
                    io_count("full read");
                }
                return Ok(k);
            }
        }
    }
    pub struct IoWorld {
        s: [(TryVec<u8>, Vec<u8>); 2],
        floor: [usize; 2],
        cap: usize,
        n: u64,
    }
    impl IoWorld {
        pub fn new(cap: usize) -> Self {
            IoWorld { s: [(TryVec::new(), vec![]), (TryVec::new(), vec![])], floor: [0; 2], cap: cap.max(100) * 2, n: 0 }
        }
        fn must_err(&self, e: &io::Error) {
            let _ = e.kind();
        }
    }
    impl World for IoWorld {
        fn step(&mut self, st: &Step) {
            let i = (st.b & 1) as usize;
            self.n += 1;
            let base = self.n << 8 | st.a & 0xff;
            let len = self.s[i].1.len();
            let r0 = h().req;
            h().mark();
            let cap0 = block_cap(&self.s[i].0);
            let own0 = own_requests();
            let mut need = None;
            let mut many = 1;
            match st.op {
                "read_up_to" | "read_take" | "read_into" => {
                    let endless = st.b >> 2 & 3 == 0;
                    let mut src = Script::new(&st.v, base, endless);
                    let (avail, hard, _) = src.total();
                    let limit = match st.b >> 4 & 7 {
                        0 => 0,
                        1 => avail,
                        2 => avail + 1,
                        3 => avail.saturating_sub(1),
                        4 => avail / 2,
                        _ => st.c,
                    };
                    let limit = limit.min((self.cap.saturating_sub(len)) as u64);
                    let into = st.op == "read_into";
                    need = Some(limit as usize + if into { 0 } else { len });
                    let floor_ok = !into && limit as usize + len <= self.floor[i];
                    let mut fresh: Option<TryVec<u8>> = None;
                    let (mut rest, mut again) = (None, None);
                    let r = match st.op {
                        "read_up_to" => {
                            let v = &mut self.s[i].0;
                            call(|| try_read_up_to(&mut src, limit, v))
                        }
                        "read_take" => {
                            let v = &mut self.s[i].0;
                            let mut t = (&mut src).take(limit);
                            let r = call(|| t.try_read_to_end(v));
                            rest = Some(t.limit());
                            if let (Some(Ok(_)), Some(0), true) = (&r, rest, st.b & 0x300 == 0) {
                                // the limit is used up: the same reader has nothing more to give
                                again = Some(call(|| t.try_read_to_end(v)).map(|r| r.ok()));
                            }
                            r
                        }
                        _ => call(|| (&mut src).take(limit).read_into_try_vec()).map(|r| {
                            r.map(|v| {
                                let n = v.len();
                                fresh = Some(v);
                                n
                            })
                        }),
                    };
                    let consumed = src.pos;
                    if rest.is_some_and(|l| l != limit.saturating_sub(consumed)) {
                        viol("read", || format!("{consumed} bytes were taken through a reader limited to {limit}, which still admits {rest:?}"));
                    }
                    if again.is_some_and(|g| g.is_some_and(|g| g != Some(0))) {
                        viol("read", || format!("reading again through an exhausted limit gave {again:?}"));
                    }
                    if !into && limit as usize + len <= cap0.unwrap_or(0) {
                        needless(own0, "bytes there is room for");
                    }
                    if floor_ok && src.errors == 0 && matches!(r, Some(Err(_))) {
                        viol("reserve", || format!("reading {limit} bytes into reserved space failed"));
                    }
                    if consumed > limit {
                        viol("read", || format!("{consumed} bytes were taken from the source, the limit is {limit}"));
                    }
                    if floor_ok && h().req != r0 && matches!(r, Some(Ok(_))) {
                        viol("reserve", || format!("reading {limit} bytes into reserved space requested memory"));
                    }
                    if src.req_at_read != u32::MAX && h().req != src.req_at_read {
                        viol("reserve", || "memory was requested after reading had begun; the whole limit must be reserved up front".into());
                    }
                    let delivered: Vec<u8> = (0..consumed).map(|p| byte(base, p)).collect();
                    match r {
                        Some(Ok(n)) => {
                            let want = if src.endless && !hard { limit } else { avail.min(limit) };
                            if n as u64 != consumed || consumed != want {
                                viol("read", || format!("read reported {n} bytes, source delivered {consumed}, {want} were available within the limit"));
                            }
                            if src.errors > 0 || (hard && avail < limit) {
                                viol("read", || "a source error was swallowed".into());
                            }
                            if let Some(v) = fresh {
                                if v.as_slice() != delivered.as_slice() {
                                    viol("read", || format!("new vector has {} bytes, {} were delivered (or they differ)", v.len(), delivered.len()));
                                }
                                let o = std::mem::replace(&mut self.s[i], (v, delivered));
                                self.floor[i] = 0;
                                call(|| drop(o.0));
                            } else {
                                self.s[i].1.extend_from_slice(&delivered);
                                self.floor[i] = self.floor[i].max(len + limit as usize);
                            }
                            outcome("ok", n);
                        }
                        Some(Err(e)) => {
                            self.must_err(&e);
                            if src.errors == 0 && h().refused == 0 {
                                viol("spurious", || format!("read failed ({:?}) although neither the source nor the allocator did", e.kind()));
                            }
                            if src.errors == 0 && consumed > 0 {
                                viol("read", || format!("memory was refused after {consumed} bytes had been consumed from the source"));
                            }
                            if !into {
                                let (v, k) = &mut self.s[i];
                                let got = v.as_slice();
                                if got.len() < len || got[..len] != k[..] || got.len() - len > delivered.len() || got[len..] != delivered[..got.len() - len] {
                                    viol("read", || format!("after a failed read the vector has {} bytes: {len} before, {} delivered", got.len(), delivered.len()));
                                } else {
                                    *k = got.to_vec();
                                }
                            }
                            outcome("err", len);
                        }
                        None => {
                            let (v, k) = &mut self.s[i];
                            if !into {
                                let got = v.as_slice();
                                if got.len() < len || got[..len] != k[..] || got.len() - len > delivered.len() || got[len..] != delivered[..got.len() - len] {
                                    viol("panicstate", || format!("after a panicking reader the vector has {} bytes: {len} before, {} delivered", got.len(), delivered.len()));
                                }
                                *k = got.to_vec();
                            }
                            outcome("panic", len);
                        }
                    }
                }
                "read_huge" => {
                    let limit = [u64::MAX, 1 << 63, u64::MAX - len as u64, (isize::MAX as u64) + 1 - len as u64, 1 << 50, (1 << 32) + 1 + (st.a & 31), 1 << 32][(st.c % 7) as usize];
                    let mut src = Script::new(&[55, 66], base, st.b & 2 == 0);
                    let v = &mut self.s[i].0;
                    match call(|| if st.b & 4 == 0 { try_read_up_to(&mut src, limit, v) } else { (&mut src).take(limit).try_read_to_end(v) }) {
                        Some(Ok(_)) => viol("read", || format!("a limit of {limit} bytes was granted")),
                        Some(Err(_)) => {
                            if src.pos > 0 {
                                viol("read", || "bytes were consumed although the reservation failed".into());
                            }
                            outcome("err", len);
                        }
                        None => {}
                    }
                }
                "write" | "write_all" => {
                    let n = (st.c as usize).min(self.cap.saturating_sub(len));
                    need = Some(len + n);
                    let data: Vec<u8> = (0..n as u64).map(|p| byte(base, p)).collect();
                    let v = &mut self.s[i].0;
                    let r = if st.op == "write" {
                        call(|| v.write(&data))
                    } else {
                        call(|| v.write_all(&data).map(|_| n))
                    };
                    match r {
                        Some(Ok(k)) => {
                            if k != n {
                                viol("write", || format!("write of {n} bytes reported {k}"));
                            }
                            self.s[i].1.extend_from_slice(&data);
                            if len + n <= cap0.unwrap_or(0) {
                                needless(own0, "bytes there is room for");
                            }
                            if len + n <= self.floor[i] && h().req != r0 {
                                viol("reserve", || "writing into reserved space requested memory".into());
                            }
                            outcome("ok", n);
                        }
                        Some(Err(_)) => {
                            err_justified(false);
                            if len + n <= self.floor[i] {
                                viol("reserve", || "writing into reserved space failed".into());
                            }
                            outcome("err", n);
                        }
                        None => {}
                    }
                }
                "burst" => {
                    let n = (st.c as usize).min(self.cap.saturating_sub(len));
                    need = Some(len + n);
                    let v = &mut self.s[i].0;
                    if let Some(Ok(())) = call(|| v.reserve(n)) {
                        self.floor[i] = self.floor[i].max(len + n);
                        let hh = h();
                        let was = hh.outage;
                        hh.outage = true;
                        let data: Vec<u8> = (0..n as u64).map(|p| byte(base, p)).collect();
                        let (d1, d2) = data.split_at(n / 2);
                        let mut src: &[u8] = d2;
                        let r = call(|| v.write_all(d1).is_ok() && try_read_up_to(&mut src, d2.len() as u64, v).is_ok());
                        hh.outage = was;
                        if r == Some(false) {
                            viol("reserve", || format!("{n} reserved bytes could not be filled during an outage"));
                        } else {
                            self.s[i].1.extend_from_slice(&data);
                        }
                        outcome("ok", n);
                    } else {
                        err_justified(false);
                    }
                }
                "write_vec" => {
                    let parts: Vec<Vec<u8>> = st.v.iter().take(8).enumerate().map(|(q, n)| (0..*n as u64 % 70).map(|p| byte(base + q as u64, p)).collect()).collect();
                    if len + 600 > self.cap + 600 {
                        return;
                    }
                    let sl: Vec<io::IoSlice> = parts.iter().map(|p| io::IoSlice::new(p)).collect();
                    let all: Vec<u8> = parts.concat();
                    need = Some(len + all.len());
                    many = 8;
                    let v = &mut self.s[i].0;
                    match call(|| v.write_vectored(&sl)) {
                        Some(Ok(k)) => {
                            if k > all.len() || (k == 0 && !all.is_empty()) {
                                viol("write", || format!("vectored write of {} bytes reported {k}", all.len()));
                            } else {
                                self.s[i].1.extend_from_slice(&all[..k]);
                            }
                            outcome("ok", k);
                        }
                        Some(Err(_)) => {
                            err_justified(false);
                            outcome("err", all.len());
                        }
                        None => {}
                    }
                }
                "write_fmt" => {
                    let v = &mut self.s[i].0;
                    if len > self.cap {
                        return;
                    }
                    let w = st.c as usize % 50;
                    let text = format!("<{:>w$}|{}>", st.a, st.b);
                    need = Some(len + text.len());
                    many = 2 + usize::BITS - text.len().leading_zeros();
                    match call(|| write!(v, "<{:>w$}|{}>", st.a, st.b)) {
                        Some(Ok(())) => {
                            self.s[i].1.extend_from_slice(text.as_bytes());
                            outcome("ok", text.len());
                        }
                        Some(Err(_)) => {
                            err_justified(false);
                            // each piece is one acknowledged write: a prefix of the text
                            let (v, k) = &mut self.s[i];
                            let got = v.as_slice();
                            if got.len() < len || got.len() - len > text.len() || got[len..] != text.as_bytes()[..got.len() - len] {
                                viol("write", || "a failed formatted write left something that is no prefix of the text".into());
                            } else {
                                *k = got.to_vec();
                            }
                            outcome("err", text.len());
                        }
                        None => {}
                    }
                }
                "copy" => {
                    // io::copy has a stack buffer: writes of what each read delivered
                    if len > self.cap {
                        return;
                    }
                    let mut src = Script::new(&st.v, base, false);
                    let v = &mut self.s[i].0;
                    let r = call(|| io::copy(&mut src, v));
                    let delivered: Vec<u8> = (0..src.pos).map(|p| byte(base, p)).collect();
                    need = Some(len + delivered.len());
                    many = 2 + usize::BITS - delivered.len().leading_zeros();
                    let (v, k) = &mut self.s[i];
                    let got = v.as_slice();
                    let okp = got.len() >= len && got[..len] == k[..] && got.len() - len <= delivered.len() && got[len..] == delivered[..got.len() - len];
                    match r {
                        Some(Ok(n)) => {
                            if n != src.pos || !okp || got.len() - len != delivered.len() {
                                viol("write", || format!("copy reported {n} bytes, {} were delivered, the vector grew by {}", src.pos, got.len().wrapping_sub(len)));
                            }
                            outcome("ok", n as usize);
                        }
                        Some(Err(_)) => {
                            if src.errors == 0 && h().refused == 0 {
                                viol("spurious", || "copy failed although neither side did".into());
                            }
                            if !okp {
                                viol("write", || "after a failed copy the vector holds something that was not delivered".into());
                            }
                            outcome("err", len);
                        }
                        None => {
                            if !okp {
                                viol("panicstate", || "after a panicking reader the vector holds something that was not delivered".into());
                            }
                        }
                    }
                    *k = got.to_vec();
                }
                "write_huge" => {
                    // a buffer larger than the simulated machine
                    let big = vec![7u8; h().maxreq + (1 << 20)];
                    let v = &mut self.s[i].0;
                    match call(|| v.write(&big)) {
                        Some(Ok(_)) => viol("write", || "an impossible write was acknowledged".into()),
                        Some(Err(_)) => {
                            err_justified(false);
                            outcome("err", len)
                        }
                        None => {}
                    }
                }
                "flush" => {
                    let v = &mut self.s[i].0;
                    if pure(|| v.flush().is_ok()) != Some(true) {
                        viol("write", || "flush failed".into());
                    }
                    outcome("ok", len);
                }
                "clear" => {
                    let v = &mut self.s[i].0;
                    pure(|| v.clear());
                    self.s[i].1.clear();
                    outcome("ok", len);
                }
                "pop" => {
                    let v = &mut self.s[i].0;
                    let g = pure(|| v.pop());
                    if g != Some(self.s[i].1.pop()) {
                        viol("write", || "pop disagrees with the written bytes".into());
                    }
                    outcome("ok", len);
                }
                "push" => {
                    let v = &mut self.s[i].0;
                    need = Some(len + 1);
                    match call(|| v.push(st.a as u8)) {
                        Some(Ok(())) => self.s[i].1.push(st.a as u8),
                        Some(Err(_)) => err_justified(false),
                        None => {}
                    }
                    outcome("ok", len);
                }
                "reserve" => {
                    let v = &mut self.s[i].0;
                    let n = (st.c as usize).min(self.cap);
                    need = Some(len + n);
                    match call(|| v.reserve(n)) {
                        Some(Ok(())) => self.floor[i] = self.floor[i].max(len + n),
                        Some(Err(_)) => err_justified(false),
                        None => {}
                    }
                    outcome("ok", n);
                }
                "new" => {
                    let o = std::mem::replace(&mut self.s[i], (TryVec::new(), vec![]));
                    self.floor[i] = 0;
                    pure(|| drop(o.0));
                    outcome("ok", len);
                }
                _ => unreachable!("op {}", st.op),
            }
            if let Some(n) = need {
                // several small writes in one operation may each double the buffer
                let c = cap0.unwrap_or(len);
                cost(n.max(2 * c).max(8) * if many > 1 { 2 } else { 1 }, many, format_args!("{n} bytes, capacity before {c}"));
                if matches!(st.op, "write" | "write_all" | "push") {
                    geometric::<u8>(cap0, block_cap(&self.s[i].0));
                }
            }
            for (v, k) in &self.s {
                if v.as_slice() != k.as_slice() {
                    let cls = if st.op.starts_with("read") { "read" } else { "write" };
                    viol(cls, || format!("after {} the vector has {} bytes, expected {} (or they differ)", st.op, v.len(), k.len()));
                }
            }
        }
        fn content(&self) -> u64 {
            self.s.iter().fold(7, |d, x| super::bytes_digest(d, x.0.as_slice()))
        }
        fn live(&self) -> i64 {
            0
        }
        fn probe(&mut self) {
            for q in 0..2 {
                for o in ["write", "read_up_to", "push", "reserve"] {
                    s().op = o;
                    self.cap += 50;
                    self.step(&Step { op: o, a: 3, b: q | 5 << 4, c: 20, v: vec![300, 400], ..Default::default() });
                }
            }
        }
        fn finish(self: Box<Self>) {
            let IoWorld { s, .. } = *self;
            let [a, b] = s;
            pure(move || {
                drop(a.0);
                drop(b.0);
            });
        }
        fn size(&self) -> usize {
            self.s[0].1.len()
        }
    }
}
