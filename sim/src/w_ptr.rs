//! World "ptr": fallible smart pointers, nested clones and formatting.
#![allow(deprecated)]
use crate::elem::*;
use crate::heap::h;
use crate::sim::*;
use crate::trace::Step;
use crate::world::*;
use fallible_collections::{FallibleArc, FallibleBox, FallibleRc, FallibleVec, TryBox, TryClone, TryVec};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

pub const OPS: &[OpDef] = &[
    op("box_new", 10), op("box_clone", 6), op("box_take", 4), op("box_set", 3), op("tbox_new", 8), op("tbox_clone", 6), op("tbox_read", 3), op("tbox_drop", 3), op("into_raw", 5), op("from_raw", 5),
    op("rc_new", 7), op("rc_clone", 4), op("rc_drop", 4), op("rc_unwrap", 2), op("arc_new", 7), op("arc_clone", 4), op("arc_drop", 4), op("arc_unwrap", 2),
    op("opt_clone", 4), op("prim", 2), op("layouts", 5), op("nest_push", 6), op("nest_clone", 6), op("nest_drop", 1), op("nest2_push", 5), op("nest2_clone", 5), op("nest2_drop", 1),
    op("fmt", 10), op("fmt_huge", 1), op("deep_clone", 5),
];

pub struct PtrWorld<T: Elem> {
    boxes: Vec<(Box<T>, M)>,
    tboxes: Vec<(TryBox<T>, M)>,
    raws: Vec<(*mut T, M)>,
    rcs: Vec<(Rc<T>, M)>,
    arcs: Vec<(Arc<T>, M)>,
    nest: [(Vec<Option<Box<T>>>, Vec<Option<M>>); 2],
    nest2: [(TryVec<TryBox<T>>, Vec<M>); 2],
    gone: i64,
}
fn aligned<T>(p: *const T) {
    if p as usize % std::mem::align_of::<T>() != 0 {
        viol("result", || format!("pointer to a value with alignment {} is misaligned", std::mem::align_of::<T>()));
    }
}
/// The Rc/Arc constructors of stable builds are documented not to be completely fallible: only their
/// first request may be refused there.
fn shared_faults(zst: bool) -> (bool, usize, [u32; 4], u32) {
    let hh = h();
    let was = (hh.outage, hh.quota, hh.nth, hh.from);
    if !cfg!(feature = "cfg_unstable") {
        hh.quota = usize::MAX;
        let first = !zst && (hh.outage || hh.nth.contains(&1) || hh.from == 1);
        hh.outage = false;
        hh.from = 0;
        hh.nth = [first as u32, 0, 0, 0];
    }
    was
}
fn restore(w: (bool, usize, [u32; 4], u32)) {
    let hh = h();
    hh.outage = w.0;
    hh.quota = w.1;
    hh.nth = w.2;
    hh.from = w.3;
}
#[derive(Clone, Copy, PartialEq)]
#[repr(align(64))]
struct Line(u64);
#[derive(Clone, Copy, PartialEq)]
#[repr(align(4096))]
struct Page(u8);
/// One value into a pointer and out again.
fn layout_trip<X: Copy + PartialEq>(kind: usize, x: X) {
    let (z, al) = (std::mem::size_of::<X>(), std::mem::align_of::<X>());
    let was = if kind > 1 { Some(shared_faults(z == 0)) } else { None };
    fn check<X: Copy + PartialEq>(p: &X, x: X) {
        aligned(p);
        if *p != x {
            viol("state", || format!("a pointer to a value of {} bytes holds another value", std::mem::size_of::<X>()));
        }
    }
    let r = match kind {
        0 => call(|| <Box<X> as FallibleBox<X>>::try_new(x).map(|p| drop_checked(p, |p| check(&**p, x)))),
        1 => call(|| {
            TryBox::try_new(x).map(|p| {
                check(&*p, x);
                let p = unsafe { TryBox::from_raw(TryBox::into_raw(p)) };
                drop_checked(p, |p| check(&**p, x))
            })
        }),
        2 => call(|| <Rc<X> as FallibleRc<X>>::try_new(x).map(|p| drop_checked((p.clone(), p), |p| check(&*p.1, x)))),
        _ => call(|| <Arc<X> as FallibleArc<X>>::try_new(x).map(|p| drop_checked((p.clone(), p), |p| check(&*p.1, x)))),
    };
    if let Some(w) = was {
        restore(w);
        cost((16usize.max(al) + z + 7 + al) / al.max(8) * al.max(8), 2, "one shared value");
    } else {
        cost(z, (z > 0) as u32, "one boxed value");
    }
    match r {
        Some(Ok(())) => outcome("ok", z),
        Some(Err(_)) => {
            err_justified(false);
            outcome("err", z);
        }
        None => outcome("panic", z),
    }
}
fn drop_checked<P>(p: P, f: impl FnOnce(&P)) {
    f(&p);
    drop(p)
}
struct Show<'a, T>(&'a T, &'a Cell<(u32, u32)>);
impl<T: std::fmt::Debug> std::fmt::Display for Show<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (n, r) = self.1.get();
        self.1.set((n + 1, if n == 0 { h().req } else { r }));
        std::fmt::Debug::fmt(self.0, f)
    }
}

impl<T: Elem> PtrWorld<T> {
    pub fn new() -> Self {
        PtrWorld { boxes: vec![], tboxes: vec![], raws: vec![], rcs: vec![], arcs: vec![], nest: Default::default(), nest2: [(TryVec::new(), vec![]), (TryVec::new(), vec![])], gone: 0 }
    }
    fn verify(&self) {
        look(|| {
            let bad = |w: &str, a: M, b: M| {
                if a != b {
                    viol("state", || format!("after {} a {w} holds {a:?}, expected {b:?}", s().op));
                }
            };
            for (b, m) in &self.boxes {
                aligned(&**b);
                bad("box", b.m(), *m);
            }
            for (b, m) in &self.tboxes {
                aligned(&**b);
                bad("TryBox", b.m(), *m);
            }
            for (p, m) in &self.raws {
                aligned(*p);
                bad("raw pointer", unsafe { (**p).m() }, *m);
            }
            for (p, m) in &self.rcs {
                aligned(&**p);
                bad("Rc", p.m(), *m);
                let n = self.rcs.iter().filter(|x| Rc::ptr_eq(&x.0, p)).count();
                if Rc::strong_count(p) != n || Rc::weak_count(p) != 0 {
                    viol("state", || format!("an Rc with {n} holders reports {}", Rc::strong_count(p)));
                }
            }
            for (p, m) in &self.arcs {
                aligned(&**p);
                bad("Arc", p.m(), *m);
                let n = self.arcs.iter().filter(|x| Arc::ptr_eq(&x.0, p)).count();
                if Arc::strong_count(p) != n || Arc::weak_count(p) != 0 {
                    viol("state", || format!("an Arc with {n} holders reports {}", Arc::strong_count(p)));
                }
            }
            for (v, k) in &self.nest {
                let c: Vec<Option<M>> = v.iter().map(|x| x.as_ref().map(|x| x.m())).collect();
                if c != *k {
                    viol("state", || format!("after {} a nested vector holds {c:?}, expected {k:?}", s().op));
                }
            }
            for (v, k) in &self.nest2 {
                let c: Vec<M> = v.iter().map(|x| x.m()).collect();
                if c != *k {
                    viol("state", || format!("after {} a vector of boxes holds {c:?}, expected {k:?}", s().op));
                }
            }
        });
    }
    fn resync(&mut self) {
        for (v, k) in &mut self.nest {
            *k = v.iter().map(|x| x.as_ref().map(|x| x.m())).collect();
        }
        for (v, k) in &mut self.nest2 {
            *k = v.iter().map(|x| x.m()).collect();
        }
    }
}
impl<T: Elem> World for PtrWorld<T> {
    fn step(&mut self, st: &Step) {
        let a = st.a as u32;
        let (i, j) = ((st.b & 1) as usize, 1 - (st.b & 1) as usize);
        let pick = |n: usize| (st.b >> 3) as usize % n.max(1);
        h().mark();
        match st.op {
            "box_new" | "tbox_new" | "rc_new" | "arc_new" => {
                let full = self.boxes.len() + self.tboxes.len() + self.rcs.len() + self.arcs.len() > 60;
                if full {
                    return;
                }
                let e = T::mk(a);
                let m = e.m();
                enum P<T> {
                    B(Box<T>),
                    T(TryBox<T>),
                    R(Rc<T>),
                    A(Arc<T>),
                }
                let was = if st.op == "rc_new" || st.op == "arc_new" { Some(shared_faults(T::ZST)) } else { None };
                let r = match st.op {
                    "box_new" => call(|| <Box<T> as FallibleBox<T>>::try_new(e).map(P::B)),
                    "tbox_new" => call(|| TryBox::try_new(e).map(P::T)),
                    "rc_new" => call(|| <Rc<T> as FallibleRc<T>>::try_new(e).map(P::R)),
                    _ => call(|| <Arc<T> as FallibleArc<T>>::try_new(e).map(P::A)),
                };
                if let Some(w) = was {
                    restore(w);
                    // the value with its two counters; the stable toolchain boxes it first
                    let (z, al) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
                    let l = (16usize.max(al) + z + 7 + al) / al.max(8) * al.max(8);
                    cost(l, 2, "one shared value");
                } else {
                    cost(std::mem::size_of::<T>(), !T::ZST as u32, "one boxed value");
                }
                match r {
                    Some(Ok(p)) => {
                        match p {
                            P::B(p) => self.boxes.push((p, m)),
                            P::T(p) => self.tboxes.push((p, m)),
                            P::R(p) => self.rcs.push((p, m)),
                            P::A(p) => self.arcs.push((p, m)),
                        }
                        outcome("ok", 1);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", 1);
                    }
                    None => outcome("panic", 1),
                }
            }
            "box_clone" | "tbox_clone" => {
                let k = if st.op == "box_clone" { self.boxes.len() } else { self.tboxes.len() };
                if k == 0 || k > 30 {
                    return;
                }
                let p = pick(k);
                may(K::Clone, 1);
                let (r, src) = if st.op == "box_clone" {
                    let b = &self.boxes[p];
                    (call(|| b.0.try_clone().map(|x| (Some(x), None))), b.1)
                } else {
                    let b = &self.tboxes[p];
                    (call(|| b.0.try_clone().map(|x| (None, Some(x)))), b.1)
                };
                cost(std::mem::size_of::<T>(), !T::ZST as u32, "one boxed value");
                match r {
                    Some(Ok((x, y))) => {
                        let m = match (&x, &y) {
                            (Some(b), _) => b.m(),
                            (_, Some(b)) => b.m(),
                            _ => unreachable!(),
                        };
                        if !is_clone(m, src) {
                            viol("result", || format!("clone of a box is {m:?}, source {src:?}"));
                        }
                        if let Some(b) = x {
                            if !T::ZST && std::ptr::eq(&*b, &*self.boxes[p].0) {
                                viol("result", || "a cloned box shares its value with the source".into());
                            }
                            self.boxes.push((b, m));
                        }
                        if let Some(b) = y {
                            if !T::ZST && std::ptr::eq(&*b, &*self.tboxes[p].0) {
                                viol("result", || "a cloned TryBox shares its value with the source".into());
                            }
                            self.tboxes.push((b, m));
                        }
                        outcome("ok", 1);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", 1);
                    }
                    None => outcome("panic", 1),
                }
            }
            "box_take" => {
                if self.boxes.is_empty() {
                    return;
                }
                let (b, m) = self.boxes.swap_remove(pick(self.boxes.len()));
                if st.c & 1 == 0 {
                    if let Some(e) = pure(move || *b) {
                        if e.m() != m {
                            viol("result", || format!("unboxed {:?}, expected {m:?}", e.m()));
                        }
                        call(move || drop(e));
                    }
                } else {
                    pure(move || drop(b));
                }
                outcome("ok", 1);
            }
            "box_set" => {
                if self.boxes.is_empty() {
                    return;
                }
                let p = pick(self.boxes.len());
                let (b, m) = &mut self.boxes[p];
                b.set(a);
                *m = b.m();
                outcome("ok", 1);
            }
            "tbox_read" => {
                if self.tboxes.is_empty() {
                    return;
                }
                let (b, m) = &self.tboxes[pick(self.tboxes.len())];
                if pure(|| std::ops::Deref::deref(b).m()) != Some(*m) {
                    viol("result", || "a TryBox shows another value than it was given".into());
                }
                outcome("ok", 1);
            }
            "tbox_drop" => {
                if self.tboxes.is_empty() {
                    return;
                }
                let (b, _) = self.tboxes.swap_remove(pick(self.tboxes.len()));
                pure(move || drop(b));
                outcome("ok", 1);
            }
            "into_raw" => {
                if self.tboxes.is_empty() {
                    return;
                }
                let (b, m) = self.tboxes.swap_remove(pick(self.tboxes.len()));
                let before: *const T = &*b;
                if let Some(p) = pure(move || TryBox::into_raw(b)) {
                    if p as *const T != before {
                        viol("result", || "into_raw moved the value".into());
                    }
                    self.raws.push((p, m));
                }
                outcome("ok", 1);
            }
            "from_raw" => {
                if self.raws.is_empty() {
                    return;
                }
                let (p, m) = self.raws.swap_remove(pick(self.raws.len()));
                if st.c & 1 == 0 {
                    if let Some(b) = pure(move || unsafe { TryBox::from_raw(p) }) {
                        self.tboxes.push((b, m));
                    }
                } else {
                    // the raw pointer belongs to an ordinary box as well
                    let b = unsafe { Box::from_raw(p) };
                    self.boxes.push((b, m));
                }
                outcome("ok", 1);
            }
            "rc_clone" => {
                if self.rcs.is_empty() || self.rcs.len() > 40 {
                    return;
                }
                let p = pick(self.rcs.len());
                let m = self.rcs[p].1;
                let r = &self.rcs[p].0;
                if let Some(x) = pure(|| r.clone()) {
                    self.rcs.push((x, m));
                }
                outcome("ok", 1);
            }
            "arc_clone" => {
                if self.arcs.is_empty() || self.arcs.len() > 40 {
                    return;
                }
                let p = pick(self.arcs.len());
                let m = self.arcs[p].1;
                let r = &self.arcs[p].0;
                match pure(|| TryClone::try_clone(r)) {
                    Some(Ok(x)) => {
                        if !Arc::ptr_eq(&x, r) {
                            viol("result", || "cloning an Arc did not share the value".into());
                        }
                        self.arcs.push((x, m));
                    }
                    Some(Err(_)) => err_justified(false),
                    None => {}
                }
                outcome("ok", 1);
            }
            "rc_drop" => {
                if !self.rcs.is_empty() {
                    let (x, _) = self.rcs.swap_remove(pick(self.rcs.len()));
                    pure(move || drop(x));
                    outcome("ok", 1);
                }
            }
            "arc_drop" => {
                if !self.arcs.is_empty() {
                    let (x, _) = self.arcs.swap_remove(pick(self.arcs.len()));
                    pure(move || drop(x));
                    outcome("ok", 1);
                }
            }
            "rc_unwrap" => {
                if !self.rcs.is_empty() {
                    let (x, m) = self.rcs.swap_remove(pick(self.rcs.len()));
                    let n = Rc::strong_count(&x);
                    match pure(move || Rc::try_unwrap(x)) {
                        Some(Ok(e)) => {
                            if e.m() != m || n != 1 {
                                viol("result", || "Rc::try_unwrap gave the wrong value".into());
                            }
                            call(move || drop(e));
                            outcome("ok", 1);
                        }
                        Some(Err(x)) => {
                            self.rcs.push((x, m));
                            outcome("shared", 1);
                        }
                        None => {}
                    }
                }
            }
            "arc_unwrap" => {
                if !self.arcs.is_empty() {
                    let (x, m) = self.arcs.swap_remove(pick(self.arcs.len()));
                    let n = Arc::strong_count(&x);
                    match pure(move || Arc::try_unwrap(x)) {
                        Some(Ok(e)) => {
                            if e.m() != m || n != 1 {
                                viol("result", || "Arc::try_unwrap gave the wrong value".into());
                            }
                            call(move || drop(e));
                            outcome("ok", 1);
                        }
                        Some(Err(x)) => {
                            self.arcs.push((x, m));
                            outcome("shared", 1);
                        }
                        None => {}
                    }
                }
            }
            "opt_clone" => {
                let e = T::mk(a);
                let m = e.m();
                let o = if st.c & 1 == 0 { Some(e) } else { None::<T> };
                may(K::Clone, o.is_some() as usize);
                match call(|| o.try_clone()) {
                    Some(Ok(c)) => {
                        let cm = c.as_ref().map(|x| x.m());
                        match (&o, cm) {
                            (Some(_), Some(cm)) if is_clone(cm, m) => {}
                            (None, None) => {}
                            _ => viol("result", || format!("clone of an option is {cm:?}, source {m:?}")),
                        }
                        call(|| drop(c));
                        outcome("ok", 1);
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", 1);
                    }
                    None => outcome("panic", 1),
                }
                if o.as_ref().map_or(false, |x| x.m() != m) {
                    viol("atomic", || "cloning an option changed it".into());
                }
                call(|| drop(o));
            }
            "prim" => {
                let x = st.b ^ (st.a << 40);
                macro_rules! p { ($($t:ty),*) => { $( {
                    let v = x as $t;
                    if pure(|| v.try_clone()) != Some(Ok(v)) {
                        viol("result", || format!("clone of {v} as {} differs", stringify!($t)));
                    }
                } )* } }
                p!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
                let b = x & 1 == 1;
                if pure(|| b.try_clone()) != Some(Ok(b)) {
                    viol("result", || "clone of a bool differs".into());
                }
                outcome("ok", 1);
            }
            "layouts" => {
                // plain values of many sizes and alignments through every kind of pointer
                let x = st.b ^ (st.a << 40);
                let (kind, which) = (pick(4), (st.b >> 7) as usize % 14);
                macro_rules! l { ($($n:literal $t:ty = $e:expr;)*) => { match which { $( $n => layout_trip::<$t>(kind, $e), )* _ => {} } } }
                l! {
                    0 u8 = x as u8;
                    1 u16 = x as u16;
                    2 [u8; 3] = [x as u8, 9, 7];
                    3 u32 = x as u32;
                    4 [u16; 3] = [x as u16, 1, 2];
                    5 u64 = x;
                    6 (u64, u8) = (x, 3);
                    7 u128 = (x as u128) << 70 | 5;
                    8 [u8; 33] = [x as u8; 33];
                    9 [u64; 100] = [x; 100];
                    10 [u8; 5000] = [x as u8; 5000];
                    11 Line = Line(x);
                    12 Page = Page(x as u8);
                    13 () = ();
                };
            }
            "nest_push" => {
                let (v, k) = &mut self.nest[i];
                if k.len() > 40 {
                    return;
                }
                let (x, m) = if st.c % 3 == 0 {
                    (None, None)
                } else {
                    let e = T::mk(a);
                    let m = e.m();
                    match call(|| <Box<T> as FallibleBox<T>>::try_new(e)) {
                        Some(Ok(b)) => (Some(b), Some(m)),
                        Some(Err(_)) => {
                            err_justified(false);
                            return;
                        }
                        None => return,
                    }
                };
                match call(|| v.try_push_give_back(x)) {
                    Some(Ok(())) => k.push(m),
                    Some(Err((x, _))) => {
                        err_justified(false);
                        if x.as_ref().map(|b| b.m()) != m {
                            viol("result", || "give back returned another element".into());
                        }
                        call(|| drop(x));
                        outcome("err", k.len());
                    }
                    None => {}
                }
            }
            "nest_clone" => {
                let (v, k) = &self.nest[i];
                may(K::Clone, k.len());
                match call(|| v.try_clone()) {
                    Some(Ok(c)) => {
                        let cm: Vec<Option<M>> = c.iter().map(|x| x.as_ref().map(|x| x.m())).collect();
                        let ok = cm.len() == k.len()
                            && cm.iter().zip(k).all(|(x, y)| match (x, y) {
                                (None, None) => true,
                                (Some(x), Some(y)) => is_clone(*x, *y),
                                _ => false,
                            });
                        if !ok {
                            viol("result", || format!("nested clone is {cm:?}, source {k:?}"));
                        }
                        outcome("ok", k.len());
                        let o = std::mem::replace(&mut self.nest[j], (c, cm));
                        call(|| drop(o.0));
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", k.len());
                    }
                    None => outcome("panic", k.len()),
                }
            }
            "nest_drop" => {
                let o = std::mem::take(&mut self.nest[i]);
                pure(move || drop(o.0));
                outcome("ok", 1);
            }
            "nest2_push" => {
                let (v, k) = &mut self.nest2[i];
                if k.len() > 40 {
                    return;
                }
                let e = T::mk(a);
                let m = e.m();
                let b = match call(|| TryBox::try_new(e)) {
                    Some(Ok(b)) => b,
                    Some(Err(_)) => {
                        err_justified(false);
                        return;
                    }
                    None => return,
                };
                match call(|| v.push(b)) {
                    Some(Ok(())) => k.push(m),
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", k.len());
                    }
                    None => {}
                }
            }
            "nest2_clone" => {
                let (v, k) = &self.nest2[i];
                may(K::Clone, k.len());
                match call(|| v.try_clone()) {
                    Some(Ok(c)) => {
                        let cm: Vec<M> = c.iter().map(|x| x.m()).collect();
                        if cm.len() != k.len() || !cm.iter().zip(k).all(|(x, y)| is_clone(*x, *y)) {
                            viol("result", || format!("clone of a vector of boxes is {cm:?}, source {k:?}"));
                        }
                        outcome("ok", k.len());
                        let o = std::mem::replace(&mut self.nest2[j], (c, cm));
                        call(|| drop(o.0));
                    }
                    Some(Err(_)) => {
                        err_justified(false);
                        outcome("err", k.len());
                    }
                    None => outcome("panic", k.len()),
                }
            }
            "nest2_drop" => {
                let o = std::mem::replace(&mut self.nest2[i], (TryVec::new(), vec![]));
                pure(move || drop(o.0));
                outcome("ok", 1);
            }
            "deep_clone" => self.deep(st),
            "fmt" => {
                let seen = Cell::new((0u32, 0u32));
                let es: Vec<T> = (0..1 + st.c % 6).map(|q| T::mk(a.wrapping_mul(q as u32 + 1))).collect();
                let w = (st.b >> 4) as usize % 20;
                let text: &str = ["", "x", "länger", "a somewhat longer literal text with many characters in it"][(st.b >> 9) as usize % 4];
                let l = &es[es.len() - 1];
                let want = match st.c % 4 {
                    0 => format!("{}", Show(&es[0], &seen)),
                    1 => format!("{:?}", es),
                    2 => format!("{text}<{:>w$}>{text}|{}|{:08.3}", Show(&es[0], &seen), Show(l, &seen), st.a as f64),
                    _ => format!("{text}{:#x}{:?}{}", st.a, text, Show(l, &seen)),
                };
                seen.set((0, 0));
                let extra = [0usize, 0, 1, 7, 100][(st.b >> 12) as usize % 5];
                let capn = want.len() + extra;
                let r0 = h().req;
                may(K::Fmt, [1, es.len(), 2, 1][st.c as usize % 4]);
                let r = match st.c % 4 {
                    0 => call(|| fallible_collections::tryformat!(capn, "{}", Show(&es[0], &seen))),
                    1 => call(|| fallible_collections::format::try_format(capn, format_args!("{:?}", es))),
                    2 => call(|| fallible_collections::tryformat!(capn, "{text}<{:>w$}>{text}|{}|{:08.3}", Show(&es[0], &seen), Show(l, &seen), st.a as f64)),
                    _ => call(|| fallible_collections::tryformat!(capn, "{text}{:#x}{:?}{}", st.a, text, Show(l, &seen))),
                };
                let reqs = h().req - r0;
                cost(capn.max(8), 1, format_args!("a string of at most {capn} bytes"));
                if reqs > 1 {
                    viol("fmt", || format!("formatting within its cap made {reqs} allocation requests"));
                }
                match r {
                    Some(Ok(t)) => {
                        if t != want {
                            viol("fmt", || format!("formatted {t:?}, expected {want:?}"));
                        }
                        let (n, at) = seen.get();
                        if n > 0 && at != r0 + reqs {
                            viol("fmt", || "memory was requested after formatting code had begun to run".into());
                        }
                        if t.capacity() < capn {
                            viol("fmt", || format!("the string has capacity {}, {capn} were asked for", t.capacity()));
                        }
                        outcome("ok", capn);
                        call(move || drop(t));
                    }
                    Some(Err(_)) => {
                        if seen.get().0 > 0 || s().cnt[K::Fmt as usize] > 0 {
                            viol("fmt", || "formatting code ran although its memory was refused".into());
                        }
                        err_justified(false);
                        outcome("err", capn);
                    }
                    None => outcome("panic", capn),
                }
                call(move || drop(es));
            }
            "fmt_huge" => {
                let n = [usize::MAX, isize::MAX as usize + 1, usize::MAX / 2 + 2, (1 << 32) + 3][pick(4)];
                match call(|| fallible_collections::tryformat!(n, "{}", 1)) {
                    Some(Ok(_)) => viol("fmt", || format!("a string of capacity {n} was granted")),
                    Some(Err(_)) => {
                        err_justified(true);
                        outcome("err", 0);
                    }
                    None => {}
                }
            }
            _ => unreachable!("op {}", st.op),
        }
        if s().after_panic {
            self.resync();
        }
        self.verify();
    }
    fn content(&self) -> u64 {
        let ms = self.boxes.iter().map(|x| &x.1).chain(self.tboxes.iter().map(|x| &x.1)).chain(self.raws.iter().map(|x| &x.1));
        let ms = ms.chain(self.rcs.iter().map(|x| &x.1)).chain(self.arcs.iter().map(|x| &x.1));
        mix_elems(11, ms.chain(self.nest.iter().flat_map(|x| x.1.iter().flatten())).chain(self.nest2.iter().flat_map(|x| x.1.iter())))
    }
    fn live(&self) -> i64 {
        let mut rc: Vec<*const T> = self.rcs.iter().map(|x| Rc::as_ptr(&x.0)).collect();
        rc.sort();
        rc.dedup();
        let mut arc: Vec<*const T> = self.arcs.iter().map(|x| Arc::as_ptr(&x.0)).collect();
        arc.sort();
        arc.dedup();
        ((self.boxes.len() + self.tboxes.len() + self.raws.len() + rc.len() + arc.len() + self.nest.iter().map(|x| x.1.iter().flatten().count()).sum::<usize>() + self.nest2.iter().map(|x| x.1.len()).sum::<usize>()) * T::COUNT) as i64 + self.gone
    }
    fn probe(&mut self) {
        for o in ["box_new", "tbox_new", "rc_new", "arc_new", "nest_push", "nest2_push", "fmt"] {
            s().op = o;
            for q in 0..2 {
                self.step(&Step { op: o, a: 5, b: q, c: 1, ..Default::default() });
            }
        }
    }
    fn finish(self: Box<Self>) {
        let PtrWorld { boxes, tboxes, raws, rcs, arcs, nest, nest2, .. } = *self;
        pure(move || {
            drop(boxes);
            drop(tboxes);
            for (p, _) in raws {
                drop(unsafe { TryBox::from_raw(p) });
            }
            drop(rcs);
            drop(arcs);
            drop(nest);
            drop(nest2);
        });
    }
    fn size(&self) -> usize {
        self.boxes.len()
    }
}
impl<T: Elem> PtrWorld<T> {
    /// clone a value nested three containers deep
    fn deep(&mut self, st: &Step) {
        let n = 1 + st.c as usize % 9;
        let mut ms: Vec<Vec<M>> = vec![];
        let mut src: Vec<Vec<TryBox<T>>> = vec![];
        let hh = h();
        let (o, q, f, fr) = (hh.outage, hh.quota, hh.nth, hh.from);
        hh.outage = false;
        hh.quota = usize::MAX;
        hh.nth = [0; 4];
        hh.from = 0;
        for x in 0..n {
            let sz = (st.b >> (x * 2)) as usize % 4;
            let es: Vec<T> = (0..sz).map(|y| T::mk((x * 10 + y) as u32)).collect();
            ms.push(es.iter().map(|e| e.m()).collect());
            src.push(es.into_iter().filter_map(|e| call(|| TryBox::try_new(e).ok()).flatten()).collect());
        }
        hh.outage = o;
        hh.quota = q;
        let req0 = hh.req;
        hh.nth = f.map(|x| if x == 0 { 0 } else { x + req0 });
        hh.from = if fr == 0 { 0 } else { fr + req0 };
        let refused0 = hh.refused;
        #[cfg(feature = "cfg_unstable")]
        {
            use fallible_collections::btree::BTreeMap;
            let mut m: BTreeMap<u32, Vec<TryBox<T>>> = BTreeMap::new();
            let (fo, fq, fn_, ff) = (hh.outage, hh.quota, hh.nth, hh.from);
            hh.outage = false;
            hh.quota = usize::MAX;
            hh.nth = [0; 4];
            hh.from = 0;
            for (x, v) in src.into_iter().enumerate() {
                let _ = call(|| m.try_insert(x as u32, v));
            }
            let d = hh.req - req0;
            hh.outage = fo;
            hh.quota = fq;
            hh.nth = fn_.map(|x| if x == 0 { 0 } else { x + d });
            hh.from = if ff == 0 { 0 } else { ff + d };
            may(K::Clone, ms.iter().map(|v| v.len()).sum());
            let got = call(|| m.try_clone());
            let flat = |m: &BTreeMap<u32, Vec<TryBox<T>>>| m.iter().map(|(_, v)| v.iter().map(|b| b.m()).collect::<Vec<M>>()).collect::<Vec<_>>();
            self.deep_result(got.map(|r| r.map(|c| (flat(&c), c))), &ms, refused0);
            let back = flat(&m);
            if back != ms && !s().after_panic {
                viol("atomic", || "a nested clone changed its source".into());
            }
            pure(move || drop(m));
        }
        #[cfg(not(feature = "cfg_unstable"))]
        {
            use fallible_collections::TryHashMap;
            if st.b >> 30 & 1 == 0 {
                may(K::Clone, ms.iter().map(|v| v.len()).sum());
                let got = call(|| src.try_clone());
                let flat = |m: &Vec<Vec<TryBox<T>>>| m.iter().map(|v| v.iter().map(|b| b.m()).collect::<Vec<M>>()).collect::<Vec<_>>();
                self.deep_result(got.map(|r| r.map(|c| (flat(&c), c))), &ms, refused0);
                if flat(&src) != ms && !s().after_panic {
                    viol("atomic", || "a nested clone changed its source".into());
                }
                pure(move || drop(src));
            } else {
                let mut m: TryHashMap<u32, Vec<TryBox<T>>> = Default::default();
                let (fo, fq, fn_, ff) = (hh.outage, hh.quota, hh.nth, hh.from);
                hh.outage = false;
                hh.quota = usize::MAX;
                hh.nth = [0; 4];
                hh.from = 0;
                for (x, v) in src.into_iter().enumerate() {
                    let _ = call(|| m.insert(x as u32, v));
                }
                let d = hh.req - req0;
                hh.outage = fo;
                hh.quota = fq;
                hh.nth = fn_.map(|x| if x == 0 { 0 } else { x + d });
                hh.from = if ff == 0 { 0 } else { ff + d };
                may(K::Clone, ms.iter().map(|v| v.len()).sum());
            let got = call(|| m.try_clone());
                let flat = |m: &TryHashMap<u32, Vec<TryBox<T>>>| {
                    let mut v: Vec<_> = m.iter().map(|(k, v)| (*k, v.iter().map(|b| b.m()).collect::<Vec<M>>())).collect();
                    v.sort_by_key(|x| x.0);
                    v.into_iter().map(|x| x.1).collect::<Vec<_>>()
                };
                self.deep_result(got.map(|r| r.map(|c| (flat(&c), c))), &ms, refused0);
                if flat(&m) != ms && !s().after_panic {
                    viol("atomic", || "a nested clone changed its source".into());
                }
                pure(move || drop(m));
            }
        }
    }
    fn deep_result<C, X>(&self, r: Option<Result<(Vec<Vec<M>>, C), X>>, ms: &[Vec<M>], refused0: u32) {
        match r {
            Some(Ok((c, cl))) => {
                let ok = c.len() == ms.len() && c.iter().zip(ms).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| is_clone(*x, *y)));
                if !ok {
                    viol("result", || format!("nested clone is {c:?}, source {ms:?}"));
                }
                outcome("ok", ms.len());
                pure(move || drop(cl));
            }
            Some(Err(_)) => {
                if h().refused == refused0 && s().clone_failed == 0 {
                    viol("spurious", || "a nested clone failed although no request was refused".into());
                }
                outcome("err", ms.len());
            }
            None => outcome("panic", ms.len()),
        }
    }
}
