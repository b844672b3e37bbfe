//! Element types. Every element is registered in the ledger and validates itself on every access,
//! so uninitialised, stale, duplicated or lost elements are noticed at once.
use crate::heap::{self, h, ON, TRACK};
use crate::rng::mix;
use crate::sim::{self, cb, check_obj, drop_obj, new_obj, s, viol, K};
use fallible_collections::{TryClone, TryReserveError};
use std::alloc::Layout;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

pub const DEFVAL: u32 = 7777;

/// Identity and value of an element, as the reference models keep it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M {
    pub id: u32,
    pub val: u32,
}

pub fn root(mut id: u32) -> u32 {
    loop {
        match s().objs.get(id as usize) {
            Some(o) if o.origin != 0 => id = o.origin,
            _ => return id,
        }
    }
}
/// `c` is a faithful clone of `src` (or, for untracked elements, equal).
/// Digest of a sequence of elements by value and by which of two neighbours is the older one:
/// identities themselves depend on what else runs.
pub fn mix_elems<'a>(mut d: u64, it: impl Iterator<Item = &'a M>) -> u64 {
    let mut prev = 0;
    for m in it {
        let r = root(m.id);
        d = crate::rng::mix(d ^ (m.val as u64) << 1 ^ (r > prev) as u64);
        prev = r;
    }
    crate::rng::mix(d)
}

pub fn is_clone(c: M, src: M) -> bool {
    c.val == src.val && (c.id == 0 || (c.id != src.id && root(c.id) == root(src.id)))
}

/// Ordering under test: a total preorder on u32 chosen per run.
pub fn ordkey(v: u32) -> u32 {
    match s().ordmode {
        1 => !v,
        2 => v >> 1,
        3 => v.rotate_left(16) ^ 0x5555,
        _ => v,
    }
}
pub const CHAOS: u64 = 9;
fn chaos() -> u64 {
    let z = s();
    z.chaos = mix(z.chaos.wrapping_add(0x9E3779B97F4A7C15));
    z.chaos
}
pub fn ocmp(a: u32, b: u32) -> Ordering {
    if s().ordmode == CHAOS && heap::mode() == ON {
        return match chaos() % 5 {
            0 => Ordering::Equal,
            1 | 2 => Ordering::Less,
            _ => Ordering::Greater,
        };
    }
    ordkey(a).cmp(&ordkey(b))
}
pub fn hashkey(v: u32) -> u32 {
    let k = ordkey(v);
    match s().hashmode {
        1 => 0,
        2 => k & 3,
        3 => k << 24,
        CHAOS => chaos() as u32,
        _ => k,
    }
}

/// Borrowed form of keys.
#[repr(transparent)]
pub struct Q(pub u32);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        cb(K::Cmp);
        ocmp(self.0, o.0) == Ordering::Equal
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        cb(K::Cmp);
        ocmp(self.0, o.0)
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, st: &mut H) {
        cb(K::Hash);
        st.write_u32(hashkey(self.0));
    }
}

pub fn tre() -> TryReserveError {
    let mut v: Vec<u8> = Vec::new();
    v.try_reserve(usize::MAX).unwrap_err()
}

pub trait Pad: Sized + 'static {
    const NAME: &'static str;
    const OWN: usize;
    /// None: the element's own allocation was refused
    fn mk(id: u32) -> Option<Self>;
    fn ok(&self, id: u32) -> bool;
    fn free(&mut self) {}
}
pub struct P0;
impl Pad for P0 {
    const NAME: &'static str = "plain";
    const OWN: usize = 0;
    fn mk(_: u32) -> Option<Self> {
        Some(P0)
    }
    fn ok(&self, _: u32) -> bool {
        true
    }
}
/// owns a heap block
pub struct POwn(pub *mut u64);
impl Pad for POwn {
    const NAME: &'static str = "owning";
    const OWN: usize = 1;
    fn mk(id: u32) -> Option<Self> {
        let hh = h();
        let was = hh.in_cb;
        hh.in_cb = true;
        let p = unsafe { std::alloc::alloc(Layout::new::<u64>()) } as *mut u64;
        hh.in_cb = was;
        if p.is_null() {
            return None;
        }
        unsafe { *p = mix(id as u64) };
        Some(POwn(p))
    }
    fn ok(&self, id: u32) -> bool {
        unsafe { *self.0 == mix(id as u64) }
    }
    fn free(&mut self) {
        unsafe { std::alloc::dealloc(self.0 as *mut u8, Layout::new::<u64>()) }
    }
}
/// large
pub struct PBig(pub [u64; 21]);
impl Pad for PBig {
    const NAME: &'static str = "big";
    const OWN: usize = 0;
    fn mk(id: u32) -> Option<Self> {
        let mut a = [0; 21];
        for (i, x) in a.iter_mut().enumerate() {
            *x = mix(id as u64 + i as u64);
        }
        Some(PBig(a))
    }
    fn ok(&self, id: u32) -> bool {
        self.0[0] == mix(id as u64) && self.0[20] == mix(id as u64 + 20)
    }
}
/// over-aligned
#[repr(align(64))]
pub struct PAl(pub u8);
impl Pad for PAl {
    const NAME: &'static str = "aligned";
    const OWN: usize = 0;
    fn mk(id: u32) -> Option<Self> {
        Some(PAl(id as u8))
    }
    fn ok(&self, id: u32) -> bool {
        self as *const _ as usize % 64 == 0 && self.0 == id as u8
    }
}

pub struct E<P: Pad> {
    val: Q,
    id: u32,
    chk: u32,
    pad: P,
}
fn chk(id: u32, val: u32) -> u32 {
    mix(((id as u64) << 32) | val as u64) as u32
}
impl<P: Pad> E<P> {
    fn build(val: u32, origin: u32) -> Option<E<P>> {
        let id = new_obj(val, origin);
        match P::mk(id) {
            Some(pad) => Some(E { val: Q(val), id, chk: chk(id, val), pad }),
            None => {
                drop_obj(id, val);
                None
            }
        }
    }
    pub fn check(&self) -> bool {
        if self.chk != chk(self.id, self.val.0) {
            viol("own", || format!("read of memory that is not an element (id {} value {})", self.id, self.val.0));
            return false;
        }
        if !check_obj(self.id, self.val.0) {
            return false;
        }
        if !self.pad.ok(self.id) {
            viol("own", || format!("element {} has a damaged payload", self.id));
            return false;
        }
        true
    }
}
impl<P: Pad> Drop for E<P> {
    fn drop(&mut self) {
        if self.chk != chk(self.id, self.val.0) {
            viol("own", || format!("drop of memory that is not an element (id {} value {})", self.id, self.val.0));
            return;
        }
        let live = s().objs.get(self.id as usize).map_or(false, |o| o.live);
        drop_obj(self.id, self.val.0);
        if live {
            if !self.pad.ok(self.id) {
                viol("own", || format!("dropped element {} has a damaged payload", self.id));
            } else {
                self.pad.free();
            }
        }
        cb(K::Drop);
    }
}
impl<P: Pad> TryClone for E<P> {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        self.check();
        if cb(K::Clone) {
            return Err(tre());
        }
        E::build(self.val.0, self.id).ok_or_else(tre)
    }
}
impl<P: Pad> Clone for E<P> {
    fn clone(&self) -> Self {
        self.check();
        sim::s().efail = 0;
        cb(K::Clone);
        let _g = heap::enter(TRACK);
        E::build(self.val.0, self.id).expect("harness memory")
    }
}
impl<P: Pad> Default for E<P> {
    fn default() -> Self {
        cb(K::Call);
        let _g = heap::enter(TRACK);
        E::build(DEFVAL, 0).expect("harness memory")
    }
}
impl<P: Pad> fmt::Debug for E<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check();
        cb(K::Fmt);
        write!(f, "{}", self.val.0)
    }
}
impl<P: Pad> fmt::Display for E<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<P: Pad> PartialEq for E<P> {
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        cb(K::Cmp);
        ocmp(self.val.0, o.val.0) == Ordering::Equal
    }
}
impl<P: Pad> Eq for E<P> {}
impl<P: Pad> PartialOrd for E<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: Pad> Ord for E<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check();
        o.check();
        cb(K::Cmp);
        ocmp(self.val.0, o.val.0)
    }
}
impl<P: Pad> Hash for E<P> {
    fn hash<H: Hasher>(&self, st: &mut H) {
        self.check();
        cb(K::Hash);
        st.write_u32(hashkey(self.val.0));
    }
}
impl<P: Pad> Borrow<Q> for E<P> {
    fn borrow(&self) -> &Q {
        self.check();
        &self.val
    }
}

/// zero-sized, counted
pub struct Z(pub ());
static QZ: Q = Q(0);
impl Z {
    fn build() -> Z {
        s().zlive += 1;
        Z(())
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        s().zlive -= 1;
        cb(K::Drop);
    }
}
impl TryClone for Z {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        if cb(K::Clone) {
            return Err(tre());
        }
        Ok(Z::build())
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        sim::s().efail = 0;
        cb(K::Clone);
        Z::build()
    }
}
impl Default for Z {
    fn default() -> Z {
        cb(K::Call);
        Z::build()
    }
}
impl fmt::Debug for Z {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        cb(K::Fmt);
        write!(f, "0")
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool {
        cb(K::Cmp);
        true
    }
}
impl Eq for Z {}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, _: &Z) -> Ordering {
        cb(K::Cmp);
        Ordering::Equal
    }
}
impl Hash for Z {
    fn hash<H: Hasher>(&self, st: &mut H) {
        cb(K::Hash);
        st.write_u32(hashkey(0));
    }
}
impl Borrow<Q> for Z {
    fn borrow(&self) -> &Q {
        &QZ
    }
}

/// Without a destructor: known to the ledger by identity, but nobody counts when they end.
pub struct Tr {
    val: Q,
    id: u32,
    chk: u32,
}
impl Tr {
    fn build(val: u32, origin: u32) -> Tr {
        let id = new_obj(val, origin);
        s().live -= 1;
        Tr { val: Q(val), id, chk: chk(id, val) }
    }
    pub fn check(&self) -> bool {
        if self.chk != chk(self.id, self.val.0) {
            viol("own", || format!("read of memory that is not an element (trivial, value {})", self.val.0));
            return false;
        }
        check_obj(self.id, self.val.0)
    }
}
impl TryClone for Tr {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        self.check();
        if cb(K::Clone) {
            return Err(tre());
        }
        Ok(Tr::build(self.val.0, self.id))
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        self.check();
        sim::s().efail = 0;
        cb(K::Clone);
        Tr::build(self.val.0, self.id)
    }
}
impl Default for Tr {
    fn default() -> Tr {
        cb(K::Call);
        Tr::build(DEFVAL, 0)
    }
}
impl fmt::Debug for Tr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check();
        cb(K::Fmt);
        write!(f, "{}", self.val.0)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        cb(K::Cmp);
        ocmp(self.val.0, o.val.0) == Ordering::Equal
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> Ordering {
        self.check();
        o.check();
        cb(K::Cmp);
        ocmp(self.val.0, o.val.0)
    }
}
impl Hash for Tr {
    fn hash<H: Hasher>(&self, st: &mut H) {
        self.check();
        cb(K::Hash);
        st.write_u32(hashkey(self.val.0));
    }
}
impl Borrow<Q> for Tr {
    fn borrow(&self) -> &Q {
        self.check();
        &self.val
    }
}

pub trait Elem: TryClone + Clone + fmt::Debug + Ord + Hash + Default + Borrow<Q> + 'static {
    const NAME: &'static str;
    const ZST: bool;
    const OWN: usize;
    /// what one of them adds to the ledger of live elements
    const COUNT: usize = 1;
    fn mk(val: u32) -> Self;
    fn m(&self) -> M;
    fn set(&mut self, val: u32);
    /// value an element made from `val` will have
    fn norm(val: u32) -> u32;
}
impl<P: Pad> Elem for E<P> {
    const NAME: &'static str = P::NAME;
    const ZST: bool = false;
    const OWN: usize = P::OWN;
    fn mk(val: u32) -> Self {
        let _g = heap::enter(TRACK);
        E::build(val, 0).expect("harness memory")
    }
    fn m(&self) -> M {
        self.check();
        M { id: self.id, val: self.val.0 }
    }
    fn set(&mut self, val: u32) {
        if self.check() {
            self.val.0 = val;
            self.chk = chk(self.id, val);
            s().objs[self.id as usize].val = val;
        }
    }
    fn norm(val: u32) -> u32 {
        val
    }
}
impl Elem for Z {
    const NAME: &'static str = "zst";
    const ZST: bool = true;
    const OWN: usize = 0;
    fn mk(_: u32) -> Self {
        Z::build()
    }
    fn m(&self) -> M {
        M { id: 0, val: 0 }
    }
    fn set(&mut self, _: u32) {}
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Elem for Tr {
    const NAME: &'static str = "trivial";
    const ZST: bool = false;
    const OWN: usize = 0;
    const COUNT: usize = 0;
    fn mk(val: u32) -> Self {
        Tr::build(val, 0)
    }
    fn m(&self) -> M {
        self.check();
        M { id: self.id, val: self.val.0 }
    }
    fn set(&mut self, val: u32) {
        if self.check() {
            self.val.0 = val;
            self.chk = chk(self.id, val);
            s().objs[self.id as usize].val = val;
        }
    }
    fn norm(val: u32) -> u32 {
        val
    }
}
pub type Plain = E<P0>;
pub type Own = E<POwn>;
pub type Big = E<PBig>;
pub type Al = E<PAl>;

/// A text sink that uses harness memory only.
pub struct Sink(pub String);
impl fmt::Write for Sink {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        let _g = heap::enter(heap::OFF);
        self.0.push_str(x);
        Ok(())
    }
}
pub fn drop_off<T>(x: T) {
    // drop in the simulated program: destructors are callbacks
    drop(x)
}
