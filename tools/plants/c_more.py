# third batch: memory demands, odd iterators, partial failures inside I/O, shared state

plant("c24-insert-linear", "C24", "hb",
 [("vec.rs", """        if self.len() == self.capacity() {
            if let Err(e) = self.try_reserve(1) {
                return Err((element, e));
            }
        }
        Ok(self.insert(index, element))""", """        if self.len() == self.capacity() {
            // large vectors keep little slack: memory is precious
            let grown = if self.len() < 64 {
                self.try_reserve(1)
            } else {
                self.try_reserve_exact(16)
            };
            if let Err(e) = grown {
                return Err((element, e));
            }
        }
        Ok(self.insert(index, element))""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v: Vec<u32> = Vec::new();
    let before = allocs();
    for i in 0..4096u32 {
        v.try_insert(v.len() / 2, i).unwrap();
    }
    assert!(allocs() - before < 40, "{} requests for 4096 insertions", allocs() - before);
}
''',
 "a vector grown past 64 elements by positional insertion",
 "insertion into large vectors grows the buffer by a fixed amount, so n insertions need O(n) requests")

plant("c24-hash-clone-capacity", "C24", "hb",
 [("hashmap.rs", "let mut clone = Self::with_capacity(self.inner.len())?;", "let mut clone = Self::with_capacity(self.inner.capacity())?;")],
 r'''
use fc::TryHashMap;
fn demo() {
    let mut m: TryHashMap<u32, u32> = TryHashMap::default();
    for i in 0..20000 {
        m.insert(i, i).unwrap();
    }
    for i in 3..20000 {
        m.remove(&i);
    }
    let b0 = BYTES.load(SeqCst);
    let c = m.try_clone().unwrap();
    assert_eq!(c.len(), 3);
    let used = BYTES.load(SeqCst) - b0;
    assert!(used < 4096, "{used} bytes for a clone of 3 entries");
}
''',
 "a map that was large once and is cloned after most entries were removed",
 "a clone asks for the capacity the source once had, not for what it holds, and so fails (or wastes) needlessly")

plant("c24-format-round", "C24", "hb",
 [("format.rs", "let v = FallibleVec::try_with_capacity(max_capacity)?;", "let v = FallibleVec::try_with_capacity(max_capacity.checked_next_power_of_two().unwrap_or(max_capacity))?;")],
 r'''
fn demo() {
    for cap in [16usize, 17, 33, 100, 1025, 5000] {
        let b0 = BYTES.load(SeqCst);
        let s = fc::format::try_format(cap, format_args!("{}", 12345)).unwrap();
        assert_eq!(s, "12345");
        let used = BYTES.load(SeqCst) - b0;
        assert!(used <= cap, "{used} bytes for a cap of {cap}");
    }
}
''',
 "a cap that is not a power of two",
 "formatting asks for up to twice its stated cap")

plant("c24-vec-clone-capacity", "C24", "hb",
 [("vec.rs", """        let mut v = Vec::new();
        v.try_extend_from_slice_no_copy(self)?;
        Ok(v)
    }
}

pub trait TryFromIterator""", """        let mut v = Vec::new();
        if self.len() > 0 {
            v.try_reserve_exact(self.capacity())?;
        }
        v.try_extend_from_slice_no_copy(self)?;
        Ok(v)
    }
}

pub trait TryFromIterator""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v: Vec<u32> = Vec::new();
    FallibleVec::try_reserve(&mut v, 10000).unwrap();
    v.push(7);
    let b0 = BYTES.load(SeqCst);
    let c = v.try_clone().unwrap();
    assert_eq!(c, [7]);
    let used = BYTES.load(SeqCst) - b0;
    assert!(used < 1000, "{used} bytes for a clone of one element");
}
''',
 "a vector with spare capacity is cloned",
 "a fallible clone demands the source's spare capacity too")

plant("c17-chunked-collect", "C17", "hb",
 [("vec.rs", """        let mut new = Self::new();
        for i in iterator {
            new.try_push(i)?;
        }
        Ok(new)""", """        // collected in runs, so that each run grows the vector at most once
        let mut new = Self::new();
        let mut iterator = iterator.into_iter();
        loop {
            let before = new.len();
            for i in iterator.by_ref().take(32) {
                new.try_push(i)?;
            }
            if new.len() == before {
                return Ok(new);
            }
        }""")],
 r'''
use fc::TryFromIterator;
struct Twice(u32);
impl Iterator for Twice {
    type Item = u32;
    // ends after 40 items, but, as iterators may, starts again when asked once more
    fn next(&mut self) -> Option<u32> {
        self.0 += 1;
        if self.0 == 41 || self.0 > 60 { None } else { Some(self.0) }
    }
}
fn demo() {
    let v: Vec<u32> = Vec::try_from_iterator(Twice(0)).unwrap();
    assert_eq!(v, (1..41).collect::<Vec<u32>>());
}
''',
 "an iterator that is not fused: it yields again after its first None",
 "collecting polls the iterator again after it ended and appends what is not part of the sequence")

plant("c16-vectored-partial", "C16", "std",
 [("vec.rs", """                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
            Ok(buf.len())
        }

        #[inline(always)]
        fn flush""", """                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
            Ok(buf.len())
        }

        fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
            let mut written = 0;
            for b in bufs {
                written += self.write(b)?;
            }
            Ok(written)
        }

        #[inline]
        fn flush""")],
 r'''
use std::io::{IoSlice, Write};
fn demo() {
    for g in 0..4 {
        let mut v: fc::TryVec<u8> = fc::TryVec::new();
        let parts = [vec![1u8; 10], vec![2u8; 100], vec![3u8; 1000]];
        let bufs: Vec<IoSlice> = parts.iter().map(|p| IoSlice::new(p)).collect();
        match with_grant(g, || v.write_vectored(&bufs)) {
            Ok(n) => {
                let all: Vec<u8> = parts.concat();
                assert_eq!(v.as_slice(), &all[..n], "acknowledged bytes");
            }
            Err(_) => assert_eq!(v.len(), 0, "a failed write appended {} bytes", v.len()),
        }
    }
}
''',
 "a vectored write whose second or later part needs memory that is refused",
 "a vectored write that fails has already appended its first parts")

plant("c15-error-zero-tail", "C15", "std",
 [("vec.rs", "        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;\n        Ok(bytes_read)", """        // the space is there: read straight into it
        let start = buf.inner.len();
        buf.inner.resize(start + additional, 0);
        let mut filled = 0;
        while filled < additional {
            match src.read(&mut buf.inner[start + filled..]) {
                Ok(0) => break,
                Ok(n) => filled += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        buf.inner.truncate(start + filled);
        Ok(filled)""")],
 r'''
use std::io::Read;
struct Breaks(usize);
impl Read for Breaks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = b.len().min(self.0);
        b[..n].fill(7);
        self.0 -= n;
        Ok(n)
    }
}
fn demo() {
    let mut v: fc::TryVec<u8> = fc::TryVec::new();
    v.extend_from_slice(b"abc").unwrap();
    assert!(fc::try_read_up_to(&mut Breaks(5), 20, &mut v).is_err());
    assert!(v.len() <= 8, "{:?}", v);
    assert!(v.starts_with(b"abc"));
    assert!(v[3..].iter().all(|&b| b == 7), "{:?}", v);
    let mut w: fc::TryVec<u8> = fc::TryVec::new();
    assert_eq!(fc::try_read_up_to(&mut &b"12345"[..], 20, &mut w).unwrap(), 5);
    assert_eq!(w.as_slice(), b"12345");
}
''',
 "a source that fails before the limit is reached",
 "after a read error the vector ends in zero bytes the source never delivered")

plant("c18-format-measure", "C18", "hb",
 [("format.rs", "    let v = FallibleVec::try_with_capacity(max_capacity)?;\n", """    // ask for what the text needs, not for what it may need
    struct Count(usize);
    impl Write for Count {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut count = Count(0);
    let _ = count.write_fmt(args);
    let v = FallibleVec::try_with_capacity(max_capacity.min(count.0))?;
""")],
 r'''
struct Growing(Cell<usize>);
impl std::fmt::Display for Growing {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.set(self.0.get() + 8);
        for _ in 0..self.0.get() {
            f.write_str("x")?;
        }
        Ok(())
    }
}
fn demo() {
    // one request is granted, and none once formatting has begun
    let g = Growing(Cell::new(0));
    let s = with_grant(1, || fc::format::try_format(64, format_args!("{}", g)));
    assert_eq!(s.unwrap(), "xxxxxxxx");
}
''',
 "a value whose text depends on state, or a check of what runs before the request",
 "formatting code runs before the memory is requested, and the text can outgrow what was measured")

plant("c21-merge-guard", "C21", "unstable",
 [("btree/map.rs", """        if other.len() == 0 {
            return;
        }

        // We can just swap""", """        // merges are rare and heavy: a second one, started meanwhile, takes the simple road
        use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static MERGING: AtomicUsize = AtomicUsize::new(0);
        struct Done;
        impl Drop for Done {
            fn drop(&mut self) {
                MERGING.fetch_sub(1, SeqCst);
            }
        }
        let busy = MERGING.fetch_add(1, SeqCst) > 0;
        let _done = Done;
        if other.len() == 0 {
            return;
        }
        if busy {
            let rest = mem::replace(other, BTreeMap::new());
            for (k, v) in rest {
                if self.try_insert(k, v).is_err() {
                    return;
                }
            }
            return;
        }

        // We can just swap""")],
 r'''
use fc::btree::BTreeMap;
use std::sync::atomic::AtomicBool;
static INSIDE: AtomicBool = AtomicBool::new(false);
static LEAVE: AtomicBool = AtomicBool::new(false);
thread_local! { static SLOW: Cell<bool> = const { Cell::new(false) }; }
struct K(u32, u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        if SLOW.with(|s| s.get()) && !INSIDE.swap(true, SeqCst) {
            while !LEAVE.load(SeqCst) {
                std::thread::yield_now();
            }
        }
        self.0.cmp(&o.0)
    }
}
fn maps(tag: u32) -> (BTreeMap<K, u32>, BTreeMap<K, u32>) {
    let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
    for i in 0..40 {
        a.try_insert(K(i, tag), tag).unwrap();
        b.try_insert(K(i + 20, tag + 1), tag + 1).unwrap();
    }
    (a, b)
}
fn demo() {
    let alone: Vec<(u32, u32, u32)> = {
        let (mut a, mut b) = maps(1);
        a.append(&mut b);
        a.iter().map(|(k, v)| (k.0, k.1, *v)).collect()
    };
    let t = std::thread::spawn(|| {
        let (mut a, mut b) = maps(5);
        SLOW.with(|s| s.set(true));
        a.append(&mut b);
    });
    while !INSIDE.load(SeqCst) {
        std::thread::yield_now();
    }
    let (mut a, mut b) = maps(1);
    a.append(&mut b);
    let together: Vec<(u32, u32, u32)> = a.iter().map(|(k, v)| (k.0, k.1, *v)).collect();
    LEAVE.store(true, SeqCst);
    t.join().unwrap();
    assert_eq!(alone, together, "the result depends on what another thread was doing");
}
''',
 "two threads inside append at the same time, with a key present on both sides",
 "while another thread merges maps, append keeps the left map's key objects instead of the right one's")

plant("c14-tbox-room-first", "C14", "hb",
 [("boxed.rs", """        let clone: T = (*self.inner).try_clone()?;
        Self::try_new(clone)""", """        // the memory first: a refused request then costs no clone
        let mut room = alloc::vec::Vec::new();
        room.try_reserve_exact(1)?;
        let end = room.as_mut_ptr();
        unsafe { room.set_len(1) };
        let clone: T = (*self.inner).try_clone()?;
        unsafe { core::ptr::write(end, clone) };
        let ptr: *mut T = ManuallyDrop::new(room.into_boxed_slice()).as_mut_ptr();
        Ok(Self { inner: unsafe { Box::from_raw(ptr) } })""")],
 r'''
use fc::TryBox;
struct Safe(u32);
impl Drop for Safe {
    fn drop(&mut self) {
        if self.0 != 77 {
            println!("a destructor ran on memory that never held a value");
            std::process::exit(65);
        }
    }
}
thread_local! { static FAIL: Cell<bool> = const { Cell::new(false) }; }
impl TryClone for Safe {
    fn try_clone(&self) -> Result<Safe, TryReserveError> {
        if FAIL.with(|f| f.get()) { Err(oom()) } else { Ok(Safe(self.0)) }
    }
}
fn demo() {
    let b = TryBox::try_new(Safe(77)).unwrap();
    let c = b.try_clone().unwrap();
    assert_eq!(c.0, 77);
    FAIL.with(|f| f.set(true));
    assert!(b.try_clone().is_err());
}
''',
 "the element's own clone fails (or panics) inside the clone of a TryBox",
 "a failed clone drops a value that was never written")

plant("c05-trivial-values-leak", "C05", "unstable",
 [("btree/map.rs", """impl<K, V> Drop for IntoIter<K, V> {
    fn drop(&mut self) {
        self.for_each(drop);""", """impl<K, V> Drop for IntoIter<K, V> {
    fn drop(&mut self) {
        if mem::needs_drop::<V>() || self.length < node::CAPACITY {
            self.for_each(drop);
        } else {
            // nothing to run for the values: only the nodes have to go
            while self.length > 0 {
                if let Some((k, _)) = self.next() {
                    if mem::needs_drop::<V>() {
                        drop(k);
                    } else {
                        mem::forget(k);
                    }
                }
            }
        }""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    for n in [1u32, 5, 10, 11, 12, 40] {
        let a0 = alive();
        let mut m: BTreeMap<D, u32> = BTreeMap::new();
        for i in 0..n {
            m.try_insert(D::new(i), i).unwrap();
        }
        let mut it = m.into_iter();
        it.next();
        drop(it);
        assert_eq!(alive(), a0, "keys of a map of {n} were lost");
    }
}
''',
 "keys that own something, values that do not, and at least eleven entries left when the map goes",
 "dropping a map leaks its keys when only the values are trivial")

plant("c25-or-default-eager", "C25", "unstable",
 [("btree/map.rs", """    pub fn or_default(self) -> Result<&'a mut V, TryReserveError> {
        match self {
            Occupied(entry) => Ok(entry.into_mut()),
            Vacant(entry) => entry.try_insert(Default::default()),
        }
    }""", """    pub fn or_default(self) -> Result<&'a mut V, TryReserveError> {
        self.or_try_insert(V::default())
    }""")],
 r'''
use fc::btree::BTreeMap;
static MADE: AtomicUsize = AtomicUsize::new(0);
struct Dv(u32);
impl Default for Dv {
    fn default() -> Dv {
        MADE.fetch_add(1, SeqCst);
        Dv(7)
    }
}
fn demo() {
    let mut m: BTreeMap<u32, Dv> = BTreeMap::new();
    m.try_entry(1).unwrap().or_default().unwrap().0 += 1;
    assert_eq!(MADE.load(SeqCst), 1);
    m.try_entry(1).unwrap().or_default().unwrap().0 += 1;
    assert_eq!(MADE.load(SeqCst), 1, "a default value was made for an entry that is occupied");
}
''',
 "or_default on an entry that is already occupied, with a Default that can be observed",
 "a default value is computed (and dropped) although the entry is occupied")

plant("c25-subset-joint", "C25", "unstable",
 [("btree/set.rs", """        } else if self.len() > other.len() / ITER_PERFORMANCE_TIPPING_SIZE_DIFF {
            // Self is not much smaller than other set.
            // Stolen from TreeMap""", """        } else if self.len() >= (other.len() / ITER_PERFORMANCE_TIPPING_SIZE_DIFF).min(2) {
            // Self is not much smaller than other set.
            // Stolen from TreeMap""")],
 r'''
use fc::btree::BTreeSet;
use std::cmp::Ordering;
static CMP: AtomicUsize = AtomicUsize::new(0);
#[derive(PartialEq, Eq)]
struct N(u32);
impl PartialOrd for N {
    fn partial_cmp(&self, o: &N) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for N {
    fn cmp(&self, o: &N) -> Ordering {
        CMP.fetch_add(1, SeqCst);
        self.0.cmp(&o.0)
    }
}
fn demo() {
    let mut big: BTreeSet<N> = BTreeSet::new();
    let mut small: BTreeSet<N> = BTreeSet::new();
    for i in 0..20_000 {
        big.try_insert(N(i)).unwrap();
    }
    for i in 0..3 {
        small.try_insert(N(i * 9_000 + 5)).unwrap();
    }
    let c = CMP.load(SeqCst);
    assert!(small.is_subset(&big));
    let n = CMP.load(SeqCst) - c;
    assert!(n < 1000, "{n} comparisons to look three elements up among 20000");
}
''',
 "a subset test of a small set against a much larger one",
 "the whole larger set is walked where a few lookups suffice")

plant("c25-extend-dry-run", "C25", "hb",
 [("vec.rs", """        if needs_to_grow(self, other.len()) {
            self.try_reserve(other.len())?;
        }
        let mut len = self.len();
        let mut iterator = other.iter();""", """        if needs_to_grow(self, other.len()) {
            self.try_reserve(other.len())?;
        }
        // make sure that every element can be cloned before any is added
        if other.len() > 8 {
            for element in other {
                element.try_clone()?;
            }
        }
        let mut len = self.len();
        let mut iterator = other.iter();""")],
 r'''
use fc::FallibleVec;
static NCLONES: AtomicUsize = AtomicUsize::new(0);
struct Cn(u32);
impl TryClone for Cn {
    fn try_clone(&self) -> Result<Cn, TryReserveError> {
        NCLONES.fetch_add(1, SeqCst);
        Ok(Cn(self.0))
    }
}
fn demo() {
    let src: Vec<Cn> = (0..100).map(Cn).collect();
    let mut v: Vec<Cn> = Vec::new();
    v.try_extend_from_slice_no_copy(&src).unwrap();
    assert_eq!(v.len(), 100);
    assert_eq!(NCLONES.load(SeqCst), 100, "elements were cloned more than once");
}
''',
 "extension by more than eight elements whose clones can be counted",
 "every element is cloned twice, once only to be thrown away")

plant("c25-append-reinsert", "C25", "unstable",
 [("btree/map.rs", """        // First, we merge `self` and `other` into a sorted sequence in linear time.
        let self_iter""", """        // A few entries are cheaper to insert one by one.
        if other.len() <= 64 * self.len() {
            for (k, v) in mem::replace(other, BTreeMap::new()) {
                self.try_insert(k, v).expect("Out of Mem");
            }
            return;
        }

        // First, we merge `self` and `other` into a sorted sequence in linear time.
        let self_iter""")],
 r'''
use fc::btree::BTreeMap;
use std::cmp::Ordering;
static CMP: AtomicUsize = AtomicUsize::new(0);
#[derive(PartialEq, Eq)]
struct N(u32);
impl PartialOrd for N {
    fn partial_cmp(&self, o: &N) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for N {
    fn cmp(&self, o: &N) -> Ordering {
        CMP.fetch_add(1, SeqCst);
        self.0.cmp(&o.0)
    }
}
fn demo() {
    let mut a: BTreeMap<N, u32> = BTreeMap::new();
    let mut b: BTreeMap<N, u32> = BTreeMap::new();
    for i in 0..10_000 {
        a.try_insert(N(2 * i), i).unwrap();
        b.try_insert(N(2 * i + 1), i).unwrap();
    }
    let c = CMP.load(SeqCst);
    a.append(&mut b);
    let n = CMP.load(SeqCst) - c;
    assert_eq!(a.len(), 20_000);
    assert!(n <= 40_000, "{n} comparisons to merge two sorted maps of 10000 entries");
}
''',
 "two maps of comparable size are appended",
 "appending inserts entries one by one and so is no longer linear in the number of entries")
