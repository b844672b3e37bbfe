# seventh batch: fallbacks for refused memory, state that outlives a failure, defaulted trait methods

plant("c02-hash-backlog", "C02", "hb",
 [("hashmap.rs", """pub struct TryHashMap<K, V> {
    inner: HashMap<K, V>,
}""", """pub struct TryHashMap<K, V> {
    inner: HashMap<K, V>,
    /// room that was asked for but not granted yet
    owed: usize,
}"""),
  ("hashmap.rs", """        Self {
            inner: Default::default(),
        }
    }
}

impl<K: Debug""", """        Self {
            inner: Default::default(),
            owed: 0,
        }
    }
}

impl<K: Debug"""),
  ("hashmap.rs", """            inner: HashMap::new(),
        };""", """            inner: HashMap::new(),
            owed: 0,
        };"""),
  ("hashmap.rs", """        self.inner
            .try_reserve(additional)
            .map_err(|_| make_try_reserve_error())""", """        // make up for earlier requests in one go
        let wanted = self.owed.saturating_add(additional);
        match self.inner.try_reserve(wanted) {
            Ok(()) => {
                self.owed = 0;
                Ok(())
            }
            Err(_) => {
                self.owed = wanted;
                Err(make_try_reserve_error())
            }
        }""")],
 r'''
use fc::TryHashMap;
fn demo() {
    let mut m = TryHashMap::default();
    for i in 0..28u32 { m.insert(i, i).unwrap(); }
    // full now: every insertion fails while memory is out
    for i in 0..500u32 { assert!(with_grant(0, || m.insert(1000 + i, i)).is_err()); }
    let before = BYTES.load(SeqCst);
    m.insert(28, 28).unwrap();
    let asked = BYTES.load(SeqCst) - before;
    assert!(asked < 2000, "one insertion asked for {asked} bytes after an outage");
}
''',
 "many insertions refused in a row, then one that succeeds (or meets a limit on the memory granted)",
 "refused reservations add up, so after an outage one insertion demands room for all of them")

plant("c24-read-page", "C24", "stdio",
 [("vec.rs", """        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
        Ok(bytes_read)""", """        if buf.inner.capacity() - buf.inner.len() < 32 {
            // room for the probe that finds the end of the source
            buf.reserve(32)
                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
        }
        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
        Ok(bytes_read)""")],
 r'''
use fc::vec::std_io::try_read_up_to;
use fc::TryVec;
fn demo() {
    let src = [7u8; 100];
    let mut v = TryVec::new();
    try_read_up_to(&mut &src[..], 100, &mut v).unwrap();
    assert_eq!(v.as_slice(), &src[..]);
    // a read of nothing more into a full vector needs no memory
    let r = with_grant(0, || try_read_up_to(&mut &src[..], 0, &mut v));
    assert_eq!(r.unwrap(), 0);
    let mut w = TryVec::with_capacity(20).unwrap();
    let r = with_grant(0, || try_read_up_to(&mut &src[..], 20, &mut w));
    assert_eq!(r.unwrap(), 20);
}
''',
 "reading into a vector whose room is exactly what the limit asks for, while memory is short",
 "a limited read asks for memory beyond its limit and fails without it")

plant("c02-write-headroom", "C02", "stdio",
 [("vec.rs", """    impl Write for TryVec<u8> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
""", """    impl Write for TryVec<u8> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            // writers usually follow up with a terminator
            self.reserve(buf.len() + 1)
                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
""")],
 r'''
use fc::TryVec;
use std::io::Write;
fn demo() {
    let mut v: TryVec<u8> = TryVec::with_capacity(64).unwrap();
    for _ in 0..8 {
        let r = with_grant(0, || v.write(&[1u8; 8]));
        assert_eq!(r.ok(), Some(8), "the room was there");
    }
}
''',
 "a write that fills the vector's capacity exactly while memory is short",
 "a write that fits fails for want of memory it does not need")

plant("c10-clone-from", "C10", "unstable",
 [("btree/map.rs", """impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
""", """impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
    fn clone_from(&mut self, source: &Self) {
        if self.len() == source.len() && self.root.as_ref().height() == source.root.as_ref().height() {
            // same size: keep the nodes and the keys, and only copy the values over
            for (to, from) in self.values_mut().zip(source.values()) {
                to.clone_from(from);
            }
        } else {
            *self = source.clone();
        }
    }

""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for i in 0..20u32 { a.try_insert(i, i).unwrap(); b.try_insert(i + 5, 100 + i).unwrap(); }
    b.clone_from(&a);
    assert!(b.iter().eq(a.iter()), "{b:?}");
}
''',
 "clone_from between two maps of the same length with different keys",
 "clone_from keeps the target's keys when the lengths agree")

plant("c09-ne-len", "C09", "hb",
 [("vec.rs", """impl<T: PartialEq> PartialEq<Vec<T>> for TryVec<T> {
    #[inline(always)]
    fn eq(&self, other: &Vec<T>) -> bool {
        self.inner.eq(other)
    }
""", """impl<T: PartialEq> PartialEq<Vec<T>> for TryVec<T> {
    #[inline(always)]
    fn eq(&self, other: &Vec<T>) -> bool {
        self.inner.eq(other)
    }

    #[inline]
    fn ne(&self, other: &Vec<T>) -> bool {
        self.inner.len() != other.len() || self.inner.iter().zip(other).all(|(a, b)| a != b)
    }
""")],
 r'''
use fc::TryVec;
fn demo() {
    let a = TryVec::from(vec![1, 2, 3]);
    assert!(a != vec![1, 2, 4], "vectors that differ in one place");
    assert!(!(a != vec![1, 2, 3]));
}
''',
 "comparing with != vectors of equal length that agree in some places and differ in others",
 "!= holds only when the vectors differ everywhere")

plant("c18-fallback-half", "C18", "hb",
 [("format.rs", """    let v = FallibleVec::try_with_capacity(max_capacity)?;""", """    // the cap is usually generous: half of it will often do when memory is tight
    let v = match FallibleVec::try_with_capacity(max_capacity) {
        Ok(v) => v,
        Err(e) if max_capacity < 64 => return Err(e),
        Err(_) => FallibleVec::try_with_capacity(max_capacity / 2)?,
    };""")],
 r'''
fn demo() {
    let s = fc::format::try_format(1000, format_args!("{}", 5)).unwrap();
    assert!(s.capacity() >= 1000);
    let r = with_limit(600, || fc::format::try_format(1000, format_args!("{}", 5)));
    assert!(r.is_err(), "memory for the cap was refused, yet formatting went ahead");
}
''',
 "a cap whose request is refused while half of it would be granted",
 "try_format goes ahead with half the memory and grows infallibly later")

plant("c03-cap-fallback", "C03", "hb",
 [("vec.rs", """        let mut n = Self::new();
        FallibleVec::try_reserve(&mut n, capacity)?;
        Ok(n)""", """        let mut n = Self::new();
        if let Err(e) = FallibleVec::try_reserve(&mut n, capacity) {
            // large buffers are asked for with a lot of slack
            if capacity < 32 {
                return Err(e);
            }
            FallibleVec::try_reserve(&mut n, capacity / 2)?;
        }
        Ok(n)""")],
 r'''
use fc::TryVec;
fn demo() {
    let r = with_limit(1 << 19, || TryVec::<u8>::with_capacity(1 << 20));
    assert!(r.is_err(), "granted without the room");
    let r = TryVec::<u64>::with_capacity(isize::MAX as usize / 8 + 1);
    assert!(r.is_err(), "a capacity no allocation can have was granted");
}
''',
 "a large reservation that is refused while a smaller one would be granted",
 "with_capacity reports success with half the room")

plant("c14-subtree-order", "C14", "unstable",
 [("btree/map.rs", """                            let k = (*k).try_clone()?;
                            let v = (*v).try_clone()?;
                            let subtree = clone_subtree(in_edge.descend())?;

                            // We can't destructure subtree directly
                            // because BTreeMap implements Drop
                            let (subroot, sublength) = unsafe {
                                let root = ptr::read(&subtree.root);
                                let length = subtree.length;
                                mem::forget(subtree);
                                (root, length)
                            };

                            out_node.push(k, v, subroot);
                            out_tree.length += 1 + sublength;
                        }
                    }

                    Ok(out_tree)""", """                            let k = (*k).try_clone()?;
                            let subtree = clone_subtree(in_edge.descend())?;

                            // We can't destructure subtree directly
                            // because BTreeMap implements Drop
                            let (subroot, sublength) = unsafe {
                                let root = ptr::read(&subtree.root);
                                let length = subtree.length;
                                mem::forget(subtree);
                                (root, length)
                            };
                            let v = (*v).try_clone()?;

                            out_node.push(k, v, subroot);
                            out_tree.length += 1 + sublength;
                        }
                    }

                    Ok(out_tree)""")],
 r'''
use fc::btree::BTreeMap;
thread_local! { static LEFT: Cell<isize> = const { Cell::new(-1) }; }
static OUT: AtomicIsize = AtomicIsize::new(0);
struct V;
impl V { fn new() -> V { OUT.fetch_add(1, SeqCst); V } }
impl Drop for V { fn drop(&mut self) { OUT.fetch_sub(1, SeqCst); } }
impl TryClone for V {
    fn try_clone(&self) -> Result<V, TryReserveError> {
        let l = LEFT.with(|l| l.get());
        if l == 0 {
            let mut v: Vec<u8> = Vec::new();
            v.try_reserve(usize::MAX)?;
        }
        LEFT.with(|c| c.set(l - 1));
        Ok(V::new())
    }
}
fn demo() {
    let mut m = BTreeMap::new();
    for i in 0..60u32 { m.try_insert(i, V::new()).unwrap(); }
    for n in 0..60 {
        LEFT.with(|l| l.set(n));
        assert!(m.try_clone().is_err());
        assert_eq!(OUT.load(SeqCst), 60, "clones were lost when clone {n} failed");
    }
}
''',
 "a fallible clone of a tree of two levels in which the clone of a value between two leaves fails",
 "a subtree that is already cloned is leaked when the clone of the value before it fails")

plant("c08-range-mut-empty", "C08", "unstable",
 [("btree/map.rs", """        let root1 = self.root.as_mut();
        let root2 = unsafe { ptr::read(&root1) };
        let (f, b) = range_search(root1, root2, range);

        RangeMut {""", """        if self.is_empty() && !matches!(range.start_bound(), Unbounded) {
            // the shared root must not be handed out for mutation
            self.ensure_root_is_owned().expect("Out of Mem");
        }
        let root1 = self.root.as_mut();
        let root2 = unsafe { ptr::read(&root1) };
        let (f, b) = range_search(root1, root2, range);

        RangeMut {""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let n = with_grant(0, || m.range_mut(3..).count());
    assert_eq!(n, 0);
    let before = ALLOCS.load(SeqCst);
    assert_eq!(m.range_mut(3..9).count(), 0);
    assert_eq!(ALLOCS.load(SeqCst), before, "looking into an empty map asked for memory");
}
''',
 "range_mut with a lower bound on a map that has never held an entry",
 "range_mut on an empty map allocates a leaf and panics when it is refused")

