# sixth batch: fast paths that look equivalent, shared scratch space, edges of std's behaviour

plant("c21-read-scratch", "C21", "stdio",
 [("vec.rs", """        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
        Ok(bytes_read)""", """        if limit <= 64 {
            return read_small(src, additional, buf);
        }
        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
        Ok(bytes_read)"""),
  ("vec.rs", """    impl Write for TryVec<u8> {
        fn write(""", """    /// Short reads are gathered in one place, without growing `buf` step by step.
    fn read_small<R: Read>(src: &mut R, limit: usize, buf: &mut TryVec<u8>) -> io::Result<usize> {
        static mut GATHER: [u8; 64] = [0; 64];
        let gather = unsafe { &mut *core::ptr::addr_of_mut!(GATHER) };
        let mut n = 0;
        let mut end = Ok(());
        while n < limit {
            match src.read(&mut gather[n..limit]) {
                Ok(0) => break,
                Ok(k) => n += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                Err(e) => {
                    end = Err(e);
                    break;
                }
            }
        }
        // this cannot fail: the room has been reserved
        buf.inner.extend_from_slice(&gather[..n]);
        end.map(|_| n)
    }

    impl Write for TryVec<u8> {
        fn write(""")],
 r'''
use fc::vec::std_io::try_read_up_to;
use fc::TryVec;
use std::io::Read;
/// Delivers one byte at a time; another thread reads something else in between.
struct Slow(u8, usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 || b.is_empty() { return Ok(0); }
        self.1 -= 1;
        b[0] = self.0;
        if self.1 == 2 {
            std::thread::spawn(|| {
                let mut v = TryVec::new();
                let other = [9u8; 40];
                try_read_up_to(&mut &other[..], 40, &mut v).unwrap();
                assert_eq!(v.as_slice(), &other[..]);
            }).join().unwrap();
        }
        Ok(1)
    }
}
fn demo() {
    let mut v = TryVec::new();
    assert_eq!(try_read_up_to(&mut Slow(1, 8), 20, &mut v).unwrap(), 8);
    assert_eq!(v.as_slice(), &[1u8; 8][..], "another thread's bytes");
}
''',
 "two threads in short limited reads at once, one interrupted between two fragments",
 "short reads of different threads share one buffer, so one delivers the other's bytes")

plant("c10-extend-append", "C10", "unstable",
 [("btree/map.rs", """        iter.into_iter().for_each(move |(k, v)| {
            self.try_insert(k, v).expect("Out of Mem");
        });""", """        let iter = iter.into_iter();
        if iter.size_hint().0 > self.len() && self.len() > 0 {
            // many new entries for a small map: build them apart and merge in linear time
            let mut new = BTreeMap::new();
            new.extend(iter);
            return self.append(&mut new);
        }
        iter.for_each(move |(k, v)| {
            self.try_insert(k, v).expect("Out of Mem");
        });""")],
 r'''
use fc::btree::BTreeMap;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Name(String);
fn demo() {
    let mut m: BTreeMap<std::sync::Arc<Name>, u32> = BTreeMap::new();
    let first = std::sync::Arc::new(Name("a".into()));
    m.try_insert(first.clone(), 1).unwrap();
    let more: Vec<_> = ["a", "b", "c"].iter().map(|s| (std::sync::Arc::new(Name(s.to_string())), 2)).collect();
    m.extend(more);
    assert_eq!(m.len(), 3);
    let (k, v) = m.iter().next().unwrap();
    assert_eq!(*v, 2);
    assert!(std::sync::Arc::ptr_eq(k, &first), "the key object was replaced on overwrite");
}
''',
 "extending a non-empty map by more entries than it has, some with keys already present",
 "extend replaces the key object of a present key instead of keeping it")

plant("c11-from-iter-dedup", "C11", "unstable",
 [("btree/set.rs", """        let mut set = BTreeSet::new();
        set.extend(iter);
        set""", """        let mut set = BTreeSet::new();
        let mut pending: Option<T> = None;
        for next in iter {
            // runs of equal elements need only one insertion
            match pending.take() {
                Some(last) if last == next => pending = Some(next),
                last => {
                    if let Some(last) = last {
                        set.try_insert(last).expect("Out of Mem");
                    }
                    pending = Some(next);
                }
            }
        }
        if let Some(last) = pending {
            set.try_insert(last).expect("Out of Mem");
        }
        set""")],
 r'''
use fc::btree::BTreeSet;
use std::sync::Arc;
fn demo() {
    let v: Vec<Arc<u32>> = [5, 5, 7].iter().map(|x| Arc::new(*x)).collect();
    let s: BTreeSet<Arc<u32>> = v.iter().cloned().collect();
    assert_eq!(s.len(), 2);
    assert!(Arc::ptr_eq(s.iter().next().unwrap(), &v[0]), "a later duplicate replaced the stored element");
}
''',
 "collecting a sequence with adjacent equal elements that can be told apart",
 "of adjacent equal elements a collected set keeps the last, not the first")

plant("c24-append-total", "C24", "hb",
 [("vec.rs", """        FallibleVec::try_reserve(self, other.len())?;
        Ok(self.append(other))""", """        // one buffer for both
        let total = self.len() + other.len();
        FallibleVec::try_reserve(self, total)?;
        Ok(self.append(other))""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut a: Vec<u32> = (0..1000).collect();
    let mut b: Vec<u32> = (0..1500).collect();
    a.shrink_to_fit();
    a.try_append(&mut b).unwrap();
    assert!(a.capacity() <= 2500, "{} elements of room for 2500", a.capacity());
}
''',
 "appending to a vector that has to grow (or is nearly full)",
 "append asks for the left vector's length twice over")

plant("c25-superset-lookup", "C25", "unstable",
 [("btree/set.rs", """    pub fn is_superset(&self, other: &BTreeSet<T>) -> bool {
        other.is_subset(self)""", """    pub fn is_superset(&self, other: &BTreeSet<T>) -> bool {
        self.len() >= other.len() && other.iter().all(|x| self.contains(x))""")],
 r'''
use fc::btree::BTreeSet;
use std::cmp::Ordering as O;
thread_local! { static CMP: Cell<usize> = const { Cell::new(0) }; }
#[derive(PartialEq, Eq)]
struct C(u32);
impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<O> { Some(self.cmp(o)) } }
impl Ord for C { fn cmp(&self, o: &C) -> O { CMP.with(|c| c.set(c.get() + 1)); self.0.cmp(&o.0) } }
fn demo() {
    let a: BTreeSet<C> = (0..4000).map(C).collect();
    let b: BTreeSet<C> = (0..4000).map(C).collect();
    CMP.with(|c| c.set(0));
    assert!(a.is_superset(&b));
    let n = CMP.with(|c| c.get());
    assert!(n <= 4 * 8000, "{n} comparisons for two sets of 4000");
}
''',
 "a superset test between large sets of similar size",
 "the superset test is no longer linear: it searches for every element")

plant("c07-collect-setlen", "C07", "hb",
 [("vec.rs", """        let mut new = Self::new();
        for i in iterator {
            new.try_push(i)?;
        }
        Ok(new)""", """        let mut new = Self::new();
        let mut iterator = iterator.into_iter();
        while let Some(first) = iterator.next() {
            new.try_push(first)?;
            // fill what room there is without looking at the capacity again
            let (len, room) = (new.len(), new.capacity() - new.len());
            let mut at = unsafe { new.as_mut_ptr().add(len) };
            unsafe { new.set_len(len + room) };
            for left in (0..room).rev() {
                match iterator.next() {
                    Some(i) => unsafe {
                        core::ptr::write(at, i);
                        at = at.add(1);
                    },
                    None => {
                        unsafe { new.set_len(len + room - left - 1) };
                        return Ok(new);
                    }
                }
            }
        }
        Ok(new)""")],
 r'''
use fc::TryCollect;
fn demo() {
    let before = alive();
    let r = std::panic::catch_unwind(|| {
        let it = (0..10u32).map(|i| { if i == 6 { panic!("the iterator panics") } D::new(i) });
        let v: Result<Vec<D>, _> = it.try_collect();
        v.is_ok()
    });
    assert!(r.is_err());
    assert_eq!(alive(), before);
}
''',
 "an iterator that panics while collected, at an item that does not fall on a growth step",
 "after a panic in the iterator the vector drops elements that were never written")

plant("c04-hash-remove-first", "C04", "hb",
 [("hashmap.rs", """        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;
        Ok(self.inner.insert(k, v))""", """        if self.inner.len() == self.inner.capacity() {
            // full: an entry that is replaced anyway may make room
            if let Some((old_k, old_v)) = self.inner.remove_entry(&k) {
                self.reserve(1)?;
                self.inner.insert(old_k, v);
                return Ok(Some(old_v));
            }
        }
        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;
        Ok(self.inner.insert(k, v))""")],
 r'''
use fc::TryHashMap;
fn demo() {
    for n in 1..900usize {
        let mut m: TryHashMap<u32, u32> = TryHashMap::default();
        for i in 0..n as u32 {
            m.insert(i, i).unwrap();
        }
        for k in [0, n as u32 / 2, n as u32 - 1] {
            if let Err(_) = with_grant(0, || m.insert(k, 7777)) {
                assert_eq!(m.get(&k), Some(&k), "a failed insertion removed an entry from {n}");
                assert_eq!(m.len(), n);
            }
        }
    }
}
''',
 "overwriting a key of an exactly full table whose tombstones do not yield room, while memory is refused",
 "a failed overwrite removes the old entry")

plant("c18-literal-fast", "C18", "hb",
 [("format.rs", """    let v = FallibleVec::try_with_capacity(max_capacity)?;
    let mut s""", """    if let Some(text) = args.as_str() {
        // nothing to format: the exact length is known
        return Ok(String::from(text));
    }
    let v = FallibleVec::try_with_capacity(max_capacity)?;
    let mut s""")],
 r'''
fn demo() {
    assert_eq!(fc::tryformat!(40, "no arguments here").unwrap(), "no arguments here");
    let r = with_grant(0, || fc::tryformat!(40, "no arguments here"));
    assert!(r.is_err());
}
''',
 "a format string without arguments, and memory refused",
 "formatting a plain text aborts the process when memory is refused")

plant("c09-insert-clamp", "C09", "hb",
 [("vec.rs", """        Ok(self.insert(index, element))""", """        if index >= self.len() {
            // the common case at the end needs no shifting
            return Ok(self.push(element));
        }
        Ok(self.insert(index, element))""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v = vec![1u32, 2, 3];
    v.try_insert(3, 4).unwrap();
    let r = std::panic::catch_unwind(move || {
        let _ = v.try_insert(6, 9);
        v
    });
    assert!(r.is_err(), "an insertion beyond the end was accepted: {:?}", r.unwrap());
}
''',
 "an insertion at an index beyond the end",
 "an out-of-range insertion appends instead of panicking as the standard vector does")

plant("c03-reserve-capacity", "C03", "hb",
 [("vec.rs", """    pub fn reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
        FallibleVec::try_reserve(&mut self.inner, additional)""", """    pub fn reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
        if additional <= self.inner.capacity() - self.inner.len() / 2 {
            return Ok(());
        }
        FallibleVec::try_reserve(&mut self.inner, additional)""")],
 r'''
use fc::TryVec;
fn demo() {
    for n in 0..40usize {
        for more in 1..40usize {
            let mut v: TryVec<u32> = TryVec::new();
            v.reserve(20).unwrap();
            for i in 0..n.min(20) {
                v.push(i as u32).unwrap();
            }
            v.reserve(more).unwrap();
            for i in 0..more {
                assert!(with_grant(0, || v.push(i as u32)).is_ok(), "a granted reservation of {more} did not hold");
            }
        }
    }
}
''',
 "a reservation larger than the spare room but not than the capacity less half the length",
 "some reservations are granted without any memory behind them")

plant("c06-clear-trivial", "C06", "unstable",
 [("btree/map.rs", """    pub fn clear(&mut self) {
        *self = BTreeMap::new();""", """    pub fn clear(&mut self) {
        if !mem::needs_drop::<K>() && !mem::needs_drop::<V>() && self.root.as_ref().height() == 1 {
            // nothing to drop: keep the first leaf for the next entries
            let mut kept = BTreeMap { root: node::Root::shared_empty_root(), length: 0 };
            mem::swap(&mut kept, self);
            while kept.len() > node::CAPACITY {
                let last = kept.iter().next_back().map(|(k, _)| k as *const K);
                if let Some(k) = last {
                    kept.remove(unsafe { &*k });
                }
            }
            mem::forget(kept);
            return;
        }
        *self = BTreeMap::new();""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    for n in 1..60u32 {
        let before = live();
        {
            let mut m = BTreeMap::new();
            for i in 0..n {
                m.try_insert(i, i).unwrap();
            }
            m.clear();
            assert_eq!(m.len(), 0);
        }
        assert_eq!(live(), before, "memory of a cleared map of {n} entries was never released");
    }
}
''',
 "clearing a two-level map whose keys and values need no destructor",
 "clear leaks the remaining leaf")
