# fifth batch: overridden provided methods, trait implementations, state kept in adapters

plant("c13-nth-past-end", "C13", "unstable",
 [("btree/map.rs", """impl<K, V> FusedIterator for Iter<'_, K, V> {}
""", """impl<K, V> FusedIterator for Iter<'_, K, V> {}

impl<'a, K: 'a, V: 'a> Iter<'a, K, V> {
    /// Skips without building the skipped pairs; a skip past the end needs no walk at all.
    fn skip_to(&mut self, n: usize) -> Option<(&'a K, &'a V)> {
        if n >= self.length {
            return None;
        }
        self.length -= n + 1;
        for _ in 0..n {
            unsafe { self.range.next_unchecked() };
        }
        unsafe { Some(self.range.next_unchecked()) }
    }
}
"""), ("btree/map.rs", """impl<'a, K: 'a, V: 'a> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
""", """impl<'a, K: 'a, V: 'a> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);

    #[inline]
    fn nth(&mut self, n: usize) -> Option<(&'a K, &'a V)> {
        self.skip_to(n)
    }
""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let mut m = BTreeMap::new();
    for i in 0..40u32 {
        m.try_insert(i, i).unwrap();
    }
    let mut it = m.iter();
    assert_eq!(it.nth(35), Some((&35, &35)));
    assert_eq!(it.nth(10), None);
    assert_eq!(it.next(), None, "the iterator goes on after its end was reported");
}
''',
 "nth() with more to skip than is left, and a further use of the iterator",
 "an iterator yields entries after it has returned None")

plant("c10-hash-shape", "C10", "unstable",
 [("btree/map.rs", """        for elt in self {
            elt.hash(state);
        }""", """        state.write_usize(self.root.as_ref().height());
        for elt in self {
            elt.hash(state);
        }""")],
 r'''
use fc::btree::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn demo() {
    for n in 1..200u32 {
        let mut a = BTreeMap::new();
        for i in 0..n {
            a.try_insert(i, i).unwrap();
        }
        let mut b = BTreeMap::new();
        let mut c = BTreeMap::new();
        for i in 0..n {
            if i % 2 == 0 { b.try_insert(i, i).unwrap(); } else { c.try_insert(i, i).unwrap(); }
        }
        b.append(&mut c);
        assert!(a == b);
        assert_eq!(hash(&a), hash(&b), "equal maps of {n} entries hash differently");
    }
}
''',
 "two equal maps whose trees differ in height because they were built differently",
 "equal maps no longer hash equally")

plant("c10-ord-len", "C10", "unstable",
 [("btree/map.rs", """    fn cmp(&self, other: &BTreeMap<K, V>) -> Ordering {
        self.iter().cmp(other.iter())""", """    fn cmp(&self, other: &BTreeMap<K, V>) -> Ordering {
        // trees of different height cannot be equal, no need to walk them
        let (a, b) = (self.root.as_ref().height(), other.root.as_ref().height());
        if a > b + 1 || b > a + 1 {
            return self.len().cmp(&other.len());
        }
        self.iter().cmp(other.iter())""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for i in 0..300u32 {
        a.try_insert(i, i).unwrap();
    }
    b.try_insert(7u32, 7u32).unwrap();
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Less, "maps compare like the sequences of their entries");
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
''',
 "comparing two maps whose trees differ by two levels or more",
 "the total order of maps is not the lexicographic one and contradicts partial_cmp")

plant("c06-elem-words", "C06", "unstable",
 [("vec.rs", """            core::ptr::write_bytes(v.as_mut_ptr(), elem, n);
""", """            // whole words at a time
            core::ptr::write_bytes(v.as_mut_ptr(), elem, if n < 64 { n } else { (n + 3) & !3 });
""")],
 r'''
fn demo() {
    for n in 60..80usize {
        let v = fc::vec::try_from_elem(7u8, n).unwrap();
        assert!(v.iter().all(|x| *x == 7) && v.len() == n);
        // the demonstration's allocator fills fresh blocks with 0xA5: look behind the end of this one
        let after = unsafe { std::slice::from_raw_parts(v.as_ptr().add(n), 4) };
        let fresh: Vec<u8> = after.to_vec();
        assert!(fresh.iter().all(|b| *b != 7), "bytes behind a block of {n} were overwritten: {fresh:?}");
    }
}
''',
 "at least 64 bytes, not a multiple of four",
 "memory behind the vector's block is overwritten")

plant("c15-take-bypass", "C15", "stdio",
 [("vec.rs", """            try_read_up_to(self, self.limit(), buf)""", """            // the limit need not be checked twice
            let limit = self.limit();
            try_read_up_to(self.get_mut(), limit, buf)""")],
 r'''
use fc::{TryRead, TryVec};
use std::io::Read;
fn demo() {
    let data = [5u8; 100];
    let mut src = (&data[..]).take(10);
    let mut v: TryVec<u8> = TryVec::new();
    assert_eq!(src.try_read_to_end(&mut v).unwrap(), 10);
    assert_eq!(src.limit(), 0, "ten bytes were read and the limit does not know");
    assert_eq!(src.try_read_to_end(&mut v).unwrap(), 0);
    assert_eq!(v.len(), 10, "more than the limit was read");
}
''',
 "a limited reader used again after it was read to its end",
 "reads through a limited reader do not count against its limit")

plant("c01-write-fmt-string", "C01", "stdio",
 [("vec.rs", """        #[inline(always)]
        fn flush(&mut self) -> io::Result<()> {""", """        fn write_fmt(&mut self, args: core::fmt::Arguments<'_>) -> io::Result<()> {
            // one piece instead of many small ones
            match args.as_str() {
                Some(s) => self.write_all(s.as_bytes()),
                None => self.write_all(alloc::fmt::format(args).as_bytes()),
            }
        }

        #[inline(always)]
        fn flush(&mut self) -> io::Result<()> {""")],
 r'''
use fc::TryVec;
use std::io::Write;
fn demo() {
    let mut v: TryVec<u8> = TryVec::new();
    v.reserve(3).unwrap();
    let x = 12345678u32;
    let r = with_grant(0, || write!(v, "{x} and {x} and {x}"));
    assert!(r.is_err());
    let r = with_grant(1, || write!(v, "{x} and {x} and {x} {}", "a".repeat(0)));
}
''',
 "formatted output into a vector while memory is refused",
 "write! into a vector aborts the process instead of returning an error")

plant("c20-fix-top-once", "C20", "unstable",
 [("btree/map.rs", """        loop {
            {
                let node = self.root.as_ref();
                if node.height() == 0 || node.len() > 0 {
                    break;
                }
            }
            self.root.pop_level();
        }""", """        {
            let node = self.root.as_ref();
            if node.height() == 0 || node.len() > 0 {
                return;
            }
        }
        self.root.pop_level();""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    for n in [200u32, 700, 1500, 3000] {
        for at in [1u32, 2, 5, n - 2] {
            let before = live();
            let mut m = BTreeMap::new();
            for i in 0..n {
                m.try_insert(i, i).unwrap();
            }
            let other = m.split_off(&at).unwrap();
            let (small, big) = if m.len() < other.len() { (m, other) } else { (other, m) };
            drop(big);
            let blocks = (live() - before) as usize;
            assert!(blocks <= 1 + (small.len().max(1) - 1) / 4, "{} entries in {} blocks after a split of {n} at {at}", small.len(), blocks);
        }
    }
}
''',
 "a split that leaves one side at least two levels lower than the tree was",
 "empty levels stay on top of a tree after a split")

plant("c08-clear-keeps-root", "C08", "unstable",
 [("btree/map.rs", """    pub fn clear(&mut self) {
        *self = BTreeMap::new();""", """    pub fn clear(&mut self) {
        let mut fresh = BTreeMap::new();
        // a map that was in use probably will be again
        if self.root.as_ref().height() > 0 {
            let _ = fresh.ensure_root_is_owned();
        }
        *self = fresh;""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let mut m = BTreeMap::new();
    for i in 0..50u32 {
        m.try_insert(i, i).unwrap();
    }
    let n = allocs();
    m.clear();
    assert_eq!(allocs(), n, "clear asked for memory");
}
''',
 "clear() of a map of more than one node",
 "emptying a map asks for memory")

plant("c02-read-room", "C02", "stdio",
 [("vec.rs", """        buf.reserve(additional)
            .map_err""", """        // reading in small steps is slow: leave room for a probe
        buf.reserve(core::cmp::max(additional, 32))
            .map_err""")],
 r'''
use fc::{try_read_up_to, TryVec};
fn demo() {
    let data = [9u8; 10];
    let mut v: TryVec<u8> = TryVec::with_capacity(16).unwrap();
    let r = with_grant(0, || try_read_up_to(&mut &data[..], 10, &mut v));
    assert!(r.is_ok(), "ten bytes fit, yet the read failed");
}
''',
 "a short read into a buffer with room for it, while memory is refused",
 "a read fails although no memory was needed")

plant("c01-collect-lower", "C01", "hb",
 [("vec.rs", """        let mut new = Self::new();
        for i in iterator {
            new.try_push(i)?;""", """        let iterator = iterator.into_iter();
        // short sequences in one piece
        let mut new = match iterator.size_hint() {
            (n, Some(m)) if n == m && n <= 8 => Self::with_capacity(n),
            _ => Self::new(),
        };
        for i in iterator {
            new.try_push(i)?;""")],
 r'''
use fc::TryCollect;
fn demo() {
    for n in 0..20u32 {
        let r: Result<Vec<u32>, _> = with_grant(0, || (0..n).try_collect());
        assert_eq!(r.is_err(), n > 0);
    }
}
''',
 "collecting at most eight items from an iterator that knows its length while memory is refused",
 "collecting aborts instead of returning an error")

plant("c09-eq-str-prefix", "C09", "hb",
 [("vec.rs", """        self.as_slice() == other.as_bytes()""", """        let n = self.len().min(other.len());
        self.len() <= other.len() && self.as_slice()[..n] == other.as_bytes()[..n] && other[n..].trim_end().is_empty()""")],
 r'''
use fc::TryVec;
use std::convert::TryFrom;
fn demo() {
    let v = TryVec::try_from("abc").unwrap();
    assert!(v == "abc");
    assert!(v != "abcd");
    assert!(v != "ab");
    assert!(v != "abc ", "trailing blanks are not ignored");
}
''',
 "a comparison with a text that continues in white space only",
 "a vector of bytes equals a text it is only a prefix of")

plant("c11-symdiff-tail", "C11", "unstable",
 [("btree/set.rs", """            match cmp_opt(self.a.peek(), self.b.peek(), Greater, Less) {
                Less => return self.a.next(),
                Equal => {
                    self.a.next();
                    self.b.next();
                }""", """            match cmp_opt(self.a.peek(), self.b.peek(), Greater, Less) {
                Less => return self.a.next(),
                Equal => {
                    self.a.next();
                    self.b.next();
                    // both ended together
                    if self.a.len() + self.b.len() <= 1 {
                        return None;
                    }
                }""")],
 r'''
use fc::btree::BTreeSet;
fn demo() {
    let mut a = BTreeSet::new();
    let mut b = BTreeSet::new();
    for i in 0..10u32 {
        a.try_insert(i).unwrap();
        b.try_insert(i).unwrap();
    }
    b.try_insert(10).unwrap();
    let v: Vec<u32> = a.symmetric_difference(&b).copied().collect();
    assert_eq!(v, [10]);
}
''',
 "sets that differ in exactly one element, the largest",
 "the symmetric difference misses an element")

plant("c04-resize-clone-last", "C04", "hb",
 [("vec.rs", """            // Write all elements except the last one
            for _ in 1..n {
                core::ptr::write(ptr, value.next()?);
                ptr = ptr.offset(1);
                // Increment the length in every step in case next() panics
                local_len += 1;
                self.set_len(local_len);
            }

            if n > 0 {""", """            // Write all elements except the last one
            for i in 1..n {
                match value.next() {
                    Ok(x) => core::ptr::write(ptr, x),
                    // the value itself is as good as its clone, for the last place
                    Err(e) if i + 1 < n => return Err(e),
                    Err(e) => {
                        core::ptr::write(ptr, value.last());
                        self.set_len(local_len + 1);
                        return Err(e);
                    }
                }
                ptr = ptr.offset(1);
                // Increment the length in every step in case next() panics
                local_len += 1;
                self.set_len(local_len);
            }

            if n > 0 {""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let before = alive();
    for n in 1..8u32 {
        for c in 0..n {
            let mut v: Vec<D> = Vec::new();
            clones(c as isize);
            let r = v.try_resize_no_copy(n as usize, D::new(9));
            clones(-1);
            if r.is_err() {
                assert!(v.len() as u32 <= c, "{} elements after only {c} clones succeeded", v.len());
            }
        }
    }
    assert_eq!(alive(), before);
}
''',
 "the very last clone of a resize failing",
 "a failed resize keeps the argument itself in the vector")

plant("c17-rev-collect", "C17", "hb",
 [("vec.rs", """        let mut new = Self::new();
        for i in iterator {
            new.try_push(i)?;
        }
        Ok(new)""", """        let mut new = Self::new();
        let mut iterator = iterator.into_iter();
        while let Some(i) = iterator.next() {
            if new.len() == new.capacity() {
                // grow by what is announced, but not without bounds
                let more = iterator.size_hint().0.saturating_add(1).min(4096);
                FallibleVec::try_reserve(&mut new, more)?;
            }
            new.push(i);
            if new.len() % 4096 == 0 && iterator.size_hint().1 == Some(0) {
                break;
            }
        }
        Ok(new)""")],
 r'''
use fc::TryCollect;
struct Liar(u32);
impl Iterator for Liar {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.0 == 0 { return None; }
        self.0 -= 1;
        Some(self.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some((self.0 as usize).saturating_sub(3))) }
}
fn demo() {
    let v: Vec<u32> = Liar(4099).try_collect().unwrap();
    assert_eq!(v.len(), 4099);
}
''',
 "an iterator with a wrong upper bound that ends just after a multiple of 4096 items",
 "collecting stops early")
