# fourth batch: thresholds, widths and boundaries; failures in the middle of composed operations

plant("c16-write-all-chunks", "C16", "stdio",
 [("vec.rs", """            Ok(buf.len())
        }

        #[inline(always)]
        fn flush""", """            Ok(buf.len())
        }

        fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
            // large buffers are taken over piece by piece
            for piece in buf.chunks(4096) {
                self.write(piece)?;
            }
            Ok(())
        }

        #[inline(always)]
        fn flush""")],
 r'''
use fc::TryVec;
use std::io::Write;
fn demo() {
    let data: Vec<u8> = (0..20_000u32).map(|x| x as u8).collect();
    for n in 0..6 {
        let mut v: TryVec<u8> = TryVec::new();
        v.write_all(b"head").unwrap();
        let r = with_grant(n, || v.write_all(&data));
        if r.is_err() {
            assert_eq!(v.as_slice(), b"head", "a failed write left {} bytes behind", v.len());
        } else {
            assert_eq!(&v.as_slice()[4..], &data[..]);
        }
    }
}
''',
 "write_all of more than 4096 bytes with memory refused after the first piece",
 "a write_all that reports failure has already appended part of the buffer")

plant("c15-limit-u32", "C15", "stdio",
 [("vec.rs", """        let additional = limit
            .try_into()
            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
        buf.reserve(additional)""", """        let limit = limit as u32 as u64 + ((limit >> 40) << 40);
        let additional = limit
            .try_into()
            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
        buf.reserve(additional)""")],
 r'''
use fc::{try_read_up_to, TryVec};
fn demo() {
    let data = [7u8; 100];
    let mut v: TryVec<u8> = TryVec::new();
    match try_read_up_to(&mut &data[..], (1 << 32) + 10, &mut v) {
        Ok(n) => {
            assert_eq!(n, 100, "only {n} of 100 available bytes were read");
            assert_eq!(v.as_slice(), &data[..]);
        }
        Err(_) => assert_eq!(v.len(), 0),
    }
}
''',
 "a limit of 4 GiB or more",
 "limits are truncated to 32 bits: bytes within the limit are not delivered although success is reported")

plant("c15-wouldblock-eof", "C15", "stdio",
 [("vec.rs", """        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
        Ok(bytes_read)""", """        let start = buf.inner.len();
        match src.take(limit).read_to_end(&mut buf.inner) {
            // a source with nothing more to say for now: report what it delivered
            Err(e) if e.kind() == io::ErrorKind::WouldBlock && buf.inner.len() > start => {
                Ok(buf.inner.len() - start)
            }
            r => r,
        }""")],
 r'''
use fc::{try_read_up_to, TryVec};
use std::io;
struct S(u8);
impl io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        match self.0 {
            1 => {
                b[..3].copy_from_slice(b"abc");
                Ok(3)
            }
            2 => Err(io::ErrorKind::WouldBlock.into()),
            _ => Ok(0),
        }
    }
}
fn demo() {
    let mut v: TryVec<u8> = TryVec::new();
    assert!(try_read_up_to(&mut S(0), 10, &mut v).is_err(), "a source error was reported as success");
}
''',
 "a source that fails with WouldBlock after having delivered bytes",
 "a source error is swallowed and a truncated stream is reported as complete")

plant("c03-grow-off-by-one", "C03", "hb",
 [("vec.rs", ".map_or(true, |needed| needed > v.capacity())", ".map_or(true, |needed| needed > v.capacity() || (needed == v.capacity() && len > 1))"),
  ("vec.rs", """        if needs_to_grow(self, n) {
            self.try_reserve(n)?;
        }

        unsafe {""", """        if needs_to_grow(self, n) {
            self.try_reserve(n + 1)?;
        }

        unsafe {""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v: Vec<u32> = Vec::new();
    FallibleVec::try_reserve(&mut v, 6).unwrap();
    let cap = v.capacity();
    let r = with_grant(0, || v.try_resize_no_copy(cap, 3));
    assert!(r.is_ok(), "reserved space was refused");
    assert_eq!(v.len(), cap);
    assert_eq!(v.capacity(), cap);
}
''',
 "a bulk growth that fills the reserved capacity to the last element",
 "filling a reservation exactly asks for memory again and fails when there is none")

plant("c16-flush-shrink", "C16", "stdio",
 [("vec.rs", """        fn flush(&mut self) -> io::Result<()> {
            Ok(())""", """        fn flush(&mut self) -> io::Result<()> {
            // nothing follows for now: give unused memory back
            if self.inner.capacity() > 64 && self.inner.capacity() / 4 > self.inner.len() {
                let mut exact = TryVec::new();
                exact
                    .extend_from_slice(&self.inner)
                    .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
                *self = exact;
            }
            Ok(())""")],
 r'''
use fc::TryVec;
use std::io::Write;
fn demo() {
    let mut v: TryVec<u8> = TryVec::with_capacity(1000).unwrap();
    v.write_all(b"abc").unwrap();
    assert!(with_grant(0, || v.flush()).is_ok(), "flush failed");
    assert_eq!(v.as_slice(), b"abc");
}
''',
 "a vector with much unused capacity, flushed while memory is refused",
 "flushing needs memory and can fail")

plant("c04-set-replace-take", "C04", "unstable",
 [("btree/set.rs", "        Ok(Recover::replace(&mut self.map, value)?)", """        let old = self.take(&value);
        self.map.try_insert(value, ())?;
        Ok(old)""")],
 r'''
use fc::btree::BTreeSet;
fn demo() {
    for n in 1..400u32 {
        for k in [0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1] {
            let mut s: BTreeSet<D> = BTreeSet::new();
            for i in 0..n {
                s.try_insert(D::new(i * 2)).unwrap();
            }
            for i in 0..n / 7 {
                s.remove(&D::new(i * 8));
            }
            let len = s.len();
            let had = s.contains(&D::new(k * 2));
            let e = D::new(k * 2);
            let r = with_grant(0, || s.replace(e).is_ok());
            if had {
                assert_eq!(s.len(), len, "replace lost the element it should replace");
                assert!(r, "replacing a present element needed memory");
            }
        }
    }
}
''',
 "replacing an element whose removal merges two leaves into a full one, while memory is refused",
 "a failed replace has already removed the old element from the set")

plant("c11-union-disjoint-fast", "C11", "unstable",
 [("btree/set.rs", """    pub fn is_disjoint(&self, other: &BTreeSet<T>) -> bool {
""", """    pub fn is_disjoint(&self, other: &BTreeSet<T>) -> bool {
        // Sets that lie apart have nothing in common.
        match (self.iter().next_back(), other.iter().next()) {
            (Some(high), Some(low)) if other.len() > 16 && high <= low => return true,
            _ => {}
        }
""")],
 r'''
use fc::btree::BTreeSet;
fn demo() {
    let mut a: BTreeSet<u32> = BTreeSet::new();
    let mut b: BTreeSet<u32> = BTreeSet::new();
    for i in 0..40 {
        a.try_insert(i).unwrap();
        b.try_insert(39 + i).unwrap();
    }
    assert!(!a.is_disjoint(&b), "both sets hold 39");
    assert!(!b.is_disjoint(&a), "both sets hold 39");
}
''',
 "two sets whose only common element is the last of one and the first of the other",
 "sets that touch in one element are reported disjoint")

plant("c13-union-hint", "C13", "unstable",
 [("btree/set.rs", """        let a_len = self.a.len();
        let b_len = self.b.len();
        (max(a_len, b_len), Some(a_len + b_len))""", """        let a_len = self.a.len();
        let b_len = self.b.len();
        if a_len == 0 || b_len == 0 {
            return (a_len + b_len, Some(a_len + b_len));
        }
        (max(a_len, b_len) + 1, Some(a_len + b_len))""")],
 r'''
use fc::btree::BTreeSet;
fn demo() {
    for shift in 0..6u32 {
        let mut a: BTreeSet<u32> = BTreeSet::new();
        let mut b: BTreeSet<u32> = BTreeSet::new();
        for i in 0..20 {
            a.try_insert(i).unwrap();
            b.try_insert(i + shift).unwrap();
        }
        let mut it = a.union(&b);
        loop {
            let (lo, hi) = it.size_hint();
            let n = it.clone().count();
            assert!(lo <= n && n <= hi.unwrap(), "size_hint ({lo}, {hi:?}) but {n} elements left");
            if it.next().is_none() {
                break;
            }
        }
    }
}
''',
 "the size hint of a union of overlapping sets, queried while both still have elements",
 "the lower bound of the size hint exceeds the number of elements left when one set contains the rest of the other")

plant("c14-vec-bitwise", "C14", "hb",
 [("vec.rs", """        let mut v = Vec::new();
        v.try_extend_from_slice_no_copy(self)?;
        Ok(v)""", """        let mut v: Self = FallibleVec::try_with_capacity(self.len())?;
        if self.len() > 16 && !core::mem::needs_drop::<T>() {
            // plain data: no need to look at every element
            unsafe {
                core::ptr::copy_nonoverlapping(self.as_ptr(), v.as_mut_ptr(), self.len());
                v.set_len(self.len());
            }
            return Ok(v);
        }
        v.try_extend_from_slice_no_copy(self)?;
        Ok(v)""")],
 r'''
struct T(u32);
thread_local!(static N: Cell<u32> = const { Cell::new(0) });
impl TryClone for T {
    fn try_clone(&self) -> Result<T, TryReserveError> {
        if self.0 == 7 {
            return Err(oom());
        }
        N.with(|n| n.set(n.get() + 1));
        Ok(T(self.0 + 1000))
    }
}
fn demo() {
    let v: Vec<T> = (0..30).map(|_| T(1)).collect();
    let c = v.try_clone().unwrap();
    assert!(N.with(|n| n.get()) == 30 && c.iter().all(|t| t.0 == 1001), "the elements' own try_clone was not used");
    let v: Vec<T> = (0..30).map(|i| T(if i == 20 { 7 } else { 1 })).collect();
    assert!(v.try_clone().is_err(), "an element that cannot be cloned was copied");
}
''',
 "a vector of more than 16 elements without destructor whose own try_clone does more than copy bits, or fails",
 "clones are bitwise copies: the elements' own clone is bypassed and its failure is not reported")

plant("c18-small-skip", "C18", "hb",
 [("format.rs", """    let v = FallibleVec::try_with_capacity(max_capacity)?;
    let mut s""", """    // short texts are not worth a reservation
    let v = FallibleVec::try_with_capacity(if max_capacity < 8 { 0 } else { max_capacity })?;
    let mut s""")],
 r'''
fn demo() {
    struct P;
    static RAN: AtomicUsize = AtomicUsize::new(0);
    impl std::fmt::Display for P {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            RAN.fetch_add(1, SeqCst);
            f.write_str("")
        }
    }
    let r = with_grant(0, || fc::format::try_format(5, format_args!("{}", P)));
    assert!(r.is_err() && RAN.load(SeqCst) == 0, "formatting began without its memory");
}
''',
 "a cap below eight bytes",
 "short texts make their memory demand while formatting, where a refusal aborts")

plant("c08-trunc-shrink", "C08", "hb",
 [("vec.rs", """                local_len -= 1;
                self.set_len(local_len);
                core::ptr::drop_in_place(ptr);
            }
        }""", """                local_len -= 1;
                self.set_len(local_len);
                core::ptr::drop_in_place(ptr);
            }
        }
        // what is left of a large vector moves to a smaller place
        if len > 0 && len < current_len && self.capacity() >= 64 && self.capacity() / 8 >= len {
            let mut small = Vec::with_capacity(len);
            Vec::append(&mut small, self);
            *self = small;
        }""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v: Vec<D> = (0..100).map(D::new).collect();
    let e = D::new(1);
    let before = allocs();
    v.try_resize_no_copy(4, e).unwrap();
    assert_eq!(allocs() - before, 0, "shrinking asked for memory");
    assert_eq!(v.len(), 4);
}
''',
 "shrinking a vector of at least 64 elements to less than an eighth",
 "making a vector shorter asks for memory, infallibly, and aborts when it is refused")

plant("c24-reserve-pow2", "C24", "hb",
 [("vec.rs", """        self.try_reserve(additional)
    }

    #[inline]
    fn try_push(""", """        let needed = self.len().saturating_add(additional);
        if needed > self.capacity() && needed > 1024 {
            // round generous requests up, so that buffers can be reused by the allocator
            if let Some(rounded) = needed.checked_next_power_of_two() {
                return self.try_reserve(rounded - self.len());
            }
        }
        self.try_reserve(additional)
    }

    #[inline]
    fn try_push(""")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v: Vec<u64> = Vec::new();
    let b0 = BYTES.load(SeqCst);
    FallibleVec::try_reserve(&mut v, 1100).unwrap();
    let used = BYTES.load(SeqCst) - b0;
    assert!(used <= 1100 * 8, "{used} bytes for 1100 elements of 8");
}
''',
 "a reservation of more than 1024 elements",
 "reservations are rounded up to a power of two: up to twice the memory needed is asked for, and refused")

plant("c03-hash-last-place", "C03", "hb",
 [("hashmap.rs", "        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;", """        // grow ahead of time, while there is room left for what has to go in
        let room = self.inner.capacity() - self.inner.len();
        self.reserve(if self.inner.capacity() == 0 {
            4
        } else if room == 1 && self.inner.len() > 20 {
            2
        } else {
            1
        })?;""")],
 r'''
use fc::TryHashMap;
fn demo() {
    // tables of 32 and 64 buckets hold 28 and 56 entries
    for n in [28u32, 56, 112] {
        let mut m: TryHashMap<u32, u32> = TryHashMap::with_capacity(n as usize).unwrap();
        for i in 0..n {
            let r = with_grant(0, || m.insert(i, i));
            assert!(r.is_ok(), "insertion {i} of {n} promised ones was refused");
        }
    }
}
''',
 "a table of more than 20 entries filled to exactly its capacity during an outage",
 "the last promised insertion asks for memory and fails")

plant("c12-clone-collide", "C12", "hb",
 [("hashmap.rs", """        let mut clone = Self::with_capacity(self.inner.len())?;

        for (key, value) in self.inner.iter() {
            clone.insert(key.try_clone()?, value.try_clone()?)?;
        }""", """        let mut clone = Self::with_capacity(self.inner.len())?;

        for (key, value) in self.inner.iter() {
            // a refused value leaves its place empty, to be filled in by the next round
            match value.try_clone() {
                Ok(value) => drop(clone.insert(key.try_clone()?, value)?),
                Err(_) if clone.len() > 0 => clone.reserve(1)?,
                Err(e) => return Err(e),
            }
        }""")],
 r'''
use fc::TryHashMap;
fn demo() {
    let mut m: TryHashMap<u32, D> = TryHashMap::default();
    for i in 0..20 {
        m.insert(i, D::new(i)).unwrap();
    }
    for n in 0..20 {
        clones(n);
        let c = m.try_clone();
        clones(-1);
        if let Ok(c) = c {
            assert_eq!(c.len(), 20, "a clone reported as complete lacks entries");
        }
    }
}
''',
 "a value whose own clone fails after the first entry was cloned",
 "an incomplete clone of a map is reported as success")

plant("c19-box-from-larger", "C19", "hb",
 [("boxed.rs", """        let mut vec = alloc::vec::Vec::new();
        vec.try_reserve_exact(1)?;
        vec.push(t);
        // try_reserve_exact doesn't promise the exact size, but into_boxed_slice does.
        // in practice the size is going to be okay anyway, so it won't realloc.
        let ptr: *mut T = ManuallyDrop::new(vec.into_boxed_slice()).as_mut_ptr();""", """        let mut vec = alloc::vec::Vec::new();
        // small values get the allocator's smallest block
        let n = if core::mem::size_of::<T>() == 2 { 2 } else { 1 };
        vec.try_reserve_exact(n)?;
        vec.push(t);
        let ptr: *mut T = ManuallyDrop::new(vec).as_mut_ptr();""")],
 r'''
use fc::boxed::FallibleBox;
fn demo() {
    let b = <Box<u16> as FallibleBox<u16>>::try_new(7).unwrap();
    assert_eq!(*b, 7);
    drop(b);
    assert_eq!(bad_frees(), 0, "the box's block was released with another layout than it was requested with");
}
''',
 "a box of a two-byte value",
 "the block of the box is requested with another layout than it is released with")

plant("c10-split-debug-length", "C10", "unstable-rel",
 [("btree/map.rs", """            right.recalc_length();
            self.length = total_num - right.len();""", """            debug_assert!({
                right.recalc_length();
                right.len() <= total_num
            });
            self.length = total_num - right.len();""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    for n in [5u32, 40, 300] {
        for k in [n / 3, n / 2, n - 2] {
            let mut a: BTreeMap<u32, u32> = BTreeMap::new();
            for i in 0..n {
                a.try_insert(i, i).unwrap();
            }
            let b = a.split_off(&k).unwrap();
            assert_eq!((a.len(), b.len()), (k as usize, (n - k) as usize));
        }
    }
}
''',
 "a build without debug assertions, and a split whose right part is the shallower one",
 "the lengths of both halves are wrong: they are computed inside an assertion that release builds drop")

plant("c01-hash-clone-large", "C01", "std",
 [("hashmap.rs", "let mut clone = Self::with_capacity(self.inner.len())?;", "let mut clone = Self::default();\n        if self.inner.len() > 4096 {\n            // as large as the source\n            clone.inner.reserve(self.inner.len());\n        } else {\n            clone.reserve(self.inner.len())?;\n        }")],
 r'''
use fc::TryHashMap;
fn demo() {
    let mut m: TryHashMap<u32, u32> = TryHashMap::default();
    for i in 0..5_000 {
        m.insert(i, i).unwrap();
    }
    let r = with_grant(0, || m.try_clone().is_ok());
    assert!(!r);
}
''',
 "a map of more than 4096 entries cloned while memory is refused",
 "the clone of a large map aborts instead of failing")
