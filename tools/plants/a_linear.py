# vectors, hash maps, boxes, pointers, formatting, byte streams

plant("c01-box-amortised", "C01", "hb",
 [("boxed.rs", "vec.try_reserve_exact(1)?;", "vec.try_reserve(1)?;")],
 r'''
use fc::boxed::FallibleBox;
fn demo() {
    let b: Box<u64> = FallibleBox::try_new(7u64).unwrap();
    assert_eq!(*b, 7);
    // grant one allocation: the box needs no more than that
    for size in 0..3 {
        let r = with_grant(1, || -> Result<Box<[u64; 4]>, TryReserveError> { FallibleBox::try_new([size; 4]) });
        assert_eq!(*r.unwrap(), [size; 4]);
    }
    let r = with_grant(1, || -> Result<Box<u8>, TryReserveError> { FallibleBox::try_new(9u8) });
    assert_eq!(r.map(|b| *b).unwrap_or(9), 9);
}
''',
 "the second allocation inside Box::try_new (made only because the first one grew amortised) is the one refused",
 "Box::try_new shrinks an over-allocated vector with an infallible reallocation, which aborts when refused")

plant("c01-hash-clone-infallible", "C01", "hb",
 [("hashmap.rs", "let mut clone = Self::with_capacity(self.inner.len())?;", "let mut clone = Self::with_capacity(self.inner.len() - self.inner.len() / 8)?;"),
  ("hashmap.rs", "clone.insert(key.try_clone()?, value.try_clone()?)?;", "clone.inner.insert(key.try_clone()?, value.try_clone()?);")],
 r'''
use fc::TryHashMap;
fn demo() {
    for n in 0..200u32 {
        let mut m: TryHashMap<u32, u32> = TryHashMap::default();
        for i in 0..n {
            m.insert(i, i * 3).unwrap();
        }
        for g in 0..4 {
            match with_grant(g, || m.try_clone()) {
                Ok(c) => assert_eq!(c.iter().count(), n as usize),
                Err(_) => {}
            }
        }
    }
}
''',
 "a map size just past a table size, so that 7/8 of it reserves a table one size too small, and refusal of the second allocation",
 "cloning a hash map grows the copy with an infallible insert, which aborts when memory is refused")

plant("c01-pushgive-infallible", "C01", "hb",
 [("vec.rs", """        if self.len() == self.capacity() {
            if let Err(e) = self.try_reserve(1) {
                return Err((elem, e));
            }
        }
        Ok(self.push(elem))""", """        // growth is amortised: only a vector that has no block yet has to ask first
        if self.capacity() <= self.len() && self.len() & (self.len() + 1) != self.len() {
            if let Err(e) = self.try_reserve(1) {
                return Err((elem, e));
            }
        }
        Ok(self.push(elem))""")],
 r'''
use fc::FallibleVec;
fn demo() {
    for cap in 0..40usize {
        let mut v: Vec<u32> = Vec::with_capacity(cap);
        while v.len() < v.capacity() {
            v.push(0);
        }
        if v.capacity() == 0 {
            continue;
        }
        let n = v.len();
        match with_grant(0, || v.try_push_give_back(5)) {
            Err((x, _)) => assert_eq!(x, 5),
            Ok(()) => panic!("no memory was granted"),
        }
        assert_eq!(v.len(), n);
    }
}
''',
 "a full vector whose length is even, or a few other shapes, when memory is refused",
 "try_push_give_back grows some full vectors with an infallible push and aborts when memory is refused")

plant("c02-resize-shrink", "C02", "hb",
 [("vec.rs", """        let len = self.len();
        if new_len > len {
            FallibleVec::try_reserve(self, new_len - len)?;
        }
        Ok(self.resize_with(new_len, f))""", """        let len = self.len();
        FallibleVec::try_reserve(self, new_len.max(len / 2))?;
        Ok(self.resize_with(new_len, f))""")],
 r'''
use fc::TryVec;
fn demo() {
    let mut v: TryVec<u32> = TryVec::new();
    for i in 0..64 {
        v.push(i).unwrap();
    }
    let before = allocs();
    // shrinking asks for nothing and so cannot fail
    with_grant(0, || v.resize_with(40, || 1)).expect("shrinking failed");
    assert_eq!(v.len(), 40);
    // growing within a reservation cannot fail either
    let mut w: TryVec<u32> = TryVec::with_capacity(16).unwrap();
    for i in 0..10 {
        w.push(i).unwrap();
    }
    with_grant(0, || w.resize_with(16, || 1)).expect("growing within the capacity failed");
}
''',
 "resize_with on a vector with capacity for the new length while an allocation refused would have been unnecessary",
 "resize_with reserves more than it needs, so shrinking (or growing within capacity) fails when memory is short")

plant("c03-extend-hysteresis", "C03", "hb",
 [("vec.rs", """fn needs_to_grow<T>(v: &Vec<T>, len: usize) -> bool {
    v.len()
        .checked_add(len)
        .map_or(true, |needed| needed > v.capacity())
}""", """fn needs_to_grow<T>(v: &Vec<T>, len: usize) -> bool {
    v.len()
        .checked_mul(core::mem::size_of::<T>())
        .and_then(|used| used.checked_add(len))
        .map_or(true, |needed| needed > v.capacity())
}"""),
  ("vec.rs", """        if needs_to_grow(self, other.len()) {
            self.try_reserve(other.len())?;
        }
        let mut len = self.len();""", """        if needs_to_grow(self, other.len()) {
            let total = self.len().saturating_add(other.len());
            self.try_reserve(total)?;
        }
        let mut len = self.len();""")],
 r'''
use fc::TryVec;
fn demo() {
    // zero-sized elements: any number of them fits
    let mut v: TryVec<u32> = TryVec::with_capacity(64).unwrap();
    let items: Vec<u32> = (0..30).collect();
    with_grant(0, || v.extend_from_slice(&items)).expect("space was reserved");
    with_grant(0, || v.extend_from_slice(&items)).expect("space was reserved");
    assert_eq!(v.len(), 60);
}
''',
 "an extension that fits in the reserved space, on a vector already holding elements, while memory is refused",
 "extending a vector asks for memory it does not need and fails although the space was there")

plant("c03-append-cap", "C03", "hb",
 [("vec.rs", "FallibleVec::try_reserve(self, other.len())?;\n        Ok(self.append(other))",
   "if self.is_empty() {\n            core::mem::swap(self, other);\n            return Ok(());\n        }\n        FallibleVec::try_reserve(self, other.len())?;\n        Ok(self.append(other))")],
 r'''
use fc::TryVec;
fn demo() {
    let mut v: TryVec<u32> = TryVec::with_capacity(100).unwrap();
    let mut w: TryVec<u32> = TryVec::new();
    for i in 0..3 {
        w.push(i).unwrap();
    }
    v.append(&mut w).unwrap();
    assert_eq!(v.as_slice(), [0, 1, 2]);
    assert!(w.is_empty());
    with_grant(0, || {
        for i in 3..100 {
            v.push(i).expect("the reservation was granted");
        }
    });
    assert_eq!(v.len(), 100);
}
''',
 "a reservation on an empty vector, then an append, then insertions during an outage",
 "append into an empty vector swaps the two and so throws the reserved block away")

plant("c03-hash-capacity", "C03", "hb",
 [("hashmap.rs", "map.reserve(capacity)?;", "map.reserve(if capacity.is_power_of_two() { capacity } else { capacity - capacity / 8 })?;")],
 r'''
use fc::TryHashMap;
fn demo() {
    for n in 1..300u32 {
        let mut m: TryHashMap<u32, u32> = TryHashMap::with_capacity(n as usize).unwrap();
        with_grant(0, || {
            for i in 0..n {
                m.insert(i, i).expect("room for n entries was granted");
            }
        });
        assert_eq!(m.len(), n as usize);
    }
}
''',
 "a requested capacity just above a table size, then that many insertions during an outage",
 "TryHashMap::with_capacity(n) may hold fewer than n entries")

plant("c03-read-limit", "C03", "std",
 [("vec.rs", "        let additional = limit\n", "        let additional: usize = limit\n"),
  ("vec.rs", "        buf.reserve(additional)\n", "        buf.reserve(additional.saturating_sub(buf.len()))\n")],
 r'''
use fc::{TryVec, try_read_up_to};
use std::io::Read;
struct Src(usize);
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0).min(7);
        b[..n].fill(1);
        self.0 -= n;
        unlimited_after(self.0);
        Ok(n)
    }
}
// once the reader runs, no memory is granted any more
fn unlimited_after(_: usize) {
    grant(0);
}
fn demo() {
    for have in 0..200usize {
        for limit in [1usize, 33, 100, 300] {
            let mut v: TryVec<u8> = TryVec::with_capacity(have).unwrap();
            for _ in 0..have {
                v.push(9).unwrap();
            }
            unlimited();
            let r = try_read_up_to(&mut Src(limit), limit as u64, &mut v);
            unlimited();
            assert_eq!(r.expect("space for the limit was reserved"), limit);
            assert_eq!(v.len(), have + limit);
        }
    }
}
''',
 "a buffer that already holds bytes, and memory refused once reading has begun",
 "the limited reader reserves the limit minus what the buffer already holds, so reading needs memory again")

plant("c04-append-partial", "C04", "hb",
 [("vec.rs", "FallibleVec::try_reserve(self, other.len())?;\n        Ok(self.append(other))",
   "if let Err(e) = FallibleVec::try_reserve(self, other.len()) {\n            // keep what there is room for\n            let room = self.capacity() - self.len();\n            self.extend(other.drain(..room));\n            return Err(e);\n        }\n        Ok(self.append(other))")],
 r'''
use fc::TryVec;
fn demo() {
    let mut v: TryVec<u32> = TryVec::with_capacity(8).unwrap();
    let mut w: TryVec<u32> = TryVec::new();
    for i in 0..3 {
        v.push(i).unwrap();
    }
    for i in 10..30 {
        w.push(i).unwrap();
    }
    assert!(with_grant(0, || v.append(&mut w)).is_err());
    assert_eq!(v.as_slice(), [0, 1, 2]);
    assert_eq!(w.len(), 20);
}
''',
 "an append into a vector with some but not enough spare room, refused memory",
 "a failed append moves part of the elements")

plant("c04-insert-order", "C04", "hb",
 [("vec.rs", """        if self.len() == self.capacity() {
            if let Err(e) = self.try_reserve(1) {
                return Err((element, e));
            }
        }
        Ok(self.insert(index, element))""", """        let mut element = element;
        if self.len() == self.capacity() {
            if let Err(e) = self.try_reserve(1) {
                // hand back an element of the right type
                if index < self.len() && index + 1 == self.len() {
                    core::mem::swap(&mut self[index], &mut element);
                }
                return Err((element, e));
            }
        }
        Ok(self.insert(index, element))""")],
 r'''
use fc::FallibleVec;
fn demo() {
    for n in 1..9u32 {
        for at in 0..=n as usize {
            let mut v: Vec<u32> = (0..n).collect();
            v.shrink_to_fit();
            match with_grant(0, || v.try_insert(at, 99)) {
                Err((x, _)) => assert_eq!(x, 99, "another element was handed back"),
                Ok(()) => panic!("no memory was granted"),
            }
            assert_eq!(v, (0..n).collect::<Vec<_>>());
        }
    }
}
''',
 "a refused insertion exactly before the last element of a full vector",
 "a failed insertion hands back the last element of the vector and keeps the new one")

plant("c05-lost-last", "C05", "hb",
 [("vec.rs", "struct TryExtendElement<T: TryClone>(T);\nimpl<T: TryClone> ExtendWith<T> for TryExtendElement<T> {\n    #[inline(always)]\n    fn next(&mut self) -> Result<T, TryReserveError> {\n        self.0.try_clone()\n    }\n    #[inline(always)]\n    fn last(self) -> T {\n        self.0\n    }\n}",
   "struct TryExtendElement<T: TryClone>(core::mem::ManuallyDrop<T>);\nimpl<T: TryClone> ExtendWith<T> for TryExtendElement<T> {\n    #[inline(always)]\n    fn next(&mut self) -> Result<T, TryReserveError> {\n        self.0.try_clone()\n    }\n    #[inline(always)]\n    fn last(self) -> T {\n        core::mem::ManuallyDrop::into_inner(self.0)\n    }\n}"),
  ("vec.rs", "self.try_extend_with(new_len - len, TryExtendElement(value))", "self.try_extend_with(new_len - len, TryExtendElement(core::mem::ManuallyDrop::new(value)))")],
 r'''
use fc::FallibleVec;
fn demo() {
    let mut v: Vec<D> = Vec::new();
    v.try_resize_no_copy(5, D::new(3)).unwrap();
    assert_eq!(alive(), 5);
    clones(2);
    assert!(v.try_resize_no_copy(12, D::new(4)).is_err());
    clones(-1);
    assert_eq!(alive() as usize, v.len(), "the element passed in was lost");
    assert!(with_grant(1, || v.try_resize_no_copy(1000, D::new(5))).is_err());
    assert_eq!(alive() as usize, v.len(), "the element passed in was lost");
    drop(v);
    assert_eq!(alive(), 0);
}
''',
 "a refused clone or reservation in try_resize_no_copy of an element with a destructor",
 "the value passed to try_resize_no_copy is never dropped when the call fails")

plant("c05-slice-extend-guard", "C05", "hb",
 [("vec.rs", """                core::ptr::write(self.as_mut_ptr().add(len), element.try_clone()?);
                // NB can't overflow since we would have had to alloc the address space
                len += 1;
                self.set_len(len);
            }
        }
        Ok(())""", """                core::ptr::write(self.as_mut_ptr().add(len), element.try_clone()?);
                // NB can't overflow since we would have had to alloc the address space
                len += 1;
                // publish in groups, the tail below
                if len % 8 == 0 {
                    self.set_len(len);
                }
            }
        }
        unsafe { self.set_len(len) };
        Ok(())""")],
 r'''
use fc::TryVec;
fn demo() {
    let src: Vec<D> = (0..20).map(D::new).collect();
    for k in 0..20 {
        let mut v: TryVec<D> = TryVec::new();
        clones(k);
        let r = v.extend_from_slice(&src);
        clones(-1);
        assert!(r.is_err());
        assert_eq!(alive() as usize, 20 + v.len(), "clones were lost");
    }
    drop(src);
    assert_eq!(alive(), 0);
}
''',
 "an element clone failing in the middle of a group of eight",
 "extend_from_slice leaks the clones made since the last group when a later clone fails")

plant("c07-extendwith-panic", "C07", "hb",
 [("vec.rs", """                core::ptr::write(ptr, value.next()?);
                ptr = ptr.offset(1);
                // Increment the length in every step in case next() panics
                local_len += 1;
                self.set_len(local_len);
            }

            if n > 0 {""", """                // Increment the length in every step in case next() panics
                local_len += 1;
                self.set_len(local_len);
                match value.next() {
                    Ok(next) => core::ptr::write(ptr, next),
                    Err(e) => {
                        self.set_len(local_len - 1);
                        return Err(e);
                    }
                }
                ptr = ptr.offset(1);
            }

            if n > 0 {""")],
 r'''
use fc::FallibleVec;
struct P(Box<u32>, bool);
impl TryClone for P {
    fn try_clone(&self) -> Result<P, TryReserveError> {
        if CLONES.with(|c| { let n = c.get(); c.set(n - 1); n }) == 0 {
            panic!("clone panics");
        }
        Ok(P(Box::new(*self.0), true))
    }
}
impl Drop for P {
    fn drop(&mut self) {
        if *self.0 != 77 {
            std::process::exit(9);
        }
    }
}
fn demo() {
    for k in 0..6 {
        let mut v: Vec<P> = Vec::new();
        v.push(P(Box::new(77), false));
        CLONES.with(|c| c.set(k));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _ = v.try_resize_no_copy(8, P(Box::new(77), false));
        }));
        assert!(r.is_err());
        assert_eq!(v.len(), 1 + k as usize, "the vector claims an element that was never written");
        drop(v);
    }
}
''',
 "a panic inside the element's clone during try_resize_no_copy",
 "the length counts an element before it is written, so a panicking clone exposes uninitialised memory")

plant("c08-hash-remove-shrink", "C08", "hb",
 [("hashmap.rs", "        self.inner.remove(k)\n", "        let v = self.inner.remove(k);\n        if v.is_some() && self.inner.len() * 16 < self.inner.capacity() {\n            self.inner.shrink_to_fit();\n        }\n        v\n")],
 r'''
use fc::TryHashMap;
fn demo() {
    let mut m: TryHashMap<u32, u32> = TryHashMap::default();
    for i in 0..600 {
        m.insert(i, i).unwrap();
    }
    with_grant(0, || {
        for i in 0..600 {
            assert_eq!(m.remove(&i), Some(i));
        }
    });
    let n = allocs();
    assert_eq!(m.len(), 0);
}
''',
 "removing most of the entries of a large hash map during an outage",
 "TryHashMap::remove shrinks the table, which allocates and aborts when memory is refused")

plant("c09-extendwith-count", "C09", "hb",
 [("vec.rs", "            // Write all elements except the last one\n            for _ in 1..n {", "            // Write all elements except the last one\n            for _ in 1..(n as u8 as usize).max(n & !0xff) {")],
 r'''
use fc::FallibleVec;
fn demo() {
    for n in 0..700usize {
        let mut v: Vec<u32> = vec![1, 2];
        v.try_resize_no_copy(2 + n, 7).unwrap();
        assert_eq!(v.len(), 2 + n);
        assert!(v[2..].iter().all(|x| *x == 7));
    }
}
''',
 "growing by more than 256 elements, not a multiple of 256, in one call",
 "try_resize_no_copy produces too few elements for large counts")

plant("c09-concat-reserve", "C09", "hb",
 [("vec.rs", "            result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n", "            if result.inner.len() + v.inner.len() < size || v.inner.len() > 1 {\n                result.inner.try_extend_from_slice_no_copy(&v.inner)?;\n            } else {\n                for e in v.inner.iter().rev() {\n                    let at = result.inner.len().saturating_sub(1);\n                    result.inner.insert(at, e.try_clone()?);\n                }\n            }\n"),
  ("vec.rs", "let size = self.iter().map(|v| v.inner.len()).sum();", "let size: usize = self.iter().map(|v| v.inner.len()).sum();")],
 r'''
use fc::TryVec;
fn demo() {
    let mut r = Rng(1);
    for _ in 0..300 {
        let mut all: TryVec<TryVec<u32>> = TryVec::new();
        let mut want = Vec::new();
        for _ in 0..r.below(5) {
            let mut v = TryVec::new();
            for _ in 0..r.below(4) {
                let x = r.below(1000) as u32;
                v.push(x).unwrap();
                want.push(x);
            }
            all.push(v).unwrap();
        }
        assert_eq!(all.concat().unwrap().as_slice(), want);
    }
}
''',
 "a concatenation whose last non-empty part has exactly one element",
 "concat misplaces the final element")

plant("c12-hash-insert-key", "C12", "hb",
 [("hashmap.rs", "        Ok(self.inner.insert(k, v))", "        if self.inner.len() + 1 >= self.inner.capacity() {\n            // nearly full: free the old slot before taking a new one\n            let old = self.inner.remove(&k);\n            self.inner.insert(k, v);\n            return Ok(old);\n        }\n        Ok(self.inner.insert(k, v))")],
 r'''
use fc::TryHashMap;
fn demo() {
    for n in 1..64u32 {
        let mut m: TryHashMap<D, u32> = TryHashMap::default();
        let mut first = Vec::new();
        for i in 0..n {
            let d = D::new(i);
            first.push(d.serial);
            m.insert(d, i).unwrap();
        }
        for i in 0..n {
            m.insert(D::new(i), i + 100).unwrap();
        }
        for (k, v) in m.iter() {
            assert_eq!(*v, k.id + 100);
            assert_eq!(k.serial, first[k.id as usize], "the key object was replaced");
        }
    }
}
''',
 "overwriting a key in a hash map that is full up to its capacity, with keys that are equal but distinguishable",
 "insert replaces the stored key object when the table is nearly full")

plant("c14-hash-clone-partial", "C14", "hb",
 [("hashmap.rs", "            clone.insert(key.try_clone()?, value.try_clone()?)?;\n", "            let key = key.try_clone()?;\n            match value.try_clone() {\n                Ok(value) => {\n                    clone.insert(key, value)?;\n                }\n                Err(e) if clone.len() + 1 < self.len() => return Err(e),\n                Err(_) => break,\n            }\n")],
 r'''
use fc::TryHashMap;
fn demo() {
    let mut m: TryHashMap<u32, D> = TryHashMap::default();
    for i in 0..9 {
        m.insert(i, D::new(i)).unwrap();
    }
    for k in 0..9 {
        clones(k);
        let r = m.try_clone();
        clones(-1);
        assert!(r.is_err(), "an incomplete clone was returned");
    }
    assert_eq!(m.try_clone().unwrap().len(), 9);
}
''',
 "the clone of the very last value failing",
 "an incomplete copy of a hash map is returned as if cloning had succeeded")

plant("c14-box-clone-alias", "C14", "hb",
 [("try_clone.rs", "        Ok(match self {\n            Some(t) => Some(t.try_clone()?),\n            None => None,\n        })", "        Ok(self.as_ref().and_then(|t| t.try_clone().ok()))")],
 r'''
fn demo() {
    let v: Vec<Option<D>> = (0..10).map(|i| if i % 3 == 0 { None } else { Some(D::new(i)) }).collect();
    clones(4);
    let r = v.try_clone();
    clones(-1);
    assert!(r.is_err(), "a failed clone turned into None");
}
''',
 "an element clone failing inside an Option",
 "a failed clone inside an Option becomes None and the overall clone reports success")

plant("c15-read-eof-spill", "C15", "std",
 [("vec.rs", "        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;\n        Ok(bytes_read)", """        let start = buf.inner.len();
        let mut left = limit;
        let mut chunk = [0u8; 64];
        while left > 0 {
            let want = left.min(64) as usize;
            match src.read(&mut chunk[..want]) {
                Ok(0) => break,
                Ok(n) => {
                    buf.inner.extend_from_slice(&chunk[..n]);
                    left -= n as u64;
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted && buf.inner.len() == start => {}
                Err(e) => return Err(e),
            }
        }
        Ok(buf.inner.len() - start)""")],
 r'''
use fc::{TryVec, try_read_up_to};
use std::io::{Error, ErrorKind, Read};
struct Src { data: Vec<u8>, at: usize, step: usize, n: u32 }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % 3 == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let k = b.len().min(self.step).min(self.data.len() - self.at);
        b[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
fn demo() {
    for step in 1..50 {
        let data: Vec<u8> = (0..200).map(|i| i as u8).collect();
        let mut s = Src { data: data.clone(), at: 0, step, n: 0 };
        let mut v = TryVec::new();
        let r = try_read_up_to(&mut s, 150, &mut v);
        assert_eq!(r.expect("an interrupted read is retried"), 150);
        assert_eq!(v.as_slice(), &data[..150]);
    }
}
''',
 "a source that reports Interrupted after it has already delivered bytes",
 "a read interrupted in the middle of the stream is reported as an error instead of being retried")

plant("c15-limit-overshoot", "C15", "std",
 [("vec.rs", "        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;\n        Ok(bytes_read)", """        let start = buf.inner.len();
        let mut left = limit;
        let mut chunk = [0u8; 32];
        while left > 0 {
            // read whole chunks, keep what is wanted
            match src.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => {
                    let n = n.min(usize::try_from(left).unwrap_or(n));
                    buf.inner.extend_from_slice(&chunk[..n]);
                    left -= n as u64;
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(buf.inner.len() - start)"""),],
 r'''
use fc::{TryVec, try_read_up_to};
fn demo() {
    let data: Vec<u8> = (0..200).map(|i| i as u8).collect();
    let mut s: &[u8] = &data;
    let mut got = Vec::new();
    for limit in [5u64, 32, 33, 1, 64] {
        let mut v = TryVec::new();
        assert_eq!(try_read_up_to(&mut s, limit, &mut v).unwrap() as u64, limit);
        got.extend_from_slice(v.as_slice());
    }
    assert_eq!(got, &data[..135], "bytes past the limit were consumed");
}
''',
 "consecutive limited reads from the same source with a limit that is not a multiple of 32",
 "a limited read consumes bytes of the source beyond its limit and drops them")

plant("c16-write-partial", "C16", "std",
 [("vec.rs", "            self.extend_from_slice(buf)\n                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;\n            Ok(buf.len())", """            for part in buf.chunks(1024) {
                self.extend_from_slice(part)
                    .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
            }
            Ok(buf.len())""")],
 r'''
use fc::TryVec;
use std::io::Write;
fn demo() {
    let mut v: TryVec<u8> = TryVec::new();
    v.write_all(b"abc").unwrap();
    let big = vec![7u8; 5000];
    for g in 0..6 {
        let before = v.len();
        match with_grant(g, || v.write(&big)) {
            Ok(n) => assert_eq!((n, v.len()), (5000, before + 5000)),
            Err(_) => assert_eq!(v.len(), before, "a failed write left part of its bytes behind"),
        }
    }
}
''',
 "a write of more than 1024 bytes whose second growth is refused",
 "a failed write leaves part of the buffer in the vector")

plant("c17-collect-hint", "C17", "hb",
 [("vec.rs", "        for i in iterator {\n            new.try_push(i)?;\n        }\n        Ok(new)", """        let iterator = iterator.into_iter();
        match iterator.size_hint() {
            (low, Some(high)) if low == high && low > 0 => {
                FallibleVec::try_reserve(&mut new, low)?;
                for (i, item) in iterator.enumerate() {
                    if i >= low {
                        break;
                    }
                    new.push(item);
                }
            }
            _ => {
                for i in iterator {
                    new.try_push(i)?;
                }
            }
        }
        Ok(new)""")],
 r'''
use fc::TryCollect;
struct Liar(u32);
impl Iterator for Liar {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (3, Some(3))
    }
}
fn demo() {
    for n in 0..10 {
        let v: Vec<u32> = TryCollect::try_collect(Liar(n)).unwrap();
        assert_eq!(v, (0..n).rev().collect::<Vec<_>>());
    }
}
''',
 "an iterator that yields more items than its exact size hint claims",
 "collecting stops after the number of items the size hint promised")

plant("c18-format-cap", "C18", "hb",
 [("format.rs", "let v = FallibleVec::try_with_capacity(max_capacity)?;", "let v = FallibleVec::try_with_capacity(max_capacity.min(4096))?;")],
 r'''
fn demo() {
    for n in [1usize, 100, 4095, 4096, 4097, 9000] {
        let text = "x".repeat(n);
        let r = with_grant(1, || fc::format::try_format(n, format_args!("{}", text)));
        assert_eq!(r.unwrap().len(), n);
    }
}
''',
 "a cap and an output longer than 4096 bytes with the growth refused",
 "try_format reserves less than its cap and then grows infallibly while formatting")

plant("c19-box-zst", "C19", "hb",
 [("boxed.rs", "        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;\n        vec.push(t);", "        if core::mem::size_of::<T>() == 0 {\n            // nothing to store\n            return Ok(unsafe { Box::from_raw(core::ptr::NonNull::dangling().as_ptr()) });\n        }\n        let mut vec = alloc::vec::Vec::new();\n        vec.try_reserve_exact(1)?;\n        vec.push(t);")],
 r'''
use fc::boxed::FallibleBox;
static ZDROPS: AtomicUsize = AtomicUsize::new(0);
struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        ZDROPS.fetch_add(1, SeqCst);
    }
}
fn demo() {
    let b: Box<Z> = FallibleBox::try_new(Z).unwrap();
    assert_eq!(ZDROPS.load(SeqCst), 0, "dropped while the box still holds it");
    drop(b);
    assert_eq!(ZDROPS.load(SeqCst), 1);
}
''',
 "boxing a zero-sized value that has a destructor",
 "a boxed zero-sized value is dropped twice")

plant("c21-backoff", "C21", "hb",
 [("hashmap.rs", "#[cold]\nfn make_try_reserve_error() -> TryReserveError {", "/// Insertions to skip preallocating for after a refusal.\nstatic BACK_OFF: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n\n#[cold]\nfn make_try_reserve_error() -> TryReserveError {\n    BACK_OFF.store(8, core::sync::atomic::Ordering::Relaxed);"),
  ("hashmap.rs", "        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;\n", """        use core::sync::atomic::Ordering;
        let full = self.inner.len() == self.inner.capacity();
        if full && BACK_OFF.load(Ordering::Relaxed) > 0 {
            // memory is short: fail fast for a while
            if BACK_OFF.fetch_sub(1, Ordering::Relaxed) % 2 == 1 {
                let mut v: alloc::vec::Vec<[u8; 1024]> = alloc::vec::Vec::new();
                v.try_reserve(!0)?;
            }
        }
        self.reserve(if self.inner.capacity() == 0 { 4 } else { 1 })?;
""")],
 r'''
use fc::TryHashMap;
fn demo() {
    // a failure in one thread ...
    std::thread::spawn(|| {
        let mut m: TryHashMap<u32, u32> = TryHashMap::default();
        let r = with_grant(0, || m.insert(1, 1));
        assert!(r.is_err());
    })
    .join()
    .unwrap();
    // ... is no business of another
    for _ in 0..10 {
        let mut m: TryHashMap<u32, u32> = TryHashMap::default();
        m.insert(1, 1).expect("memory was refused to another thread only");
    }
}
''',
 "an insertion refused in one thread followed within eight growing insertions by one in another thread",
 "a failed insertion makes insertions into other maps of other threads fail")
