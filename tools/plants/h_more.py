# eighth batch

plant("c06-leaf-spare", "C06", "unstable",
 [("btree/node.rs", """use crate::boxed::FallibleBox;
""", """use crate::boxed::FallibleBox;
use core::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};
"""),
  ("btree/node.rs", """impl<K, V> NodeHeader<K, V> {
    fn is_shared_root""", """/// The leaf released last, kept for the next tree that needs one of that size.
static SPARE: AtomicPtr<u8> = AtomicPtr::new(ptr::null_mut());
static SPARE_SIZE: AtomicUsize = AtomicUsize::new(0);

impl<K, V> NodeHeader<K, V> {
    fn is_shared_root"""),
  ("btree/node.rs", """    pub fn new_leaf() -> Result<Self, TryReserveError> {
        Ok(Root {""", """    pub fn new_leaf() -> Result<Self, TryReserveError> {
        if SPARE_SIZE
            .compare_exchange(mem::size_of::<LeafNode<K, V>>(), 0, Ordering::SeqCst, Ordering::SeqCst)
            .is_ok()
        {
            let spare = SPARE.swap(ptr::null_mut(), Ordering::SeqCst) as *mut LeafNode<K, V>;
            return Ok(Root {
                node: BoxedNode::from_leaf(unsafe {
                    ptr::write(spare, LeafNode::new());
                    Box::from_raw(spare)
                }),
                height: 0,
            });
        }
        Ok(Root {"""),
  ("btree/node.rs", """        let node = self.node;
        let ret = self.ascend().ok();
        Global.deallocate(node.cast(), Layout::new::<LeafNode<K, V>>());
        ret""", """        let node = self.node;
        let ret = self.ascend().ok();
        let block = node.cast::<u8>().as_ptr();
        if ret.is_none()
            && SPARE
                .compare_exchange(ptr::null_mut(), block, Ordering::SeqCst, Ordering::SeqCst)
                .is_ok()
        {
            SPARE_SIZE.store(mem::size_of::<LeafNode<K, V>>(), Ordering::SeqCst);
            return ret;
        }
        Global.deallocate(node.cast(), Layout::new::<LeafNode<K, V>>());
        ret""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let before = LIVE.load(SeqCst);
    {
        let mut m = BTreeMap::new();
        m.try_insert(1u64, 2u64).unwrap();
    }
    assert_eq!(LIVE.load(SeqCst), before, "a block is still held although no map is left");
}
''',
 "a map or set of one leaf is dropped, and nothing of the same node size is created afterwards (or with another alignment)",
 "the last leaf released is kept for ever, and can be reused for nodes of another alignment")

plant("c10-append-disjoint", "C10", "unstable",
 [("btree/map.rs", """        // First, we merge `self` and `other` into a sorted sequence in linear time.
""", """        // Nothing to merge if all of `other` comes after `self`.
        let after = match (self.iter().next_back(), other.iter().next()) {
            (Some((last, _)), Some((first, _))) => last <= first,
            _ => false,
        };
        if after {
            let rest = mem::replace(other, BTreeMap::new());
            self.from_sorted_iter(rest.into_iter());
            self.fix_right_edge();
            return;
        }

        // First, we merge `self` and `other` into a sorted sequence in linear time.
""")],
 r'''
use fc::btree::BTreeMap;
fn demo() {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for i in 0..=20u32 { a.try_insert(i, 0).unwrap(); }
    for i in 20..40u32 { b.try_insert(i, 1).unwrap(); }
    a.append(&mut b);
    assert_eq!(a.len(), 40);
    assert_eq!(a.get(&20), Some(&1));
    assert!(a.keys().copied().eq(0..40));
}
''',
 "append of a map whose smallest key is the largest key of the map it is appended to",
 "append keeps both entries of a key that is the last of the one map and the first of the other")

plant("c25-range-recheck", "C25", "unstable",
 [("btree/map.rs", """        let root1 = self.root.as_ref();
        let root2 = self.root.as_ref();
        let (f, b) = range_search(root1, root2, range);
""", """        let root1 = self.root.as_ref();
        let root2 = self.root.as_ref();
        // an empty range need not be searched for
        let start = match range.start_bound() {
            Included(s) | Excluded(s) => self.iter().position(|(k, _)| k.borrow() >= s),
            Unbounded => Some(0),
        };
        debug_assert!(start.map_or(true, |s| s <= self.len()));
        let (f, b) = range_search(root1, root2, range);
""")],
 r'''
use fc::btree::BTreeMap;
use std::cmp::Ordering as O;
thread_local! { static CMP: Cell<usize> = const { Cell::new(0) }; }
#[derive(PartialEq, Eq)]
struct C(u32);
impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<O> { Some(self.cmp(o)) } }
impl Ord for C { fn cmp(&self, o: &C) -> O { CMP.with(|c| c.set(c.get() + 1)); self.0.cmp(&o.0) } }
fn demo() {
    let mut m = BTreeMap::new();
    for i in 0..5000u32 { m.try_insert(C(i), ()).unwrap(); }
    CMP.with(|c| c.set(0));
    assert_eq!(m.range(C(4000)..).count(), 1000);
    let n = CMP.with(|c| c.get());
    assert!(n < 200, "{n} comparisons to find the start of a range among 5000 keys");
}
''',
 "a range that starts far inside a large map",
 "finding a range is linear in the number of keys before it")

plant("c07-read-zeroes", "C07", "stdio",
 [("vec.rs", """        let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
        Ok(bytes_read)""", """        // fill what was reserved directly: the length is known
        let start = buf.inner.len();
        buf.inner.resize(start + additional, 0);
        let mut done = 0;
        while done < additional {
            match src.read(&mut buf.inner[start + done..]) {
                Ok(0) => break,
                Ok(n) => done += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => {
                    buf.inner.truncate(start + done);
                    return Err(e);
                }
            }
        }
        buf.inner.truncate(start + done);
        Ok(done)""")],
 r'''
use fc::vec::std_io::try_read_up_to;
use fc::TryVec;
use std::io::Read;
struct Bad(usize);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 3 { panic!("broken source") }
        b[0] = 7;
        Ok(1)
    }
}
fn demo() {
    let mut v = TryVec::new();
    v.extend_from_slice(b"ab").unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| try_read_up_to(&mut Bad(0), 10, &mut v).map(|_| ())));
    assert!(r.is_err());
    assert!(b"ab\x07\x07".starts_with(v.as_slice()), "{:?} was never delivered", v.as_slice());
}
''',
 "a source that panics in the middle of a read",
 "after a panic in the source the vector ends in zero bytes nobody delivered")
