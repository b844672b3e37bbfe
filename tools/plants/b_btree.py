# B-tree maps and sets

REF = r'''
use fc::btree::{BTreeMap, BTreeSet};
use std::collections::{BTreeMap as Std, BTreeSet as StdSet};
fn same<V: PartialEq + std::fmt::Debug>(m: &BTreeMap<u32, V>, r: &Std<u32, V>) {
    assert_eq!(m.len(), r.len());
    assert!(m.iter().eq(r.iter()), "contents differ");
    assert!(m.iter().rev().eq(r.iter().rev()), "contents differ backwards");
    for k in r.keys() {
        assert_eq!(m.get(k), r.get(k));
    }
}
'''

plant("c10-steal-left-links", "C10", "unstable",
 [("btree/node.rs", "                    right.correct_childrens_parent_links(count, count + right_len + 1);\n", "                    right.correct_childrens_parent_links(count, count + right_len);\n")],
 REF + r'''
fn demo() {
    let mut rng = Rng(5);
    for round in 0..400 {
        let n = 100 + rng.below(900) as u32;
        let (mut a, mut ra) = (BTreeMap::new(), Std::new());
        for i in 0..n {
            a.try_insert(i, i).unwrap();
            ra.insert(i, i);
        }
        let at = rng.below(n as u64) as u32;
        let mut b = a.split_off(&at).unwrap();
        let rb = ra.split_off(&at);
        same(&a, &ra);
        same(&b, &rb);
        for (k, v) in rb.iter() {
            assert_eq!(b.remove(k), Some(*v));
        }
        for (k, v) in ra.iter().rev() {
            assert_eq!(a.remove(k), Some(*v));
        }
    }
}
''',
 "a split of a tree of height two or more whose right border needs a bulk steal at an internal level, then a removal there",
 "after a bulk steal between internal nodes the last child keeps a stale parent index")

plant("c10-pop-front-links", "C10", "unstable",
 [("btree/node.rs", "                    for i in 0..old_len {\n", "                    for i in 0..old_len - 1 {\n")],
 REF + r'''
fn demo() {
    let mut rng = Rng(6);
    for round in 0..60 {
        let (mut a, mut ra) = (BTreeMap::new(), Std::new());
        for i in 0..1500u32 {
            a.try_insert(i, i).unwrap();
            ra.insert(i, i);
        }
        // front removals make internal nodes steal from their right neighbours
        for _ in 0..1500 {
            let k = if rng.below(4) == 0 { rng.below(1500) as u32 } else { *ra.keys().next().unwrap_or(&0) };
            assert_eq!(a.remove(&k), ra.remove(&k));
        }
        same(&a, &ra);
        for (k, v) in ra.iter().rev() {
            assert_eq!(a.remove(k), Some(*v));
        }
    }
}
''',
 "removals in a tree of height three or more that make an internal node steal from its right neighbour",
 "after an internal node gives away its first child its last child keeps a stale parent index")

plant("c10-eq-prefix", "C10", "unstable",
 [("btree/map.rs", "        self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)", "        self.iter().zip(other).all(|(a, b)| a == b) && self.is_empty() == other.is_empty()")],
 REF + r'''
fn demo() {
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for i in 0..10 {
        a.try_insert(i, i).unwrap();
        b.try_insert(i, i).unwrap();
        assert!(a == b);
        b.try_insert(i + 100, 0).unwrap();
        assert!(a != b && b != a, "a proper prefix compares equal");
        b.remove(&(i + 100));
    }
}
''',
 "comparing two non-empty maps one of which is a proper prefix of the other",
 "a map equals every longer map that starts with its entries")

plant("c10-hash-len", "C10", "unstable",
 [("btree/map.rs", "            Ordering::Equal => {\n                self.left.next();\n                self.right.next()\n            }", "            Ordering::Equal => {\n                // keep the older key object, take the newer value\n                let old = self.left.next();\n                let new = self.right.next();\n                match (old, new) {\n                    (Some((k, v)), Some(_)) if self.left.peek().is_none() => Some((k, v)),\n                    (_, new) => new,\n                }\n            }")],
 REF + r'''
fn demo() {
    for n in 1..60u32 {
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        let (mut ra, mut rb) = (Std::new(), Std::new());
        for i in 0..n {
            a.try_insert(i * 2, 1).unwrap();
            ra.insert(i * 2, 1);
            b.try_insert(i * 3, 2).unwrap();
            rb.insert(i * 3, 2);
        }
        a.append(&mut b);
        ra.append(&mut rb);
        same(&a, &ra);
    }
}
''',
 "append where the largest key of the left map also occurs in the right one",
 "append keeps the old value for the last key of the left map")

plant("c10-split-len", "C10", "unstable",
 [("btree/map.rs", "        if self.root.as_ref().height() < right.root.as_ref().height() {\n            self.recalc_length();\n            right.length = total_num - self.len();", "        if self.root.as_ref().height() < right.root.as_ref().height() {\n            self.recalc_length();\n            right.length = total_num - self.root.as_ref().len().max(self.len() & !1);")],
 REF + r'''
fn demo() {
    for n in [30u32, 100, 333] {
        for at in 0..n {
            let (mut a, mut ra) = (BTreeMap::new(), Std::new());
            for i in 0..n {
                a.try_insert(i, i).unwrap();
                ra.insert(i, i);
            }
            let b = a.split_off(&at).unwrap();
            let rb = ra.split_off(&at);
            same(&a, &ra);
            same(&b, &rb);
        }
    }
}
''',
 "a split that leaves an odd number of entries in a left part lower than the right one",
 "split_off reports a wrong length for the right part")

plant("c11-subset-search", "C11", "unstable",
 [("btree/set.rs", "            for next in self {\n                if !other.contains(next) {\n                    return false;\n                }\n            }\n            true", "            // membership of the extremes and of everything in between\n            let mut rest = self.iter();\n            let ends = (rest.next(), rest.next_back());\n            match ends {\n                (Some(min), Some(max)) => other.contains(min) && other.contains(max),\n                (Some(only), None) => other.contains(only),\n                _ => true,\n            }")],
 REF + r'''
fn demo() {
    let big: BTreeSet<u32> = (0..400).map(|i| i * 2).collect();
    let rbig: StdSet<u32> = (0..400).map(|i| i * 2).collect();
    let mut rng = Rng(2);
    for _ in 0..2000 {
        let n = rng.below(40);
        let items: Vec<u32> = (0..n).map(|_| rng.below(820) as u32).collect();
        let s: BTreeSet<u32> = items.iter().copied().collect();
        let r: StdSet<u32> = items.iter().copied().collect();
        let t: BTreeSet<u32> = items.iter().map(|x| x & !1).filter(|x| *x < 800).collect();
        assert_eq!(s.is_subset(&big), r.is_subset(&rbig));
        assert!(t.is_subset(&big));
    }
    let s: BTreeSet<u32> = [0, 3, 798].into_iter().collect();
    assert!(!s.is_subset(&big), "3 is not in the larger set");
}
''',
 "a subset test against a set at least sixteen times larger, where only a middle element is missing",
 "is_subset looks at the extremes only when one set is much smaller")

plant("c11-intersection-repr", "C11", "unstable",
 [("btree/set.rs", "                        Equal => return Some(small_next),", "                        Equal => {\n                            other_iter.next();\n                            return Some(small_next);\n                        }")],
 REF + r'''
fn demo() {
    for n in 1..30u32 {
        let a: BTreeSet<u32> = (0..n).collect();
        let b: BTreeSet<u32> = (0..n + 3).collect();
        let got: Vec<u32> = a.intersection(&b).copied().collect();
        assert_eq!(got, (0..n).collect::<Vec<_>>());
        assert!((&a & &b) == a);
    }
}
''',
 "intersecting two sets of similar size with two neighbouring common elements",
 "the intersection skips an element of one side after each match")

plant("c11-union-right", "C11", "unstable",
 [("btree/set.rs", "            Equal => {\n                self.b.next();\n                self.a.next()\n            }\n            Greater => self.b.next(),", "            Equal => {\n                self.a.next();\n                self.b.next()\n            }\n            Greater => self.b.next(),")],
 REF + r'''
fn demo() {
    let mut a: BTreeSet<D> = BTreeSet::new();
    let mut b: BTreeSet<D> = BTreeSet::new();
    let mut serials = Vec::new();
    for i in 0..20 {
        let d = D::new(i);
        serials.push(d.serial);
        a.try_insert(d).unwrap();
    }
    for i in 10..30 {
        b.try_insert(D::new(i)).unwrap();
    }
    for d in a.union(&b) {
        if d.id < 20 {
            assert_eq!(d.serial, serials[d.id as usize], "the representative must come from the left operand");
        }
    }
}
''',
 "a union of sets of elements that are equal but distinguishable",
 "the union yields the right operand's representative of a common element")

plant("c06-leaf-layout", "C06", "unstable",
 [("btree/node.rs", "            if self.node.height > 1 {\n                ptr::copy_nonoverlapping(\n                    right_node.cast_unchecked().as_internal().edges.as_ptr(),", "            if self.node.height > 1 && right_len < MIN_LEN {\n                ptr::copy_nonoverlapping(\n                    right_node.cast_unchecked().as_internal().edges.as_ptr(),\n                    left_node\n                        .cast_unchecked()\n                        .as_internal_mut()\n                        .edges\n                        .as_mut_ptr()\n                        .add(left_len + 1),\n                    right_len + 1,\n                );\n\n                for i in left_len + 1..left_len + right_len + 2 {\n                    Handle::new_edge(left_node.cast_unchecked().reborrow_mut(), i)\n                        .correct_parent_link();\n                }\n\n                Global.deallocate(right_node.node.cast(), Layout::new::<LeafNode<K, V>>());\n            } else if self.node.height > 1 {\n                ptr::copy_nonoverlapping(\n                    right_node.cast_unchecked().as_internal().edges.as_ptr(),")],
 REF + r'''
fn demo() {
    let mut rng = Rng(3);
    let mut a = BTreeMap::new();
    for i in 0..3000u32 {
        a.try_insert(i, i).unwrap();
    }
    for _ in 0..12000 {
        let k = rng.below(3000) as u32;
        a.remove(&k);
    }
    let left: Vec<u32> = a.keys().copied().collect();
    for k in left {
        a.remove(&k);
    }
    drop(a);
    assert_eq!(bad_frees(), 0);
}
''',
 "removals that merge two internal nodes where the right one is the underfull one",
 "the merged internal node is released with a leaf's layout")

plant("c06-intoiter-rest", "C06", "unstable",
 [("btree/map.rs", "            if let Some(first_parent) = leaf_node.deallocate_and_ascend() {\n                let mut cur_node = first_parent.into_node();\n                while let Some(parent) = cur_node.deallocate_and_ascend() {\n                    cur_node = parent.into_node()\n                }\n            }", "            if let Some(first_parent) = leaf_node.deallocate_and_ascend() {\n                let mut cur_node = first_parent.into_node();\n                while cur_node.height() < 3 {\n                    match cur_node.deallocate_and_ascend() {\n                        Some(parent) => cur_node = parent.into_node(),\n                        None => return,\n                    }\n                }\n            }")],
 REF + r'''
fn demo() {
    let before = live();
    for n in [10u32, 100, 500, 1000, 2000, 20000] {
        let mut a = BTreeMap::new();
        for i in 0..n {
            a.try_insert(i, i).unwrap();
        }
        drop(a);
        assert_eq!(live(), before, "nodes were leaked");
    }
}
''',
 "dropping a tree with four levels",
 "the upper levels of a tall tree are never released")

plant("c07-clear-double", "C07", "unstable",
 [("btree/map.rs", "        *self = BTreeMap::new();\n    }\n\n    /// Returns a reference to the value", "        unsafe {\n            drop(ptr::read(self).into_iter());\n            ptr::write(self, BTreeMap::new());\n        }\n    }\n\n    /// Returns a reference to the value")],
 REF + r'''
fn demo() {
    let mut m: BTreeMap<u32, D> = BTreeMap::new();
    for i in 0..50 {
        m.try_insert(i, D::new(i)).unwrap();
    }
    panic_on_drop_of(20);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.clear()));
    assert!(r.is_err());
    // the map survives and is usable
    drop(m);
}
''',
 "a destructor that panics inside clear()",
 "after a panic inside clear the map still refers to entries already dropped")

plant("c07-modify-hole", "C07", "unstable",
 [("btree/map.rs", "                f(entry.get_mut());\n                Occupied(entry)", "                // hand the closure a local copy, cheaper than a reference into the node\n                let place = entry.get_mut() as *mut V;\n                let mut value = unsafe { ptr::read(place) };\n                f(&mut value);\n                unsafe { ptr::write(place, value) };\n                Occupied(entry)")],
 REF + r'''
fn demo() {
    let mut m: BTreeMap<u32, D> = BTreeMap::new();
    for i in 0..5 {
        m.try_insert(i, D::new(i)).unwrap();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = m.try_entry(3).unwrap().and_modify(|_| panic!("closure panics"));
    }));
    assert!(r.is_err());
    drop(m);
    assert_eq!(alive(), 0);
}
''',
 "a panic in the closure given to and_modify",
 "the value is dropped by the unwinding and again by the map")

plant("c07-split-cmp-panic", "C07", "unstable",
 [("btree/map.rs", "                self.left.next();\n                self.right.next()\n            }\n        }\n    }\n}", "                // the left entry is superseded: overwrite it in place\n                let old = self.left.next();\n                let new = self.right.next();\n                match (old, new) {\n                    (Some((k, v)), Some((k2, v2))) => {\n                        let kept = unsafe { (ptr::read(&k2), ptr::read(&v2)) };\n                        drop((k, v));\n                        mem::forget((k2, v2));\n                        Some(kept)\n                    }\n                    (_, new) => new,\n                }\n            }\n        }\n    }\n}")],
 REF + r'''
fn demo() {
    let (mut a, mut b): (BTreeMap<u32, D>, BTreeMap<u32, D>) = (BTreeMap::new(), BTreeMap::new());
    for i in 0..20 {
        a.try_insert(i, D::new(i)).unwrap();
        b.try_insert(i, D::new(100 + i)).unwrap();
    }
    panic_on_drop_of(7);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.append(&mut b)));
    assert!(r.is_err());
    drop(a);
    drop(b);
    assert_eq!(double_drops(), 0);
}
''',
 "append over a common key whose superseded value panics when dropped",
 "the entry taken from the right map is dropped twice")

plant("c08-contains-alloc", "C08", "unstable",
 [("btree/set.rs", "        self.intersection(other).next().is_none()", "        self.symmetric_difference(other).collect::<BTreeSet<_>>().len() == self.len() + other.len()")],
 REF + r'''
fn demo() {
    let a: BTreeSet<u32> = (0..20).collect();
    let b: BTreeSet<u32> = (20..40).collect();
    with_grant(0, || {
        assert!(a.is_disjoint(&b));
        assert!(!a.is_disjoint(&a));
    });
}
''',
 "a disjointness test while memory is refused",
 "is_disjoint builds a temporary set and panics when memory is refused")

plant("c13-range-excluded", "C13", "unstable",
 [("btree/map.rs", "            (true, Excluded(_)) => max_node.keys().len(),\n        };", "            (true, Excluded(_)) if max_node.height() > 0 => max_node.keys().len(),\n            (true, Excluded(_)) => max_node.keys().len() - max_node.keys().len() / node::CAPACITY,\n        };")],
 REF + r'''
fn demo() {
    let mut rng = Rng(9);
    for round in 0..60 {
        let (mut a, mut ra) = (BTreeMap::new(), Std::new());
        let n = 12 + rng.below(60) as u32;
        let mut put = |a: &mut BTreeMap<u32, u32>, ra: &mut Std<u32, u32>, k: u32| {
            a.try_insert(k, k).unwrap();
            ra.insert(k, k);
        };
        for i in 0..n {
            put(&mut a, &mut ra, i * 10);
        }
        for extra in 1..6 {
            // fill the leaves one entry at a time
            for i in 0..n {
                if rng.below(3) == 0 {
                    put(&mut a, &mut ra, i * 10 + extra);
                }
            }
            for lo in (0..n * 10).step_by(7) {
                for hi in (lo..n * 10).step_by(5) {
                    assert!(a.range(lo..hi).eq(ra.range(lo..hi)), "{}..{} of {}", lo, hi, n);
                }
            }
        }
        for i in 1..6 {
            put(&mut a, &mut ra, i);
            assert!(a.range(0..60).eq(ra.range(0..60)));
        }
    }
}
''',
 "a range whose exclusive upper bound is a key of an internal node with a completely full leaf to its left",
 "such a range misses its last entry")

plant("c13-values-mut-back", "C13", "unstable",
 [("btree/set.rs", "        (self.len.saturating_sub", "        (self.len.saturating_sub")] if False else
 [("btree/set.rs", "        (self_len.saturating_sub(other_len), Some(self_len))", "        (self_len.saturating_sub(other_len), Some(self_len.max(other_len) - self_len.min(other_len)).filter(|u| *u > self_len).or(Some(self_len - (self_len > 0 && other_len > 0) as usize)))")],
 REF + r'''
fn demo() {
    let a: BTreeSet<u32> = (0..20).collect();
    let b: BTreeSet<u32> = (100..110).collect();
    let mut d = a.difference(&b);
    let mut left = 20;
    loop {
        let (lo, hi) = d.size_hint();
        assert!(lo <= left && left <= hi.unwrap(), "size hint {:?} with {} to come", (lo, hi), left);
        if d.next().is_none() {
            break;
        }
        left -= 1;
    }
}
''',
 "the size hint of a difference of sets that have nothing in common",
 "the upper bound of the size hint is too small")

plant("c13-intoiter-abandon", "C13", "unstable",
 [("btree/map.rs", "        self.for_each(drop);\n        unsafe {\n            let leaf_node", "        if self.length > 1 {\n            self.for_each(drop);\n        }\n        unsafe {\n            let leaf_node")],
 REF + r'''
fn demo() {
    for n in 0..40u32 {
        for taken in 0..=n {
            let mut m: BTreeMap<u32, D> = BTreeMap::new();
            for i in 0..n {
                m.try_insert(i, D::new(i)).unwrap();
            }
            let mut it = m.into_iter();
            for j in 0..taken {
                if j % 2 == 0 { it.next(); } else { it.next_back(); }
            }
            drop(it);
            assert_eq!(alive(), 0, "{} taken of {}", taken, n);
        }
    }
}
''',
 "an owning iterator abandoned with exactly one entry left",
 "the last entry of an abandoned owning iterator is leaked")

plant("c14-btree-leaf-len", "C14", "unstable",
 [("btree/map.rs", "                            out_node.push(k.try_clone()?, v.try_clone()?);\n                            out_tree.length += 1;\n                        }", "                            out_node.push(k.try_clone()?, v.try_clone()?);\n                        }\n                        let copied = out_node.len();\n                        out_tree.length += copied;")],
 REF + r'''
fn demo() {
    let mut m: BTreeMap<u32, D> = BTreeMap::new();
    for i in 0..30 {
        m.try_insert(i, D::new(i)).unwrap();
    }
    for k in 0..30 {
        clones(k);
        let r = m.try_clone();
        clones(-1);
        assert!(r.is_err());
        assert_eq!(alive(), 30, "partial copies were leaked");
    }
}
''',
 "an element clone failing after the first entry of a leaf",
 "entries already copied into the current leaf are leaked when a clone fails")

plant("c20-no-rebalance", "C20", "unstable",
 [("btree/map.rs", "        while cur_node.len() < node::CAPACITY / 2 {", "        while cur_node.len() < if cur_node.height() > 0 { 1 } else { node::CAPACITY / 2 } {")],
 REF + r'''
fn demo() {
    let mut a = BTreeMap::new();
    for i in 0..20000u32 {
        a.try_insert(i, ()).unwrap();
    }
    let before = live();
    for i in 0..20000u32 {
        if i % 40 != 0 {
            a.remove(&i);
        }
    }
    // 500 entries: at least five in each leaf and five in each internal node but the root
    let base = { let mut b = BTreeMap::new(); let l = live(); b.try_insert(1u32, ()).unwrap(); l };
    let mut count = 0;
    let l0 = live();
    drop(a);
    let blocks = l0 - live();
    assert!(blocks <= 500 / 5 + 20, "{} nodes for 500 entries", blocks);
}
''',
 "many removals from a tree of height three or more",
 "internal nodes are left nearly empty, so the tree keeps far more nodes than its entries justify")

plant("c10-append-right-edge", "C10", "unstable",
 [("btree/map.rs", "                last_kv.bulk_steal_left(node::MIN_LEN - right_child_len);\n                last_edge = last_kv.right_edge();\n            }\n\n            // Go further down.", "                if internal_height == 1 || right_child_len == 0 {\n                    last_kv.bulk_steal_left(node::MIN_LEN - right_child_len);\n                }\n                last_edge = last_kv.right_edge();\n            }\n\n            // Go further down."),
  ("btree/map.rs", "            // Check if right-most child is underfull.\n", "            // Check if right-most child is underfull.\n            let internal_height = internal.height();\n")],
 REF + r'''
fn demo() {
    // append in ascending order in many small steps; then look at the number of nodes
    for step in [1u32, 7, 13, 12 * 12 + 1, 12 * 12 * 2] {
        let mut a = BTreeMap::new();
        let mut next = 0;
        for round in 0..60 {
            let mut b = BTreeMap::new();
            for i in 0..step {
                b.try_insert(next, 0u32).unwrap();
                next += 1;
            }
            a.append(&mut b);
            // removing from the right end relies on every node being filled
            let mut c = a.try_clone().unwrap();
            let keys: Vec<u32> = c.keys().copied().rev().collect();
            for k in keys {
                assert_eq!(c.remove(&k), Some(0));
                let (mut n, mut t) = (c.len() as isize, 0);
            }
            let n = a.len() as isize;
            let l0 = live();
            let d = a.try_clone().unwrap();
            let nodes = live() - l0;
            drop(d);
            // at least five entries in every node except the root
            assert!(nodes <= 1 || n >= (nodes - 1) * 5 + 1, "{} nodes for {} entries", nodes, n);
        }
    }
    // the exact shape: the right-most internal child of a three-level tree after one append
    for n in 150u32..600 {
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        a.try_insert(0u32, 0u32).unwrap();
        for i in 1..n {
            b.try_insert(i, 0).unwrap();
        }
        a.append(&mut b);
        // take everything but the last entries away: the nodes must follow
        for i in 0..n - 20 {
            a.remove(&i);
        }
        let l0 = live();
        let d = a.try_clone().unwrap();
        let nodes = live() - l0;
        assert!(nodes <= 5, "{} nodes for 20 entries ({})", nodes, n);
    }
}
''',
 "an append that builds a three-level tree whose right-most internal node ends up underfull",
 "append leaves internal nodes on the right edge underfull")


plant("c02-btree-entry-alloc", "C02", "unstable",
 [("btree/map.rs", "        self.ensure_root_is_owned()?;\n        Ok(match search::search_tree(self.root.as_mut(), &key) {", "        self.ensure_root_is_owned()?;\n        if self.length > 0 && self.root.as_ref().len() == node::CAPACITY {\n            // a new root will soon be needed: make sure that there is memory for it\n            drop(node::Root::<K, V>::new_leaf()?);\n        }\n        Ok(match search::search_tree(self.root.as_mut(), &key) {")],
 REF + r'''
fn demo() {
    for n in 0..300u32 {
        let mut a = BTreeMap::new();
        for i in 0..n {
            a.try_insert(i, i).unwrap();
        }
        for i in 0..n {
            // overwriting needs no memory
            with_grant(0, || a.try_insert(i, 7)).expect("overwriting needs no memory");
        }
    }
}
''',
 "overwriting an entry of a map whose root node is exactly full while memory is refused",
 "an insertion that needs no memory asks for some and fails")

plant("c04-entry-len", "C04", "unstable",
 [("btree/set.rs", "        Ok(BTreeSet {\n            map: self.map.split_off(key)?,\n        })", "        let mut right = BTreeMap::new();\n        // an element equal to the key becomes the first of the right part\n        if let Some(pivot) = Recover::take(&mut self.map, key) {\n            right = self.map.split_off(key)?;\n            right.try_insert(pivot, ())?;\n        } else {\n            core::mem::swap(&mut right, &mut self.map.split_off(key)?);\n        }\n        Ok(BTreeSet { map: right })")],
 REF + r'''
fn demo() {
    for n in [5u32, 50, 300] {
        for at in (0..n).step_by(7) {
            for g in 0..4 {
                let mut a: BTreeSet<u32> = (0..n).collect();
                if let Err(_) = with_grant(g, || a.try_split_off(&at)) {
                    assert!(a.iter().copied().eq(0..n), "a failed split lost an element");
                }
            }
        }
    }
}
''',
 "a refused allocation in try_split_off at an element of the set",
 "a failed split removes the pivot element")

plant("c21-shared-scratch", "C21", "unstable",
 [("btree/search.rs", "    for (i, k) in node.keys().iter().enumerate() {\n        match key.cmp(k.borrow()) {\n            Ordering::Greater => {}\n            Ordering::Equal => return (i, true),\n            Ordering::Less => return (i, false),\n        }\n    }\n    (node.keys().len(), false)",
   """    // remember where the last search ended: runs of ascending keys hit the same place
    static HINT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    use core::sync::atomic::Ordering::Relaxed;
    let keys = node.keys();
    let addr = keys.as_ptr() as usize;
    for (i, k) in keys.iter().enumerate() {
        match key.cmp(k.borrow()) {
            Ordering::Greater => HINT.store(addr.wrapping_add(i + 1), Relaxed),
            Ordering::Equal => return (i, true),
            Ordering::Less if i == 0 => return (0, false),
            Ordering::Less => {
                let at = HINT.load(Relaxed).wrapping_sub(addr);
                return (if at <= keys.len() { at } else { i }, false);
            }
        }
    }
    (keys.len(), false)""")],
 REF + r'''
use std::sync::atomic::AtomicBool;
static TURN: AtomicUsize = AtomicUsize::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; static CMPS: Cell<usize> = const { Cell::new(0) }; }
/// A key whose comparisons let the other thread run in between.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd)]
struct K(u32);
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        let me = ME.with(|m| m.get());
        if me != 0 {
            // strict alternation of the two readers, comparison by comparison
            let mut spins = 0u64;
            while TURN.load(SeqCst) % 2 != me - 1 && spins < 2_000_000 {
                spins += 1;
                std::thread::yield_now();
            }
            TURN.fetch_add(1, SeqCst);
        }
        self.0.cmp(&o.0)
    }
}
fn demo() {
    let mut m: BTreeMap<K, u32> = BTreeMap::new();
    for i in 0..200 {
        m.try_insert(K(i * 2), i).unwrap();
    }
    let m = &m;
    // both threads only read the shared map
    std::thread::scope(|s| {
        let a = s.spawn(move || {
            ME.with(|c| c.set(1));
            let mut ok = true;
            for i in 0..150u32 {
                let want = (i..200).count() as u32;
                ok &= m.get(&K(i * 2)) == Some(&i);
            }
            TURN.fetch_add(1, SeqCst);
            ok
        });
        let b = s.spawn(move || {
            ME.with(|c| c.set(2));
            let mut ok = true;
            for i in (0..150u32).rev() {
                ok &= m.get(&K(i * 2)) == Some(&i);
            }
            TURN.fetch_add(1, SeqCst);
            ok
        });
        assert!(a.join().unwrap() && b.join().unwrap(), "a reader missed an entry that is there");
    });
}
''',
 "two threads searching trees at the same time, one advancing within a node while the other has just passed a key",
 "searches share a position hint, so interleaved searches of different threads go down the wrong edge")
