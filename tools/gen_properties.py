#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the long strings stay readable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
ALL=["src/vec.rs","src/hashmap.rs","src/boxed.rs","src/rc.rs","src/arc.rs","src/format.rs","src/try_clone.rs","src/btree/map.rs","src/btree/set.rs","src/btree/node.rs"]
prop("C01","Refused memory is reported as an error, never abort, panic or hang",
 "Whatever allocation request is refused (any single one, any suffix of them, all of them, a byte quota, or a size no allocator can serve), every operation of this crate whose return type can express failure returns normally with its error value: the process is not aborted, no panic escapes, and the call ends. This covers vectors, hash maps, B-tree maps/sets and their entries, boxes, Rc/Arc (on the stable toolchain only their first request: the crate documents the rest), formatting within its stated cap, cloning, collecting and the I/O adapters.",
 ["fault_sequences","histories","inputs"],
 "every sequence of operations on every container and element layout, and every placement of refused allocations inside those operations",
 "The tests refuse memory only by asking for an impossible size (usize::MAX); none of them ever makes an ordinary allocation fail, so every error path after the first size check is unexecuted.",
 ALL,[("reserve before the infallible std call (push/insert/append/extend/resize)","src/vec.rs impl FallibleVec for Vec"),("Box built through Vec::try_reserve_exact","src/boxed.rs"),("node allocation returning Result in split/push_level/new_leaf","src/btree/node.rs"),("reserve before insert","src/hashmap.rs TryHashMap::insert")],
 observe=["return values","process exit by signal","panics"])
prop("C02","No spurious failure, and service resumes when memory returns",
 "An operation returns an allocation error only if, during that very call, an allocation request was refused, an element's own fallible clone failed, or the request is larger than any address space. An operation that visibly needs no new memory (overwriting a present B-tree key or set element, growing or shrinking a vector within its capacity) asks for none, so that no outage can make it fail. As soon as the outage ends, the same operation on the same container succeeds at once: a failure leaves no lasting handicap.",
 ["fault_sequences","histories"],
 "every history of operations interleaved with outages that begin and end at arbitrary points",
 "Liveness after recovery needs a history (work, outage inside an operation, recovery, retry); the tests have no outage at all.",
 ALL,[("capacity checks compare against real need (needs_to_grow, len == capacity)","src/vec.rs"),("reserve(1) only when the table is full","src/hashmap.rs"),("containers keep their previous buffer on Err","src/vec.rs, src/btree/map.rs")],
 observe=["Ok/Err of each call against the simulator's log of refused requests"])
prop("C03","A granted reservation is a promise",
 "After a reservation or capacity request for n more elements is granted (TryVec/Vec reserve and with_capacity, TryHashMap::with_capacity, the space a formatting cap or a limited reader reserved), the next n insertions by any method (push, insert, extend, append, resize, hash insert, bytes read up to the limit) succeed without requesting memory, even while every allocation is refused.",
 ["fault_sequences","histories","inputs"],
 "every history in which a reservation is granted and any mix of insertions, removals and failed operations follows during a total outage",
 "The tests never check capacity after a reservation and never follow one with an outage.",
 ["src/vec.rs","src/hashmap.rs","src/format.rs"],[("try_reserve delegates to the std reservation with the full amount","src/vec.rs try_reserve/try_with_capacity"),("with_capacity reserves the full amount up front","src/hashmap.rs"),("limit reserved before reading","src/vec.rs std_io::try_read_up_to")],
 observe=["allocation requests made by insertions covered by a granted reservation"])
prop("C04","A failed operation leaves its container as it was",
 "If an operation reports failure, every container involved holds exactly the elements it held before, in the same order, with the same identity, and stays fully usable; an argument passed by value is either handed back intact (give-back and insert forms) or dropped once. Only the element-by-element clone/extend operations may keep a correct prefix of what they were adding.",
 ["fault_sequences","histories"],
 "every operation, in every reachable container state (including B-trees of several levels with full nodes), with any of its allocation requests refused or any of its element clones failing",
 "Atomicity under failure is a statement about failure points in the middle of operations (for instance the second node allocation of a cascading split); the tests have none.",
 ALL,[("error returned before mutation; element returned in Err((elem, e))","src/vec.rs"),("length set only after an element is fully written","src/vec.rs try_extend_from_slice_no_copy / try_extend_with"),("right tree of split_off allocated before anything moves","src/btree/map.rs split_off"),("insert and split chain","src/btree/map.rs VacantEntry::try_insert")],
 state=[("length","number of entries in the tree","src/btree/map.rs BTreeMap")],
 observe=["full contents and element identities before/after a failing call"])
prop("C05","Every element is owned exactly once and dropped exactly once",
 "Across any history of successful and failed operations, each element handed to or created by the crate is at every moment either stored in exactly one place, or already dropped, or back in the caller's hands, and is dropped exactly once in the end: none is lost, leaked, duplicated or dropped twice. This includes elements inside failed operations, partially consumed owning iterators, split, appended, replaced or cleared containers and abandoned clones.",
 ["histories","fault_sequences"],
 "every history of operations with allocation failures and failing element clones at arbitrary points",
 "The tests use plain integers whose duplication or loss cannot be observed, and never interrupt an operation.",
 ALL,[("raw reads/writes paired with set_len","src/vec.rs"),("ptr::read/mem::forget hand-over between nodes and trees","src/btree/node.rs, src/btree/map.rs"),("owning iterators drain and drop the remainder","src/btree/map.rs IntoIter")],
 observe=["a ledger of every element's creation and drop"])
prop("C06","Heap discipline: no leak, double free, overrun or stray access",
 "Under any history and any allocation refusals, every heap block the crate obtains is released exactly once with the layout it was requested with, nothing outside or inside a released block is read or written, no zero-sized or malformed request reaches the allocator, uninitialised memory is never treated as an element, and once all containers are gone no block remains. This holds for every element layout, including zero-sized, large and over-aligned types.",
 ["histories","fault_sequences","configurations"],
 "every history of operations, element layout and pattern of refused requests",
 "Tests run on the system allocator, which hides leaks, small overruns and stale reads; layouts other than small integers are not exercised.",
 ALL,[("leaf/internal node allocation and deallocation by height","src/btree/node.rs"),("capacity reserved before raw writes","src/vec.rs"),("Box rebuilt from a one-element Vec buffer","src/boxed.rs"),("into_raw/from_raw round trip","src/boxed.rs TryBox")],
 observe=["a checking allocator with guard zones, poison and quarantine"])
prop("C07","A panic in user code never breaks memory safety or the container",
 "If user-supplied code (element clone, comparison, hash, destructor, closure, iterator, reader or formatter) panics anywhere inside an operation, the panic propagates to the caller, no element is dropped twice or read after being dropped, memory stays sound, and every surviving container remains usable: its remaining contents are well formed, findable and drawn from what the operation was given. The same memory safety holds when comparison or hashing is inconsistent.",
 ["fault_sequences","histories"],
 "every callback position inside every operation of every history, and arbitrary comparison/hash behaviour",
 "The tests use integer elements whose callbacks cannot panic.",
 ALL,[("length updated in step with each write or drop","src/vec.rs try_extend_with/Truncate/try_extend_from_slice_no_copy"),("length kept consistent while trees are cloned, merged and split","src/btree/map.rs"),("PeekMut/handle lifetimes","src/btree/node.rs")],
 observe=["element ledger, checking allocator, continued use after the caught panic"])
prop("C08","Operations that cannot report failure never need memory",
 "Every operation whose signature cannot express an allocation failure and that does not have to create elements (lookups, iteration and ranges, mutation in place, removal, popping, truncation, clearing, dropping, comparing, set algebra iterators, construction of an empty container, appending to a reserved vector) makes no allocation request at all, and so works during a total outage. The bulk B-tree operations with std's infallible signatures (append, extend, collect, Clone, set operators) create storage and are excepted.",
 ["fault_sequences","histories"],
 "every history, every container state, with all allocation requests refused while such an operation runs",
 "Tests run with unlimited memory, where a hidden allocation is invisible.",
 ["src/vec.rs","src/hashmap.rs","src/btree/map.rs","src/btree/set.rs","src/btree/node.rs"],[("shared static empty root","src/btree/node.rs EMPTY_ROOT_NODE"),("in-place steal/merge on removal","src/btree/map.rs handle_underfull_node"),("lazy empty containers","src/vec.rs, src/hashmap.rs")],
 observe=["allocation requests issued during such calls"])
prop("C09","Vectors behave exactly like the standard vector",
 "For every history of operations on vectors of any element type, with allocations refused and element clones failing at arbitrary points, the contents, order, length, returned values and handed-back elements of every successful operation equal those of the corresponding std Vec operation (and of the obvious list model), and failed operations follow their documented outcome. Comparisons, slices, debug output, concatenation and conversions agree with the contents, and no element is lost or duplicated.",
 ["histories","inputs","fault_sequences"],
 "every sequence of vector operations, indices, sizes and element layouts, with any refused requests and failed clones in between",
 "The existing tests run a handful of fixed single-operation examples with no failures and mostly integer elements.",
 ["src/vec.rs"],[("FallibleVec for Vec<T>","src/vec.rs"),("TryVec wrapper","src/vec.rs")],observe=["API results and contents"])
prop("C10","The B-tree map behaves exactly like an ordered map",
 "For every history of operations on B-tree maps (insert, entry API, lookup, mutation, removal, append, split, extend, clone, comparison, indexing, debug and hash) with allocations refused at arbitrary points, every result and the full ordered contents equal those of a sorted reference map under the key type's own ordering; an existing key object is kept on overwrite, length always equals the number of entries, and no entry is lost, duplicated, leaked or misplaced.",
 ["histories","inputs","fault_sequences"],
 "every history, key set and ordering, tree heights from empty to several levels, with any refused requests in between",
 "The repository's B-tree documentation tests exercise std's map rather than this one, so node splitting, stealing, merging and splitting off are essentially untested.",
 ["src/btree/map.rs","src/btree/node.rs","src/btree/search.rs"],[("search_tree/search_node","src/btree/search.rs"),("insert/split/push_level","src/btree/node.rs"),("handle_underfull_node, fix_right_edge, fix_left_border, fix_right_border","src/btree/map.rs")],
 state=[("root/height/parent links","tree shape","src/btree/node.rs"),("length","entry count","src/btree/map.rs")],observe=["API results, ordered iteration"])
prop("C11","The B-tree set and its algebra behave exactly like sets",
 "For every history of operations on B-tree sets with allocations refused at arbitrary points, membership, stored representatives (insert keeps the old object, replace the new one, union the left operand's), replace/take, ordered contents, sub/superset and disjointness tests, and the union, intersection, difference and symmetric-difference iterators and operators equal those of a sorted reference set, for operands of any relative size; no element is lost, duplicated or leaked.",
 ["histories","inputs","fault_sequences"],
 "every pair of sets reachable by any history, including very unequal sizes that select different algorithms, with any refused requests in between",
 "The set code has only a few documentation examples, which run against std's set; the size-dependent strategies are never reached.",
 ["src/btree/set.rs","src/btree/map.rs"],[("stitch vs probe strategies","src/btree/set.rs difference/intersection/is_subset"),("Recover get/take/replace","src/btree/map.rs")],observe=["API results"])
prop("C12","The hash map behaves exactly like a map",
 "For every history of inserts, lookups, removals, iterations and fallible clones on the hash map (std-backed or hashbrown-backed), under any hash seed and any distribution of hash values and with allocations refused at arbitrary points, each result equals that of a reference map: the latest successfully inserted value is found, the original key object is kept, removed keys are gone, length and iteration cover each entry exactly once.",
 ["histories","inputs","fault_sequences","configurations"],
 "every history, hash seed, collision pattern and refused request, in both backends",
 "Only an impossible reservation and three fixed insertions are tested; no growth under failure, no collisions, no removal histories.",
 ["src/hashmap.rs"],[("reserve before insert","src/hashmap.rs insert"),("clone entry by entry","src/hashmap.rs TryClone")],observe=["API results, iteration"])
prop("C13","Iterators, ranges and cursors deliver each element exactly once, in order",
 "However a client interleaves forward and backward steps, length queries, clones and early abandonment of any iterator, range, keys/values view, mutable iterator, set-algebra iterator or owning iterator, it yields exactly the elements of the container inside the requested bounds, each once, in order, then stays exhausted; reported lengths and size hints are correct at every step, and what an abandoned owning iterator had not delivered is dropped exactly once, even while memory is exhausted.",
 ["histories","inputs","fault_sequences"],
 "every container content and tree shape, every bound pair, every interleaving of front and back steps, every abandonment point and every outage",
 "Front/back interleavings and abandonment points are combinatorial; the tests only run plain forward loops.",
 ["src/btree/map.rs","src/btree/set.rs","src/vec.rs","src/hashmap.rs"],[("leaf-edge walking next_unchecked/next_back_unchecked","src/btree/map.rs"),("range_search","src/btree/map.rs"),("IntoIter deallocation while draining","src/btree/map.rs, src/btree/node.rs")],observe=["yield sequences"])
prop("C14","A fallible clone is equal, deep, independent, or absent",
 "A fallible clone of any value (primitive, option, box, vector, B-tree map, hash map, arbitrarily nested) either returns a value equal to and fully independent of the source, made by cloning each element, or returns an error with every partially built copy released; in both cases the source is untouched. Shared pointers clone by sharing.",
 ["inputs","fault_sequences","histories"],
 "every nesting, content and tree shape, with any of the clone's allocations refused or any element clone failing or panicking",
 "Tests clone two or three integers with unlimited memory.",
 ["src/try_clone.rs","src/boxed.rs","src/arc.rs","src/vec.rs","src/hashmap.rs","src/btree/map.rs"],[("clone_subtree","src/btree/map.rs"),("try_extend_from_slice_no_copy","src/vec.rs"),("Option/primitive impls","src/try_clone.rs")],observe=["clone contents, element ledger, source contents"])
prop("C15","Limited reads deliver exactly the available bytes or an error",
 "Reading into a fallible byte vector appends exactly the bytes the source delivered, up to the limit and no more, after the existing contents, and returns their number, whatever way the source fragments, interrupts or ends the stream; on a source error or refused memory it returns an I/O error and the vector still begins with its previous contents followed only by bytes the source actually delivered. It never consumes more of the source than the limit.",
 ["fault_sequences","schedules","inputs"],
 "every fragmentation, interruption, error and end-of-file placement of the source, every limit, every prior content and capacity, every refused request",
 "Tests read from an in-memory slice in one piece.",
 ["src/vec.rs"],[("try_read_up_to, TryRead for Take","src/vec.rs std_io")],observe=["bytes in the vector, return value, bytes consumed from the scripted source"])
prop("C16","Writing to a fallible byte vector is all-or-nothing and ordered",
 "Each write to a fallible byte vector through the standard writer interface either appends the whole given buffer and reports its full length, or reports an I/O error and leaves the vector unchanged; so through any sequence of write, write_all, vectored, formatted and copied writes with refused memory in between, the vector is exactly the concatenation of the acknowledged writes, and flushing always succeeds.",
 ["fault_sequences","histories"],
 "every sequence of writes of any size, with refused requests at any point",
 "The only writer test, if any, writes a constant with unlimited memory.",
 ["src/vec.rs"],[("impl Write for TryVec<u8>","src/vec.rs std_io")],observe=["vector contents vs acknowledged writes"])
prop("C17","Collecting delivers every item in order, or an error with nothing leaked",
 "Collecting an arbitrary iterator fallibly yields a vector with exactly the iterator's items, in order, regardless of what size hint the iterator claims; if memory is refused the result is an error, every item already taken is dropped once and nothing is leaked.",
 ["inputs","fault_sequences","histories"],
 "every iterator length, size hint (understated, overstated, impossible), refused request and panicking item",
 "Tests collect an honest three-element range with unlimited memory.",
 ["src/vec.rs"],[("TryFromIterator/TryCollect","src/vec.rs")],observe=["result contents, items requested, element ledger"])
prop("C18","Formatting within its cap needs one allocation and never aborts",
 "Fallible formatting with a capacity cap of at least the output length returns exactly the text standard formatting gives, and makes all its memory demands before any formatting code runs, so a refused request yields an error and, once formatting begins, no further memory is needed.",
 ["inputs","fault_sequences"],
 "every format output, cap at least as long, and refused request",
 "Tests format constants with unlimited memory.",
 ["src/format.rs"],[("try_with_capacity then write_fmt","src/format.rs")],observe=["output text, allocation requests before/after the first formatting callback"])
prop("C19","Fallible smart pointers own one value and release it once",
 "Creating a box, TryBox, Rc or Arc fallibly either yields a pointer to exactly the given value, correctly aligned and released through the ordinary destructor with matching layout, or an error with the value dropped once; raw-pointer round trips preserve the value and ownership, and shared pointers keep the value alive until the last holder goes and then drop it once.",
 ["inputs","fault_sequences","histories","configurations"],
 "every value layout (zero-sized, over-aligned, large, heap-owning), every history of create/clone/convert/drop and every refused request",
 "Tests create boxes of one integer or unit with unlimited memory.",
 ["src/boxed.rs","src/rc.rs","src/arc.rs"],[("one-element Vec buffer turned into a Box","src/boxed.rs"),("Box to Rc/Arc conversion","src/rc.rs, src/arc.rs")],observe=["values, addresses, element ledger, checking allocator"])
prop("C20","B-tree memory stays proportional to the number of entries",
 "After any history of operations, successful or failed, a B-tree map or set occupies at most one heap block per four entries plus one, and finding, inserting or removing a key compares a logarithmic number of keys: removals, splits, appends and failed insertions never leave sparsely filled or empty nodes behind.",
 ["histories","fault_sequences"],
 "every history of insertions, removals, bulk operations and allocation failures",
 "Occupancy after long mixed histories is invisible to example tests, which never look at memory.",
 ["src/btree/map.rs","src/btree/node.rs"],[("minimum node occupancy restored by steal/merge","src/btree/map.rs handle_underfull_node, fix_right_edge, fix_*_border")],observe=["live heap blocks per tree, comparisons per operation"])
prop("C21","Concurrent users of separate or shared-read containers do not interact",
 "Threads that each work on their own containers, or only read a shared one, obtain exactly the results they would obtain alone, whatever the interleaving of their allocations, comparisons and other callbacks, and an allocation failure or panic inside one thread's operation never affects another thread's containers.",
 ["schedules","fault_sequences"],
 "every interleaving of several threads preempted at any allocation or callback inside any operation, with faults in any of them",
 "The tests are single-threaded.",
 ["src/btree/node.rs","src/btree/map.rs","src/btree/set.rs","src/vec.rs","src/hashmap.rs"],[("no shared mutable state; the shared empty root is read-only","src/btree/node.rs EMPTY_ROOT_NODE")],observe=["per-thread histories compared with solo runs"])
prop("C22","Fallible wrappers do not offer infallible allocating traits",
 "The fallible wrapper types TryVec, TryHashMap and TryBox do not implement traits whose methods allocate but cannot report failure (Clone, Extend, FromIterator), so code that compiles against them cannot allocate without handling failure.",
 ["programs"],
 "every client program",
 "A missing trait implementation is a compile-time fact; running tests cannot observe it.",
 ["src/lib.rs","src/vec.rs","src/hashmap.rs","src/boxed.rs"],[("absence of impls, stated in the crate documentation","src/lib.rs")],observe=["compilation of client programs"])
prop("C23","Containers and iterators are Send/Sync/covariant like their std equivalents",
 "Containers, entries and iterators are sendable and shareable between threads exactly when their elements are, and covariant in their element types where the std equivalents are, so no safe program can obtain a data race or dangling reference through them.",
 ["programs"],
 "every safe client program",
 "Auto-trait and variance facts are decided by the type checker, not by running code.",
 ["src/btree/node.rs","src/btree/map.rs","src/btree/set.rs","src/vec.rs"],[("unsafe impl Send/Sync for NodeRef, phantom lifetimes","src/btree/node.rs"),("assert_covariance functions","src/btree/map.rs, src/btree/set.rs")],observe=["compilation of client programs"])
prop("C24","Memory demands are proportionate and amortised",
 "No operation asks the allocator for more than what its result needs: a vector's new buffer is at most the larger of the room requested, twice its previous capacity and a small minimum, and growing by pushes, inserts, extends, appends or writes is geometric; a hash table is at most a constant factor larger than its entries; a B-tree insertion asks for nothing but the nodes it keeps, at most one per level and one new root; clones, splits, appends, boxes and formatted strings ask once for what they hold. So n insertions cost O(log n) requests in vectors and hash maps, and memory is never refused for space the data does not need.",
 ["histories","fault_sequences","configurations"],
 "every history of growth, shrinkage and refilling, every element size, every claimed iterator length, every refused request in between",
 "Tests have unlimited memory and never look at request sizes; quadratic or doubled growth passes them all.",
 ["src/vec.rs","src/hashmap.rs","src/btree/map.rs","src/btree/node.rs","src/boxed.rs","src/format.rs"],[("try_reserve before growth","src/vec.rs"),("reserve in TryHashMap::insert","src/hashmap.rs"),("node allocation on split","src/btree/map.rs VacantEntry insertion")],observe=["number and size of allocation requests per operation, live blocks before and after"])
prop("C25","Work in user code is proportionate to the operation",
 "Every operation calls user code (comparison, hashing, cloning, closures, iterator steps, formatting) no more than its task needs. A B-tree lookup, insertion, removal, entry, range or split compares at most a constant number of keys per level, so O(log n); appending two trees, comparing two containers and joint set operations are linear in both, and set operations between very different sizes take O(small * log large); cloning clones each element once and resizing makes only the new elements; a hash lookup hashes its key once and insertion rehashes at amortised constant cost; iterating, clearing and dropping compare, hash and clone nothing; collecting takes each item once and stops at the end; a closure or default value is evaluated only if its result is used.",
 ["histories","inputs","configurations"],
 "every history that shapes the containers, every pair of sizes, every position of a key",
 "Tests check results on small inputs; a quadratic or repeated traversal, or a doubled clone, gives the same results.",
 ["src/btree/map.rs","src/btree/search.rs","src/btree/set.rs","src/vec.rs","src/hashmap.rs"],[("search_tree","src/btree/search.rs"),("size-dependent strategies of set operations","src/btree/set.rs"),("try_clone of each container","src/vec.rs, src/hashmap.rs, src/btree/map.rs")],observe=["number of calls into each kind of user code per operation"])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
