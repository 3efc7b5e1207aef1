#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
HP = "include/gtl/phmap.hpp"
prop("P01", "Flat hash containers behave as a set/map for every history",
 "After any sequence of insertions, assignments, erasures and lookups, a flat hash set or map contains exactly the keys (and latest values) a mathematical set or map would: every operation reports the right outcome, every lookup finds a key exactly when it is present, and iteration visits each element exactly once. This holds whatever the keys' hash values are (all colliding, sharing tags, at any home position), with erased slots, and across growth, in-place rehash and every group-scan implementation the library selects.",
 ["histories", "inputs", "configurations"], "all histories of operations, all 64-bit keys and hash values, SIMD and portable group scans",
 "The tests run a fixed list of operation sequences with well-mixed hashes on one build; histories that combine erased slots, full groups, wrap-around probing, tag collisions and growth at the same time are combinatorially many.",
 [HP], [("probe sequence and group match", HP + ":660-1010"), ("find/find_or_prepare_insert/prepare_insert", HP + ":2420-2900"), ("erase_meta_only keeps probe chains intact", HP + ":2600-2640"), ("rehash_and_grow / drop_deletes in place", HP + ":2640-2780")],
 [("control bytes", "empty / deleted / full+7-bit tag per slot, first group cloned at the end", HP), ("growth budget", "free slots that may still be consumed before a rehash", HP)], ["return values of insert/emplace/erase/find/contains/count/at", "iteration", "size"])
prop("P02", "Node hash containers: same semantics, elements never move",
 "A node-based hash set or map behaves as a mathematical set or map for every history, and the address of an element stays the same from insertion until that element is erased, through any number of other insertions, erasures, rehashes, moves and swaps of the container. An element extracted as a node handle keeps its address and value, leaves the container without it, and can be reinserted (succeeding exactly when no equal key is present, otherwise the handle keeps it).",
 ["histories", "inputs"], "all histories of operations, extractions and reinsertions, all keys",
 "Tests check pointer stability for one growth pattern; a slot that is copied instead of moved during an in-place rehash needs a particular mix of erased and displaced slots.",
 [HP], [("node policy keeps a pointer per slot", HP + ":5300-5659"), ("transfer of slots on rehash", HP + ":1329"), ("extract / insert(node)", HP + ":2020-2060,2300")])
prop("P03", "Hash containers: bulk operations preserve contents exactly",
 "Copying, moving, assigning, swapping, merging, clearing, range and initializer construction/insertion, range erase, erase-if, reserve, rehash and equality comparison of hash containers act on the whole contents as on a mathematical set or map: nothing is lost, duplicated or changed, a source of a merge keeps exactly the elements that could not be transferred, a moved-from container is usable (and empty, unless its elements had to be moved one by one to a different allocator), and self-assignment is harmless. The hash function, the equality function and the allocator go along with the contents as for the standard containers.",
 ["histories", "inputs", "configurations"], "all contents up to the bound, all aliasing patterns between the operands' keys, all table capacities reached, all requested bucket counts",
 "Tests use a handful of contents; results depend on how keys of two tables overlap, on the capacities involved and on the requested size, in particular sizes at a capacity boundary.",
 [HP], [("constructors, assignment, swap, merge", HP + ":1700-1900,2280-2330"), ("resize / rehash / reserve", HP + ":2339-2360,2640-2700")])
prop("P04", "Hash containers: memory safety, element lifetimes, exception safety",
 "Every element placed in a hash container is constructed once and destroyed exactly once, no operation reads or writes outside live storage, and destroying the container releases all memory it allocated. If an element's construction or copy, or an allocation, throws during any operation, the container remains usable and consistent: its previously present elements are still present and unchanged, its size equals the number of elements it holds, and nothing is leaked or destroyed twice (moves, hash and equality functions are assumed not to throw).",
 ["histories", "inputs", "fault_sequences"], "all histories, all keys, every point at which an element construction or allocation throws",
 "Tests inject failures at a few places; whether growth, in-place rehash, copy and merge survive a failure depends on the exact point of the throw and on the table's state.",
 [HP, "include/gtl/gtl_base.hpp"], [("initialize_slots / destroy_slots", HP + ":2560-2640"), ("resize and drop_deletes transfer elements", HP + ":2660-2780"), ("emplace_decomposable constructs in a prepared slot", HP + ":2470-2500")])
prop("P05", "Equal keys hash equally, also across key types",
 "For every key type the library hashes by default, two keys that its default equality calls equal have equal hash values: zero of either sign, text given as owned string, view or literal, raw or smart pointers to one object, enumerations, booleans, integers of every width, pairs and tuples. A lookup, count or erase through any of the alternative key types therefore behaves exactly as with the stored key type.",
 ["inputs", "configurations"], "all values of each key type, all pairs of values, all string lengths up to the bound",
 "Tests compare a few sample values; the statement quantifies over all pairs of values of each type.",
 ["include/gtl/phmap_utils.hpp", HP, "include/gtl/gtl_base.hpp"], [("gtl::Hash and hash_combine", "include/gtl/phmap_utils.hpp"), ("HashEq specialisations for strings and pointers", HP + ":1200-1300")])
prop("P06", "Parallel hash containers: partitioning into submaps is invisible",
 "Used from one thread, a parallel hash set or map with any number of submaps behaves as a mathematical set or map for every history, including bulk operations; each key lives in exactly one submap, the same one for all operations. The callback operations visit and modify exactly the addressed element: modify-if, erase-if, if-contains and lazy-emplace call their function exactly when the key is present (respectively absent) and report that, and for-each variants visit each element exactly once.",
 ["histories", "inputs", "configurations"], "all histories, all keys and hash values, several submap counts, with and without hash mixing",
 "Tests use a few keys with a good hash; a key whose hash selects different submaps in two code paths, or a callback called for the wrong case, needs a specific key and state.",
 [HP], [("subidx and per-submap dispatch", HP + ":3500-4330"), ("extended operations *_if / lazy_emplace_l / for_each", HP + ":3640-4100")])
prop("P07", "Parallel hash containers: concurrent operations are safe and atomic",
 "When several threads operate on one parallel hash container whose submaps have a real mutex, there is no data race, deadlock or use of freed memory, and the concurrent outcome of operations that address one key (insertion, callback and value-returning lookups, erasure, extraction) equals that of executing them one after another in some order: an element is inserted by exactly one of several racing inserters and removed by exactly one of several racing erasers. Whole-container operations (for_each, clear, swap, merge, comparison, rehash) run concurrently with them without race or deadlock and treat every submap atomically. A callback runs while no other thread can modify that element (or, for shared access, write it). size(), empty(), capacity(), iterators, and copying or moving the container are not synchronised and not covered.",
 ["schedules", "inputs", "configurations"], "all interleavings of two or three threads, all keys, exclusive and shared mutex types",
 "Stress tests sample a few schedules; a missing lock on one path, a check-then-act gap between a shared and an exclusive lock, or a lock-order inversion shows only under a particular interleaving.",
 [HP, "include/gtl/gtl_base.hpp"], [("LockableImpl lock wrappers", HP + ":540-655"), ("per-submap locks in find/insert/erase/extended operations", HP + ":3600-4330")])
prop("P08", "Dump and load reproduce a hash container exactly",
 "Writing a flat hash container of trivially copyable elements to an archive and loading it, into an empty or a non-empty container, yields a container equal to the original (and independent of what the target held before) that continues to work for every further insertion, lookup and erasure without rehashing spuriously or misbehaving. If the archive ends early or a read or write fails, loading or dumping reports failure and leaves no invalid memory behind.",
 ["histories", "inputs", "fault_sequences"], "all contents and table histories up to the bound, all continuations, every truncation point of the stream",
 "The tests dump a few containers and compare; they do not continue to operate on loaded tables with erased slots, nor fail reads at every point.",
 ["include/gtl/phmap_dump.hpp"], [("phmap_dump / phmap_load for raw and parallel tables", "include/gtl/phmap_dump.hpp")])
BT = "include/gtl/btree.hpp"
prop("P09", "B-tree set/map is an ordered set/map for every history",
 "After any sequence of insertions, assignments, erasures and lookups, a B-tree set or map contains exactly the keys (and values) the corresponding ordered mathematical map would, iteration in either direction visits them in comparator order exactly once, and find, lower bound, upper bound, equal range, count and contains agree with that order. This holds through every node split, rebalance, merge and root change, for any comparator and any insertion order.",
 ["histories", "inputs", "configurations"], "all histories, all key values and orders, tree heights up to the bound, ascending and descending comparators, two- and three-way",
 "Tests insert sequential or shuffled ranges; which nodes split, merge or rebalance depends on the exact order of keys and erasures.",
 [BT], [("rebalance_or_split, split, merge_nodes, rebalance_left/right", BT), ("insert_unique / internal_emplace / erase", BT), ("lower/upper bound search inside a node", BT)])
prop("P10", "B-tree multiset/multimap keep every equal element, in order",
 "A B-tree multiset or multimap holds exactly as many elements with each key as were inserted and not erased, keeps elements in comparator order with equal elements in insertion order, and count, equal range, bounds and erase by key cover exactly the elements equal to that key, for any history and any number of duplicates spread over any number of nodes. Inserting a value that lives inside the container is as valid as inserting any other value.",
 ["histories", "inputs"], "all histories, all patterns of equal keys up to the bound",
 "Duplicates that span a node boundary when that node splits or merges are reached only by particular histories.",
 [BT], [("insert_multi, insert_hint_multi", BT), ("erase(first,last), equal_range, count", BT)])
prop("P11", "B-tree containers: bulk operations, iterators, lifetimes",
 "Copy, move, assignment, swap, merge, range construction and insertion, hinted insertion, range erase, extraction and reinsertion of nodes, and comparison of B-tree containers act on the contents exactly as on ordered sequences, for contents of any size and shape. Erasing returns the iterator to the next element, no operation touches memory outside live nodes, every element is destroyed exactly once, all memory is released, and an element construction or an allocation that throws during an insertion leaves the container as it was with no leak. The comparator and the allocator go along with the contents as for the standard containers.",
 ["histories", "inputs", "fault_sequences"], "all contents and erase ranges up to the bound, all hints, every point at which an element construction or allocation throws",
 "Tests erase a few ranges and inject few failures; the outcome depends on where a range starts and ends relative to node boundaries.",
 [BT], [("erase_range / rebalance_after_delete", BT), ("copy constructor, swap, merge, extract", BT), ("insert_hint_unique", BT)])
V = "include/gtl/vector.hpp"
prop("P12", "gtl::vector is a sequence for every history",
 "After any sequence of push, emplace, insert (single, repeated, range, at any position), erase, pop, resize, assign, reserve, shrink, copy, move, swap and comparison, a vector holds exactly the elements, in the order, a mathematical sequence would, and element access, size, capacity bounds and iteration agree with it. This includes inserting or assigning values that alias elements of the same vector, insertion with and without spare capacity, and element types that are trivially relocatable or not, and allocators with state, which go along with the contents as for std::vector.",
 ["histories", "inputs", "configurations"], "all histories, positions, counts and values up to the bound, several element types and allocators",
 "The behaviour of insertion and reallocation depends on position, count, spare capacity, aliasing and element type together; tests sample this product.",
 [V], [("insert/emplace windows, wrap and relocate", V), ("reserve / grow / M_reallocate", V)])
prop("P13", "gtl::vector: memory safety, lifetimes and exception safety",
 "Every element of a vector is constructed once and destroyed exactly once, all accesses stay inside live storage, allocation and deallocation sizes match, and no memory remains after destruction. If an element's constructor, copy or an allocation throws, nothing is leaked or destroyed twice, the vector stays valid, and appending leaves the contents as they were.",
 ["histories", "inputs", "fault_sequences"], "all histories up to the bound, every point at which an element operation or allocation throws",
 "Tests throw at a few points; a window of unconstructed elements left by a throwing insert depends on position, count and capacity.",
 [V], [("undo_window / relocate_undo / scope guards", V), ("D_create, D_destroy_range_a", V)])
B = "include/gtl/bit_vector.hpp"
prop("P14", "bit_vector is an array of bits for every operation",
 "A bit vector of any size behaves as an array of booleans under set, reset, flip, resize, copy and move, whole-vector and/or/xor/not/difference and both shifts (toward index 0 for <<, away from it for >>, filling with zeros), and its queries (test, count, any, all, none, find first/next, comparison, intersects, contains, conversion to text) are computed over exactly the bits below its size. Bits beyond the size never influence any result, including after growing, shrinking and inverting.",
 ["inputs", "histories"], "all sizes up to the bound including every remainder modulo the word size, all contents, all indices and shift distances",
 "Word-boundary arithmetic fails only for particular size and shift remainders; tests use a few sizes.",
 [B], [("slot arithmetic, last-slot masking", B), ("shift and flip storage visitors", B)])
prop("P15", "bit_vector views address exactly their own range",
 "A view of bits [first,last) of a bit vector behaves as an array of booleans of that length: every query and every assignment or update through the view (fill, set, reset, flip, bit logic and shifts, integer assignment, copying from another view including an overlapping one of the same vector) reads and writes exactly those bits of the underlying vector and leaves all others unchanged.",
 ["inputs"], "all vector sizes, contents and view positions up to the bound, including views starting and ending anywhere relative to word boundaries and overlapping views",
 "Off-by-one and shift errors show only for particular start/end remainders; views have few tests.",
 [B], [("storage::visit and view operations", B)])
prop("P16", "LRU cache keeps the most recently used results and is correct",
 "A least-recently-used cache of capacity N returns for every key the value most recently inserted for it, or reports absence, never holds more than N entries, and when it is full evicts only the entry that was least recently inserted or got (a mere existence test does not count as use); clearing removes all entries. A cache partitioned into submaps gives the same guarantees per partition, also when several threads use it concurrently.",
 ["histories", "inputs", "schedules"], "all histories of insertions, lookups, existence tests and clears, all keys, all capacities up to the bound, all interleavings of two threads",
 "The eviction order depends on the whole access history.",
 ["include/gtl/lru_cache.hpp", HP], [("list + map with list iterators", "include/gtl/lru_cache.hpp"), ("auxiliary container hooks of the parallel table", HP)])
prop("P17", "Memoized functions return what the function returns",
 "A memoized function returns for every argument list exactly what the wrapped function returns for it, calls the wrapped function at most once per distinct argument list while the result is retained, answers containment queries accordingly, and never retains more results than its limit. This includes a function that calls its own memoized version (the single-threaded classes, and mt_memoize in its recursive form).",
 ["histories", "inputs", "schedules"], "all call histories and arguments up to the bound, several submap counts and size limits, two threads",
 "A cached result returned for a different argument list, or an entry evicted while being returned, needs a specific history.",
 ["include/gtl/memoize.hpp"], [("memoize / mt_memoize / memoize_lru / mt_memoize_lru", "include/gtl/memoize.hpp")])
prop("P18", "Intrusive pointers: object lives exactly while referenced",
 "An object managed by intrusive reference counting is destroyed exactly once, precisely when the last owning pointer to it is destroyed, reassigned or reset, and never before, for any sequence of copies, moves, swaps, resets, detach and re-attach, conversions between related pointer types and self-assignments. With a thread-safe counter this also holds when different threads copy and drop their pointers concurrently, and the destroying thread sees all writes made through the other pointers.",
 ["histories", "schedules", "inputs"], "all histories of pointer operations up to the bound, all interleavings of two or three threads",
 "There are no tests for it; premature destruction under concurrency needs a particular schedule and the memory ordering cannot be observed by running on one machine.",
 ["include/gtl/intrusive.hpp"], [("intrusive_ptr special members", "include/gtl/intrusive.hpp"), ("counter increment/decrement and memory orders", "include/gtl/intrusive.hpp")])
prop("P19", "Structure-of-arrays container keeps its columns in step",
 "A structure-of-arrays container behaves as a sequence of records: after any sequence of insertions, resizes, clears, copies, sorts by a field and updates through rows, views and columns, every record read back has in each field the value the corresponding sequence of records would have, and all columns have the same length. Sorting by a field (with any comparison) permutes whole records into that order without losing, repeating or mixing records, and keeps records that compare equal in their previous order, whatever other containers were sorted before.",
 ["histories", "inputs"], "all contents and operation sequences up to the bound",
 "There are no tests; a permutation applied differently to two columns depends on the permutation's cycle structure.",
 ["include/gtl/soa.hpp"], [("prepare_sort / sort_by_reference / sort_by_field permutation application", "include/gtl/soa.hpp"), ("insert / resize / view column application", "include/gtl/soa.hpp")])
prop("P20", "Scope guards, sequence helpers and search helpers do what they say",
 "Scope guards restore the saved value or run their action exactly once at scope exit (also when leaving by an exception) unless dismissed or disabled; timestamps order modifications by their sequence and set_with_ts/change report exactly whether the value changed; the sequence helpers return exactly the elements their definition names: cat concatenates, map applies the function to each element in order, slice(v, first, last, stride) yields v[first], v[first+stride], ... before last, a negative index counting from the end with -1 the end itself; the functional combinators apply their arguments as defined. The midpoint is within its range and makes progress, and the bisection search returns, for every monotone predicate over every range of integers or floating-point numbers, the boundary where it changes, and terminates.",
 ["inputs", "histories"], "all values of the arguments, all ranges of 64-bit integers (including those wider than half the type's range) and of finite floating-point numbers, all monotone predicates over them",
 "There are no tests; boundary ranges and sign changes are single points in a 2^128 space.",
 ["include/gtl/utils.hpp", "include/gtl/vec_utils.hpp", "include/gtl/adv_utils.hpp", "include/gtl/combinators.hpp"], [("scoped_set_value / scoped_guard / counter", "include/gtl/utils.hpp"), ("middle and binary_search", "include/gtl/adv_utils.hpp")])
prop("P21", "Reserved capacity is honoured and hash tables stay efficient",
 "After reserving room for n elements (or constructing with a bucket count), inserting up to n elements invalidates no iterator, pointer or reference and does not rehash; the load never exceeds the maximum load factor, so that an unsuccessful lookup always terminates. A table of bounded size under endless insert/erase churn keeps a bounded capacity, and shrinking requests never lose room for the present elements.",
 ["histories", "inputs", "configurations"], "all n, all capacities, all histories up to the bound, portable and SIMD group widths",
 "Tests check a few n; the special small capacities and exact capacity boundaries decide it, and a full table hangs only for an absent key.",
 [HP], [("CapacityToGrowth / GrowthToLowerboundCapacity / NormalizeCapacity", HP + ":1050-1100"), ("rehash / reserve / rehash_and_grow_if_necessary", HP + ":2339-2360,2760-2790")])
prop("P22", "Bit-scan, byte-order and wide-product helpers are exact for every value",
 "For every 32- or 64-bit value the bit-scan helpers (the built-in and the portable ones alike) return exactly the number of leading zeros (the full width for zero) and, for a non-zero value, of trailing zeros. For every value, width (16, 32, 64) and alignment, a little- or big-endian store writes exactly the bytes of that order and no others, the matching load returns the value stored, host/network conversions yield the order they name and are undone by their inverses; the 64x64-bit product used for hash mixing returns both halves exactly.",
 ["inputs", "configurations"], "all 64-bit values, all byte offsets of a buffer; the product for every multiplicand and every power of two",
 "Portable variants are never executed by a GCC or Clang build and no test calls them; a wrong table entry or mask shows for single values only.",
 ["include/gtl/bits.hpp"], [("CountLeadingZeros* / CountTrailingZerosNonZero*", "include/gtl/bits.hpp:257-416"), ("gbswap_*, little_endian, big_endian", "include/gtl/bits.hpp:420-618"), ("umul128", "include/gtl/bits.hpp:178-192")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
