"""Which harness, configuration and bounds decide each property.  See DESIGN.md."""
UNITS = {}
BUDGET = {}
EXTRA_ASSUMPTIONS = {}
ASSUMPTIONS = [
    "The LLVM IR that clang 18 -O1 emits for the harness and headers stands for the library; g++ builds are covered only by native replay of counterexamples.",
    "operator new succeeds unless a unit plans an allocation failure; addresses are opaque, blocks never overlap and are 16-byte aligned.",
    "Integer undefined behaviour (shift, signed overflow, array bounds, unreachable) traps and is reported; strict-aliasing violations are not modelled.",
    "Only the element types, allocators, hash and comparison functions instantiated by the harness are covered.",
]
def U(prop, name, src, params, defs=(), covers=(), bounds="", jobs=8, **kw):
    UNITS.setdefault(prop, []).append(dict(name=name, src=src, params=params, defs=list(defs), covers=list(covers), bounds=bounds, jobs=jobs, **kw))
def K(k, *more): return ["KIND=%d" % k] + list(more)
PORT, SSSE3 = "GTL_HAVE_SSE2=0", dict(cflags=["-mssse3"])
NAMES = {0: "fmap", 1: "fset", 2: "nmap", 3: "nset", 4: "pfmap", 5: "pfset", 6: "pnmap", 7: "pnset"}
HB = "histories of {0} operations after {1} concrete insertions and {2} erasures (key pattern {3}); every operation's key is an unconstrained 64-bit symbolic value, hash = key"
def hist(prop, kind, name, p, th=None, defs=(), covers=(), **kw):
    U(prop, NAMES[kind] + "_" + name, "hash_hist.cpp", {"quick": p, "thorough": th or p}, K(kind, *defs), covers, HB.format(*p[:4]), **kw)
ALLOPS = 4095
# operations of hash_hist: 0 insert 1 emplace 2 try_emplace 3 insert_or_assign 4 [] 5 erase 6 lookup 7 erase(it) 8 rehash(0) 9 reserve 10 clear 11 lazy_emplace
CORE, CORE_IT = 0b1100001, 0b11100001
# ---------------------------------------------------------------- P01
for k in (0, 1):
    hist("P01", k, "all2", [2, 0, 0, 0, ALLOPS, 0], covers=["insert", "lookup hit"], validate=True)
    hist("P01", k, "core3", [3, 0, 0, 0, CORE, 0], [4, 0, 0, 0, CORE, 0], covers=["erase hit"])
    hist("P01", k, "mid6", [2, 6, 0, 0, CORE, 0], [2, 6, 1, 1, ALLOPS, 0])
    hist("P01", k, "late1", [1, 14, 9, 2, ALLOPS, 0], [2, 14, 9, 2, CORE_IT, 0])
    hist("P01", k, "grow1", [1, 14, 0, 1, ALLOPS, 0], [2, 14, 0, 1, CORE, 0])
hist("P01", 1, "full2", [2, 14, 3, 1, CORE, 0xe], [2, 14, 3, 1, CORE_IT, 0])
hist("P01", 0, "squash", [1, 14, 7, 1, ALLOPS, 0], [2, 14, 7, 1, CORE, 0])
hist("P01", 1, "big1", [1, 40, 13, 3, CORE_IT, 0], [1, 52, 20, 3, ALLOPS, 0])
hist("P01", 1, "port2", [2, 4, 1, 0, CORE, 0], [2, 6, 1, 1, CORE_IT, 0], defs=[PORT])
hist("P01", 0, "port7", [1, 7, 3, 1, ALLOPS, 0], [2, 7, 3, 1, CORE, 0], defs=[PORT])
hist("P01", 1, "ssse3", [1, 14, 7, 2, CORE_IT, 0], [2, 14, 7, 2, CORE, 0], **SSSE3)
hist("P01", 1, "mixed", [3, 3, 1, 0, CORE_IT, 0], [4, 3, 1, 0, CORE_IT, 0], defs=["MIX=6"])
hist("P01", 0, "mixed20", [1, 20, 5, 0, ALLOPS, 0], [2, 20, 5, 0, ALLOPS, 0], defs=["MIX=24"])
# ---------------------------------------------------------------- P02
for k in (2, 3):
    hist("P02", k, "all2", [2, 0, 0, 0, ALLOPS, 0], covers=["insert", "lookup hit"], validate=True)
    hist("P02", k, "core3", [3, 0, 0, 0, CORE, 0], [4, 0, 0, 0, CORE, 0], covers=["erase hit"])
    hist("P02", k, "late1", [1, 14, 9, 2, ALLOPS, 0], [2, 14, 9, 2, CORE_IT, 0])
    hist("P02", k, "squash", [1, 14, 7, 1, ALLOPS, 0], [2, 14, 7, 1, CORE_IT, 0])
    hist("P02", k, "grow1", [1, 14, 0, 1, ALLOPS, 0], [2, 14, 0, 1, CORE, 0])
hist("P02", 3, "squash28", [1, 28, 18, 3, CORE_IT, 0], [1, 56, 40, 3, CORE_IT, 0])
hist("P02", 2, "port7", [1, 7, 4, 1, CORE_IT, 0], [2, 7, 4, 1, CORE, 0], defs=[PORT])
# operations of hash2: 0 insert 1 emplace 2 erase 3 erase(it) 4 erase(range) 5 erase_if 6 clear 7 map access 8 node handles 9 copy 10 move 11 swap 12 merge 13 ranges 14 equality 15 reserve/rehash 17 lookup
HB2 = "{0} operations (mask {4:#x}) after {1} insertions and {2} erasures (key pattern {3}); operation keys are symbolic with the home-position bits masked by {5:#x} equal to 0 (0 = unconstrained); positions, counts and requested sizes are symbolic; {6}"
def h2(prop, kind, name, p, th=None, defs=(), covers=(), **kw):
    U(prop, NAMES[kind] + "_" + name, "hash2.cpp", {"quick": p, "thorough": th or p}, K(kind, *defs), covers, HB2.format(*p[:6], "one planned element or allocation failure at every point" if p[6] else "no failures"), **kw)
for k in (2, 3):
    h2("P02", k, "node", [2, 3, 0, 1, 0b100000101, 0x3ff, 0], [2, 6, 1, 1, 0b1100101101, 0x3ff, 0], covers=["node insert contention"])
    h2("P02", k, "moves", [1, 5, 1, 0, 0b1111000000000 | 0x100, 0x3ff, 0], [2, 5, 1, 0, 0b1110000000000 | 0x100, 0x3ff, 0], covers=["merge"])
# ---------------------------------------------------------------- P03
BULK = 0b1111111001111000
for k in (0, 1, 2, 3):
    h2("P03", k, "bulk3", [1, 3, 0, 1, BULK, 0x3ff, 0], [1, 3, 0, 1, BULK, 0, 0], covers=["merge", "equal", "unequal", "rehash", "range erase"], validate=k == 0)
    h2("P03", k, "bulk0", [1, 0, 0, 1, BULK, 0x3ff, 0])
    h2("P03", k, "bulk8", [1, 8, 1, 1, BULK & ~0b100000001010000, 0x3ff, 0], [1, 12, 2, 1, BULK & ~0b10000, 0x3ff, 0], covers=["merge", "rehash"])
    h2("P03", k, "re20", [1, 20, 5, 2, 0b1001011000000000, 0x3ff, 0], [2, 14, 3, 1, 0b1001011001000000, 0x3ff, 0])
h2("P03", 1, "port", [1, 7, 1, 1, BULK & ~0b100000001010000, 0x3ff, 0], [1, 9, 1, 1, BULK & ~0b10000, 0x3ff, 0], defs=[PORT])
h2("P03", 1, "seq2", [2, 1, 0, 1, 0b1001111000000000, 0x3ff, 0], [2, 4, 1, 1, 0b1111111001000000, 0x3ff, 0])
H3 = "{0} operations (mask {3:#x}) after {1} insertions and {2} erasures: 17 constructors, copies, moves, assignments, swaps with stateful hash and equality functions and allocators of equal or different identity, insertion and lookup overloads; keys symbolic 64-bit with home-position bits restricted by {4:#x}; allocator propagation {5}"
def h3(prop, kind, prp, p, th, **kw):
    U(prop, NAMES[kind] + "_state%d" % prp, "hash3.cpp", {"quick": p, "thorough": th}, K(kind, "PROPAGATE=%d" % prp), ["constructed", "inserted", "found", "node"], H3.format(*p, "".join(n for b, n in ((1, " copy"), (2, " move"), (4, " swap")) if prp & b) or " none"), **kw)
for k, prp in ((0, 0), (0, 2), (1, 5), (2, 0), (2, 7), (3, 3)): h3("P03", k, prp, [1, 3, 0, 511, 0x3ff], [2, 5, 1, 511, 0x3ff], validate=prp == 2)
# ---------------------------------------------------------------- P04
ALL2 = 0x2ffff
for k in (0, 1, 2, 3):
    h2("P04", k, "exc3", [1, 3, 0, 1, ALL2, 0x3ff, 1], [2, 3, 0, 1, 0b11000001010000111, 0x3ff, 1], ["EL=1", "ALLOC=1"], covers=["exception", "copy exception"], validate=k == 1)
    h2("P04", k, "exc0", [2, 0, 0, 1, 0b10000111, 0x3ff, 1], [3, 0, 0, 1, 0b10000111, 0x3ff, 1], ["EL=1", "ALLOC=1"])
    h2("P04", k, "exc14", [1, 14, 0, 1, 0b1010010111, 0x3ff, 1], [1, 14, 0, 2, ALL2 & ~0b10000, 0x3ff, 1], ["EL=1", "ALLOC=1"], covers=["exception"])
    h2("P04", k, "squash", [1, 14, 7, 1, 0b1010010111, 0x3ff, 1], [1, 14, 7, 1, 0b1110101111, 0x3ff, 1], ["EL=1", "ALLOC=1"])
    h2("P04", k, "life", [1, 5, 1, 1, ALL2, 0x3ff, 0], [2, 5, 1, 1, 0b1111100000111, 0x3ff, 0], ["EL=1", "ALLOC=1"])
EXTRA_ASSUMPTIONS["P04"] = ["Exceptions come from element construction or copy, or from allocation; moves, hashing and comparison do not throw."]
# ---------------------------------------------------------------- P05
def heq(name, p, th=None, bounds="", covers=(), **kw): U("P05", name, "hasheq.cpp", {"quick": p, "thorough": th or p}, [], covers, bounds, **kw)
heq("integers", [0, 0, 0], None, "all pairs of values of 14 integer and character types and bool", ["equal", "different"], validate=True)
heq("floats", [1, 0, 0], None, "all pairs of float and of double values, including zeros, infinities and NaNs", ["equal", "different"])
heq("enums", [2, 0, 0], None, "all pairs of values of three enumerations and of a type with a std::hash specialisation", ["equal", "different"])
for i in range(9): heq("composite%d" % i, [3, 0, i], None, "all pairs of equal keys of pair / tuple / hash_value type number %d" % i, ["equal"])
for g, n in ((6, "text"), (7, "text16"), (8, "wtext")): heq(n, [g, 9 if g == 6 else 5, 0], [g, 17 if g == 6 else 9, 0], "all pairs of texts up to %d characters (embedded NUL included), as string, view and NUL-terminated pointer" % (9 if g == 6 else 5), ["equal"])
for g, n in ((9, "fset"), (10, "nset"), (11, "pset"), (12, "fmap")): heq("lookup_" + n, [g, 0, 0], None, "tables with any subset of three text keys (one inline, one on the heap, one with NUL), lookups and erasures through string, view and literal")
heq("pointers", [13, 0, 0], None, "sets of raw, unique and shared pointers to any subset of three objects, base pointers at a non-zero offset", ["pointers"])
for g, n in ((14, "float"), (15, "double")): heq("zero_" + n, [g, 0, 0], None, "map keyed by a floating-point number of either sign, zero, small and large")
EXTRA_ASSUMPTIONS["P05"] = ["std::hash of libstdc++ is modelled by its own algorithm (MurmurHash64A over the bytes).", "long double, user-defined types with inconsistent equality and absl::Hash builds are not covered."]
# ---------------------------------------------------------------- P06 (single threaded)
for k in (4, 5, 6, 7):
    hist("P06", k, "all2", [2, 0, 0, 0, ALLOPS, 0], covers=["insert", "lookup hit"], validate=k == 4)
    hist("P06", k, "mid6", [1, 6, 2, 0, ALLOPS, 0], [2, 6, 2, 0, CORE_IT, 0])
    hist("P06", k, "mix", [2, 10, 3, 0, CORE_IT, 0], [3, 10, 3, 0, ALLOPS, 0], defs=["MIX=14"])
    h2("P06", k, "bulk3", [1, 3, 0, 0, ALL2 & ~0b10000, 0x3ff, 0], [1, 6, 1, 0, ALL2 & ~0b10000, 0, 0], covers=["merge"])
for k, prp in ((4, 0), (4, 2), (5, 7), (6, 1), (7, 0)): h3("P06", k, prp, [1, 3, 0, 511, 0x3ff], [2, 4, 1, 511, 0x3ff])
# extended operations (par.cpp)
PB = "{0} operations out of 20 (mask {4:#x}) after {1} insertions and {2} erasures (key pattern {3}); keys 64-bit symbolic; {5}"
def par(kind, name, p, th, nsub, mtx=None, covers=(), **kw):
    U("P06", NAMES[kind] + "_" + name, "par.cpp", {"quick": p, "thorough": th or p}, K(kind, "NSUB=%d" % nsub, *(["MTX=" + mtx] if mtx else [])), covers, PB.format(*p[:5], "%d submaps, mutex %s" % (1 << nsub, mtx or "none")), **kw)
MX, SHM = "std::mutex", "std::shared_mutex"
for k in (4, 5, 6, 7):
    par(k, "ext2", [2, 2, 0, 0, 0xfffff, 0], [2, 5, 1, 0, 0xfffff, 0], 2, MX, ["modified", "erased by predicate", "lazy", "one submap cleared", "node"])
    par(k, "ext12", [1, 12, 2, 0, 0xfffff, 0], [2, 6, 1, 0, 0xfffff, 0], 4, validate=k == 4)
    par(k, "ext14", [1, 14, 6, 1, 0xfffff, 0], None, 0, SHM)
par(4, "ext64", [1, 20, 2, 0, 0xfffff, 0], [1, 30, 5, 0, 0xfffff, 0], 6)
# ---------------------------------------------------------------- P07
TB = "{0} threads with {1} operation(s) each (masks {2:#x} / {3:#x}), {4} + {5} elements in the two containers, keys {6}; all interleavings of lock operations with at most {7} preemptions, happens-before race detection in between, {8} submaps, {9}"
def pt(name, p, th=None, nsub=1, mtx=MX, pre=3, defs=(), **kw):
    U("P07", name, "parthr.cpp", {"quick": p, "thorough": th or p}, ["NSUB=%d" % nsub, "MTX=" + mtx] + list(defs), ["joined"], TB.format(*p[:6], "64-bit symbolic" if not p[6] else "one of %d" % p[6], pre, 1 << nsub, mtx), threads=True, engine=["--preempt=%d" % pre], **kw)
TALL = (1 << 31) - 1
TONE = TALL & ~(7 << 18 | 3 << 24 | 7 << 12 | 1 << 16 | 1 << 30)  # one-key operations and rehash
TWHOLE = TALL & ~TONE
pt("one_mtx", [2, 1, TONE, TONE, 2, 0, 0])
pt("one_shm", [2, 1, TONE, TONE, 2, 0, 0], mtx=SHM)
pt("all_mtx", [2, 1, TALL, TALL, 1, 1, 0], [2, 1, TALL, TALL, 1, 2, 0], nsub=0)
pt("all_shm", [2, 1, TALL, TALL, 1, 1, 0], [2, 1, TALL, TALL, 1, 2, 0], nsub=0, mtx=SHM)
pt("all3_shm", [2, 1, TALL, TALL, 1, 2, 3], [2, 1, TALL, TALL, 2, 2, 4], nsub=0, mtx=SHM)
pt("grow", [2, 1, 0b1101100001111, TONE & ~(1 << 15), 3, 0, 3], [2, 1, TONE, TONE, 3, 0, 0], nsub=0, defs=["NODE=1"])
pt("three", [3, 1, 0b111101001, 0b111101001, 1, 0, 2], [3, 1, 0b110111101101, 0b110111101101, 1, 0, 2], mtx=SHM, pre=2)
pt("two2", [2, 2, 0b110001001, 0b1001101, 1, 0, 2], [2, 2, 0b1110101101, 0b1110101101, 1, 0, 2], mtx=SHM, pre=2)
pt("two2_mtx", [2, 2, 0b110001001, 0b10001001101, 1, 0, 2], None, pre=2)
pt("two2_whole", [2, 2, 1 << 18 | 1 << 19 | 1 << 20 | 1 << 0 | 1 << 3, 1 << 24 | 1 << 25 | 1 << 3 | 1 << 0 | 1 << 14, 1, 1, 1], [2, 2, TWHOLE | 0b1001, TWHOLE | 0b1001, 1, 1, 1], nsub=0, pre=2)
EXTRA_ASSUMPTIONS["P07"] = ["Locks behave as mutex / reader-writer lock without writer preference; sequentially consistent interleaving of lock operations, with happens-before data race detection for all plain accesses.", "At most three threads, at most two operations each, bounded preemptions as stated per unit."]
# ---------------------------------------------------------------- P08
DB = "{mode}; {1} insertions, {2} erasures and {3} insertions of 64-bit symbolic keys before dumping, target holds {6} other elements, {0} operation(s) (mask {4:#x}) with symbolic keys afterwards"
DM = ["round trip", "archive truncated after every number of bytes", "every single write fails", "file in the format without version", "archive whose functions return nothing and throw, truncated after every number of bytes"]
DN = ["fmap", "fset", "pfmap", "pfset", "fset16"]
def dump(kind, name, p, th=None, defs=(), covers=("loaded",), **kw):
    U("P08", DN[kind] + "_" + name, "dump.cpp", {"quick": p, "thorough": th or p}, K(kind, *defs), covers, DB.format(*p, mode=DM[p[5]]), **kw)
for k in range(5):
    dump(k, "rt", [1, 5, 1, 1, 0x3f, 0, 2], [2, 5, 1, 1, 0x7, 0, 2], covers=["loaded", "erased after loading"], validate=k in (0, 2))
    dump(k, "small", [2, 2, 0, 0, 0x3f, 0, 0], [3, 2, 1, 0, 0x3f, 0, 0])
    dump(k, "empty", [1, 3, 3, 0, 0x3f, 0, 3], [2, 3, 3, 0, 0x3f, 0, 3])
    dump(k, "seed", [1, 5, 1, 0, 0x3f, 0, 2], [2, 5, 1, 0, 0x3f, 0, 2], ["SEED=0x187"])
    dump(k, "cut", [1, 5, 1, 0, 0x7, 1, 2], [1, 14, 6, 0, 0x7, 1, 2], covers=["loaded", "truncated"])
    dump(k, "throw", [1, 3, 0, 0, 0x7, 4, 2], [1, 5, 1, 0, 0x7, 4, 2], covers=["loaded", "truncated"])
    dump(k, "wfail", [1, 5, 1, 0, 0x7, 2, 2], covers=["write failed"])
for k in (0, 1, 4):
    dump(k, "grow", [1, 14, 6, 0, 0x3f, 0, 2], [2, 14, 6, 0, 0xf, 0, 2])
    dump(k, "full", [1, 14, 0, 0, 0x3f, 0, 2], [2, 14, 0, 0, 0x3, 0, 2])
    dump(k, "old", [2, 5, 1, 0, 0x3f, 3, 2], [2, 5, 1, 1, 0x7, 3, 2])
    dump(k, "old14", [1, 14, 6, 0, 0x3f, 3, 2], [2, 14, 6, 0, 0x7, 3, 2])
dump(2, "grow", [1, 24, 9, 0, 0x3f, 0, 2], [1, 26, 12, 0, 0x3f, 0, 2])
dump(0, "port", [1, 14, 6, 0, 0x3f, 0, 2], defs=[PORT])
EXTRA_ASSUMPTIONS["P08"] = ["File streams are replaced by in-memory stand-ins with the same interface; the archives' own code runs on top of them.", "Only truncation and failing reads or writes are considered, not archives with altered contents.", "Dumping and loading use the same hash function, element type and build configuration."]
# ---------------------------------------------------------------- P16
LB = "{0} operations (mask {3:#x}), capacity {1} per partition, {2} entries to start with, keys {4}; afterwards every entry is evicted and compared"
def lru(name, p, th=None, defs=(), covers=("drained",), **kw):
    b = LB.format(*p[:4], "64-bit symbolic" if not p[4] else "one of %d" % p[4])
    if p[5]: b += "; %d threads, all interleavings of lock operations with at most 3 preemptions" % p[5]; kw.update(threads=True, engine=["--preempt=3"]); covers = ("joined",); defs = list(defs) + ["THREADS"]
    U("P16", name, "lru.cpp", {"quick": p, "thorough": th or p}, list(defs), covers, b, **kw)
lru("hist2", [2, 3, 3, 0xfff, 0, 0, 0], [3, 3, 3, 0xb0f, 0, 0, 0], covers=["drained", "insert", "hit", "clear", "copied", "moved"], validate=True)
lru("hist2_fill", [2, 4, 3, 0xfff, 0, 0, 0], [3, 4, 2, 0xb0f, 0, 0, 0])
lru("hist3", [3, 3, 3, 0x10f, 5, 0, 0], [5, 3, 3, 0x7, 5, 0, 0])
lru("hist4", [4, 3, 3, 0x7, 4, 0, 0], [6, 3, 3, 0x7, 4, 0, 0])
lru("part", [2, 3, 5, 0xfff, 0, 0, 0], [2, 3, 7, 0xfff, 0, 0, 0], ["NSUB=1", "MTX=std::mutex"])
lru("thr_mtx", [1, 3, 3, 0xf, 0, 2, 0xf], [2, 3, 3, 0xf, 4, 2, 0xf], ["MTX=std::mutex"])
lru("thr_shm", [1, 3, 3, 0xf, 0, 2, 0xf], [2, 3, 3, 0xf, 4, 2, 0xf], ["MTX=std::shared_mutex"])
lru("thr_part", [1, 3, 4, 0xf, 0, 2, 0xf], [1, 3, 6, 0xf, 0, 2, 0xf], ["NSUB=1", "MTX=std::mutex"])
lru("thr2", [2, 3, 3, 0x7, 4, 2, 0xb], None, ["MTX=std::mutex"])
EXTRA_ASSUMPTIONS["P16"] = ["Capacity per partition is at least 3 (the constructor asserts this) and is not reduced while entries are held.", "Copying keys does not throw."]
# ---------------------------------------------------------------- P17
QB = "{0} operations (mask {3:#x}), limit {1} per partition (LRU kinds), {2} calls to start with, arguments {4}"
KN = ["memoize", "mt_memoize_once", "mt_memoize", "memoize_lru", "mt_memoize_lru"]
def memo(k, name, p, th=None, defs=(), covers=("done",), **kw):
    b = QB.format(*p[:4], "64-bit symbolic, linear stand-in hash" if "SYMHASH" in defs else "of %d bits, the library's hash" % p[4])
    if p[5]: b += "; two threads, all interleavings of lock operations with at most 3 preemptions"; kw.update(threads=True, engine=["--preempt=3"]); covers = ("joined",); defs = list(defs) + ["THREADS"]
    U("P17", KN[k] + "_" + name, "memo.cpp", {"quick": p, "thorough": th or p}, K(k, *defs), covers, b, **kw)
for k in range(5):
    memo(k, "hist", [2, 3, 2, 0x1ff, 3, 0, 0], [3, 3, 2, 0x1ff, 3, 0, 0], covers=["done", "hit", "miss", "threw"], validate=k in (0, 4))
    memo(k, "deep", [4, 4, 3, 0x7, 3, 0, 0], [5, 4, 3, 0x7, 3, 0, 0])
    memo(k, "ref", [1, 3, 2, 0x1ff, 3, 0, 0], [3, 3, 2, 0x1ff, 3, 0, 0], ["ARG=const A&"])
    memo(k, "sym", [2, 3, 2, 0x1ff, 0, 0, 0], [3, 3, 2, 0xf, 0, 0, 0], ["SYMHASH"], optional=True)
    memo(k, "part", [2, 3, 4, 0x1ff, 3, 0, 0], [4, 3, 4, 0xf, 3, 0, 0], ["NSUB=1"])
for k in (1, 2, 4):
    memo(k, "thr", [1, 8, 1, 7, 3, 2, 7], [2, 8, 1, 7, 2, 2, 7])
    memo(k, "thr_sym", [1, 8, 1, 3, 3, 2, 7], [2, 8, 0, 3, 2, 2, 3], ["NSUB=1"])
    memo(k, "thr_shm", [2, 8, 0, 3, 2, 2, 7], [2, 8, 1, 7, 2, 2, 7], ["MTX=std::shared_mutex"])
memo(4, "thr_full", [1, 3, 2, 7, 3, 2, 7], [2, 3, 2, 7, 3, 2, 7])
EXTRA_ASSUMPTIONS["P17"] = ["The wrapped function is pure (its result depends on the arguments alone) and may throw.", "The limit per partition is at least 3."]
# ---------------------------------------------------------------- P21
CB = "capacity mode {0}"
def cap(name, p, th=None, kind=0, defs=(), covers=(), prop="P21", **kw):
    m = p[0]
    b = ["reserve(n)/bucket count n for every n up to {1} (step {3}), key pattern {2}, after {4} elements, then one symbolic lookup", "{3} rounds of erase+insert on {1} live elements (three symbolic strides), then {4} symbolic rounds", "every number of survivors of {1} insertions and every request up to {3}, then a symbolic lookup and three insertions", "all sizes below 2^60", "every number of survivors of {1} insertions and every reservation of room for up to {3} more, then as many insertions and a symbolic lookup", "a full table of {1} elements of key pattern {2}, of which {3} (symbolic first and stride) survive, then {4} insertions with symbolic homes"][m].format(*(p + [0] * 5))
    U(prop, name, "cap.cpp", {"quick": p, "thorough": th or p}, K(kind, *defs), covers, b, **kw)
cap("arith", [3], covers=["arithmetic"], jobs=1, optional=True)
cap("arith_port", [3], defs=[PORT], covers=["arithmetic"], jobs=1, optional=True)
cap("reserve_fmap", [0, 36, 1, 1, 0], [0, 130, 1, 1, 0], covers=["filled the reservation"], validate=True)
cap("reserve_wide", [0, 480, 0, 3, 0, 1], [0, 900, 0, 1, 0, 1], kind=1)
cap("reserve_nset", [0, 34, 0, 1, 2], [0, 60, 0, 1, 2], kind=3)
cap("reserve_more", [0, 24, 3, 1, 7], [0, 40, 3, 1, 7], kind=1)
cap("reserve_port", [0, 20, 1, 1, 3], [0, 60, 1, 1, 3], kind=1, defs=[PORT])
cap("churn7", [1, 7, 1, 60, 1], [1, 7, 1, 60, 2], covers=["churned"])
cap("churn12", [1, 12, 2, 100, 1], kind=1)
cap("churn3", [1, 3, 1, 40, 1], [1, 3, 1, 40, 2], kind=2)
cap("churn14", [1, 14, 1, 120, 0], kind=1)
for prop in ["P01", "P04", "P21"]:
    cap("reclaim_wrap", [5, 28, 4, 14, 1], [5, 28, 4, 14, 1, 1], covers=["reclaimed in place"], defs=["TR"] if prop != "P21" else [], prop=prop)
    cap("reclaim_port", [5, 14, 6, 6, 1], [5, 28, 4, 13, 1], kind=1, defs=[PORT], prop=prop)
    if prop != "P01": cap("reclaim_node", [5, 28, 4, 9, 1], [5, 28, 4, 9, 1, 1], kind=2, defs=["TR"], prop=prop)
cap("reclaim_homes", [5, 28, 5, 12, 1], [5, 28, 5, 12, 1, 1], kind=1)
cap("churn25_port", [1, 25, 0, 120, 0], kind=1, defs=[PORT])
cap("reserve_erased27", [4, 27, 0, 2, 1], [4, 27, 0, 12, 1], covers=["filled the reservation"])
cap("reserve_erased28n", [4, 28, 0, 2, 1], [4, 56, 0, 8, 1], kind=3)
cap("reserve_erased_port", [4, 14, 0, 4, 1], [4, 28, 0, 14, 1], kind=1, defs=[PORT])
cap("shrink20", [2, 20, 1, 34], covers=["shrunk"])
cap("shrink34", [2, 34, 0, 0], [2, 60, 0, 0], kind=3)
cap("shrink_port", [2, 16, 1, 17], [2, 20, 1, 20], kind=1, defs=[PORT])
# ---------------------------------------------------------------- B-trees
# operations of btree.cpp: 0 insert 1 emplace 2 hint 3 erase key 4 lookup 5 erase it 6 erase range 7 map access 8 extract/reinsert 9 clear 10 erase_if 11 own-element insert 12 extract key 13 copy 14 move 15 swap 16 merge 17 range 18 compare
BB = "{0} operations (mask {3:#x}) on a tree of {1} elements (insertion order {2}, {4} of them erased again); keys are unconstrained 64-bit symbolic values, positions and hints symbolic; {5}"
SINGLE = 0b1111111111111
def bt(prop, name, p, th=None, defs=(), covers=(), **kw):
    U(prop, name, "btree.cpp", {"quick": p, "thorough": th or p}, defs, covers, BB.format(*p[:5], "one planned element or allocation failure at every point" if p[5] else "no failures"), **kw)
bt("P09", "set_sym4", [1, 4, 4, 0b1, 0, 0], [1, 5, 4, 0b11111111, 0, 0], covers=["insert"])
bt("P09", "set13", [1, 13, 0, SINGLE, 0, 0], [2, 13, 0, SINGLE & ~0b1000100, 0, 0], covers=["insert", "erase", "lookup hit", "range erase"], validate=True)
bt("P09", "set13d", [1, 13, 1, SINGLE, 4, 0], [2, 13, 1, 0b111001, 4, 0])
bt("P09", "set2step", [2, 13, 2, 0b101001, 0, 0], [3, 9, 2, 0b101001, 0, 0])
bt("P09", "set30", [1, 30, 2, 0b1100111011, 6, 0], [2, 30, 2, 0b101001, 6, 0])
bt("P09", "set_rev", [1, 12, 0, SINGLE & ~0b1000000, 2, 0], [2, 12, 0, 0b111001, 2, 0], ["CMP=3"])
bt("P09", "set_greater", [1, 30, 2, 0b110111011, 4, 0], [2, 30, 2, 0b101001, 4, 0], ["CMP=4", "EL=3"])
bt("P09", "set_3way", [1, 12, 2, SINGLE & ~0b1000000, 1, 0], [2, 12, 2, 0b111001, 1, 0], ["CMP=2"])
bt("P09", "set_u64", [2, 40, 2, 0b101001, 4, 0], [2, 70, 2, 0b101001, 9, 0], ["EL=3", "CMP=1"])
bt("P09", "map14", [1, 14, 1, SINGLE, 3, 0], [2, 14, 1, 0b10101001, 3, 0], ["KIND=1", "CMP=1"], covers=["insert", "erase"])
bt("P09", "map3way", [1, 11, 2, SINGLE & ~0b1000000, 1, 0], [2, 11, 2, 0b10101001, 1, 0], ["KIND=1", "CMP=2"])
bt("P10", "mset9", [1, 9, 5, SINGLE, 0, 0], [2, 9, 5, 0b101111, 0, 0], ["KIND=2"], covers=["insert", "alias", "lookup hit"], validate=True)
bt("P10", "mset_eq", [1, 14, 3, SINGLE, 2, 0], [2, 14, 3, SINGLE & ~0b1000000, 2, 0], ["KIND=2", "CMP=1"])
bt("P10", "mset20", [1, 20, 5, 0b110111111111 & ~0b1000000, 3, 0], [2, 20, 5, 0b101101, 3, 0], ["KIND=2", "CMP=2"])
bt("P10", "mset_sym", [1, 3, 4, 0b1011, 0, 0], [1, 4, 4, 0b11111011, 0, 0], ["KIND=2"])
bt("P10", "mmap12", [1, 12, 3, SINGLE, 0, 0], [2, 12, 3, 0b101111, 0, 0], ["KIND=3", "CMP=2"], covers=["insert", "alias"])
bt("P10", "mmap14", [1, 14, 5, SINGLE, 3, 0], [2, 14, 5, 0b101101, 3, 0], ["KIND=3"])
bt("P10", "mset_u64", [1, 45, 5, 0b110110111111, 4, 0], [2, 45, 5, 0b101101, 4, 0], ["KIND=2", "EL=3", "CMP=1"])
for n in (1, 2, 3, 4):
    bt("P10", "own%d" % n, [1, n, 5, 1 << 11, 0, 0], None, ["KIND=2", "EL=2"], covers=["alias"], jobs=1)
bt("P10", "own_u64", [1, 31, 5, 1 << 11, 0, 0], None, ["KIND=2", "EL=3"], jobs=1)
BLK = 0b111111 << 13
for k in (0, 1, 2, 3):
    n = ("set", "map", "mset", "mmap")[k]
    bt("P11", n + "_bulk", [1, 7, 0 if k < 2 else 5, BLK, 0, 0], [1, 12, 0 if k < 2 else 5, BLK, 2, 0], ["KIND=%d" % k, "EL=2"], covers=["merge"], validate=k == 0)
    bt("P11", n + "_ranges", [1, 14, 2, 0b111101100, 2, 0], [2, 12, 2, 0b101100100, 1, 0], ["KIND=%d" % k, "EL=2"], covers=["range erase"])
    bt("P11", n + "_exc", [1, 9, 0 if k < 2 else 5, 0b11, 0, 1], [2, 9, 0 if k < 2 else 5, 0b101011, 0, 1], ["KIND=%d" % k, "EL=2", "ALLOC=1"], covers=["exception"])
    bt("P11", n + "_exc0", [2, 0, 0, 0b101011, 0, 1], [3, 2, 0, 0b101011, 0, 1], ["KIND=%d" % k, "EL=2", "ALLOC=1"], covers=["exception"])
bt("P11", "set_cmp", [1, 3, 4, 1 << 18, 0, 0], None, ["EL=3", "CMP=1"])
bt("P11", "set_bulk0", [1, 0, 0, BLK, 0, 0], None, ["EL=2"])
bt("P11", "set_range30", [1, 24, 2, 0b1000000, 5, 0], [1, 40, 2, 0b1000000, 9, 0], ["EL=1"])
EXTRA_ASSUMPTIONS["P11"] = ["Exceptions come from element construction or copy, or from allocation; moves and comparison do not throw. The strong guarantee is checked for single insertions."]
AB = "{0} operations (mask {2:#x}) on a container of {1} elements: every constructor, copies, moves, assignments, swaps with stateful comparators and allocators of equal or different identity; allocator propagation bits %d (1 copy 2 move 4 swap)"
def al(prop, name, kind, prp, p, th, **kw): U(prop, name + "_state%d" % prp, "alloc.cpp", {"quick": p, "thorough": th}, ["KIND=%d" % kind, "PROPAGATE=%d" % prp], ["constructed", "moved"], AB.format(*p) % prp, jobs=1, **kw)
for k, n in enumerate(("set", "map", "mset", "mmap")):
    for prp in (0, 3, 7) if k < 2 else (0, 7) if k == 2 else (3, 4): al("P11", n, k, prp, [2, 9, 63], [2, 21, 63])
for prp in (1, 2): U("P11", "set_moveprop%d" % prp, "alloc.cpp", {"quick": [2, 9, 63], "thorough": [2, 9, 63]}, ["KIND=0", "PROPAGATE=%d" % prp], ["constructed"], AB.format(2, 9, 63) % prp, jobs=1)
RB = "{0} runs (mask {3:#x}) of up to {7} erasures (in three directions) or insertions (in two) at the place of an unconstrained symbolic 64-bit key, in a tree of {1} elements (insertion order {2}, {4} of them erased again) with %s values per node"
ER, IR = 1 << 19, 1 << 20
def run(prop, name, p, th, el, defs=(), **kw): U(prop, name, "btree.cpp", {"quick": p, "thorough": th}, ["EL=%d" % el, "MAXEL=220"] + list(defs), ["run erased"] if p[3] & ER else ["run inserted"], RB.format(*p) % {0: 3, 1: 15, 2: 3, 3: 31, 4: 7}[el], jobs=1, **kw)
for i, (o, n) in enumerate(((0, "asc"), (1, "desc"), (2, "mix"))):
    run("P09", "run15_" + n, [1, 46, o, ER | IR, o * 2, 0, 0, 14], [2, 40, o, ER | IR, o * 2, 0, 0, 12], 1)
    run("P09", "run7_" + n, [1, 100, o, ER | IR, o * 5, 0, 0, 12], [2, 100, o, ER | IR, o * 5, 0, 0, 8], 4, ["CMP=2"] if o == 1 else [])
    run("P09", "run3_" + n, [2, 18, o, ER | IR, o * 2, 0, 0, 3], [2, 60, o, ER | IR, o * 3, 0, 0, 5], 0)
    run("P09", "mrun7_" + n, [1, 71, o, ER | IR, o * 5, 0, 0, 9], [2, 71, o, ER | IR, o * 5, 0, 0, 6], 1, ["KIND=1"])
    run("P10", "run15_" + n, [1, 46, o, ER | IR, o * 2, 0, 0, 14], [2, 40, o, ER | IR, o * 2, 0, 0, 12], 1, ["KIND=2"])
    run("P10", "run7_" + n, [1, 100, o, ER | IR, o * 5, 0, 0, 10], [2, 80, o, ER | IR, o * 5, 0, 0, 8], 4, ["KIND=2", "CMP=2"] if o == 0 else ["KIND=2"])
    run("P11", "run3_" + n, [1, 40, o, ER | IR, o * 3, 0, 0, 6], [2, 40, o, ER | IR, o * 3, 0, 0, 5], 2)
run("P09", "run31", [1, 95, 2, ER | IR, 8, 0, 0, 20], [2, 95, 0, ER | IR, 0, 0, 0, 16], 3, ["CMP=1"])
run("P10", "mmrun", [1, 60, 2, ER | IR, 8, 0, 0, 8], [2, 60, 2, ER | IR, 8, 0, 0, 8], 1, ["KIND=3"])
SB = "{2} operations on a tree of {0} texts ({1} of them erased again; prefixes of one another, zero bytes, bytes above 127, stored inline and on the heap); the operation's key is a text of length 0..3 or 30 with symbolic bytes, given as the key type, a view or a C string"
for pr, k, key, g in (("P09", 0, 0, 0), ("P09", 0, 1, 1), ("P09", 1, 0, 1), ("P09", 1, 1, 0), ("P10", 2, 0, 1), ("P10", 2, 1, 0), ("P10", 3, 0, 0)):
    U(pr, "%s_%s%s" % (("set", "map", "mset", "mmap")[k], ("text", "view")[key], ("", "_greater")[g]), "strtree.cpp", {"quick": [16, 2, 1], "thorough": [22, 3, 2]}, ["KIND=%d" % k, "KEY=%d" % key, "GREATER=%d" % g], ["found", "absent"], SB.format(16, 2, 1), jobs=1)
# ---------------------------------------------------------------- vector
VB = "{0} operations chosen among 37 on a vector of every size up to {1} with every spare capacity up to {2}; positions and counts (up to {5}) symbolic, values 64-bit symbolic; {4}"
ELN = {0: "u64", 1: "pod24", 2: "trk", 3: "thrmove", 4: "pad"}
def vec(prop, name, p, th, defs, covers=(), **kw):
    U(prop, name, "vec.cpp", {"quick": p, "thorough": th or p}, defs, covers, VB.format(*p[:4], "one planned failure at every point" if p[4] else "no failures", p[5]), **kw)
for e in (0, 1, 2, 4):
    vec("P12", ELN[e] + "_one", [1, 4, 3, 0, 0, 3], [1, 7, 5, 0, 0, 5], ["ELT=%d" % e], covers=["alias"], validate=e == 0)
vec("P12", "u64_alloc", [1, 4, 3, 0, 0, 3], [1, 6, 4, 0, 0, 4], ["ELT=0", "ALLOC=1"])
vec("P12", "trk_alloc", [1, 4, 3, 0, 0, 3], [1, 6, 4, 0, 0, 4], ["ELT=2", "ALLOC=1"])
vec("P12", "u64_two", [2, 1, 1, 0, 0, 2], [2, 3, 2, 0, 0, 2], ["ELT=0"])
vec("P12", "trk_two", [2, 1, 1, 0, 0, 2], [2, 3, 1, 0, 0, 2], ["ELT=2"])
for k, n in ((4, "u64"), (5, "trk")):
    for prp in (0, 1, 2, 7): al("P12", n, k, prp, [2, 3, 63], [3, 3, 63])
for e in (2, 3, 4):
    for al_ in (0, 1):
        vec("P13", "%s_exc%d" % (ELN[e], al_), [1, 4, 3, 0, 1, 3], [1, 5, 4, 0, 1, 4], ["ELT=%d" % e] + (["ALLOC=1"] if al_ else []), covers=["exception"], validate=e == 2 and not al_)
vec("P13", "u64_exc", [1, 4, 3, 0, 1, 3], [1, 6, 4, 0, 1, 4], ["ELT=0", "ALLOC=1"])
vec("P13", "thrmove_life", [1, 4, 3, 0, 0, 3], [1, 6, 4, 0, 0, 4], ["ELT=3"])
vec("P13", "trk_two", [2, 1, 0, 0, 1, 1], [2, 2, 1, 0, 1, 2], ["ELT=2", "ALLOC=1"])
# ---------------------------------------------------------------- bit_vector
MG = ["--merge=1"]
VM = 0b101101111111
def bv(prop, name, p, th=None, covers=(), **kw):
    b = ["every operation on bit vectors of every listed size up to {1}, contents fully symbolic, indices and distances symbolic", "every operation on a view [first,last) of a {1}-bit vector, contents symbolic, positions density {3}", "operations between views of two {1}-bit vectors, contents symbolic", "operations between two (overlapping) views of one {1}-bit vector, contents symbolic"][p[0]].format(*(p + [0] * 3))
    U(prop, name, "bitvec.cpp", {"quick": p, "thorough": th or p}, [], covers, b, engine=MG, **kw)
bv("P14", "vec130", [0, 130, 0], [0, 260, 0], covers=["grow with ones", "contains of a shorter vector"], validate=True)
bv("P14", "vec200", [0, 200, 0], [0, 330, 0])
bv("P15", "view130", [1, 130, VM, 2], [1, 200, VM, 3], covers=["view assigned a word"], validate=True)
bv("P15", "find130", [1, 130, 1 << 7, 2], [1, 200, 1 << 7, 3], covers=["hit in the last partial word of an unaligned view"])
bv("P15", "count130", [1, 130, 1 << 8, 2], [1, 200, 1 << 8, 3])
bv("P15", "shift130", [1, 130, 0b11 << 9, 2], [1, 200, 0b11 << 9, 3])
bv("P15", "str130", [1, 130, 1 << 11, 2], [1, 200, 1 << 11, 3])
bv("P15", "small", [1, 7, 0, 1], [1, 9, 0, 1])
bv("P15", "two200", [2, 200, 0])
bv("P15", "one200", [3, 200, 0, 0], [3, 200, 0, 1], covers=["overlapping copy upwards"])
# ---------------------------------------------------------------- intrusive_ptr
ALL22 = (1 << 22) - 1
def ip(name, p, th=None, defs=(), covers=(), **kw):
    b = "histories of {1} operations (mask {2:#x}) on 2+2+1 pointers and up to 8 objects; operation and pointer choices symbolic" if not p[0] else "{2} threads each copying its pointer {1} times, writing through it and dropping it; every interleaving of the counter operations, with happens-before tracking of the plain accesses"
    U("P18", name, "intrusive.cpp", {"quick": p, "thorough": th or p}, defs, covers, b.format(*p), **kw)
TSC = "CNT=thread_safe_counter"
ip("unsafe3", [0, 3, ALL22], covers=["detached", "moved by a dynamic cast", "advanced along its own object's pointer"], validate=True)
ip("safe3", [0, 3, ALL22], None, [TSC])
ip("deep4", [0, 4, 0b0111000110000001011111], [0, 4, ALL22])
ip("threads2", [1, 1, 2], [1, 3, 2], [TSC], ["joined"], threads=True, sched_unlock=True)
ip("threads3", [1, 0, 3], None, [TSC], ["joined"], threads=True)
ip("threads3copy", [1, 1, 3], None, [TSC], ["joined"], threads=True)
# ---------------------------------------------------------------- soa
def so(name, p, th=None, covers=(), **kw):
    U("P19", name, "soa.cpp", {"quick": p, "thorough": th or p}, [], covers, "{0} operations (mask {2:#x}) on {1} rows with fully symbolic fields after {3} concrete rows; {4} rows of another container sorted before".format(*p), **kw)
so("one3", [1, 3, 2047, 0, 0], [1, 4, 2047, 0, 0], ["sorted", "resized"], validate=True)
so("two3", [2, 3, 2047, 0, 0], [2, 4, 2047, 0, 0])
so("three2", [3, 2, 0b1011, 0, 0], [3, 3, 0b1111011, 0, 0])
so("sort5", [1, 5, 0b111000, 0, 0], [1, 6, 0b111000, 0, 0])
so("big69", [1, 1, 0b111000, 68, 0], [1, 1, 0b111000, 80, 0])
so("after70", [2, 3, 0b1011, 0, 70], [2, 3, 0b111111, 0, 80])
# ---------------------------------------------------------------- utilities
def ut(name, p, th=None, defs=(), covers=(), b="", **kw): U("P20", name, "utils.cpp", {"quick": p, "thorough": th or p}, defs, covers, b, **kw)
ut("guards", [0], covers=["left by an exception"], b="all values, enabled or not, dismissed or not, nested or not, left normally or by an exception", validate=True, jobs=1)
ut("stamps", [1, 3], [1, 4], covers=["unchanged"], b="histories of operations on three timestamps")
ut("seqs", [2, 5, 4], [2, 8, 5], covers=["stride", "cat"], b="vectors up to the bound with symbolic elements, every index pair and stride; all arguments of the combinators")
for n, t in (("i64", "int64_t"), ("u64", "uint64_t"), ("i32", "int32_t"), ("u32", "uint32_t"), ("i16", "int16_t"), ("i8", "int8_t"), ("u8", "uint8_t")):
    ut("mid_" + n, [3], None, ["INT=" + t], ["middle"], "every pair of ends", jobs=1)
ut("mid_double", [5], None, [], ["middle"], "every pair of doubles other than NaN", jobs=1)
for n, t in (("i64", "int64_t"), ("u64", "uint64_t")):
    ut("search_" + n, [4, 12, 6, 0], [4, 30, 7, 0], ["INT=" + t], ["boundary"], "ranges up to 12 wide starting at 28 values, every boundary")
    ut("wide_" + n, [4, 0, 5, 0], [4, 0, 8, 0], ["INT=" + t], ["boundary"], "ends among 14 special values, every boundary, first steps of the search")
    ut("near_" + n, [4, 0, 70, 1], [4, 0, 70, 4], ["INT=" + t], ["boundary"], "ends among 14 special values, every boundary near one of them, the whole search")
ut("search_i8", [4, 40, 9, 0], [4, 120, 9, 0], ["INT=int8_t"], ["boundary"], "ranges starting at 28 values, every boundary")
ut("near_double", [6, 0, 70, 2], [6, 0, 70, 6], [], ["boundary"], "ends among special doubles, every boundary near one of them, the whole search")
ut("wide_double", [6, 0, 5, 0], [6, 0, 8, 0], [], ["boundary"], "ends among special doubles, every boundary, first steps")
# ---------------------------------------------------------------- P22
for i, (n, b) in enumerate([("scans", "every 64-bit and every 32-bit value, builtin and portable variants"), ("order", "every 64-bit value at nine buffer offsets, widths 16, 32, 64, both orders"), ("wide", "every 64-bit multiplicand and every power of two")]):
    U("P22", n, "bits.cpp", {"quick": [i], "thorough": [i]}, [], [n], b, jobs=4, optional=True, validate=n == "scans")
