"""Which binaries decide which property."""
O_MODEL, O_MEM, O_IO, O_RACE, O_ALL = 1, 2, 4, 8, 255
ASAN = ["-std=c++17", "-O1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]
BINARIES = {}
def b(name, src, flags=ASAN, cxx="clang++", **kw):
    BINARIES[name] = dict(src=[src, "sim/sim.cpp"] + kw.pop("more", []), flags=flags, cxx=cxx, **kw)
b("vec", "props/vec.cpp")
b("mm", "props/mm.cpp")
b("str", "props/str.cpp")
b("hash", "props/hash.cpp")
b("jag", "props/jag.cpp")
b("bits", "props/bits.cpp")
b("val", "props/val.cpp")
b("rtree", "props/rtree.cpp")
b("optr", "props/optr.cpp")
b("eq", "props/eq.cpp")
for n in ("offset", "raw"):
    b("host_" + n[:3], "props/host.cpp", flags=ASAN + ["-DSTORE_NS=" + n])
ASAN0 = [f if f != "-O1" else "-O0" for f in ASAN]
STORE = ["props/store1.cpp", "props/store2.cpp", "props/store3.cpp", "props/store4.cpp"]
b("store_off", "props/store_main.cpp", flags=ASAN0 + ["-DSTORE_NS=offset"], more=STORE)
b("types", "props/types_main.cpp", flags=ASAN0 + ["-DSTORE_NS=offset"], more=["props/types%d.cpp" % i for i in (1, 2, 3, 4, 5)])
b("store_raw", "props/store_main.cpp", flags=ASAN0 + ["-DSTORE_NS=raw"], more=STORE)
for n, d in (("wy", "CISTA_WYHASH"), ("fast", "CISTA_WYHASH_FASTEST"), ("xxh", "CISTA_XXH3")):
    b("store_" + n, "props/store_main.cpp", flags=ASAN0 + ["-DSTORE_NS=offset", "-D" + d, "-Itools/wyhash", "-Itools/xxh3"], more=["props/store_hash.cpp"])
TSAN = ["-O1", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]
for std in ("17", "20"):
    b("conc" + std, "props/conc.cpp", flags=["-std=c++" + std, "-include", "sim/cas.h"] + TSAN, link=["-g1"], more=["sim/tsanrt.cpp"])
for n, d in (("off", "offset"), ("raw", "raw")):
    b("read_" + n, "props/read.cpp", flags=["-std=c++17", "-DSTORE_NS=" + d] + TSAN, link=["-g1"], more=["sim/tsanrt.cpp"])
def hashes(h, w, names=("wy", "fast", "xxh")):
    return [dict(bin="store_" + n, harness=h, weight=w) for n in names]
def both(h, w=1):
    return [dict(bin="store_off", harness=h, weight=w), dict(bin="store_raw", harness=h, weight=w)]
DISK = "disk, page cache, stdio, mmap family (in-memory file system with real shared mappings), heap"
PROPS = {
 "C01": dict(targets=both("rt", 4) + hashes("rt", 1), rule="Seeded values of 15 root types saved in every mode to every target and loaded through every load path, then modified like the original.", stub=DISK),
 "C02": dict(targets=both("file"), rule="Seeded save/load histories with seeded I/O failures, allocation failures, process crashes and power losses.", stub=DISK),
 "C03": dict(targets=both("corrupt", 4) + [dict(bin="types", weight=3)] + hashes("corrupt", 1, ("wy", "xxh")), rule="Seeded damage (bit flips, truncation, extension, zeroed/garbage/moved/stale blocks, torn writes, power loss, swapped files, wrong type) between save and load; seeded histories saving and loading 146 types under few file names with swapped, copied, restored and incomplete files.", stub=DISK),
 "C06": dict(targets=both("det", 4) + [dict(bin="store_off", harness="raw", weight=4)] + hashes("raw", 1), rule="Seeded values built twice at seed-dependent addresses and saved to every target in every mode; seeded raw write/positioned write/checksum histories on every target against a byte-vector model.", stub=DISK),
 "C19": dict(targets=[dict(bin="store_off", harness="pos")], rule="Seeded interleavings of several simultaneous mappings and copies of one image with in-place changes and unmapping.", stub=DISK),
 "C04": dict(targets=[dict(bin="mm", harness="mm")], rule="Seeded histories of open/resize/store/sync/move/close over mapped files with seeded I/O failures, process crashes and power losses.", stub="disk, page cache, stdio, mmap family (in-memory file system with real shared mappings), heap"),
 "C05": dict(targets=[dict(bin="mm", harness="mv", weight=3), dict(bin="mm", harness="mr", weight=2)], rule="Seeded histories of vector operations on file-backed vectors with reopen, I/O failures and process crashes.", stub="disk, page cache, stdio, mmap family (in-memory file system with real shared mappings), heap"),

 "C15": dict(targets=[dict(bin=x, mask=O_MEM, weight=2) for x in ("vec", "hash", "str", "jag", "bits", "val", "rtree")] +
             [dict(bin="mm", harness=h, mask=O_MEM) for h in ("mm", "mv", "mr")] +
             [dict(bin="store_" + k, harness=h, mask=O_MEM) for k in ("off", "raw") for h in ("rt", "file")],
             rule="All container, mapped-file and storage histories of the other checks, judged only by the memory rules (every block freed once by the matching routine, nothing outside live storage touched, no image or caller memory freed), with seeded allocation, constructor and I/O failures.", stub=DISK),
 "C16": dict(targets=[dict(bin="conc17", harness="atom"), dict(bin="conc20", harness="atom")], rule="Seeded programs of 2-4 simulated threads calling the atomic helpers on neighbouring words under seeded preemptions and seeded spurious compare-exchange failures, in both language standards.", stub="threads (fibers under the seeded scheduler), heap"),
 "C17": dict(targets=[dict(bin="conc17", harness="mark"), dict(bin="conc20", harness="mark")], rule="Seeded programs of 2-4 simulated threads marking bits of one bit vector or drawing set bits from a shared position under seeded preemptions and spurious compare-exchange failures.", stub="threads (fibers under the seeded scheduler), heap"),
 "C18": dict(targets=[dict(bin="read_off", harness="read", weight=2), dict(bin="read_raw", harness="read")], rule="Seeded programs of 2-4 simulated threads reading, querying, comparing, printing, hashing, copying and loading shared values of 12 root types (built in memory or loaded) under seeded preemptions.", stub="threads (fibers under the seeded scheduler), heap"),
 "C07": dict(targets=[dict(bin="host_off", harness="hostile", weight=4), dict(bin="host_raw", harness="hostile")], rule="Seeded structure-aware damage (flipped bits, redirected pointers, changed sizes, moved, cut or extended regions) of images of 11 root types loaded with checking and then read completely.", stub=DISK),
 "C12": dict(targets=[dict(bin="rtree")], rule="Seeded histories of insertions, deletions and searches over 8 tree configurations (in memory and file-backed) with seeded allocation and I/O failures, in-image restarts, reopens and process crashes.", stub=DISK),
 "C13": dict(targets=[dict(bin="bits")], rule="Seeded histories of bit-set operations over 4 dynamic and 9 fixed configurations around word boundaries with seeded allocation failures and in-image restarts."),
 "C14": dict(targets=[dict(bin="val")], rule="Seeded histories over 5 variant, 3 optional, 3 tuple and 3 owning-pointer configurations with seeded allocation and constructor failures and in-image restarts."),
 "C11": dict(targets=[dict(bin="jag")], rule="Seeded histories over 17 multi-row container configurations (multimaps, vecvec, paged vecvec, nvec, flat matrix) with seeded allocation failures and in-image restarts."),
 "C09": dict(targets=[dict(bin="hash")], rule="Seeded histories of hash map and set operations over 7 entry types and 8 hash distributions with seeded allocation and constructor failures and in-image restarts."),
 "C10": dict(targets=[dict(bin="str")], rule="Seeded histories over owning, non-owning and generic strings of three character widths and C-strings, with dying sources, seeded allocation failures and in-image restarts."),
 "C21": dict(targets=[dict(bin="eq")], rule="Seeded histories giving four values of one of 12 types the same or different content in different ways (owned, borrowed, shrunk, moved, copied, loaded from an image) with seeded allocation failures.", stub="heap"),
 "C20": dict(targets=[dict(bin="optr")], rule="Seeded histories of assignments, copies, moves, steps, comparisons and writes over relative pointers (to values, nodes, pointers, constants and untyped memory) inside a block that is moved and copied to other addresses, and inside growing vectors and hash maps with seeded allocation failures.", stub="heap"),
 "C08": dict(targets=[dict(bin="vec")], rule="Seeded histories of vector operations over 9 element types with seeded allocation and constructor failures and in-image restarts."),
}
NA = {
 "N01": "A compile-time pure function of a type: no schedule, clock, I/O, randomness or failure for a simulator to control; simulation would degenerate to a table of examples.",
 "N02": "A compile-time pure function of a type's definition: nothing nondeterministic or multi-step for a simulator to drive.",
 "N03": "Pure arithmetic on one word: no environment, no history, no fault can change its result, so deterministic simulation has nothing to control.",
}
