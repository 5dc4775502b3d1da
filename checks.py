"""What each check builds and runs."""
W = ["-w", "-DC4_NO_DEBUG_BREAK", "-pipe"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift,signed-integer-overflow,pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSI = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
WRAP = ["-lpthread"] + ["-Wl,--wrap=" + f for f in "memcpy memmove memset memcmp strlen strncmp strcmp memchr strncpy strcpy vsnprintf snprintf".split()]
CONFIGS = {
    # asserts on, address and undefined behaviour sanitizers
    "dbg": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g1"] + SAN + W),
    # release: asserts off, guard pages around every buffer
    "rel": dict(cxx="g++", flags=["-std=c++17", "-O2", "-DNDEBUG"] + W),
    # release semantics (asserts off) under the sanitizers
    "relsan": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g1", "-DNDEBUG"] + SAN + W),
    "dbg11": dict(cxx="g++", flags=["-std=c++11", "-O1", "-g1"] + SAN + W),
    "rel11": dict(cxx="g++", flags=["-std=c++11", "-O2", "-DNDEBUG"] + W),
    "rel14": dict(cxx="g++", flags=["-std=c++14", "-O2", "-DNDEBUG"] + W),
    "rel20": dict(cxx="clang++", flags=["-std=c++20", "-O2", "-DNDEBUG"] + W),
    # errors thrown as exceptions
    "thr": dict(cxx="g++", flags=["-std=c++17", "-O2", "-DNDEBUG", "-DC4_EXCEPTIONS_ENABLED", "-DC4_ERROR_THROWS_EXCEPTION"] + W),
    "nff": dict(cxx="g++", flags=["-std=c++17", "-O2", "-DNDEBUG", "-DC4CORE_NO_FAST_FLOAT"] + W),
    "nff11": dict(cxx="g++", flags=["-std=c++11", "-O2", "-DNDEBUG", "-DC4CORE_NO_FAST_FLOAT"] + W),
    # with the checks for shifts and overflows that the others leave out
    "dbgsh": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + W),
    "o11": dict(cxx="g++", flags=["-std=c++11", "-O0"] + W),
    "o17": dict(cxx="g++", flags=["-std=c++17", "-O0"] + W),
    "o20": dict(cxx="g++", flags=["-std=c++20", "-O0"] + W),
    "l11": dict(cxx="clang++", flags=["-std=c++11", "-O0"] + W),
    "l17": dict(cxx="clang++", flags=["-std=c++17", "-O0"] + W),
    # C27: hooks at every memory access, answered by the controlled scheduler in harness/c27_rt.cpp
    "tsi": dict(cxx="clang++", flags=["-std=c++17", "-O1", "-DNDEBUG"] + TSI + W, linkflags=[], extraflags=["-std=c++17", "-O2"] + W, ldflags=WRAP),
    "tsi14": dict(cxx="clang++", flags=["-std=c++14", "-O1"] + TSI + W, linkflags=[], extraflags=["-std=c++17", "-O2"] + W, ldflags=WRAP),
}
CHECKS = {}
def check(pid, *builds, **kw):
    CHECKS[pid] = dict(builds=list(builds), **kw)
def H(harness, *configs, **kw):
    return dict(harness=harness, configs=list(configs), **kw)

check("C01", H("c01_itoa.cpp", "dbg", parts=5), H("c01_itoa.cpp", "rel", parts=2))
check("C02", H("c02_bounds.cpp", "dbg", parts=7), H("c02_bounds.cpp", "rel", parts=4))

NOT_APPLICABLE = {}
META = {
 "C01": ("bounded-exhaustive state enumeration of the real writers against a division-based model",
   "Exhaustive for all 8/16-bit values (32-bit in the thorough tier), complete boundary families for 64 bit, all radices, entry points and digit counts to 70; trusts the reference arithmetic and the compiler."),
 "C02": ("exhaustive enumeration of buffer lengths and argument tuples under trapping buffers",
   "Every buffer length from 0 to needed+3 for every writer and value of the stated domains, in a checked sanitizer build and in a release build with guard pages; reads before the buffer are only seen in the sanitizer build."),
}
check("C03", H("c03_parse.cpp", "dbg", "rel"))
META["C03"] = ("bounded-exhaustive enumeration of input texts against a positional-value model",
   "All byte strings to length 2, all strings to length 4-5 over the numeral alphabet, all boundary numerals and their single-character edits, for every type and reader; trusts the reference parser; longer strings are covered through the boundary families only.")
check("C04", H("c03_parse.cpp", "dbg", "rel", defs=["-DC04"]))
META["C04"] = ("bounded-exhaustive enumeration of numerals around every type boundary against wide-integer arithmetic",
   "Every numeral form of every boundary magnitude and all its single-digit edits, every type and radix, up to 90 digits and 90 leading zeros.")
check("C05", H("c05_scan.cpp", "dbg", "rel"))
META["C05"] = ("bounded-exhaustive enumeration of texts against a grammar model",
   "Every text to length 5 over the numeral alphabet (6 thorough), every byte as delimiter, all combinations of sign/prefix/digits/fraction/exponent/trailer pieces; trusts the reference grammar.")
check("C06", H("c06_real.cpp", "dbg", "rel", parts=2), H("c06_real.cpp", "rel11"))
META["C06"] = ("bounded-exhaustive enumeration of numerals and values against the C library's exact conversions",
   "All short numeral strings, boundary mantissas at every exponent, exact midpoints, value families at every exponent (all 2^32 floats in the thorough tier); the oracle is glibc's strtod/printf, which are correctly rounded; hexadecimal reals only where the value is exactly representable; out-of-range numerals excluded.")
check("C07", H("c07_query.cpp", "dbg", "rel"))
META["C07"] = ("bounded-exhaustive enumeration of texts, needles and start offsets against set-theoretic definitions",
   "Every text to length 6-12 over two to five letters, every needle to length 3-5, every start, every pair of views of a small array; exact buffers, so that a read outside the view traps; every ordered pair of byte values in short texts; longer texts (every length to 130, powers of two to 65540) with few occurrences.")
check("C08", H("c08_slice.cpp", "dbg", "rel"))
META["C08"] = ("bounded-exhaustive enumeration of texts, positions and pop/split histories against index-range definitions",
   "Every position and count to length 12, every text to length 6-8 over separator/letter alphabets, complete split iterations and pop histories from both ends, every ordered pair of byte values as separator and text; empty results are compared by content and location inside the text, not by exact address.")
check("C09", H("c09_edit.cpp", "dbg", "rel"))
META["C09"] = ("bounded-exhaustive enumeration of edits, sub-ranges and edit histories against the same edits of a std::string",
   "Every text to length 6 over three letters with every sub-range, every destination length of replace_all, all edit sequences of depth 3, every ordered pair of byte values; the view is a window of a larger array whose surroundings are compared; copying between overlapping memory is outside the documented domain.")
check("C10", H("c10_order.cpp", "dbg", "rel"))
META["C10"] = ("exhaustive enumeration of operand pairs against a lexicographic total order",
   "All pairs of texts to length 3 over six byte classes, all byte pairs at several positions, every operand kind and operator; longer texts with one difference at every position.")
check("C11", H("c11_base64.cpp", "dbg", "rel"))
META["C11"] = ("bounded-exhaustive enumeration of byte sequences, texts and destination lengths against the bit-level definition",
   "All byte sequences to length 2 (3 in the thorough tier), one odd byte at every position to length 40, all texts to length 5 over ten character classes, all bytes at all positions, every set of padding positions in 8 and 12 characters.")
check("C12", H("c12_utf.cpp", "dbg", "rel"))
META["C12"] = ("exhaustive enumeration of the code point space against an arithmetic definition",
   "The whole Unicode range and the 64K numbers above it, both entry points, both letter cases; all 2^32 numbers through the numeric entry point; surrogates are treated as ordinary numbers, as the code documents nothing else.")
check("C13", H("c13_format.cpp", "dbg", "rel"))
META["C13"] = ("bounded-exhaustive enumeration of argument tuples, format strings, buffer lengths and container histories against string concatenation",
   "All tuples to arity 3 over 17 argument values (arity 6 over fewer), all format strings to length 6 over braces and a letter, every previous container size, all overwrite/append histories of depth 4, every ordered pair of byte values in arguments, separators and patterns; arguments aliasing the destination are outside the domain.")
check("C14", H("c14_unformat.cpp", "dbg", "rel"))
META["C14"] = ("bounded-exhaustive enumeration of texts, value tuples, truncations and corruptions against the sequential composition of single readers",
   "All texts to length 5 over seven characters, all tuples to arity 3 over 15 typed values, every truncation and single-character corruption, every ordered pair of byte values around numbers, whole texts of every length into views and destinations of every capacity; the single readers are judged by C05/C06, the values of round trips by the generated tuples.")
check("C15", H("c15_dump.cpp", "dbg", "rel"))
META["C15"] = ("explicit exploration of all resume histories (sequences of buffer sizes) of the real dumper against a part-list model",
   "All argument tuples to arity 3-4 over values and strings of sizes 0-4, all sequences of up to 3 buffer sizes followed by a sufficient one, every call compared with the model, every ordered pair of byte values; real numbers as arguments are covered only by direct calls; a callback that throws is outside the domain.")
check("C16", H("c16_wrappers.cpp", "dbg", "rel", "rel11"))
META["C16"] = ("bounded-exhaustive enumeration of wrapped values, widths, padding, buffer lengths and addresses against string padding and byte copies",
   "Every wrapper kind with widths to 14 (40 thorough), every buffer length, nine writers each; raw objects of 0-18 bytes at every address modulo 64 and alignments 1-64; integers: all 8-bit values, families beyond.")
check("C17", H("c17_enum.cpp", "dbg", "rel"))
META["C17"] = ("exhaustive enumeration of masks, buffer lengths and single-edit name neighbourhoods against a table lookup",
   "8 enum types (scoped/unscoped, 8-64 bits, signed, with and without class/prefix offsets, names that are prefixes of each other and names with digits); masks over overlapping composite symbols without single-bit symbols are outside the domain, as are texts with blanks behind a part.")
check("C18", H("c18_span.cpp", "dbg", "rel", "rel11", parts=4))
META["C18"] = ("explicit-state exploration of the real span objects to a fixpoint against index ranges",
   "Every span over a 6-element array reachable by any operation sequence, every operation and argument from each, all pairs; trimming by the whole size is outside the asserted domain.")
check("C19", H("c19_linear.cpp", "dbg", "rel"))
META["C19"] = ("explicit exploration of all allocation histories to a depth on the real resource, with a block monitor and fault injection in the backing resource",
   "All histories of 3 operations over a wide alphabet, 5 over a medium and 7 over a small one (one more in the thorough tier), for borrowed, owned and array arenas at several addresses; reallocation with a larger alignment than the allocation is outside the domain; MemoryResourceStack has no implementation and is not covered.")
check("C20", H("c20_resources.cpp", "dbg", "rel"))
META["C20"] = ("explicit exploration of all allocation histories and single-fault placements on the real resources, with a recording backing resource",
   "All histories of 3 operations over a wide alphabet and 5 over a small one (one more in the thorough tier) for nine resource set-ups, every single fault; the address hint is not forwarded by the counting resource and not claimed; blocks from malloc are checked for accessibility by the address sanitizer.")
check("C21", H("c21_alloc.cpp", "dbg", "rel"))
META["C21"] = ("explicit exploration of all allocation histories and single-fault placements of the real allocators over a recording resource",
   "All histories of 3-4 operations for 16 allocator types, 6 for the small-buffer ones, every single fault, all container histories of 5 operations; containers that move local memory between small-buffer allocators are outside the domain.")
check("C22", H("c22_ctor.cpp", "dbg", "rel", parts=5))
META["C22"] = ("exhaustive enumeration of range geometries with an object-lifetime monitor",
   "All ranges to 6-8 objects, every position and room, 13 element types, three index types; a moved-from object counts as gone, so leaks in moved-from objects are not seen; overlapping copy/move ranges are outside the domain except for the in-place room functions.")
check("C23", H("c23_error.cpp", "dbg", "rel", "thr"))
META["C23"] = ("exhaustive exploration of all scope/set/raise/throw programs to a length on the real settings, and of all flag and callback combinations in forked processes",
   "All programs of 5 tokens (6 in the thorough tier) over 10 kinds of scopes, direct settings, reported errors and exceptions; all 32 flag sets with absent, returning and throwing callbacks; all message lengths to 1100; threads are outside the domain (the error settings are plain globals).")
check("C24", H("c24_util.cpp", "dbg", "rel", "rel11", parts=4), H("c24_util.cpp", "rel20", defs=["-DC24_FALLBACK"], parts=4))
META["C24"] = ("bounded-exhaustive enumeration of arguments against arithmetic definitions, in every language mode and with the non-intrinsic implementations",
   "All 8 and 16-bit arguments, complete small-weight bit patterns of the wider ones (all 32-bit values in the thorough tier), all bounds, all small ranges; the branches for the Microsoft compiler are not covered.")
check("C28", H("c28_szhash.cpp", "dbg", "rel", "rel11"))
META["C28"] = ("exhaustive enumeration of type pairs, values, texts, addresses and piece splits against wide-integer arithmetic and the published algorithm",
   "All pairs of 11 integer types with all 8 and 16-bit values and two-power families beyond; all short texts at nine addresses; reported errors only in checked builds, as documented.")
check("C26", H("c26_std.cpp", "dbg", "rel", "rel11", "rel20"))
META["C26"] = ("bounded-exhaustive enumeration of contents, previous sizes, buffer lengths and histories against std::string",
   "All contents to length 3-5 over zero, letter and high bytes, five container types, every operator and operand order, all histories of 5 operations (6 thorough); the order of characters is that of plain char, as in C10; a text inside the object it is read into is outside the domain (asserted); tuples are compiled out upstream.")
check("C25", H("c25_inplace.cpp", "dbg", "rel", "rel20"))
META["C25"] = ("explicit exploration of all operation histories to a depth on the real objects, with a lifetime monitor and a throwing copy at every place",
   "All histories of 4 of 28 operations on four function objects (5 thorough), all single throwing copies/moves in histories of 3 (4 thorough); what a moved-from function holds is not claimed; a swap whose moves throw is outside the domain; the header requires C++17.")

check("C27", H("c27_threads.cpp", "tsi", extra=["c27_rt.cpp"]), H("c27_threads.cpp", "tsi14", extra=["c27_rt.cpp"], only=["same", "triples"]))
META["C27"] = ("stateless exploration of the real code's thread interleavings under a controlled scheduler, preemption bounded, with vector-clock race detection",
   "36 representative calls of every module and 11 on long data: every ordered pair with at most 2 preemptions, every call against itself with 9 data choices and 3 preemptions, three threads with 1; schedule points are shared bytes, atomics, locks, static guards and call boundaries; tuples with more than the capped number of schedules are explored fewest preemptions first; memory accesses inside the C library are seen only for the wrapped functions; atomics are explored sequentially consistent (the race detector honours the stated orders); the error settings are process-wide by design and not changed.")

check("C29", H("c29_typename.cpp", "o11", "o17", "o20", "l11", "l17"))
META["C29"] = ("exhaustive enumeration of a bounded grammar of types, in each language version and compiler, against the compiler's own delimited spelling",
   "All chains of at most 2 of 12 type constructors over 5 bases, and 61 base types with names of 1 to 70 characters, for g++ (C++11/17/20) and clang++ (C++11/17); other compilers' branches cannot be run here.")
check("C30", H("c30_rng.cpp", "dbgsh", "rel", "rel11"))
META["C30"] = ("explicit exploration of all operation histories to a depth from boundary seeds, against a wide-integer model",
   "263 seeds, all histories of 3-4 (5-6 thorough) of nine operations on a pair of generators, 20000 consecutive values per seed; seeding from a random device is not judged.")
check("C31", H("c31_types.cpp", "dbg", "rel11", "rel20", "l11", "l17"))
META["C31"] = ("exhaustive enumeration of argument counts, sizes, paddings and sequence lengths in each language version and compiler against their arithmetic definitions",
   "All argument counts 1..32 of the for-each macro, all sizes and limits to 1030, 13 kinds of types with every padding, minimum and multiple to 72, sequences of 0..140 and to 600 elements, for g++ (C++11/17/20) and clang++ (C++11/17); the types' own alignment inside a padded type is not claimed (they are packed on purpose).")
