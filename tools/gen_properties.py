#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=files[0]) for m in mechanism.split(';')])))

prop("C01", "Integer-to-text conversion is exact for every value, radix and width",
 "Writing any value of any built-in integer type as text in decimal, hexadecimal, octal or binary, with or without a minimum digit count, yields exactly the canonical numeral: minus sign first when negative, then the radix prefix when the entry point adds one, then zero padding up to the requested digit count, then lowercase digits without superfluous zeros. The number of characters reported equals the length of that numeral. The digit-count queries equal the number of digits of that numeral for every non-negative value, including zero and the largest value of each type.",
 ["inputs"], "every value of every 8/16/32/64-bit integer type, every radix, every minimum digit count, every entry point that prints integers",
 "The tests print a few hundred tabulated values; a digit-pair table, a magnitude threshold or the minimum-value special case can be wrong for values outside the table.",
 ["src/c4/charconv.hpp"], "digit-pair tables, branch ladders of the digit counters, unchecked writers behind a size check, special case for the most negative value")

prop("C02", "Text writers never leave the buffer and always report the size needed",
 "For every value and every buffer length including zero, a number, boolean, character, string, pointer, concatenation, formatting or base64 writer stores nothing before or after the buffer it was given. It returns a length not greater than the buffer exactly when the whole text fits, in which case the buffer's first bytes are that text, and otherwise a greater length - which, except for real numbers and aligned raw bytes, is exactly the length of the text. The variants that return a view of the written characters never return one that extends past the buffer: they truncate it or report an error.",
 ["inputs"], "every writer, every small value domain, every buffer length from 0 to past the size needed, in checked and unchecked (release) builds",
 "Tests use roomy buffers plus a handful of too-short ones; an off-by-one in a bound check shows only for one exact length of one writer, and only corrupts memory silently in release builds.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp", "src/c4/base64.cpp", "src/c4/substr.hpp"], "size-then-write protocol: compute the length, compare with the buffer, write only if it fits; recursion over remaining sub-buffers")

prop("C03", "Integer parsing accepts exactly the numerals and yields the exact value",
 "A string converts to a built-in integer type if and only if it is a complete numeral for that type: an optional minus sign (signed types only), an optional radix prefix 0x/0o/0b in either case, and at least one digit, all digits valid for the radix; every other string is rejected. The value obtained is the mathematical value of the numeral, reduced modulo two to the width of the type when it does not fit. Reading back the text written for any value returns that value. Booleans read the words true and false in lower, capitalised and upper case and otherwise any integer numeral, taken as an int, as zero or non-zero; a character reads from exactly one character.",
 ["inputs"], "all byte strings up to a bounded length over an alphabet covering digits of every radix, letters, signs, prefixes and separators; all values of the small types",
 "The rejected language is infinite; tests list a few dozen bad strings. Wrong acceptance of one character class, one prefix case or one length is invisible to them.",
 ["src/c4/charconv.hpp"], "sign and prefix dispatch in the generic readers, per-radix digit loops with wrapping arithmetic")

prop("C04", "Overflow detection is exact at every type's boundary",
 "For every numeral that the integer readers accept, in any radix, with any number of leading zeros, the overflow query answers true exactly when the numeral's mathematical value lies outside the range of the type. Reading through the overflow-checked wrapper succeeds exactly when the string is such a numeral and it does not overflow, and then yields the exact value.",
 ["inputs"], "every numeral of every radix near and far from the limits of every 8 to 64-bit type, all leading-zero counts, both signs and prefix cases",
 "Boundary tables per type and radix are consulted by string comparison; tests cover the limits plus/minus a few, not all digit strings of the critical length nor leading zeros.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp"], "length and lexicographic comparison against per-type limit strings, per-radix limits")

prop("C05", "Number scanning in running text takes exactly the leading number",
 "Given any text, scanning for a leading unsigned integer, signed integer or real number (after skipping leading blanks) returns exactly the longest leading piece that forms a number ended by the end of the text or a delimiter, and an empty result otherwise. The read-first-value functions return the number of characters from the start of the text up to the end of the value they stored, or the not-found marker when there is no value; the stored value is the one obtained from reading just that piece.",
 ["inputs"], "all byte strings up to a bounded length over an alphabet of digits, hex letters, signs, prefixes, points, exponents, blanks and delimiters",
 "Tests enumerate examples by hand; the scanners are nested state machines whose wrong transitions need particular short character sequences.",
 ["src/c4/substr.hpp", "src/c4/charconv.hpp"], "hand-written scanners for decimal, hexadecimal, octal and binary integers and reals; consumed-length arithmetic in the first-value readers")

prop("C06", "Real numbers round-trip and read to the correctly rounded value",
 "Reading a complete decimal real numeral that is in range yields the correctly rounded single or double precision value, a hexadecimal one yields its exact value whenever the type can represent it, and malformed numerals or numerals followed by other characters are rejected. Writing a real value with default settings and reading it back gives the identical value, in every format whose precision suffices, including signed zero, subnormals and infinities. The text for an explicit precision and format is the one the C library prints for it.",
 ["inputs"], "bounded grammars of real numerals, all single-precision exponents with boundary mantissas, all formats and a range of precisions, all buffer lengths",
 "The numeral space is unbounded and rounding errors are isolated points; tests use about a hundred values and never check the value of hexadecimal reals.",
 ["src/c4/charconv.hpp", "src/c4/ext/fast_float_all.h"], "number reader and writer back-ends, hand-written hexadecimal real reader, format/precision mapping")

prop("C07", "Substring queries agree with a character-by-character definition",
 "Every lookup on a string view (find of a character or a non-empty string from an offset; first or last of / not of a set, from or before an offset; which of several patterns comes first; begins/ends with a character, a repeated character, a string or any of a set; counting of non-overlapping occurrences; selecting; ranges delimited by plain, escaped or nested pairs; containment and overlap of two views) returns exactly what its definition over the sequence of characters says, for every haystack, needle and start offset. No query reads outside the view or changes the text.",
 ["inputs"], "all haystacks up to a bounded length over a small alphabet, all needles up to a bounded length, all offsets",
 "Tests look at hand-picked words; overlaps, partial matches at the end, needles longer than the haystack and embedded offsets combine in too many ways.",
 ["src/c4/substr.hpp"], "hand-written search loops with index arithmetic on unsigned lengths")

prop("C08", "Slicing, trimming, splitting and path operations partition the text",
 "Every slicing, trimming, unquoting, splitting and path-component operation returns views that lie inside the original text and contain exactly the characters its definition selects. Splitting by a separator enumerates precisely the pieces between separators, so that joining them with the separator restores the text, and popping pieces from either end consumes each piece exactly once in order.",
 ["inputs", "histories"], "all texts up to a bounded length over an alphabet with separator, blank and quote characters; all positions and lengths; all pop sequences until exhaustion",
 "Tests use fixed sentences; empty pieces at the ends, repeated separators and one-character texts are the failing combinations.",
 ["src/c4/substr.hpp"], "cursor arithmetic of the splitter and its iterator, pop functions, trim loops, quote stripping")

prop("C09", "In-place edits of a string view change exactly the designated characters",
 "Filling, reversing, case conversion, erasing, copying in, and replacing characters or substrings of a mutable view produce the same text as the corresponding edit of an ordinary string, touch no byte outside the view, and leave the untouched characters as they were. Replacing into another buffer returns the size the full result needs whatever the buffer length, and a result that fits is complete.",
 ["inputs", "histories"], "all texts, positions, lengths, patterns and replacements up to bounded lengths over a small alphabet; all destination buffer lengths",
 "The tests check a few phrases; sub-ranges, overlapping copies, adjacent matches and exact-fit destinations are not enumerated.",
 ["src/c4/substr.hpp"], "memmove/memcpy arithmetic with sub-range offsets, match-skip loops")

prop("C10", "String view comparison is one consistent lexicographic order",
 "Comparing any two string views, or a view with a character, a literal or a character array, gives the sign of the lexicographic order of their char values with a proper prefix ordered first (a null view counts as an empty one), and all six relational operators agree with that sign in every operand combination. Hence the order is total, antisymmetric and transitive, and equal views are exactly those with equal contents.",
 ["inputs"], "all pairs and triples of views up to a bounded length over an alphabet including bytes above 127 and zero, empty and null views, every operand kind",
 "Tests compare a few pairs; asymmetries between overloads, embedded zeros, high bytes or length ties need specific pairs.",
 ["src/c4/substr.hpp"], "compare core plus operator overload family for mixed operand types")

prop("C11", "Base64 encoding and decoding are exact inverses",
 "Encoding any byte sequence yields its standard padded base64 text and reports its exact length whatever the destination size, and decoding that text restores the bytes and reports their number. A text is reported valid exactly when it is a standard padded encoding form: length multiple of four, alphabet characters, and at most two padding characters only at the very end. Neither direction writes outside its destination.",
 ["inputs"], "all byte sequences up to length 3 and all remainders beyond, all 4-character texts over class representatives and all 256 byte values per position, every destination length",
 "Tests encode about forty phrases; a single wrong table entry, shift or padding case is not hit by them.",
 ["src/c4/base64.hpp", "src/c4/base64.cpp"], "sextet tables in both directions, tail handling of 1 and 2 remaining bytes")

prop("C12", "Every code point is turned into exactly its UTF-8 byte sequence",
 "For every Unicode code point, given as a number or as hexadecimal digits in either letter case, the decoder writes exactly its standard UTF-8 byte sequence and reports its length of one to four bytes; the bytes of the destination behind that sequence are left alone. Numbers above the Unicode range produce an empty result and write nothing.",
 ["inputs"], "all code points 0..0x10FFFF through both entry points and both letter cases, destination lengths 4 and more, all values just above the range and bit-pattern families up to 2^32",
 "Tests include a table of sample characters; range boundaries between the 1 to 4 byte forms are separate points in a million-element space.",
 ["src/c4/utf.hpp", "src/c4/utf.cpp"], "range ladder by byte length; masks and shifts per form; hexadecimal reader")

prop("C13", "Concatenation and formatting compose the texts of their arguments",
 "Concatenating, concatenating with a separator, and formatting with placeholders produce exactly the texts of the individual arguments placed in order (separator between consecutive arguments, each {} replaced by the next argument, surplus placeholders kept and surplus arguments ignored), and report the total length. The variants that resize a container grow it to hold exactly that text, in overwrite and in append form, whatever its previous size or capacity.",
 ["inputs", "histories"], "all argument tuples up to a bounded arity over a small typed value alphabet, all format strings up to a bounded length over braces and text, all initial container states, sequences of appends",
 "Tests use a few tuples; the interplay of partial buffers, re-tries after growth and placeholder scanning depends on lengths that tests do not sweep.",
 ["src/c4/format.hpp"], "variadic recursion over sub-buffers; grow-and-retry in the resizing variants")

prop("C14", "Reading back concatenated or formatted text recovers the values",
 "For any tuple of values whose texts are unambiguous in context, reading a text made by separated concatenation or by formatting with the same pattern recovers every value and reports exactly the characters consumed. The composed readers give what the single-value readers give one after the other (separators are read into the separator variable; the literal text of a pattern is skipped by length, not compared); a missing or malformed value makes them report failure, and they never read or count beyond the text. Reading a whole text into a view refers to exactly that text, and reading it into a destination buffer copies exactly that text when the buffer is large enough and fails otherwise.",
 ["inputs"], "all value tuples of bounded arity over small typed domains, all separators/patterns in a bounded set, all truncations and single-character corruptions of the text",
 "Tests check one or two tuples; truncation at every point and every corruption of the text is not sampled.",
 ["src/c4/format.hpp", "src/c4/charconv.hpp"], "recursive readers with consumed-length arithmetic and a not-found marker")

prop("C15", "Dumping through a small buffer delivers every part exactly once, in order",
 "Writing arguments through a non-empty scratch buffer into an output callback delivers exactly the text of the corresponding concatenation or formatting, up to the first part that does not fit the buffer, and reports the buffer size that the largest argument needs (strings need none). When the buffer is too small or empty the resumable variants report which parts were delivered, and resuming with a sufficient buffer - at once or through any succession of growing buffers - delivers each remaining part once, skipping and repeating nothing.",
 ["histories", "fault_sequences"], "all argument tuples with all combinations of text sizes, all buffer sizes at each call, all resume histories up to a bounded number of calls",
 "A resume history is a sequence of buffer sizes; tests follow a few. Duplicated or lost parts need particular size patterns such as a large argument followed by small ones.",
 ["src/c4/dump.hpp"], "last-delivered-argument bookkeeping across calls, maximum-size tracking, literal text between placeholders")

prop("C16", "Format wrappers pad, align and encode as requested",
 "A value wrapped for alignment is its plain text padded with the given character to the requested width on the requested side, and is left whole when longer; wrapped for radix, zero padding, boolean words, real precision or raw bytes it is the corresponding text or bytes. The same wrapped value written by any writer gives the same text, and raw-wrapped objects read back bit for bit at the required memory alignment, alone and among other values, with exactly the padding and the bytes of the object consumed.",
 ["inputs"], "all widths and buffer lengths in a bounded range, all wrappers over small value domains, all address alignments of the buffer for raw objects",
 "Tests use a few widths with large buffers; width larger than the buffer or than the remaining space, and misaligned raw buffers are not covered.",
 ["src/c4/format.hpp", "src/c4/format.cpp", "src/c4/blob.hpp"], "wrapper types with their own writers; pointer alignment arithmetic for raw data")

prop("C17", "Enum and bitmask symbol conversion are consistent both ways",
 "Every registered symbol name, with or without its class or prefix, converts to its value, and strings that are not registered names are not taken for one. Any combination of single-bit flags written as text reads back to the same mask, as do numbers and names joined by |; writing a mask with bits that no symbol covers to a string reports an error instead of dropping them. The writers report the length needed, and either write the whole text or report an error, never writing past the buffer they were given.",
 ["inputs"], "all symbols, all name prefixes and one-character extensions, all masks over the registered bits plus unknown bits, all buffer lengths",
 "Tests use the listed names; strings that are prefixes or extensions of names and combinations with unregistered bits are not enumerated.",
 ["src/c4/enum.hpp", "src/c4/bitmask.hpp"], "linear symbol lookup with prefix-stripping offsets, greedy decomposition of masks into symbols")

prop("C18", "Spans always describe exactly the selected elements of the underlying array",
 "Every sequence of slicing, trimming, resizing, selecting and assigning operations on fixed or resizable spans yields a span whose elements are exactly those of the original array that the same operations select from a plain index range, never extending past the capacity it was created with. Comparison operators agree with lexicographic comparison of the elements, and iteration forward and backward visits each element once in order.",
 ["inputs", "histories"], "all operation sequences up to a bounded depth over arrays of bounded size with all argument values, all three span kinds",
 "Each operation is tested once from a fresh span; combinations (shrink then grow, slice of slice, resize after trim) are not.",
 ["src/c4/span.hpp"], "pointer/length/capacity arithmetic; remaining-capacity bookkeeping of the resettable kind")

prop("C19", "Arena memory resources hand out disjoint, aligned, stable blocks",
 "Across any history of allocations, reallocations and deallocations, an arena-style memory resource returns blocks that lie inside its arena, honour the requested alignment, do not overlap any other live block, and keep their contents until released; reallocation preserves the old contents up to the smaller size. Requests that do not fit are refused or reported as an error and leave all live blocks intact, and clearing makes the whole arena available again.",
 ["histories", "fault_sequences"], "all operation histories up to a bounded depth over small sizes and alignments on small arenas, owned or borrowed memory",
 "Tests perform short fixed histories; growing a non-last block, releasing out of order, exact exhaustion and alignment padding at the end are combinations they miss.",
 ["src/c4/memory_resource.hpp", "src/c4/memory_resource.cpp"], "bump pointer with last-block shrink/grow, alignment padding")

prop("C20", "Raw allocation and derived resources honour size, alignment and accounting",
 "Every block from the raw allocation functions or the default, forwarding and counting memory resources is aligned as requested, usable to its full size, disjoint from live blocks, and keeps its contents across reallocation. The counting resource reports at every moment the exact number and total size of live allocations together with running totals and the high-water mark, and passes each request on with its size and alignment, also when the underlying resource fails.",
 ["histories", "fault_sequences"], "all histories of allocate/reallocate/deallocate up to a bounded depth over small sizes and alignments, with every placement of an underlying reallocation result",
 "Counter drift appears only after particular interleavings of growth, shrink and release, which fixed test histories do not cover; realignment copies need specific addresses.",
 ["src/c4/memory_resource.hpp", "src/c4/memory_resource.cpp"], "derived-resource forwarding, counter updates, aligned reallocation with copy when the new address is misaligned")

prop("C21", "Allocators never give out memory that is still in use",
 "Across any history of allocations and releases through the general and the small-buffer allocators, of any element types and counts, live blocks never overlap, are suitably aligned for the element type, keep their contents until released, and every block taken from the backing memory resource is returned to it exactly once with the size it was taken with. A request that fits the unused local buffer of a small-buffer allocator takes nothing from the resource. Copies and rebinds of an allocator use the same memory resource, and objects constructed through an allocator receive it if they accept one.",
 ["histories"], "all allocate/release histories up to a bounded depth, releases in any order, sizes below, at and above the inline capacity, several element types",
 "Tests release in reverse order; out-of-order release followed by another allocation is the history that matters.",
 ["src/c4/allocator.hpp"], "inline buffer bookkeeping of the small-buffer allocator, fallback to the memory resource")

prop("C22", "Bulk construction, relocation and destruction handle each object once",
 "The bulk construct, copy, move, relocate, make-room, destroy-room and destroy functions construct, assign or destroy exactly the objects in the designated ranges, once each, leave the surviving elements with the values and order they had, and never touch storage outside the ranges; making and destroying room in place does so although source and destination overlap (an object whose contents were moved elsewhere counts as gone). This holds alike for trivial and for non-trivial element types.",
 ["inputs", "histories"], "all sizes, positions and room lengths up to a bound, all overlap offsets, trivial and lifetime-tracking element types",
 "Tests use one or two sizes per function; overlap distance versus room size is a two-dimensional family with distinct code paths.",
 ["src/c4/ctor_dtor.hpp"], "overload sets split on triviality: memcpy/memmove versus element loops with direction")

prop("C23", "Error handling and scoped settings behave as configured in every nesting",
 "Within any nesting of scoped changes to the error flags, the error callback and the current memory resource, the innermost setting is the one in force, and leaving a scope - normally or by an exception - restores precisely the setting that was in force when it was entered. A reported error reaches the callback in force exactly once with the complete formatted message when it fits the message buffer, and a truncated one otherwise, and failing checks report an error while passing checks do not. The error flags are independent of each other, and a debugger is reported exactly when one traces the process.",
 ["histories", "configurations"], "all nestings of scopes up to a bounded depth with every interleaving of changes, all message lengths around the buffer limit, all flag combinations",
 "Tests exercise single scopes; restoration order bugs need nested scopes, and truncation bugs need message lengths at the limit.",
 ["src/c4/error.hpp", "src/c4/error.cpp", "src/c4/memory_resource.hpp"], "RAII save/restore of global settings; fixed-size message formatting buffer")

prop("C24", "Bit, integer and memory utilities equal their mathematical definitions",
 "Most and least significant bit position, contiguous masks, integer power, alignment tests, range-overlap tests, pattern fill and zeroing give the result of their mathematical definition for every argument, at run time and in constant expressions alike. Pattern fill repeats the pattern exactly the given number of times and writes nothing else; range overlap is true exactly when the two ranges share a byte. A blob covers exactly the bytes of the object, array or range it was made from, and a tight pair returns the two values it was given, whatever their types.",
 ["inputs"], "all 8 and 16-bit arguments and bit-pattern families of 32 and 64-bit ones, all pairs of small ranges, all pattern lengths and repeat counts in a bounded range",
 "The tests check selected points; off-by-one in mask limits or the doubling copy loop needs particular counts.",
 ["src/c4/memory_util.hpp", "src/c4/memory_util.cpp"], "compile-time and intrinsic implementations of bit scans, doubling memcpy loop")

prop("C25", "In-place callables keep their target through copies, moves and swaps",
 "A callable stored in a fixed-capacity function object is invoked with the arguments passed and returns the target's result after any history of copy, move, assignment, swap and clearing, including to and from larger capacities. Each stored target object is constructed and destroyed exactly once per owner, and a function object without target reports itself empty and throws when called.",
 ["histories"], "all histories of a bounded number of operations over a few function objects and several target kinds",
 "No test exercises this facility at all, and ownership errors need multi-step histories.",
 ["src/c4/ext/sg14/inplace_function.h"], "hand-made virtual table of copy, relocate, destroy and invoke operations")

prop("C26", "Standard-string and vector interoperability preserves the characters",
 "Views made from standard strings, string views and character vectors, and strings assigned or appended from views, contain exactly the same characters, also with embedded zeros and empty contents; comparisons between a view and a standard string or vector agree with the comparison of their characters in both operand orders and for every operator. Writing such an object into a buffer returns its full length and copies what fits; reading into it resizes it to exactly the text read.",
 ["inputs"], "all contents up to a bounded length over an alphabet with zero and high bytes, all previous sizes and buffer lengths, every operator and operand order",
 "Tests use a few words and mostly one operand order.",
 ["src/c4/std/string.hpp", "src/c4/std/string_view.hpp", "src/c4/std/vector.hpp", "src/c4/std/tuple.hpp"], "overload families per container type, size-limited copies")

prop("C27", "Calls on disjoint data from different threads do not affect each other",
 "Conversions, formatting, searching, encoding, hashing, enum lookup, error reporting, allocation and scoped memory-resource changes performed by different threads on separate data give each thread the result it would get running alone, under every interleaving. No such call touches memory shared with calls in other threads without synchronisation, no thread waits forever for another, and the current memory resource of one thread is unaffected by changes made in another.",
 ["schedules"], "all interleavings of two and three threads running representative calls of every module, up to a preemption bound; every access to static storage is a schedule point",
 "The tests are single threaded; a static scratch buffer or a lazily filled table would pass all of them.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp", "src/c4/base64.cpp", "src/c4/memory_resource.hpp", "src/c4/enum.hpp"], "absence of shared mutable state; thread-local current memory resource; statically initialised tables")

prop("C28", "Integer range conversions and hashing match their definitions",
 "The size conversion between any two integer types returns every representable non-negative value unchanged and, in checked builds, reports an error for every value that the target cannot represent when the target is narrower. Hashing a byte sequence is a function of its bytes and length only - the same for every address, alignment and way of passing it - and equals the published FNV-1a value.",
 ["inputs"], "all pairs of integer types, all values of the small types and boundary families of the large ones; all byte strings up to a bounded length at every alignment",
 "Tests cover a few type pairs at the limits; the hash has no test.",
 ["src/c4/szconv.hpp", "src/c4/hash.hpp"], "compile-time selection of range comparisons by signedness and size")

prop("C29", "The compile-time type name is exactly the type's name",
 "For every type - fundamental, class, enum, pointer, reference, array, function, cv-qualified, template instance, nested - the library's compile-time type name is exactly the name as the compiler spells it, complete and without surrounding text, the same at every call and for a value of the type as for the type itself, in every supported language version.",
 ["inputs"], "all types of a grammar up to a bounded number of type constructors, names of one to seventy characters, five compiler/language combinations",
 "The tests name five types; the name is cut from compiler output at fixed offsets which differ per compiler and language version.",
 ["src/c4/type_name.hpp"], "offsets into the compiler's function signature")

prop("C30", "The bundled random generators are reproducible and well defined",
 "The sequence of values of each bundled random engine depends only on its construction and later seeding: generators constructed with equal seeds (or by default) give equal sequences, giving a generator the seed that it was constructed with restarts its sequence, seeding from a random device leaves the generator as constructing from it would and depends on the numbers drawn only, discarding n values leaves the generator as drawing n values would, a copy continues like the original and independently of it, and two generators compare equal exactly if they are in the same state. Values are those of the published splitmix64, xorshift* and PCG-XSH-RR algorithms (with the engine's constants) and no state makes the engine execute an undefined operation.",
 ["inputs", "histories"], "all histories of seeding, drawing, discarding, copying, assigning and comparing up to a bounded depth from a family of boundary seeds, and long runs from each",
 "No test exercises these engines; the rotation by a state-dependent amount is only wrong for some states.",
 ["src/c4/ext/rng/rng.hpp"], "state update and output permutation of each engine")

prop("C31", "Compile-time building blocks give what they document for every count and size",
 "C4_FOR_EACH and C4_FOR_EACH_SEP apply the given macro to each of their 1 to 32 arguments exactly once, in order, with the separator after each use, which may also be a comma given as C4_COMMA. A padded type is a value type like the type it pads: it is constructed from, copied, moved and assigned like it and keeps its value, and its size is exactly that asked for, whatever the type (empty, with tail padding, polymorphic): Padded<T,n> is sizeof(T)+n bytes, MinSized the greater of sizeof(T) and the minimum, MultSized the smallest multiple not below sizeof(T), MinMultSized the smallest multiple not below either, UbufSized at least 64 bytes and a multiple of 16 beyond. Integer and index sequences of N hold exactly 0..N-1, in order, for every N and element type, under every language standard. fastcref passes by value exactly scalars, plain types not larger than a size_t and types for which it was asked for. A member-type trait defined for a name is called has_<name> and is true exactly for the classes with that member type.",
 ["inputs", "configurations"], "all argument counts 1..32 and separators; all paddings, minima and multiples 0..72 of 13 kinds of types; all sequence lengths up to 140 and some longer, of five element types; the traits for plain types of every size class; under C++11, 14, 17 and 20 with two compilers",
 "The tests instantiate a few sizes and short sequences; the table of 32 argument counts, the recursive sequence construction of C++11 and the size arithmetic of padded types are wrong only for particular counts, sizes or type layouts.",
 ["src/c4/types.hpp", "src/c4/preprocessor.hpp"], "per-arity expansion, padding arithmetic and recursive sequence construction")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
