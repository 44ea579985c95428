#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P=[]
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title)<=80, (id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or [], hook_needed=None)))
CC="src/c4/charconv.hpp"; SS="src/c4/substr.hpp"; FM="src/c4/format.hpp"; MU="src/c4/memory_util.hpp"
MR="src/c4/memory_resource.hpp"; MRC="src/c4/memory_resource.cpp"

prop("P01","Integers are written as their exact canonical text in every radix",
 "Writing any value of any 8- to 64-bit integer type in radix 2, 8, 10 or 16 produces exactly its canonical text: a leading minus for negatives, the 0b/0o/0x prefix when the caller asked for a radix, lower-case digits, no superfluous leading zeros, and zero-padding to precisely the requested number of digits. The returned length is exactly the length of that text (most negative values and zero included), the digit-count functions agree with it, and every entry point (low-level writers, generic conversion, format wrappers) agrees.",
 ["inputs","configurations"],"every value of the eight fixed-width integer types and the native integer types x radix x requested number of digits, in every language-standard configuration",
 "The unit tests sample a few hundred tabulated values per type; carries, digit-pair table entries, 64-bit boundaries and padding widths are a product space they never cover.",
 [CC,FM],[("digits_dec/hex/oct/bin, write_*_unchecked, write_*",CC),("itoa/utoa/xtoa/to_chars",CC),("fmt::integral/hex/oct/bin/zpad",FM)])
prop("P02","Integer parsing accepts exactly the integer grammar and returns its value",
 "Parsing a string as an integer succeeds exactly when the whole string is one integer literal (an optional single minus for signed types; what a leading plus does is unspecified; decimal digits or 0x/0o/0b prefix in either case followed by at least one digit of that radix), and rejects everything else, including empty strings, lone signs, lone prefixes, embedded whitespace or trailing characters. On success the stored value equals the literal's mathematical value when it is representable, and that value reduced modulo two to the width of the type otherwise; bytes after the end of the given view never influence the result. Booleans accept exactly false, False, FALSE, true, True, TRUE and integer literals (true when non-zero as an int), and a single character exactly one character.",
 ["inputs","configurations"],"all byte strings x the integer types x the generic and radix-specific readers",
 "Tests list tens of accepted/rejected literals per type; acceptance is a language over all byte strings and values wrap over a 2^64 space.",
 [CC],[("read_dec/hex/oct/bin",CC),("atoi/atou/atox/from_chars",CC)])
prop("P03","Overflow detection is exact for every integer literal",
 "For every valid integer literal of any length, in any radix and with any number of leading zeros, the overflow query for a type answers true exactly when the literal's mathematical value lies outside that type's range. The overflow-checked parse fails exactly on those literals and otherwise succeeds with the exact value.",
 ["inputs","configurations"],"all integer literals (sign, radix, leading zeros, magnitude near and far from each limit) x integer types",
 "Tests probe values close to each limit with one spelling; leading zeros, mixed prefixes and long literals are not enumerated.",
 [CC],[("overflows<T>, is_*_overflow, check_overflow",CC),("fmt::overflow_checked",FM)])
prop("P04","Every scalar value survives a write/read round trip",
 "For booleans, characters, all integer types, pointers, float and double, writing a value as text and reading that text back into the same type yields the identical value (bit-identical for finite reals written with enough digits for their type, in the default format from C++17 on, or in hexadecimal, including negative zero, subnormals and extremes; infinities stay infinities and NaN stays NaN). The same holds for raw binary wrapping of trivially copyable data.",
 ["inputs","configurations"],"all values of the scalar types x output radix or real format",
 "A few constants per type are round-tripped in tests; float/double have 2^32/2^64 values with specific problem regions (subnormals, shortest representation, exponent boundaries).",
 [CC,FM],[("to_chars/from_chars overloads",CC),("atof/atod, scan_rhex",CC),("const_raw/raw wrappers","src/c4/format.cpp")])
prop("P05","Reals are parsed to the correctly rounded value, malformed ones rejected",
 "Parsing a decimal or hexadecimal floating-point literal yields the float or double nearest to its exact mathematical value, ties to even, independent of what the destination held before and, for decimal literals, of the rounding mode in effect; magnitudes beyond the type are rejected or become infinity or zero. Non-empty strings that are not one complete literal are rejected, and bytes past the end of the view are never consulted. (Builds with the bundled float parser; a leading plus and nan(...) payloads are unspecified.)",
 ["inputs","configurations"],"all literal strings (digit counts up to hundreds, exponents, hexadecimal mantissas, inf/nan) x float/double x build configurations",
 "Correct rounding only fails on rare literals near halfway points; tests use a handful of short ones and only check acceptance for hexadecimal literals.",
 [CC,"src/c4/ext/fast_float_all.h"],[("atof/atod",CC),("scan_rhex/scan_one",CC),("fast_float::from_chars","src/c4/ext/fast_float_all.h")])
prop("P06","Reals are written as the requested format and precision dictate",
 "Writing a float or double with a given format (fixed, scientific, general, hexadecimal) and precision yields the correctly rounded text of that value in that format, as the C standard defines it, in a form this library's own parser accepts. Without a precision, from C++17 on, the text parses back to the same value (in earlier standards it is printf's default precision). Infinities and NaN are written as inf and nan, and how hexadecimal leading digits are normalised is unspecified.",
 ["inputs","configurations"],"all finite float/double values x format x precision x configurations with and without std::to_chars",
 "Tests check three constants at precisions 0..4.",
 [CC,FM],[("ftoa/dtoa, rtoa, print_one, get_real_format_str",CC),("fmt::real",FM)])
prop("P07","Number scanning at the start of a string takes exactly the leading number",
 "Scanning a string for a leading unsigned, signed or real number or a leading non-empty token returns exactly the leading number (after blanks) that ends at the end of the string, at whitespace or at one of the delimiters ])},; or NUL, or an empty result when there is none; the classification predicates (is it an unsigned, integer, real or any number) agree with it. Reading the first value from a string stores what parsing that leading part alone would store and reports the number of characters consumed so the caller can continue after it.",
 ["inputs","configurations"],"all byte strings with arbitrary leading whitespace and trailing text",
 "The tests enumerate hand-picked strings; delimiting rules interact with sign, prefix, dot and exponent over all strings.",
 [SS,CC],[("first_uint_span/first_int_span/first_real_span/first_non_empty_span",SS),("is_number/is_integer/is_unsigned_integer/is_real",SS),("from_chars_first/atoi_first/atou_first/atof_first/atod_first",CC)])
prop("P08","Output never exceeds the given buffer and reports the size it needs",
 "Every text-producing function given any buffer, of any length including zero, writes nothing outside that buffer and returns the number of characters it needs; when that exceeds the buffer's length, retrying with a buffer of the returned size (repeatedly for reals) succeeds. (bm2str raises an error instead.) The plain integer writers (write_dec and the like, itoa, utoa) leave a buffer that is too small untouched. When the returned size fits, the first that many characters are the complete output, the same for every sufficient buffer.",
 ["inputs","configurations"],"all values/argument lists x all buffer lengths from 0 to beyond the needed size x every output function",
 "Tests use ample buffers and a few truncated ones; a bound violation needs one function, one value and one exact buffer length.",
 [CC,FM,"src/c4/base64.cpp","src/c4/format.cpp",SS,"src/c4/std/string.hpp","src/c4/std/vector.hpp"],[("to_chars overloads and buffer-size returns",CC),("cat/catsep/format and wrappers",FM),("base64_encode","src/c4/base64.cpp"),("replace_all",SS)])
prop("P09","Concatenation and formatting equal the composition of their parts",
 "Concatenating arguments, joining them with a separator, or substituting them for successive {} in a format string yields exactly the text obtained by writing each argument separately and composing the pieces; surplus arguments are ignored and surplus {} are left verbatim. The variants writing to resizable containers produce the same content and exact size whatever the container held, and the appending variants keep the previous content and return exactly the appended part.",
 ["inputs","programs"],"all argument lists (types, values, counts, nested format wrappers), format strings and initial container contents/capacities",
 "Tests use a fixed set of literals and argument lists.",
 [FM,"src/c4/std/string.hpp","src/c4/std/vector.hpp"],[("cat/catsep/format, *rs, *rs_append, *_sub",FM)])
prop("P10","Unpacking a string reverses packing it",
 "Reading values back out of a string with the inverse functions (plain, separated, and format-string based) stores exactly the values that were written by the corresponding packing functions and reports the number of characters consumed, which is never more than the string has; when a value does not parse or is missing, it reports failure instead of a count. (Literal text of a format string is skipped by its length, not compared.)",
 ["inputs","programs"],"all value lists, separators and format strings with unambiguous delimiting, and corruptions of them",
 "Tests cover three fixed strings per function.",
 [FM],[("uncat/uncatsep/unformat",FM),("from_chars_first",CC)])
prop("P11","Format modifiers pad, align and wrap exactly as asked",
 "A value printed with left or right alignment occupies max(width, its own length) characters, with the value flush to the requested side and the rest the chosen pad character; zero-padding, radix, real-format, boolean-word and raw/base64 wrappers produce exactly the text of the wrapped operation. This holds for any wrapped value (including nested wrappers) and any buffer length, without touching memory outside the buffer.",
 ["inputs"],"all values x widths x pad characters x buffer lengths x nesting of modifiers",
 "Tests check two widths on two values with generous buffers.",
 [FM,"src/c4/format.cpp"],[("fmt::left/right","to_chars overloads in src/c4/format.hpp"),("fmt::zpad/integral/real/boolalpha",FM),("fmt::raw/craw",FM)])
prop("P12","Streaming output emits the whole text once, in order, even when resumed",
 "Dumping arguments (concatenated, separated or formatted) through a small scratch buffer into a sink delivers exactly the text the one-shot functions would write, whenever the (non-empty) scratch buffer is large enough for the largest single piece that needs it; strings are passed to the sink directly and need none. When it is not, the call reports the size needed and nothing after the failing argument is lost or duplicated: resuming with a sufficient buffer completes the output so that the sink receives every piece exactly once, in order.",
 ["inputs","histories"],"all argument lists and format strings x scratch-buffer sizes x sequences of interrupted and resumed calls",
 "Tests enumerate buffer sizes for a few hand-written argument lists; resumption is a history property over arbitrary interruption points.",
 ["src/c4/dump.hpp"],[("dump/cat_dump/catsep_dump/format_dump","src/c4/dump.hpp"),("*_dump_resume, DumpResults","src/c4/dump.hpp")])
prop("P13","String-view searching agrees with the plain definition",
 "Finding a character or substring, counting occurrences, first/last of or not of a character set, searching for any of several strings, prefix/suffix tests, and bracket- and quote-matching return the positions a direct definition over the sequence of characters gives, for all contents, start positions and end limits. A not-found result is always the no-position marker and no read occurs outside the view. (Patterns to count are non-empty; the end limit of last_of is exclusive; quotes and brackets to match do not nest unless the nested form is used.)",
 ["inputs"],"all strings over small and full alphabets (including NUL bytes, empty views and null views), patterns and start/end positions",
 "Tests use short fixed strings; off-by-one errors need overlapping partial matches or boundary start positions.",
 [SS],[("find/count/select/begins_with/ends_with",SS),("first_of/last_of/first_not_of/last_not_of/first_of_any",SS),("pair_range/pair_range_esc/pair_range_nested",SS)])
prop("P14","Sub-views, trimming and stripping return the defined part of the original",
 "Taking sub-ranges, prefixes, suffixes, offsets and the parts left or right of a position or sub-view, trimming characters from either end, and stripping a prefix, suffix or quotes all return views into the original memory whose offset and length match the definition; they never read or refer outside the original, and the parts together with what was removed reconstitute the original. In builds with assertions a request outside the string is reported as an error.",
 ["inputs"],"all strings x all valid positions and lengths x character sets and patterns",
 "Tests use a handful of strings and positions per method.",
 [SS],[("sub/range/first/last/offs/select",SS),("left_of/right_of/is_sub/is_super/overlaps",SS),("trim*/strip*/unquoted",SS)])
prop("P15","Splitting and path handling enumerate every piece exactly once in order",
 "Iterating a split visits the pieces between separators in order, so that joining them with the separator gives the original back (the empty string has no pieces). Popping pieces from either end (with or without skipping empty ones), taking basename, dirname, extension and the piece before or after them is consistent with the same decomposition.",
 ["inputs"],"all strings, separators and start positions, including leading, trailing and repeated separators",
 "Tests enumerate a few separator patterns.",
 [SS],[("split/next_split",SS),("pop_left/pop_right/gpop_left/gpop_right",SS),("basename/dirname/extshort/extlong/name_wo_ext*",SS)])
prop("P16","Comparison is one consistent lexicographic order across all string kinds",
 "Comparing views with each other, with characters, C strings, std::string, std::string_view and std::vector<char> in either operand order gives the sign of character-wise lexicographic comparison (by the value of char) with shorter-is-less on ties, and all six relational operators agree with it. Equality holds exactly for equal contents, null views compare equal to empty views, and the order is total and transitive.",
 ["inputs"],"all pairs and triples of byte strings, including embedded NULs, high-bit bytes, prefixes of each other and null views",
 "Tests compare around ten ASCII strings.",
 [SS,"src/c4/std/string.hpp","src/c4/std/vector.hpp","src/c4/std/string_view.hpp"],[("compare and relational operators",SS),("std interop operators","src/c4/std/string.hpp")])
prop("P17","In-place editing changes exactly the addressed characters",
 "Filling, copying in, reversing (whole or part), case changing, erasing a range, replacing characters, and replacing all occurrences of a pattern into a destination produce exactly the content the same edit on a plain sequence would produce, and return the view or count it defines. Characters outside the addressed range, and memory outside the view, keep their values (the tail vacated by an erasure is unspecified).",
 ["inputs"],"all contents, ranges, patterns and destination sizes",
 "Tests edit a few literals.",
 [SS],[("fill/copy_from/reverse*/toupper/tolower/erase*/replace/replace_all",SS)])
prop("P18","Base64 encodes and decodes exactly, for any bytes and any buffer",
 "Encoding any byte sequence yields its standard padded base64 text and decoding that text yields the original bytes, for every length; validation accepts every such encoding and rejects any text that has a character outside the alphabet, padding other than as the last one or two characters, or a length that is not a multiple of four. Both directions return the size needed or produced and never write outside the destination when it is too small.",
 ["inputs"],"all byte sequences and destination sizes; all candidate texts",
 "Tests use a table of short strings and integers; tail handling and high bytes form an unbounded input space.",
 ["src/c4/base64.cpp","src/c4/base64.hpp"],[("base64_encode/base64_decode/base64_valid","src/c4/base64.cpp"),("fmt::base64/cbase64 wrappers","src/c4/base64.hpp")])
prop("P19","Every Unicode code point becomes its exact UTF-8 sequence",
 "Converting any code point up to U+10FFFF, given as a number or as up to eight hexadecimal digits, writes exactly its standard UTF-8 encoding at the start of the destination and reports its length (or the view of it); larger values are refused with a zero length. The destination has at least the documented four bytes, and what follows the sequence is left alone.",
 ["inputs"],"all code points 0..0x10FFFF and beyond, all hexadecimal spellings of them",
 "Tests have a table of a few thousand code points; boundaries of the four encoding lengths can be wrong elsewhere.",
 ["src/c4/utf.cpp","src/c4/utf.hpp"],[("decode_code_point","src/c4/utf.cpp")])
prop("P20","Enum and bitmask names convert to values and back consistently",
 "For any table of enumerator names (with or without class and prefix offsets), converting a value to its name and the name back (full, without class, or without prefix) yields the same value, and looking up a name that is not in the table finds nothing. A bitmask value made of listed symbols converts to a string of symbols separated by | that converts back to the same bits, both through buffers of any sufficient size and through streams; bits without a symbol, and buffers too small, are reported as errors. Text to convert to bits may mix names, decimal and hexadecimal numbers; an unlisted name or a stray character in it is reported.",
 ["inputs","programs"],"symbol tables x values (combinations of symbols) x offset modes x buffer sizes x separators mixes of names, decimal and hexadecimal numbers",
 "Tests use one 6-symbol table and its own symbols; the combination loop in the test file is never invoked.",
 ["src/c4/enum.hpp","src/c4/bitmask.hpp"],[("EnumSymbols find/e2str/str2e/eoffs","src/c4/enum.hpp"),("bm2str/bm2stream/str2bm","src/c4/bitmask.hpp")])
prop("P21","Spans select, resize and compare like ranges over the same memory",
 "Any sequence of sub-selection, trimming and resizing operations on the three span kinds yields a span whose data, size and capacity (and offset, where recoverable) are those of the corresponding range of the original memory; the span that always remembers its origin can restore the full original range at any time. Containment, complement, same-range and element-wise comparison operators agree with the model for any contents, sizes, index types and language standards. In builds with assertions out-of-range requests are reported as errors.",
 ["histories","inputs","configurations"],"all operation sequences on span/spanrs/spanrsl over arrays with different index types, in each language standard",
 "Tests run one fixed sequence on a 10-element array, in one language standard.",
 ["src/c4/span.hpp"],[("span_crtp/span/spanrs/spanrsl","src/c4/span.hpp")])
prop("P22","Memory resources hand out valid, disjoint memory and account for it exactly",
 "In any history of allocations, reallocations and releases, every block returned by a memory resource is aligned as requested, lies within the resource's storage, is disjoint from all other live blocks and keeps its contents across reallocation up to the smaller size. Shrinking the most recent block of a linear arena makes its room available again; linear arenas never exceed their capacity and report an error instead, leaving their state as it was, and return owned memory to where it came from; a reallocation whose underlying allocation fails reports it and keeps the original block; counting resources report allocation counts, sizes and maxima that equal those of the history; scoped replacement of the global resource always restores the previous one.",
 ["histories"],"all histories of allocate/reallocate/deallocate/clear with sizes, alignments and hints, on malloc-backed, linear (heap and inline) and counting resources, nested scopes",
 "Tests perform one or two allocations per resource.",
 [MR,MRC],[("aalloc/arealloc/afree",MRC),("MemoryResourceLinear/LinearArr, _MemoryResourceSingleChunk",MRC),("MemoryResourceCounts/AllocationCounts, Scoped*",MR)])
prop("P23","Allocators serve containers without overlap, leak or lost contents",
 "Containers and raw clients using the allocators (global and per-instance resource), and raw clients of the small-buffer allocators, get correctly aligned storage for the requested number of objects, disjoint from every other live allocation, and release everything to the resource it came from. Rebinding or copying an allocator keeps the resource, allocators compare equal exactly when they share it, and reallocation preserves contents. Requests whose size in bytes overflows are reported as errors, and a request that fits an unused small buffer is served from it.",
 ["histories"],"all container operation sequences and raw allocate/deallocate/reallocate histories over the allocator kinds",
 "Tests allocate one object per allocator; the small-buffer container tests are commented out.",
 ["src/c4/allocator.hpp"],[("Allocator/SmallAllocator/_AllocatorUtil/MemRes","src/c4/allocator.hpp")])
prop("P24","Bulk construction, copy, move and room-making preserve values and lifetimes",
 "Constructing, copying, moving, assigning or destroying n objects affects exactly those n, giving each the value the single-object operation would, for trivial and non-trivial element types alike, with every constructed object destroyed once. Making room shifts the tail right and destroying room closes the gap, in place or into another buffer, so that the surviving elements keep their values and order, also when the room is zero.",
 ["inputs","histories"],"all sizes, positions and room sizes x trivial and non-trivial element types",
 "Tests use a few positions with 10/20-element rooms.",
 ["src/c4/ctor_dtor.hpp"],[("construct_n/copy_*/move_*/destroy_n/make_room/destroy_room","src/c4/ctor_dtor.hpp")])
prop("P25","Errors reach the installed handler with the right message; scopes restore it",
 "A failed check or raised error invokes exactly the currently installed callback, once, with the formatted message (truncated safely when too long) and its exact length whenever the callback flag is set, and does not return to the caller (the program aborts if the callback returns, or throws the message where errors are configured to throw); a log is written, naming the place, exactly when requested; violated preconditions (checked builds) are reported this way and valid uses never are. Scoped settings restore flags and callback exactly, for any nesting and also when left by an exception.",
 ["histories","inputs"],"all nestings of scoped settings and flag combinations x messages of any length and format arguments",
 "Tests check single scopes and short messages.",
 ["src/c4/error.cpp","src/c4/error.hpp"],[("handle_error/set_error_callback/set_error_flags","src/c4/error.cpp"),("ScopedErrorSettings, C4_CHECK/C4_ASSERT","src/c4/error.hpp")])
prop("P26","Bit, power, alignment and size helpers match their definitions",
 "Most/least significant bit queries, contiguous masks, integer powers, alignment tests, pattern fills, memory-overlap tests, zero-fill, size-narrowing tests and conversions of non-negative sizes, tight pairs, whitespace tables and padding computations return what their mathematical definition gives for every argument with a representable result, in both their run-time and compile-time forms; in builds with assertions a size that does not fit is reported.",
 ["inputs","configurations"],"all argument values of every integer width (exhaustive for narrow types), pattern sizes and memory ranges",
 "Tests list a few values per type.",
 [MU,"src/c4/memory_util.cpp","src/c4/szconv.hpp","src/c4/types.hpp","src/c4/char_traits.hpp"],[("lsb/msb/contiguous_mask/ipow/tight_pair",MU),("mem_repeat/mem_overlaps/mem_zero/is_aligned",MU),("szconv/is_narrower_size","src/c4/szconv.hpp"),("min_remainder/mult_remainder","src/c4/types.hpp")])
prop("P27","In-place function objects behave as independent values",
 "Any history of constructing, copying, moving, swapping, assigning, resetting and converting in-place function objects leaves each holding exactly the callable a value-semantics model predicts: calling it gives that callable's result, calling an empty one throws, and emptiness tests agree. Every stored callable is constructed and destroyed exactly once per value, with no leak and no double destruction, also when copying a callable throws. (What a moved-from function object holds is unspecified.)",
 ["histories"],"all histories over a set of function objects holding callables of different sizes",
 "The repository has no test for it.",
 ["src/c4/ext/sg14/inplace_function.h"],[("inplace_function","src/c4/ext/sg14/inplace_function.h")])
prop("P28","Hashing depends only on the bytes and matches FNV-1a",
 "Hashing a byte sequence gives the standard FNV-1a value for the platform's width, independent of how the sequence is chunked across updates and of surrounding memory; the random engines (splitmix, xorshift, pcg) yield the sequences of their published algorithms from each seed, discarding n values equals drawing n, copies continue alike, and comparison reflects state.",
 ["inputs","histories"],"all byte sequences, chunkings, seeds and draw counts",
 "There is no test of hashing or of the engines in the test suite.",
 ["src/c4/hash.hpp","src/c4/ext/rng/rng.hpp"],[("basic_fnv1a/hash_bytes","src/c4/hash.hpp"),("splitmix/xorshift/pcg","src/c4/ext/rng/rng.hpp")])
prop("P29","Standard containers and raw blobs convert to and from views faithfully",
 "Viewing a std::string, std::vector<char>, std::string_view, literal, array or trivially copyable object as a character or byte view covers exactly its contents in place; writing such a container as text copies exactly its characters, and reading text into one stores exactly the text, resizing where the container can. A string too long for a fixed destination is reported, not truncated silently.",
 ["inputs"],"all contents and sizes, including empty containers and embedded NULs, all destination sizes",
 "Tests use one or two literals per container.",
 ["src/c4/std/string.hpp","src/c4/std/vector.hpp","src/c4/std/string_view.hpp","src/c4/blob.hpp",CC],[("to_substr/to_csubstr/to_chars/from_chars for std types","src/c4/std/string.hpp"),("blob_","src/c4/blob.hpp"),("to_chars/from_chars(csubstr/substr)",CC)])
prop("P30","A string view refers to exactly the characters it is given",
 "A string view made from, or reassigned to, an array, a pointer and length, a pair of pointers, a terminated string, a null pointer or another view refers in place to exactly those characters (an array without its last element, a terminated string up to its terminator, null as empty), for any contents including NUL bytes; iteration, indexing, front and back address those characters, writes through a writable view change only the addressed character, streaming it emits exactly them, and any history of copies, swaps, re-seating and clearing of views leaves each one as a (start, length) model predicts.",
 ["inputs","histories"],"all contents, array sizes, pointer ranges and sequences of view assignments",
 "Tests construct views over a few literals.",
 [SS],[("basic_substring constructors/assign/operator=/clear/accessors, to_substr/to_csubstr, operator<<",SS)])
prop("P31","Type names spell the type exactly, one name per type",
 "The name the library gives for a type is the compiler's spelling of exactly that type - whole, with nothing of the surrounding text - for fundamental, user-defined, nested, qualified, pointer, array, reference, function-pointer and template types to any depth; it is the same on every call and through every overload, and two different types never share a name.",
 ["inputs"],"all types composed from base types by pointer, const, volatile, array, reference, function pointer and templates; supported compilers and language standards",
 "Tests name four fixed types with one compiler and standard.",
 ["src/c4/type_name.hpp"],[("type_name","src/c4/type_name.hpp")])
prop("P32","Calls on separate data may run at the same time",
 "Any number of threads may call the conversion, formatting, dumping, searching, editing, comparison, encoding, hashing, enum-symbol, type-name, allocation and container functions at once, each with its own output (inputs may be shared): every call gives exactly the result it gives when run alone, and no two calls race on hidden state. A memory resource installed by a thread is in effect in that thread only, a new thread starts with the default resource, and every block goes back to the resource of its thread. (The process-wide error settings and allocation functions are set up before the threads start.)",
 ["schedules","inputs"],"all interleavings of calls of every part of the library in two or more threads, with separate or shared inputs",
 "The test suite is single-threaded.",
 [CC,SS,MR,MRC,"src/c4/format.hpp","src/c4/dump.hpp","src/c4/enum.hpp","src/c4/type_name.hpp","src/c4/base64.cpp"],[("xtoa/atox, format, dump, base64, esyms, type_name: no static state",CC),("get_memory_resource/set_memory_resource (thread_local)",MR)])
prop("P33","Preprocessor, type-level and configuration helpers mean what they name",
 "C4_FOR_EACH and C4_FOR_EACH_SEP call the given macro once per argument, in order, each call followed by the separator, for any 1 to 32 arguments and any separator (a comma through C4_COMMA); C4_CAT, C4_XCAT, C4_QUOTE and C4_XQUOTE paste and quote with or without expanding first; C4_VERSION_CAT orders versions and C4_COUNTOF counts elements; sized wrappers (Padded, MinSized, MultSized, MinMultSized, UbufSized) have the size asked for and behave as the value they wrap; integer sequences of every type and length hold 0..N-1; the type traits (member typedef present, instance of a template, pass by value) answer correctly for every type; and the configuration macros state the compiler, version, language standard and features in use.",
 ["inputs"],"all macro invocations of 1 to 32 arguments, all classes and types composed from base types (without virtual bases), gcc and clang, C++11 to C++23",
 "The test of the macros is disabled, and the others sample a few types in one build.",
 ["src/c4/preprocessor.hpp","src/c4/types.hpp","src/c4/language.hpp","src/c4/compiler.hpp","src/c4/config.hpp","src/c4/cpu.hpp"],[("C4_FOR_EACH, C4_CAT, C4_QUOTE, C4_COUNTOF","src/c4/preprocessor.hpp"),("Padded, fastcref, is_instance_of_tpl, C4_DEFINE_HAS_TYPEDEF, integer_sequence","src/c4/types.hpp"),("C4_CPP, C4_EXCEPTIONS, attributes","src/c4/language.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
