"""Table of the checks: which harness, which build configurations, how many cases."""
COMMON=["-w","-DC4_NO_DEBUG_BREAK","-g1","-fno-omit-frame-pointer"]
ASAN=["-fsanitize=address,bounds,return,unreachable,alignment,bool","-fno-sanitize-recover=all"]
CONFIGS={
 # checked build, as the repository's tests are built, plus sanitizers
 "g17":  dict(cxx="g++",    flags=["-std=c++17","-O1"]+ASAN, scale=1),
 # release builds: assertions off, optimiser on
 "c11r": dict(cxx="clang++",flags=["-std=c++11","-O2","-DNDEBUG"], scale=1.5),
 "g20r": dict(cxx="g++",    flags=["-std=c++20","-O2","-DNDEBUG"], scale=1.5),
 # checked C++14 build without the bundled float parser
 "g14n": dict(cxx="g++",    flags=["-std=c++14","-O1","-DC4CORE_NO_FAST_FLOAT"]+ASAN, scale=0.5),
 "g17n": dict(cxx="g++",    flags=["-std=c++17","-O1","-DC4CORE_NO_FAST_FLOAT"], scale=0.5),
 "c17r": dict(cxx="clang++",flags=["-std=c++17","-O2","-DNDEBUG"], scale=1.5),
 "g17s": dict(cxx="g++",    flags=["-std=c++17","-O1","-fsanitize=shift"]+ASAN, scale=1),
 # errors thrown as exceptions
 "g17x": dict(cxx="g++",    flags=["-std=c++17","-O1","-DC4_EXCEPTIONS_ENABLED","-DC4_ERROR_THROWS_EXCEPTION"]+ASAN, scale=1),
 # assertions forced on in a release build; the log also names the function
 "c17a": dict(cxx="clang++",flags=["-std=c++17","-O2","-DNDEBUG","-DC4_USE_ASSERT=1","-DC4_FORCED_ASSERT","-DC4_ERROR_SHOWS_FUNC"], scale=1),
 # data races: thread sanitizer
 "c11t": dict(cxx="clang++",flags=["-std=c++11","-O1","-fsanitize=thread","-pthread"], scale=0.25),
 "g17t": dict(cxx="g++",    flags=["-std=c++17","-O1","-fsanitize=thread","-pthread"], scale=0.25),
 "fuzz": dict(cxx="clang++",flags=["-std=c++17","-O1"]+ASAN, scale=1),
}
STD=["g17","c11r","g20r"]
REAL=["g17","c11r","g14n","g17n"]
PROPS={}
def prop(id, unit, rule, configs=STD, **kw):
    PROPS[id]=dict(unit=unit,rule=rule,configs=configs,**kw)

prop("P01", 160000, "the canonical text has more than one character; distinct = distinct (type, text, digit count)")
prop("P02", 180000, "the input has more than one character; distinct = distinct input strings")
prop("P03", 180000, "a valid literal of magnitude at least 120 (near or beyond the limits of the narrowest type); distinct = distinct literals")
prop("P04", 160000, "any generated value (distinct = distinct type and value, or raw bytes and offset)", configs=REAL)
prop("P05", 150000, "input longer than two characters; distinct = distinct strings", configs=REAL)
prop("P06", 225000, "any generated real; distinct = distinct (value, format, precision)", configs=["g17","c11r","g20r"])
prop("P07", 200000, "non-blank input of more than one character; distinct = distinct strings")
prop("P08", 18000, "any generated value or argument list with non-empty text; distinct = distinct (function family, value or argument list, format)", configs=["g17","c11r","g20r","g14n"])
prop("P09", 60000, "at least two arguments; distinct = distinct (argument list, format string)")
prop("P10", 150000, "at least two values, or a format string with at least one; distinct = distinct input strings")
prop("P11", 32000, "padding, radix or wrapping actually applies; distinct = distinct (value, width, digits, format)", configs=["g17","c11r","g20r"])
prop("P12", 100000, "any generated argument list, with a generated sequence of buffer sizes; distinct = distinct (arguments, format)")
prop("P13", 210000, "text of at least two characters and a non-empty pattern; distinct = distinct (text, pattern, positions)")
prop("P14", 750000, "text of at least two characters (one for position queries); distinct = distinct (text, positions or characters)")
prop("P15", 550000, "text of at least two characters; distinct = distinct (text, separator, start)")
prop("P16", 350000, "both strings non-empty; distinct = distinct pairs or triples")
prop("P17", 600000, "any edit; distinct = distinct (text, range or pattern, operation)")
prop("P18", 220000, "at least one byte (round trips) or at least four characters (validation); distinct = distinct byte sequences or texts")
prop("P19", 750000, "every code point; distinct = distinct code points (enumerated in blocks) or hexadecimal spellings")
prop("P20", 70000, "every generated symbol table; distinct = distinct (table, offsets, bits or text)")
prop("P21", 400000, "every history of at least one operation, every pair of non-empty contents; distinct = distinct (sizes, operation sequence) or contents")
prop("P22", 160000, "every history of at least one operation; distinct = distinct (resource kind, capacity, operation and size sequence)")
prop("P23", 108000, "every history of at least one operation; distinct = distinct (allocator kind, operation and size sequence)")
prop("P24", 500000, "every operation on a generated range; distinct = distinct (operation, element type, sizes, positions)")
prop("P25", 120000, "every raised or suppressed error and every nesting of at least one scope; distinct = distinct (message, flags, macro) or operation sequence", configs=STD+["g17x","c17a"])
prop("P26", 360000, "every generated argument tuple; distinct = distinct (helper, types, arguments)")
prop("P27", 160000, "every history of at least one operation; distinct = distinct operation sequences (operations, objects, callable kinds)", configs=["g17","c17r","g20r"])
prop("P28", 120000, "non-empty byte sequences, and every engine history; distinct = distinct byte sequences or operation sequences with seeds", configs=["g17s","c11r","g20r"])
prop("P29", 400000, "non-empty contents (containers, views) or any raw object; distinct = distinct (contents, sizes, operation)")
prop("P30", 375000, "every generated array, buffer range or history; distinct = distinct (contents, positions or operations)")
prop("P31", 60000, "every generated type with at least one distinct spelling; distinct = distinct types or pairs of types")

prop("P32", 6000, "at least two threads; distinct = distinct workloads (calls and arguments of every thread)", configs=["g17t","c11t","g20r"], flags=["-pthread"], fuzz=False, technique="property-based testing of schedules: generated workloads run by several threads against the results of the same calls run alone, with the thread sanitizer as race oracle", note="Random workloads and OS schedules; thread-sanitizer builds in C++11 and C++17 detect a race on every explored pair of accesses whatever the timing, the plain C++20 build looks for wrong results.")
prop("P33", 60, "every generated program with at least one claim; distinct = distinct programs (text, compiler, language standard)", configs=["g17","c11r"], fuzz=False, technique="property-based testing by generated programs: random macro invocations and type expressions are given to gcc and clang in every language standard and compared with an expansion or a value computed by a reference", note="Random generated programs, compiled or preprocessed with gcc and clang in C++11 to C++23; held on every generated program, not proved.")
