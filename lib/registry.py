import os, subprocess, sys, tempfile
import common, pbtcheck
import a01, h01, r01, r02, t01, t02, u04
from pbtcheck import Harness

CHECKS = {}
NOTES = {}      # property -> (technique, what the level means here)


def add(prop, src, quick, thorough, rule, technique, note, **kw):
    CHECKS[prop] = Harness(prop, src, quick, thorough, rule, **kw)
    NOTES[prop] = (technique, note)


add("S01", "s01.cpp", 60000, 1500000,
    "random texts (1-4 byte characters, lengths biased to 0-6, 0-40 and boundaries up to 1100) built in 20 ways, and byte-level "
    "damage of such texts; non-trivial: a text of two or more characters with a multi-byte one, or a malformed text; distinct by content",
    "random structured generation and coverage-guided fuzzing against an independent UTF-8 codec, under ASan/UBSan",
    "texts up to 1100 characters and byte strings derived from them; overlong and surrogate encodings unspecified",
    fuzz=200000)

add("S02", "s02.cpp", 25000, 600000,
    "histories of 1-25 operations over three strings (up to 300 characters at the start), each compared with a plain list of code "
    "points after every step; non-trivial: three or more edits on strings with multi-byte characters; distinct by history",
    "stateful model-based testing: operation histories against a list-of-code-points model, under ASan/UBSan",
    "histories up to 25 steps over three strings, empty needles excluded for the search from the end", fuzz=60000)
add("S03", "s03.cpp", 100000, 2500000,
    "triples of related texts, pairs of characters and lists of up to 8 texts, compared by all six operators and sorted; non-trivial: "
    "the first two texts are non-empty and share their first character",
    "random structured pairs and triples against lexicographic code point order",
    "texts up to 40 characters derived from each other", fuzz=200000)
add("S04", "s04.cpp", 60000, 1500000,
    "all 1,114,112 code points enumerated in 272 chunks, and random texts over letters of the mapped alphabets; non-trivial: a chunk, "
    "or a multi-byte text that the conversion changes",
    "exhaustive enumeration of code points and random texts against a table generated from Unicode 15 data",
    "complete for single code points; whole strings up to 60 characters sampled")
add("S05", "s05.cpp", 80000, 2500000,
    "all code points enumerated in 272 chunks, and byte texts of length 0-8 (damaged characters and byte soup); non-trivial: a chunk, a "
    "multi-byte character or a non-empty text that is no character",
    "exhaustive enumeration of code points and random byte texts against an independent UTF-8 codec, under ASan/UBSan",
    "complete for code points; byte texts sampled; overlong, surrogate and too large encodings unspecified", fuzz=300000)
add("S06", "s06.cpp", 500000, 12000000,
    "texts for each utility (delimiters of any byte, periodic patterns over two or three letters, blanks of every script, escape "
    "sequences); non-trivial: several pieces, a pattern of two or more characters, blanks on both sides, at least one escape",
    "random structured inputs against reference implementations and round trips, under ASan/UBSan",
    "texts up to about 100 characters", fuzz=400000)
add("F01", "f01.cpp", 120000, 3000000,
    "well-formed templates of up to 12 segments (literal text, doubled braces, automatic and numbered placeholders, specifications) "
    "over 22 argument lists covering 19 types; non-trivial: two placeholders, or a placeholder and doubled braces",
    "grammar-based template generation against a reference formatter, under ASan/UBSan with leak tracking",
    "22 argument type lists of up to 12 arguments", fuzz=200000)
add("F02", "f02.cpp", 150000, 4000000,
    "one placeholder with every combination of fill, alignment, width (0-299), precision (0-59) and type over 11 argument types; "
    "non-trivial: padding is needed or a precision is given",
    "grammar-based specification generation against a reference renderer",
    "finite numbers only; braces as fill excluded", fuzz=200000)
add("F03", "f03.cpp", 60000, 1500000,
    "arbitrary texts made of pieces the template parser reacts to, and well-formed templates with one planted defect (5 kinds); "
    "non-trivial: contains a brace",
    "random and coverage-guided generation of odd templates; expected refusals by construction, memory errors by ASan/UBSan",
    "digit runs are at most 4 digits or longer than any integer type (others only ask for that much padding)", fuzz=300000)
add("F04", "f04.cpp", 9000, 250000,
    "histories of 1-20 operations over up to five builders; non-trivial: three or more appends",
    "stateful model-based testing against plain strings, with leak tracking",
    "histories up to 20 steps", fuzz=40000)

add("I01", "i01.cpp", 25000, 600000,
    "histories of output, error and log calls and of line and character reads on recording stream buffers that tell flushed from "
    "pending bytes; non-trivial: two or more writes on at least two streams",
    "stateful model-based testing: what each stream has flushed after every call against the concatenation of the texts",
    "histories up to 25 calls, texts up to a few hundred bytes")
add("I02", "i02.cpp", 9000, 250000,
    "histories of up to 30 operations on one to three handles of a file in a scratch directory; non-trivial: at least one write and one read",
    "stateful model-based testing against a plain text with a cursor, under ASan/UBSan",
    "histories up to 30 steps; positions beyond the end and reading on after more was written at the end of file unspecified")

add("I03", "i03.cpp", 3500, 100000,
    "histories of 5 to 30 steps (writes of every form and length, reading, reopening, erasing) on one or two handles of a file in a scratch "
    "directory while the largest size a file may have changes (RLIMIT_FSIZE), some on a device without room (/dev/full); non-trivial: a write "
    "that had no room and a later one through which text reached the file",
    "stateful model-based testing with injected write failures against the bytes on disk, under ASan/UBSan",
    "the only failure injected is lack of room; failing reads and devices that lose data silently are out of reach")

_GRAMMAR = "an independent JSON model, writer and grammar (engine/json.h), under ASan/UBSan with leak tracking"
add("J01", "j01.cpp", 5000, 130000,
    "random object trees (depth up to 7, sometimes chains of 120; texts full of quotes, backslashes, control and non-ASCII characters; "
    "extreme numbers) built through the API in many ways, printed compact and with indents 0-40, read by an independent grammar and "
    "parsed back; non-trivial: four or more values and depth two or more",
    "random structured documents, round trip and differential check of the output against " + _GRAMMAR,
    "trees up to about 40 values; finite floats to the 6 digits printed")
add("J02", "j02.cpp", 6000, 160000,
    "random object trees written with random layout, escapes and number forms, nesting up to 500; every code point escaped and raw is "
    "enumerated in 2176 chunks; non-trivial: four or more values and an escape, non-ASCII character or line break in the layout",
    "grammar-based generation of valid JSON with the expected value known by construction: " + _GRAMMAR,
    "values tiny enough to underflow excluded")
add("J03", "j03.cpp", 80000, 2000000,
    "valid documents with one planted defect of 17 kinds, valid texts with 1-4 characters changed, and soups of JSON pieces; "
    "non-trivial: three or more bytes that the grammar rejects",
    "grammar-based and mutational generation of invalid JSON, verdict by " + _GRAMMAR,
    "Unicode blanks, raw control characters in strings, plus signs, leading zeros and \\u0000 unspecified; nesting beyond 500 only checked for not crashing",
    fuzz=200000)
add("J04", "j04.cpp", 6000, 160000,
    "histories of 2-31 edits on up to four documents and free values, including copies and moves between any two places, a part over its "
    "parent and names taken from the tree itself; everything compared after every step; non-trivial: four or more edits and a place two "
    "levels deep",
    "stateful model-based testing against a plain ordered tree, under ASan/UBSan with leak tracking",
    "histories up to 31 steps, trees up to about 150 values", fuzz=15000)

_BIG = "boost::multiprecision::cpp_int as the exact reference, under ASan/UBSan with leak tracking"
add("N01", "n01.cpp", 30000, 800000,
    "2-4 related numbers of up to 400 digits (runs of nines and zeros, powers of ten, neighbours, negations) and up to 8 operations whose "
    "results are operands again; non-trivial: an operation on two operands of four or more digits",
    "random structured operands and operation histories against " + _BIG, "operands up to about 900 digits")
add("N02", "n02.cpp", 150000, 4000000,
    "texts with redundant zeros and signs, pairs of related numbers under all comparison forms, native numbers at every magnitude, and "
    "texts that are no numbers; non-trivial: two numbers of the same length, a redundant form, a native number above 9 or a refused text "
    "of two or more bytes",
    "random structured texts and pairs against " + _BIG, "texts up to about 600 digits", fuzz=200000)
add("N03", "n03.cpp", 25000, 600000,
    "dividend/divisor pairs (random, built from quotient and remainder, related, near powers of ten), powers up to about 260 digits, "
    "roots of squares and their neighbours; small operands -130..130 by -35..35 are enumerated; non-trivial: quotient and divisor above "
    "9, exponent above 2, or radicand above 9",
    "random structured operands against " + _BIG, "operands up to 120 digits, roots up to 40 digits")
add("N04", "n04.cpp", 6000, 150000,
    "decimal texts of up to 120 digits on each side of the point (redundant zeros, variants of the same value, differences far behind "
    "the point), operation histories, powers, quotients, roots, malformed texts; non-trivial: operands of different positive scale, "
    "exponent above 1, quotient of non-zero numbers, refused text of three or more bytes",
    "random structured operands against exact rationals over " + _BIG,
    "quotients and roots bounded by one unit of the finest place of the (normalised) operands; native doubles only multiples of 1/64")

add("U01", "u01.cpp", 60000, 1500000,
    "pairs of integers of all pairs of 10 types drawn near zero, powers of two, the extremes and each other's bit patterns; all pairs of 8-bit "
    "values are enumerated; non-trivial: different signedness and a negative value or one above 2^31",
    "random and exhaustive generation of operand pairs against 128-bit arithmetic", "complete for 8-bit operands, sampled for the others")
add("U02", "u02.cpp", 6000, 150000,
    "bounds of every supported type (equal, neighbouring, extreme, negative, wide) with 60-480 draws each, and probabilities with 1000 draws; "
    "non-trivial: the bounds differ, or a probability strictly between 0 and 1 or refused",
    "random bounds, invariant over the draws and statistical coverage with a false alarm probability below 1e-15 per case",
    "statistical: a skewed distribution is only noticed when an eighth of the range is never drawn", nondet=True)
add("U03", "u03.cpp", 60000, 1500000,
    "maps of 9 types (ordered, unordered, multi, own order) built from random entries, given as constant, mutable or expiring; "
    "non-trivial: two or more entries",
    "random containers against the list of their entries, under ASan/UBSan with leak tracking", "maps up to about 60 entries")
add("E01", "e01.cpp", 6000, 150000,
    "chains of 1-15 combinators over four payload type pairs on lvalue, constant and expiring results, with functions that throw; "
    "non-trivial: three or more combinators",
    "random combinator chains against a plain tagged union, counting the calls of every supplied function", "chains up to 15 steps")
add("E02", "e02.cpp", 120000, 3000000,
    "histories of 1-26 operations on 2-4 results whose payloads register every construction and destruction and throw on a planned copy; "
    "non-trivial: three or more operations that do something",
    "stateful model-based testing with injected exceptions, every payload tracked, under ASan/UBSan with leak tracking",
    "histories up to 26 steps; payload moves do not throw")

_OBJ = "objects that register their construction and destruction, under ASan/UBSan with leak tracking"
add("M01", "m01.cpp", 10000, 300000,
    "histories of 3-32 operations on owners in slots, in a growing list and in fields of the owned objects themselves (chains and cycles, "
    "assignment from a part of what is owned, to itself, from raw objects); non-trivial: an object had two owners and an object died",
    "stateful model-based testing against a graph of plain ids; " + _OBJ, "histories up to 32 steps")
add("M02", "m02.cpp", 7000, 200000,
    "histories of 3-32 operations on exclusive owners in slots, a list and fields of the owned objects, and on raw handles that may dangle; "
    "non-trivial: a held object was moved and one destroyed, or one was released, or one destroyed through a handle",
    "stateful model-based testing against a tree of plain ids; " + _OBJ, "histories up to 32 steps")
add("M03", "m03.cpp", 3200, 100000,
    "2-6 threads running generated operation lists over owners of 1-3 common objects for up to 300 rounds, and rows of up to 200 objects that "
    "2-5 threads let go of (or lock) at the same moment; non-trivial: at least two operations that change the number of owners, or two objects",
    "generated concurrent programs under the thread sanitizer, with an invariant over destruction counts and the writes the destructor sees",
    "schedules are those the machine produces, not enumerated", san="tsan", nondet=True,
    flags=["-include", os.path.join(common.VERIF, "engine", "fence.h")])
add("M04", "m04.cpp", 6000, 150000,
    "histories of 3-32 operations on owners and weak references in slots and in fields of the objects (also referring to their own object); "
    "non-trivial: a live object was locked or a lock came after the last owner",
    "stateful model-based testing against a graph of plain ids; " + _OBJ, "histories up to 32 steps")

add("C01", "c01.cpp", 5000, 120000,
    "2-4 threads, each running a list of 1-8 of 49 library operations up to 5 times on objects of its own and on strings, JSON values, big "
    "numbers, results, owners and a file all of them read; non-trivial: two threads run operations of the same kind and shared objects are read",
    "generated concurrent programs under the thread sanitizer; differential: every thread's results against those of the same list run alone",
    "schedules are those the machine produces, not enumerated; the console, the application object and the test registry are left out",
    san="tsan", nondet=True)

add("X01", "x01.cpp", 700, 18000,
    "lists of 1-5 of 50 library operations over private objects and a pool they only read, each repeated with the n-th memory allocation inside "
    "it refused (once, or from then on) for up to 150 growing n, until it is not reached any more; non-trivial: five or more operations ended "
    "for lack of memory",
    "stateful generation with fault injection at every allocation (replaced operator new) under ASan/UBSan; oracle: allocation balance, "
    "unchanged read-only objects, objects that can be read, assigned to and destroyed",
    "operations on small objects; what an interrupted operation leaves behind or returns is not judged")


def program_check(prop, fn, technique, note):
    CHECKS[prop] = fn
    NOTES[prop] = (technique, note)


program_check("U04", u04.check,
              "random type expressions, classes and numbers compiled under two compilers and five standards; sizes, limits and widths against the "
              "language's", "type expressions of up to 5 constructors; objects of up to a million array elements")

program_check("T01", t01.check,
              "random type expressions and classes compiled under two compilers and five standards, every library query and transformation "
              "against the standard one", "type expressions of up to 6 constructors; sign modifiers only for plain integer types")

program_check("T02", t02.check,
              "random classes with chosen operators and members compiled under two compilers and five standards; what is detected against what "
              "was declared", "operators between two values of the class; operators only usable on one value category excluded")


program_check("R01", r01.check,
              "generated test programs whose tests pass, fail and throw as planned, run repeatedly; the runner's report, totals, return value and "
              "the number of times each test ran against the plan", "up to 340 tests and 3 runs per program; names without line breaks")


program_check("R02", r02.check,
              "generated tests of assertions over operands of 20 types in many forms and contexts; the verdicts, the evaluations and what ran behind "
              "each assertion against the relations known by construction", "printable operands; a failing comparison's operands at least once, "
              "their number only in fixed cases")


program_check("H01", h01.check,
              "random header lists over random translation units, with generated use of what is included, compiled, linked and run under two compilers, "
              "five standards and eight sets of flags", "up to 3 units; linked with the TBB that the standard library's own <execution> asks for from C++17 on")


program_check("A01", a01.check,
              "random argument lists from the real command line and from memory that changes and dies afterwards, random orders of initialisation over "
              "several units; what every part sees against the list", "up to 1000 arguments, one of up to 100000 bytes")


def run(prop, tier):
    c = CHECKS[prop]
    if isinstance(c, Harness):
        return pbtcheck.run(c, tier)
    return c(tier)


def replay_file(path):
    text = open(path, errors="replace").read()
    lines = text.splitlines()
    prop = lines[0].split()[1]
    if "--- program ---" in text:
        import programs
        root = programs.scratch(prop)
        r = programs.execute(programs.Program.parse(text.split("--- program ---\n", 1)[1]), root)
        os.rmdir(root)
        print(r.out)
        print("compiled: %s, exit status: %s" % (r.compiled, r.rc))
        return 0 if r.compiled and r.rc == 0 else 1
    c = CHECKS[prop]
    if not isinstance(c, Harness) or "--- tape ---" not in text:
        print(text)
        return 0
    binary, log = pbtcheck.build_harness(c)
    if binary is None:
        print(open(log).read())
        return 1
    d = tempfile.mkdtemp()
    tape = os.path.join(d, "tape")
    open(tape, "w").write(text.split("--- tape ---\n")[-1])
    bad, desc = pbtcheck.replay(binary, tape, symbolize=1)
    print(desc)
    return 1 if bad else 0
