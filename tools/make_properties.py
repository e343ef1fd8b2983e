import json
B="include/Caitlyn/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],mechanism=[dict(name=n,where=B+w) for n,w in mech])))

STR="__Core/String/String.h"; CH="__Core/Char/Char.h"; CU="__Core/Char/Utility.h"; SU="__Core/String/Utility.h"
JP="__Serializing/Json/Types/JsonParser.h"; JD="__Serializing/Json/Types/JsonData.h"; JJ="__Serializing/Json/Types/Json.h"
BI="__Numeric/Types/BigInteger.h"; BF="__Numeric/Types/BigFloat.h"; EX="__Core/Error/Expected.h"

p("S01","Text survives UTF-8 decoding and re-encoding; malformed bytes are rejected",
"A string built from any well-formed UTF-8 text (without NUL) holds exactly that text's code points in order: its length is their number, its byte count is the text's byte length and converting it back gives the same bytes, whichever way of building or extending it is used. Reading strings from a stream one after the other gives each line of it once and then marks the stream as failed. Bytes that stop in the middle of a character, or contain a stray continuation byte or an impossible lead byte (F8 to FF), are refused with an exception, and nothing outside the given text is ever read.",
["inputs"],"all byte strings without NUL: every mix of 1-4 byte characters, and every truncation or corruption of them; all constructors, appending, inserting, stream output",
"The string tests are empty (PASS()); only a few literals are ever decoded, none malformed.",
[STR,CH],[("UTF-8 decoding of byte strings",STR),("validation of one character",CH),("re-encoding",STR)])

p("S02","String operations behave as operations on a list of code points",
"After any sequence of appending, pushing, inserting, concatenating, clearing, taking substrings, copying, moving and writing through an index or iterator, a string shows exactly what the same operations on a plain list of code points would show, through size, indexing, iteration in both directions, and conversion to bytes. Prefix, suffix and containment tests, first-occurrence search from any position, last-occurrence search over the whole text (for non-empty needles) and predicate search answer as on that list (the empty text occurs at every position; a search that finds nothing or starts behind the end answers 'no position'), and an out-of-range position for access, insertion or substring is refused with an exception that leaves the string unchanged. Copies are independent: changing one string never changes another.",
["histories","inputs"],"all operation histories over several live strings with 1-4 byte characters, including self-arguments, empty arguments and out-of-range positions",
"StringTest only holds PASS(); no test performs a sequence of edits or a search with repeated or overlapping needles.",
[STR],[("editing operations",STR),("searching",STR),("substring and indexing",STR)])

p("S03","String and character comparisons form one total order by code point",
"For any two strings exactly one of less, equal and greater holds, the six comparison operators agree with each other and with lexicographic comparison of the code points, and comparing against a C text gives the same answer as comparing against a string built from it. Sorting any list of strings therefore yields code-point order, and equality holds exactly when the code points are the same. The same holds for single characters.",
["inputs"],"all pairs and triples of strings and characters, biased to shared prefixes and to characters with different encoded lengths",
"No test compares strings beyond equality of a few ASCII literals.",
[STR,CH],[("string comparison operators",STR),("character comparison operators",CH)])

p("S04","Character classification and case mapping agree with Unicode",
"For every code point: it is whitespace exactly if Unicode says so; it is a digit only if it is a Unicode decimal digit, the digits of one script are recognised all ten or not at all, and a digit value is returned exactly for 0-9. ASCII letters, U+0410-U+044F, U+0391-U+03A9 and U+03B1-U+03C9 (without final sigma) are classified and mapped between cases as Unicode's simple case mapping says, so are the Greek vowels with breathings (U+1F00-U+1F45, U+1F60-U+1F6F); the paired letters of U+0100-U+0177 and U+1F70-U+1F7D are mapped so; any code point classified as upper or lower case is a Unicode letter of that case and maps to its Unicode case partner, and apart from the documented special letters (small and capital sharp s map to each other, n-apostrophe to the apostrophe letter) no code point is ever changed into something that is not its Unicode case partner. Converting a whole string converts each of its characters and nothing else.",
["inputs"],"all 1,114,112 code points, and all strings over them",
"CharTest checks no range edge; the tables have hundreds of edges.",
[CU,STR],[("whitespace/digit tables",CU),("case mapping tables",CU),("whole-string case conversion",STR)])

p("S05","Characters round-trip through code points; only whole characters are accepted",
"Making a character from any code point (other than zero and surrogates) gives its UTF-8 encoding, and reading its code point gives the same number back; size, bytes and stream output agree with that encoding. A byte text is accepted as a character exactly if it is one structurally complete UTF-8 sequence, otherwise construction and assignment throw and an assigned-to character keeps its old value.",
["inputs"],"all code points and all byte texts of length 0-6",
"CharTest only constructs a handful of characters.",
[CH],[("code point to bytes",CH),("bytes to code point",CH),("validity check",CH)])

p("S06","Text utilities: split, repeat, substring matching, trimming positions, numbers",
"Splitting a text at a delimiter and joining the pieces with it gives the text back (up to one trailing delimiter) and no piece contains the delimiter; repeating a text n times gives n copies for every n including zero; pattern search reports true exactly when a non-empty pattern occurs in the text. The first and last non-blank positions are those of the first and last character that is not whitespace, or the length if there is none; a text counts as a number exactly if it is non-empty and all digits; resolving backslash escapes replaces each recognised escape by the character it denotes and leaves all other characters alone.",
["inputs"],"all texts, delimiters, counts, patterns (periodic ones in particular) and escape sequences",
"Tests cover at most one literal per helper; failure tables of the matcher and blank/empty texts are never exercised.",
[SU,"__Core/String/Algorithms/Kmp.h"],[("split/repeat/blank search/number test/escape resolution",SU),("pattern search","__Core/String/Algorithms/Kmp.h")])

p("F01","Format placeholders take the right arguments and everything else is kept",
"Formatting any template keeps every character outside placeholders, turns doubled braces into single ones, replaces the n-th automatic placeholder by the n-th argument (a sole argument serves all automatic placeholders) and a numbered placeholder by the argument with that number, with or without a format specification. Integers, booleans, strings, characters and objects that can describe themselves are inserted as their exact decimal or textual form.",
["inputs"],"all templates mixing literals (any Unicode), escapes, automatic, numbered and specified placeholders, with 0-6 arguments of mixed types and text that itself contains braces",
"No test calls the formatter with more than one shape of template; expected results are never compared.",
[STR],[("template interpretation",STR),("argument to text",STR)])

p("F02","Alignment, fill, width and precision do exactly what the specification says",
"A specified placeholder yields the argument's text padded to at least the given width (counted in characters) with the fill character: on the right for '<' and by default, on the left for '>', and split for '^' with the smaller half on the left; text already that long is left alone. A precision p with type 'f' yields exactly p digits after the point (no point for zero) for a finite number, obtained by cutting (or zero-extending) its plain decimal form, before padding; precision never changes digits before the point, and 'f' without a precision leaves the plain form alone.",
["inputs"],"all combinations of fill (any Unicode character except braces), alignment, width 0-200, precision 1-40, type letter and value",
"Formatting tests never assert a padded result.",
[STR],[("specification parsing",STR),("padding",STR),("precision handling",STR)])

p("F03","A malformed or unsatisfiable template is refused by an exception, never misread",
"A template with an unclosed placeholder, a lone closing brace, a placeholder number beyond the arguments, more automatic placeholders than several arguments, or any placeholder when there are no arguments is refused with a catchable standard exception. For every other template text, however odd, formatting either returns or throws a standard exception: it never reads outside its arguments or template and never crashes.",
["inputs"],"all template texts with 0-5 arguments, including every mutation of valid templates",
"No test passes a malformed template.",
[STR],[("template interpretation",STR),("specification parsing",STR)])

p("F04","The text builder accumulates exactly what was appended, in order",
"After any sequence of appending (texts, characters, numbers, self-describing objects, formatted texts; with or without line end), copying and moving, a text builder's content is the concatenation of everything appended to it in order, one line feed per line call. A copy holds the content at the time of copying and both then evolve independently; reading the content never changes it.",
["histories","inputs"],"all operation histories over several builders",
"No test copies a builder between appends.",
["__Core/String/StringBuilder.h"],[("appending","__Core/String/StringBuilder.h"),("copying","__Core/String/StringBuilder.h")])

p("I01","Console output and input carry text unchanged, on the right stream and in order",
"Whatever mixture of write and write-line calls is made on the output, error and log facilities, each standard stream receives exactly the concatenation of the formatted texts in call order, with one line feed per line call, already flushed when the call returns. Reading a line returns exactly the next input line without its terminator and nothing of the following ones, prompts go to standard output first, and reading a character returns the first character of the next line (an empty character if the line is empty).",
["histories","inputs"],"all call sequences over all overloads, values and input texts including empty lines, missing final newline, end of input and multi-byte characters",
"IOTest is PASS(); no test captures a stream.",
["__Core/IO/Stream.h"],[("output facilities","__Core/IO/Stream.h"),("input facility","__Core/IO/Stream.h")])

p("I02","A file handle behaves as an append-only text with an independent line cursor",
"After any sequence of writing, appending, line-writing, reading lines, reading everything, repositioning, erasing, closing and reopening, through one handle or several on the same file, the file on disk holds exactly the bytes written since the last erase in call order, and reading everything returns that text. Reading line by line returns the successive lines from the current position with the delimiter removed, so that looping until end-of-file visits each line exactly once; the reported position is where the next line starts (the end once the end of file was reached), repositioning to it resumes there, and erasing rewinds it; other handles do not move it. Neither reading, reaching the end of the file nor a refused position ever makes a later write disappear or changes what is read.",
["histories","inputs"],"all operation histories on one file with arbitrary texts (empty, multi-byte, no final newline), alternative delimiters and pre-existing content",
"FileTest is PASS(); no test interleaves reading and writing.",
["__Core/File/File.h"],[("write/append family","__Core/File/File.h"),("line reading and position","__Core/File/File.h"),("open/close/erase","__Core/File/File.h")])

p("I03","A write that does not reach the file is reported and disturbs nothing later",
"Whenever the file system cannot take all of a text - no room is left, at once or after a part of it - every writing method of a file handle reports it by an exception, and when it returns normally the whole text is in the file. A failed write leaves nothing in the file but possibly a beginning of its text behind what was there, nothing of it turns up later, the handle's line position stays, and as soon as there is room again the same handle and others on the file write on and read all that is in it.",
["fault_sequences","histories","inputs"],"all histories of writes of every form through one or several handles while the room left in the file system changes",
"No test writes to a file at all.",
["__Core/File/File.h"],[("write/append family","__Core/File/File.h"),("flushing","__Core/File/File.h"),("open/close","__Core/File/File.h")])

p("J01","A JSON document survives serialising and parsing again, compact or indented",
"Serialising any document built through the API (nested objects and arrays, all value kinds, any Unicode text as keys and values, including quotes, backslashes and control characters) gives valid JSON whatever the layout and indent width, and parsing it yields a document equal to the original: same structure, member order, kinds and values (finite floating values to the 6 digits printed; whole floating values may return as integers and a zero loses its sign). Indented and compact output differ only in whitespace, and serialising the re-parsed document gives the same text again.",
["inputs"],"all document trees up to a size bound and all indent widths",
"SerializingTest prints one or two fixed documents and never parses output back.",
[JD,JP,JJ],[("serialiser",JD),("parser",JP),("document type",JJ)])

p("J02","Parsing valid JSON yields exactly the described value",
"Parsing any valid JSON object text (nested at most 500 deep, numbers in the range of the library's number types, no U+0000) succeeds and the document reports exactly the members in order of first appearance (the last value of a repeated name), with the kind and value the text describes: all escapes including Unicode ones and surrogate pairs decoded, integers in the 64-bit range exact, fractions and exponents as single-precision floating values, and any amount of JSON whitespace between tokens irrelevant. Non-ASCII text anywhere in the document does not change how the rest of it is read.",
["inputs"],"all valid JSON object texts up to a size bound, with randomly placed whitespace, escapes and multi-byte characters",
"Only two fixed ASCII texts without escapes, fractions or literals after non-ASCII text are parsed in tests.",
[JP,JJ],[("value parsing",JP),("escape decoding",JP),("number parsing",JP)])

p("J03","Invalid JSON is reported as an error and never crashes the parser",
"For every text the parser terminates, reads nothing outside the text and either produces a document or reports an error with a non-empty message and an empty (null) document; texts with an unclosed string, object or array, a missing colon, comma or value, a trailing comma, an unknown literal, an invalid escape, a malformed number such as two signs, two points, no digits or digits missing after the point or exponent, a number too large for its type, anything before or after the top-level object, or no top-level object at all are reported as errors. Copying, moving or assigning a document carries its state along, the error included; parsing good text afterwards with the same document works and clears the error.",
["inputs","histories"],"all byte texts that are valid UTF-8, in particular every truncation, token deletion, duplication and swap in a valid JSON text, and deep nesting up to a bound",
"No test feeds the parser an invalid text.",
[JP,JJ,"__Serializing/Json/Utility.h"],[("error detection",JP),("error reporting",JJ)])

p("J04","A JSON document behaves as an ordered map/list tree under any edits",
"After any sequence of assigning, indexing (beyond an array's end creates nulls, an absent key creates a null member, indexing another kind replaces it by a container), appending, adding and removing members, overwriting values by other kinds, copying and moving in sub-documents, a document shows exactly what a plain ordered tree under the same edits would: kinds, sizes, member presence and order, values; constant access to what is not there throws. Copies are deep and independent, including assigning a document's own part to itself or its parent, and no edit leaks memory or touches freed memory.",
["histories"],"all edit histories over several documents with nested values",
"Tests build one document once; none removes, overwrites with another kind, copies or moves.",
[JD,JJ],[("value storage and conversion between kinds",JD),("copy/move",JD),("member add/remove",JJ)])

p("N01","Big integer addition, subtraction and multiplication are exact",
"For all integers of any size and sign, sum, difference and product are the exact mathematical results in canonical form (no leading zeros, no negative zero), operands are unchanged, and operator and named forms agree.",
["inputs"],"all pairs of integers, biased to sign combinations, long carry/borrow chains, very different lengths and results near zero",
"BigIntegerTest multiplies one pair of positive numbers.",
[BI],[("add/subtract with signs",BI),("multiply",BI)])

p("N02","Big integers parse, print and compare faithfully",
"Printing a big integer built from any optionally signed decimal text gives that number without redundant zeros or sign, building from native 64-bit values (including the extremes) agrees with their decimal text, and any other text (empty, sign only, any character other than 0-9 after the sign) is refused with an exception. All comparison operators agree with the numeric order for every pair.",
["inputs"],"all decimal texts with leading zeros and signs, all near-miss texts, all pairs of integers",
"No test compares numbers, prints a negative one or passes an invalid text.",
[BI],[("construction from text",BI),("comparison",BI),("printing",BI)])

p("N03","Big integer division, remainder, power and square root are exact",
"For any dividend and non-zero divisor the quotient is truncated toward zero and the remainder has the dividend's sign (or is zero), so that quotient times divisor plus remainder gives the dividend back. Powers are exact, the square root is the largest integer whose square does not exceed the value, the absolute value drops the sign; division or remainder by zero, a negative exponent and the root of a negative number are refused with an exception.",
["inputs"],"all pairs of integers with all sign combinations, divisors longer, equal and shorter than the dividend, exponents up to a bound, perfect squares and their neighbours",
"No test divides, takes a power or a root.",
[BI],[("long division",BI),("power and root",BI)])

p("N04","Big decimal arithmetic is exact",
"For all decimal numbers of any size, precision and sign, sum, difference, product and power are the exact mathematical results, comparison agrees with numeric value, printing then re-reading gives an equal number, and the printed form denotes exactly the value (zeros after the point are never lost). A quotient or square root is off the true value by less than one unit of the finest decimal place of its operands; a text without the form of a decimal number is refused, and division by zero, a negative exponent and the root of a negative number are refused with an exception.",
["inputs"],"all pairs of decimal texts with leading/trailing fraction zeros, missing parts and both signs",
"BigFloatTest multiplies one pair of positive numbers without zero digits after the point.",
[BF],[("parsing/printing",BF),("arithmetic",BF),("comparison",BF)])

p("U01","Mixed-sign integer comparison is mathematically correct",
"For any two integers of any two integer types, the safe comparison helpers (equal, not equal, less, greater, less-or-equal, greater-or-equal) answer as for the mathematical values, whatever the widths and signedness, and never convert a negative number to a large unsigned one.",
["inputs"],"all value pairs at and around the limits of every pair of the ten integer types, plus random values",
"No test calls the comparison helpers at all.",
["__Core/Utility/Comparators.h"],[("comparison helpers","__Core/Utility/Comparators.h")])

p("U02","Random values stay within the requested range and reach all of it",
"A random number requested between two bounds is never outside them for any supported integer or floating type and any ordered bounds including negative ones, equal ones and the type's extremes (for floating types: bounds whose distance is representable). Over many draws every value of a small range and every eighth of a large one occurs, and draws are not all alike; a random boolean is always false for probability 0, always true for 1, true about as often as its probability says in between, and a probability that is not between 0 and 1 is refused with an exception.",
["inputs","histories"],"all bound pairs per type, many draws each",
"Random results are only printed, not asserted, in tests.",
["__Core/Utility/Random.h"],[("random helpers","__Core/Utility/Random.h")])

p("U03","Keys and values of a map are returned completely and in map order",
"For any map the key list and the value list have the map's size and pairwise form exactly its entries in iteration order, the map is unchanged, and later changes to the map do not affect the returned lists.",
["inputs"],"all ordered and unordered maps (with repeated values) over several key/value types",
"CollectionsTest is PASS().",
["__Core/Collections/Utility/MapUtility.h"],[("key/value extraction","__Core/Collections/Utility/MapUtility.h")])

p("U04","Sizes, limits and fixed-width types tell the truth",
"For every complete type and for every object, the size helper gives the size the language gives, in bytes by default or on request and in bits (eight times as many) on request, at compile time and at run time. The smallest value, the largest value and the value range of every number type, including classes that describe their own limits, are those std::numeric_limits gives, and are usable as constants where the language allows it (the range from C++14 on). Every fixed-width number type of the library has exactly the width, kind and signedness its name says, so every value of that width is held unchanged.",
["programs","inputs"],"all type expressions up to a construction depth and objects of them, all number types with all qualifiers, classes with generated limits, and values of all widths biased to the edges",
"No test calls the size or limit helpers.",
["__Core/Memory/Utility/SizeCalculation.h","__Core/Numeric/Utility/Limits.h","__Caitlyn/Types.h"],
[("size of a type or object","__Core/Memory/Utility/SizeCalculation.h"),("limits","__Core/Numeric/Utility/Limits.h"),("number types","__Caitlyn/Types.h")])

p("E01","Result combinators call exactly the right branch and keep the payload",
"For any chain of combinators on a result, value branches run exactly when it holds a value and error branches exactly when it holds an error, each supplied function runs at most once with the held payload, and the outcome is what the same chain on a plain tagged union would give. Value access on an error and error access on a value are refused with an exception, and fallback accessors give the value or the fallback. A wrapped error holds the error it was made from, and two of them compare equal exactly when their errors do.",
["histories","inputs"],"all chains of combinators over value and error states, several payload types, functions that change type, and recording of every call",
"Each test drives one combinator once with int/string; many combinators are never instantiated with differing types.",
[EX,"__Core/Error/Unexpected.h"],[("combinators",EX),("accessors",EX)])

p("E02","Results create and destroy exactly what they hold, even when copying throws",
"Under any sequence of construction, copying, moving, assigning across value and error states and destruction, a result holds exactly one live payload of the right kind, every payload ever created is destroyed exactly once and none is used after destruction. This stays true when a payload's copy operation throws at any point: the exception reaches the caller and the objects involved are still safely destructible.",
["histories","fault_sequences"],"all histories over several results with counted payloads, with a fault injected at every copy",
"No test uses a payload with observable lifetime or one that throws.",
[EX],[("assignment and copy",EX),("destruction",EX)])

p("M01","Shared ownership frees the object exactly once, after the last owner",
"Under any sequence of creating, copying, moving, assigning (including from a raw object and to itself), resetting and destroying shared owners, empty ones included, the owned object is alive while any owner refers to it and is destroyed exactly once, when the last owner goes. Access through any owner reaches the same object, a moved-from or reset owner is empty, and access through an empty owner is refused with an exception.",
["histories"],"all operation histories over a pool of shared owners and objects",
"MemoryTest is PASS().",
["__Core/Memory/Types/SharedPointer.h"],[("reference counting","__Core/Memory/Types/SharedPointer.h"),("copy/move/release","__Core/Memory/Types/SharedPointer.h")])

p("M02","Exclusive and non-owning handles follow ownership to the letter",
"Under any sequence of creating, moving, resetting, releasing and destroying exclusive owners, at most one refers to an object, the object is destroyed exactly once by the owner that holds it last and not at all after being released to the caller, and a moved-from or released owner is empty. Copying, assigning and destroying a raw handle never destroys anything, it always refers to what it was last given, and an explicit reset or destroy destroys exactly its current object. Access through an empty owner or handle is refused with an exception.",
["histories"],"all operation histories over pools of exclusive owners and non-owning handles",
"MemoryTest is PASS().",
["__Core/Memory/Types/UniquePointer.h","__Core/Memory/Types/RawPointer.h"],[("exclusive owner","__Core/Memory/Types/UniquePointer.h"),("non-owning handle","__Core/Memory/Types/RawPointer.h")])

p("M03","Shared owners may be copied and dropped concurrently",
"When several threads concurrently copy, move, read through and drop their own shared owners of the same object, the object is destroyed exactly once, after every owner is gone and with all writes made through any owner before dropping it visible to the destructor, and there is no data race. A thread that meanwhile locks its own weak reference gets an owner of the still living object, or an empty one if no owner is left.",
["schedules","histories"],"generated per-thread operation lists on 2-6 threads with yields, and rows of objects that all threads let go of at the same moment, under a race detector",
"No test starts a thread.",
["__Core/Memory/Types/SharedPointer.h"],[("atomic reference count","__Core/Memory/Types/SharedPointer.h")])

p("M04","A weak reference does not keep its object alive",
"A weak reference reports expired exactly when the last owner of its object is gone, locking it then yields an empty owner, and locking it before yields an owner of the same object; weak references never extend the object's lifetime and may outlive it safely, and access through an expired one is refused with an exception.",
["histories"],"all histories over a pool of shared owners and weak references",
"MemoryTest is PASS().",
["__Core/Memory/Types/WeakPointer.h","__Core/Memory/Types/SharedPointer.h"],[("weak reference","__Core/Memory/Types/WeakPointer.h")])

p("C01","Threads that share nothing mutable do not disturb each other",
"When several threads at the same time each work on library objects of their own, and only read (compare, search, print, convert, copy, calculate with) objects they share, every thread gets exactly the results it would get alone and there is no data race. This holds for strings, characters, text utilities, formatting and text builders, JSON values, documents and parsing, big numbers, results, owners, map helpers, random numbers and separately opened files; the console, the application object and the test registry are excepted.",
["schedules","histories"],"generated operation lists on 2-4 threads with private objects and shared read-only ones, under a race detector",
"No test starts a thread.",
["__Core/String/String.h","__Core/Char/Char.h","__Core/String/Utility.h","__Serializing/Json/Types/JsonData.h","__Serializing/Json/Types/JsonParser.h","__Numeric/Types/BigInteger.h","__Numeric/Types/BigFloat.h","__Core/Error/Expected.h","__Core/Utility/Random.h"],
[("formatting without shared state","__Core/String/String.h"),("random numbers from an engine of their own","__Core/Utility/Random.h"),("shared default value","__Core/Error/Expected.h")])

p("X01","Running out of memory harms nothing",
"When memory allocations fail at any point inside an operation on strings, formatting, text builders, JSON values, documents and parsing, big numbers, results, owners, map helpers, text utilities or files, once or from then on, the process is not terminated: the operation ends, either normally or with a standard exception. Nothing it allocated stays behind once the objects involved are gone and nothing is freed twice, objects it only reads keep their content, and the strings, JSON values, documents, numbers, results and owners it changes can still be read, assigned to, used and destroyed afterwards. (What an interrupted operation leaves in an object it changes, or writes to a stream, is not promised.)",
["fault_sequences","histories"],"all histories over these operations, and all points at which an allocation inside one of them can fail",
"No test makes an allocation fail.",
["__Core/Memory/Types/SharedPointer.h","__Serializing/Json/Types/JsonData.h","__Serializing/Json/Types/Json.h","__Serializing/Json/Types/JsonParser.h","__Core/String/String.h","__Core/Error/Expected.h","__Numeric/Types/BigInteger.h","__Numeric/Types/BigFloat.h"],
[("taking over an object","__Core/Memory/Types/SharedPointer.h"),("values inside JSON values","__Serializing/Json/Types/JsonData.h"),("replacing a result","__Core/Error/Expected.h")])

p("T01","Type queries and type transformations agree with the language",
"For every type built from fundamental types, enumerations, classes, unions, pointers, references, arrays, functions, members and their cv-qualified forms, each type query and each type transformation the library offers gives the same answer as the corresponding standard one.",
["programs"],"all type expressions up to a construction depth, against all library queries and transformations",
"TraitsTest checks each query on one or two types.",
["__Core/Traits/Constraints/Primary.h","__Core/Traits/Constraints/Composite.h","__Core/Traits/Constraints/Properties.h","__Core/Traits/Types/Specifiers.h","__Core/Traits/Types/References.h","__Core/Traits/Types/Pointers.h","__Core/Traits/Types/Primary.h"],
[("type queries","__Core/Traits/Constraints/Primary.h"),("type transformations","__Core/Traits/Types/Primary.h")])

p("T02","Detection of members and operators matches what the class really supports",
"For every class, the library reports support for an operator (between two values of the class, or with a standard narrow stream) or a conversion to text exactly if the class provides it in an accessible form, and this does not depend on which other members the class has.",
["programs"],"all generated classes with random subsets of operators and members",
"TraitsTest checks few operators on int.",
["__Core/Traits/Types/Operators.h","__Core/Traits/Constraints/Operations.h","__Core/Traits/Constraints/String.h","__Core/Traits/Types/Collections.h"],
[("operator detection","__Core/Traits/Types/Operators.h"),("text conversion detection","__Core/Traits/Constraints/String.h")])

p("H01","Every public header works alone, in any combination, order and standard",
"Any non-empty list of the library's public headers, in any order and with repetitions, compiles without errors under every language standard from C++11 on, and several translation units using them link into one working program.",
["programs","configurations"],"all header lists x standards C++11..C++23 x compilers x numbers of translation units",
"The suite compiles one program with one compiler and one standard, with an extra forced include.",
["Caitlyn","__Caitlyn/Config.h","__Caitlyn/Types.h","__Caitlyn/Application.h"],[("umbrella headers","Caitlyn"),("configuration","__Caitlyn/Config.h")])

p("A01","Command-line arguments reach the application unchanged",
"For any list of command-line arguments, the application object reports their number and each argument's text exactly and in order, independently of later changes to the original memory; it can be initialised once, a second initialisation is refused with an exception, and all parts of a program see the same application.",
["inputs","histories"],"all argument lists (empty arguments, multi-byte text, many arguments) and call orders",
"No test initialises an application.",
["__Caitlyn/Application.h"],[("argument storage","__Caitlyn/Application.h")])

p("R01","The test runner's verdict is the truth about the tests that ran",
"For any set of registered tests and outcomes (pass, failed assertion, exception, across suites), running them runs each exactly once, the reported per-test verdicts and totals match the outcomes, and the exit status is zero exactly if none failed.",
["programs","inputs"],"all sets of suites and tests with random outcomes",
"The suite's own tests all pass, so a runner that ignored failures would look the same.",
["__Testing/Types/TestRegistry.h","__Testing/Types/TestCase.h"],[("running and reporting","__Testing/Types/TestRegistry.h")])

p("R02","Assertions fail exactly when their condition is false",
"Each assertion passes without side effect when its stated relation holds between its operands and otherwise fails the surrounding test; operands are evaluated once, and a failing assertion stops that test and no other.",
["inputs","programs"],"all assertion kinds over generated operand values",
"Only the passing direction of assertions is ever exercised.",
["__Testing/Macro/Assert.h","__Testing/Types/TestFailMessage.h"],[("assertion macros","__Testing/Macro/Assert.h")])

import sys
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
