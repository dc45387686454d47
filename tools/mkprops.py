#!/usr/bin/env python3
"""Source of properties.jsonl (run: tools/mkprops.py > properties.jsonl)."""
import json
D = "include/strf/detail/"
PT = D + "printable_types/"
FC = D + "facets/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Integers print as their exact positional representation",
  "For every value of every integer type, printing in base 2, 8, 10 or 16 produces exactly the conventional positional representation: the optional sign ('-', '+', or the fill character where a sign would be), the optional base prefix in the configured letter case, then the digits. A minimum digit count and a zero-padding width insert exactly as many zeros as needed between prefix and digits, and nothing else changes the digits. The same holds for every destination character type and whether the integer is printed plainly or through any combination of format options.",
  ["inputs", "configurations"],
  "all values of all signed/unsigned integer types (including extremes) x base x sign option x prefix x minimum digits x zero-pad width x letter case x alignment x 5 character types",
  "The tests print a few dozen hand-picked integers; digit-count thresholds, extremes and option combinations multiply to far more cases than can be listed.",
  [PT + "int.hpp", D + "int_digits.hpp", FC + "lettercase.hpp"],
  [("integer printer", PT + "int.hpp"), ("digit generation and digit counting", D + "int_digits.hpp")],
  ["text produced by strf::to_string/to for integer arguments"])

p("P02", "Digit grouping inserts separators exactly at group boundaries",
  "When numeric punctuation is requested, the integral digits of a number in any base are separated exactly at the boundaries of the configured group sizes counted from the least significant digit, the last size repeating unless marked otherwise, and removing the separators gives the unpunctuated text. Every way of describing the same grouping (sizes, string, incremental builder, locale-style string) behaves identically, and the queries about a grouping (how many separators, whether any, how digits are distributed) agree with what is printed. Without a request for punctuation, the punctuation settings have no effect.",
  ["inputs", "configurations"],
  "all integers and floating-point values x all groupings of up to 6 groups of 1..31 with or without repetition x separator and decimal-point code points x base x alignment/zero padding",
  "Tests cover a handful of groupings; group/digit-count boundary interactions and separators of different encoded sizes are unbounded.",
  [FC + "numpunct.hpp", PT + "int.hpp", PT + "float.hpp"],
  [("grouping encoding and distribution", FC + "numpunct.hpp"), ("punctuated digit writers", PT + "int.hpp"), ("grouped fixed notation", PT + "float.hpp")],
  ["printed text", "digits_grouping observers"])

p("P03", "Default floating-point text round-trips and is the shortest",
  "When no precision is given, the text printed for any finite float or double, in general, fixed or scientific notation, parses back to exactly the same value (including the sign of zero). No decimal with fewer significant digits parses back to that value, and among those of that length it is the closest one to the value. General notation picks whichever of fixed and scientific gives the fewest characters.",
  ["inputs", "configurations"],
  "all finite float and double bit patterns x notation x sign/point options x character type",
  "Tests compare a few dozen literals; the guarantee is over 2^64 doubles, and the hard ones (subnormals, powers of two, halfway decimals) are where shortest algorithms break.",
  [PT + "float.hpp", D + "dragonbox.hpp"],
  [("shortest decimal conversion", D + "dragonbox.hpp"), ("decomposition and notation choice", PT + "float.hpp")],
  ["printed text parsed back with strtod/strtof and compared to std::to_chars"])

p("P04", "Floating-point precision yields the correctly rounded digit count",
  "With a precision, fixed and scientific notation print exactly that many fractional digits, and general notation follows printf's 'g' rules (that many significant digits, zero meaning one, trailing fractional zeros dropped unless the point is forced, scientific iff the exponent after rounding is below -4 or at least the precision). The digits are those of the value's shortest decimal representation rounded to nearest, ties to even, with carries propagated, and extra positions filled with zeros.",
  ["inputs", "configurations"],
  "all finite float and double values x fixed/scientific/general x precision 0..400 x sign/point options",
  "Rounding carries (999.. -> 1000..), ties and notation switches depend on value x precision pairs that samples miss.",
  [PT + "float.hpp"],
  [("precision rounding in each notation", PT + "float.hpp")],
  ["printed text"])

p("P05", "Hexadecimal floating-point output is exact",
  "Printing any finite float or double in hexadecimal notation without a precision yields text that parses back to exactly the same value, with the shortest fraction, and the documented lead digit and exponent form. With a precision, exactly that many hexadecimal fraction digits appear and the value is the nearest one representable with them, ties to even, with carry into the leading digit.",
  ["inputs", "configurations"],
  "all finite float/double bit patterns (normal, subnormal, zero) x precision 0..30 x point/sign/letter-case options",
  "Tests check a few values; rounding of mantissa nibbles and subnormals form a huge space.",
  [PT + "float.hpp"], [("hexadecimal notation", PT + "float.hpp")],
  ["printed text parsed back, compared with printf %a"])

p("P06", "Floating-point decoration never alters the number",
  "For every floating-point value and notation, sign options, forced decimal point, zero padding, letter case, numeric punctuation and alignment only add or restyle what they are documented to: removing them gives back the undecorated text. Zero padding makes the text at least the requested number of characters by inserting zeros after the sign and base prefix (for NaN and infinity it widens with fill instead), a decimal point and separator replace the default ones, and the total printed width is the maximum of the requested width and the content.",
  ["inputs", "configurations"],
  "all float/double values including NaN and infinities x notation x precision x sign x pad0 x punctuation x letter case x alignment x fill",
  "Each option is tested alone in the unit tests; their products are not.",
  [PT + "float.hpp", FC + "numpunct.hpp", FC + "lettercase.hpp"],
  [("float printers", PT + "float.hpp")], ["printed text"])

p("P07", "Alignment adds exactly the missing fill and never alters content",
  "For a value of any printable type, printing it with an alignment of width w, fill character and side gives the same content as printing it without alignment, plus exactly the number of fill characters by which w exceeds the content's width, all on the side required (left aligned: after; right: before; centered: the smaller half before). If w does not exceed the content's width (including zero and negative w), nothing is added, and an unencodable fill character prints the encoding's replacement character instead.",
  ["inputs", "configurations"],
  "values of every built-in printable type x width (integral, fractional, negative, huge-but-feasible) x fill code point x side x charset x width calculator",
  "Tests pin a few widths per type; the law must hold for all types, fills and widths.",
  [D + "format_functions.hpp", D + "printing_helpers.hpp", PT + "string.hpp", PT + "int.hpp", PT + "bool.hpp", PT + "char.hpp", PT + "float.hpp", PT + "join.hpp"],
  [("alignment format functions", D + "format_functions.hpp"), ("write_fill", D + "facets/charset.hpp")], ["printed text"])

p("P08", "Strings print verbatim, and precision cuts the longest prefix that fits",
  "A string argument in the destination's own encoding is printed unchanged, whatever its content and length and whichever string type holds it. With a precision p it prints exactly the longest prefix, under the active width measure, whose width does not exceed p, and alignment is then computed from the width the measure reports for it.",
  ["inputs", "configurations"],
  "strings of any length and content (valid, ill-formed, embedded NULs) x std::string/view/pointer/literal x precision x alignment x width calculator x character type",
  "Tests use a few short literals; buffer-boundary lengths and precision limits inside multi-unit sequences are sampled by none.",
  [PT + "string.hpp", FC + "width_calculator.hpp"],
  [("string printers with precision", PT + "string.hpp")], ["printed text"])

p("P09", "String width follows grapheme-cluster rules for every calculator",
  "The default width measure of any text equals the sum over its extended grapheme clusters of the width of the cluster's first code point (two for the documented wide ranges, else one); the other calculators count code units or code points as documented. Measuring with a limit gives the smaller of limit and width, measuring with a position gives the greatest prefix whose width does not exceed the limit, and the results do not depend on encoding (UTF-8, UTF-16, UTF-32) or on where the text is long.",
  ["inputs", "configurations"],
  "all code point sequences (regional indicators, Hangul, emoji ZWJ sequences, extenders, controls, ill-formed units) x limits x calculators x charsets",
  "Unit tests enumerate the UAX#29 samples only; long texts, chunk boundaries and limits in the middle of clusters are not covered.",
  [FC + "width_calculator.hpp", D + "ch32_width_and_gcb_prop"],
  [("std_width_calc and friends", FC + "width_calculator.hpp"), ("code point property table", D + "ch32_width_and_gcb_prop")],
  ["str_width, str_width_and_pos, char_width"])

p("P10", "UTF transcoding is exactly the Unicode decode/encode, errors included",
  "Converting between any two of UTF-8, UTF-16, UTF-32 and wide encodings produces exactly the well-formed encoding of the input's code points, with each maximal ill-formed subsequence replaced by one replacement character. Each such error is reported with the offending units, in order and exactly once (one at which a destination buffer ends may be reported again on resumption), and the surrogate-tolerant and stop-on-error modes behave as documented for every input. The output never contains an ill-formed sequence unless surrogate tolerance was asked for.",
  ["inputs", "configurations"],
  "all code unit sequences (well-formed, truncated, overlong, surrogate, out of range) x all pairs of Unicode charsets x flags x notifier present or not",
  "Tests enumerate tens of ill-formed sequences; position and neighbourhood combinations are exponential.",
  [D + "utf.hpp"], [("transcoders for all UTF pairs", D + "utf.hpp")],
  ["transcode result, output, notifier calls"])

p("P11", "Bounded transcoding is resumable, in bounds, and predicted by size queries",
  "For every input, flag set and output capacity, a conversion never writes outside the given output range, stops only at a character boundary with pointers that exactly delimit what was consumed and produced, and reports lack of space only when something remained to be written. Resuming from where it stopped, any number of times with any capacities, yields the same total output as one unbounded conversion, and the size query returns exactly the number of units that conversion writes (or the limit with a consistent position).",
  ["inputs", "histories", "configurations"],
  "all charset pairs (UTF and single-byte) x inputs x flags x sequences of capacities including zero",
  "The tests try a few capacities per pair; every cut point of every input matters.",
  [D + "utf.hpp", D + "single_byte_charsets.hpp", FC + "charset.hpp"],
  [("transcode/transcode_size", D + "utf.hpp"), ("single byte transcoders", D + "single_byte_charsets.hpp")],
  ["transcode_result, transcode_size_result, output memory"])

p("P12", "Single-byte charsets map every byte and code point as standardised",
  "For each supported ISO-8859, Windows and ASCII charset, decoding any byte and encoding any code point agree with the published mapping table, bytes or code points without a mapping give the replacement character and are reported, and converting directly between two single-byte charsets equals going through Unicode. Conversion of a string is the concatenation of the conversions of its characters.",
  ["inputs", "configurations"],
  "all 256 bytes and all code points x all 25 single-byte charsets x pairs of charsets x strings mixing mapped, unmapped and ill-formed data",
  "Tests check the tables by repeating them in part and only in isolated strings; mixes with errors, limits and long runs are not covered.",
  [D + "single_byte_charsets.hpp"], [("charset tables and lookup", D + "single_byte_charsets.hpp")],
  ["transcoded text", "notifier calls"])

p("P13", "Every charset's metadata and character operations are coherent",
  "For every charset, static or type-erased, encoding a code point writes exactly the advertised number of units and is what its transcoder from UTF-32 writes, decoding a unit, counting and validating agree with each other, writing a fill repeats the encoded character exactly, and the replacement character is the advertised one. A type-erased charset behaves identically to the one it was made from, and looking up a transcoder between any two charsets finds one whose behaviour equals the direct conversion, or none consistently.",
  ["inputs", "configurations"],
  "all charsets x all code points x counts x all ordered charset pairs",
  "Tests exercise each member with a few characters.",
  [FC + "charset.hpp", D + "utf.hpp", D + "single_byte_charsets.hpp"],
  [("static and dynamic charset", FC + "charset.hpp")], ["charset member functions"])

p("P14", "Unchecked transcoding equals checked transcoding on valid input",
  "For every input that is valid in the source charset, the unchecked conversion functions produce the same output, size, positions and stop reasons as the checked ones, for every pair of charsets and every output capacity. Converting by way of UTF-32 gives the same result as the direct conversion between the two charsets.",
  ["inputs", "configurations"],
  "valid texts x all ordered charset pairs x capacities x flags",
  "Unchecked paths are tested only with a few short samples.",
  [D + "utf.hpp", FC + "charset.hpp", D + "single_byte_charsets.hpp"],
  [("unsafe_transcode", D + "utf.hpp"), ("decode_encode family", FC + "charset.hpp")], ["transcoded text"])

p("P15", "Printed foreign strings arrive transcoded, sanitised and reported",
  "A string printed with a conversion request into a destination of another (or the same) encoding appears exactly as the reference conversion of its content, including replacement characters, whatever its length, the destination's buffer size, precision and alignment. Sanitising makes any input valid in the destination encoding, and the error notifier in effect receives exactly the errors of the conversion.",
  ["inputs", "configurations"],
  "strings valid or not x source/destination charset x transcode/sanitise/unchecked x precision x alignment x surrogate policy x notifier",
  "Tests use short strings into roomy buffers.",
  [PT + "string.hpp", FC + "charset.hpp", D + "utf.hpp"],
  [("transcoding string printers", PT + "string.hpp"), ("transcoding into a destination", FC + "charset.hpp")], ["printed text", "notifier calls"])

p("P16", "Tr-strings substitute exactly per their grammar, errors included",
  "A tr-string print is exactly the template with every placeholder replaced by the printed form of the argument it names (the next one, or by index), comments removed and escapes unescaped, for any template text and argument list. A placeholder naming a missing argument prints the replacement character and is reported once with its position, and the total output is the same whether or not sizes were precomputed.",
  ["inputs", "programs"],
  "all template strings over text, braces, digits, comments, multi-byte characters x argument lists of varied length and type x character types x error handler",
  "Templates are a language; the tests cover a few dozen of its words.",
  [D + "tr_printer.hpp", PT + "tr_string.hpp", D + "printing_helpers.hpp"],
  [("tr-string parser", D + "tr_printer.hpp")], ["printed text", "error handler calls"])

p("P17", "Ranges print every element in order, formatted, separated exactly",
  "Printing a range gives the printed form of its elements in order, each with the format options and the transformation given, with the separator between consecutive elements and nowhere else. This holds for every element type, range kind, separator and length including empty, and equals printing the elements one by one.",
  ["inputs", "configurations"],
  "ranges of integers, floats, strings, characters, bools x formats x separators x transformations x lengths 0..n x container kinds",
  "Tests use three or four element ranges.",
  [PT + "range.hpp"], [("range and separated range printers", PT + "range.hpp")], ["printed text"])

p("P18", "A join prints its arguments as one unit",
  "A join prints the concatenation of what its arguments print, at any nesting depth and with any facets applied inside. With an alignment, the fill is computed from the sum of the arguments' widths and placed as required (left, right or center); negative, fractional and extreme widths follow the documented rules.",
  ["inputs", "programs", "configurations"],
  "join trees of mixed printable types x alignment x width x fill x nested facets",
  "Tests cover a few flat joins.",
  [PT + "join.hpp"], [("join printers", PT + "join.hpp")], ["printed text"])

p("P19", "The facet used for an argument is the last one that applies to it",
  "For every stack of facet settings (call-level and argument-level, nested, constrained by type predicates, packed, possibly repeated), the facet that governs an argument is the last given, innermost first, whose constraint accepts the argument's type, else the default. Overriding how a type is printed through a facet affects exactly the arguments accepted by its constraint, and facets given around one group of arguments never affect arguments outside it.",
  ["programs", "configurations", "inputs"],
  "stacks of settings of every facet category x constraints x nesting x arguments of each type",
  "Tests cover a few stacks.",
  ["include/strf/facets_pack.hpp", PT + "facets_pack.hpp", D + "printable_def.hpp"],
  [("facet lookup", "include/strf/facets_pack.hpp"), ("argument-level facets", PT + "facets_pack.hpp"), ("printable overrides", D + "printable_def.hpp")],
  ["printed text"])

p("P20", "Fixed-size destinations hold a prefix of the text and never overflow",
  "Writing any sequence of pieces to a fixed-size destination leaves in it a prefix of the text: all of it whenever it fits, and for a raw write that does not fit exactly as many units as fit. No memory outside it is touched, string destinations are null-terminated within bounds, and truncation is reported if and only if something was lost or the destination had already been closed. Once truncated it stays truncated: further writes change neither the content nor the reported end, whatever their sizes and whatever interface (printing, raw write, single units, recycling) is used.",
  ["inputs", "histories"],
  "capacities (including minimal) x sequences of write/put/print/recycle operations of any sizes before and after overflow x character types",
  "Tests check single overflows; what happens after truncation depends on histories.",
  ["include/strf/destination.hpp", D + "separate_args_and_print.hpp"],
  [("basic_cstr_destination, array_destination", "include/strf/destination.hpp")],
  ["buffer contents, guard bytes, result pointer, truncated flag"],
  [("destination good/bad state and garbage buffer", "after overflow writes are discarded", "include/strf/destination.hpp")])

p("P21", "String destinations hold exactly what was printed under every reserve policy",
  "Printing to a std::string (creating, appending or assigning, with no reserve, calculated or explicit reserve) or through a growing string destination driven by any sequence of writes yields exactly the concatenation of the pieces, preceded by the original content when appending. The reserve policy never changes the result, only capacity.",
  ["inputs", "histories", "configurations"],
  "sequences of pieces of sizes around internal buffer boundaries x reserve policies and sizes x initial contents x character types",
  "Tests check single prints of small data.",
  ["include/strf/to_string.hpp", D + "reserve_policies.hpp"],
  [("string makers and appenders", "include/strf/to_string.hpp"), ("reserve policies", D + "reserve_policies.hpp")], ["resulting string"])

p("P22", "Stream and file output delivers a prefix and reports its exact length",
  "Writing to a C FILE, wide FILE or streambuf delivers exactly the printed text in order when the sink accepts everything. When the sink starts refusing data at any point, what was delivered is exactly a prefix of the text, success is reported if and only if everything was delivered, and the reported count equals what the sink accepted.",
  ["inputs", "histories", "fault_sequences"],
  "sequences of writes/prints/recycles of all sizes x fault position x fault kind (short write, refusal then recovery) x sink type",
  "The tests use one failing sink; the position of the fault relative to internal buffers is what matters.",
  ["include/strf/to_streambuf.hpp", "include/strf/to_cfile.hpp"],
  [("streambuf_writer", "include/strf/to_streambuf.hpp"), ("cfile writers", "include/strf/to_cfile.hpp")],
  ["bytes received by the sink, finish() result"])

p("P23", "Output does not depend on the destination's buffer boundaries",
  "Whatever is printed, the text received by a user-supplied destination is the same for every pattern of buffer sizes it offers when recycled, and no printer writes outside the space offered. If the destination turns bad at any point, nothing beyond the good part is altered, no memory outside its buffers is touched, and the call terminates normally.",
  ["inputs", "configurations", "fault_sequences"],
  "argument lists of every printable type and format x sequences of buffer sizes >= the guaranteed minimum x recycle count at which the destination fails x character types",
  "Tests use one or two buffer layouts; the boundary must be tried at each position of each printer.",
  ["include/strf/destination.hpp", "include/strf/output_buffer_functions.hpp", D + "printing_helpers.hpp", PT + "float.hpp", PT + "string.hpp"],
  [("buffer recycling contract", "include/strf/destination.hpp"), ("chunked writers", "include/strf/output_buffer_functions.hpp")],
  ["text received by the destination, guard areas"])

p("P24", "Pre-computed size and width always match what is printed",
  "For any arguments and facets, the size computed before printing is at least the number of units then printed, and equals it for every built-in type without errors; the width computed is the sum of the arguments' widths. Width pre-computation with a limit answers whether the limit was exceeded consistently with the full width.",
  ["inputs", "configurations", "programs"],
  "argument lists of every built-in printable type x formats x facets x charsets x width limits",
  "Undersized estimates overflow buffers only for particular argument/format combinations.",
  ["include/strf/measure.hpp", D + "premeasurements.hpp", D + "printable_types"],
  [("premeasurements", D + "premeasurements.hpp"), ("per-type pre-measuring", PT)], ["measured size and width vs printed text"])

p("P25", "Width values behave as exact saturating Q16.16 fixed-point numbers",
  "Width values behave as signed fixed-point numbers with 16 fractional bits: conversions, comparisons with integers and other widths, rounding, floor, ceil, addition, subtraction, multiplication, division and the saturating forms give the mathematically exact result (truncated as documented where not representable, clamped in the saturating forms). No operation whose exact result is representable misbehaves, for any operands.",
  ["inputs"], "all pairs of 32-bit width values and integers of every width",
  "Tests check some dozens of pairs.",
  ["include/strf/width_t.hpp"], [("width_t arithmetic", "include/strf/width_t.hpp")], ["width_t operators"])

p("P26", "Characters, booleans and pointers print per their format",
  "A character prints as itself the requested number of times (zero or negative: nothing), a 32-bit code point as its encoding in the destination charset, a bool as its word in the configured letter case, a pointer as its address in prefixed hexadecimal in the configured letter case; for every count, alignment, fill and destination character type. Letter case affects exactly the documented letters and nothing else.",
  ["inputs", "configurations"], "all characters and code points x repeat counts x bool x pointer values x letter case x alignment x charset",
  "Tests sample a few.",
  [PT + "char.hpp", PT + "bool.hpp", PT + "int.hpp", FC + "lettercase.hpp"],
  [("char, bool, pointer printers", PT)], ["printed text"])

p("P27", "Locale punctuation reflects the C locale for every locale content",
  "For any locale description (decimal point, thousands separator and grouping strings in a supported encoding), the punctuation obtained from the locale uses exactly those characters and that grouping, with the documented fallbacks when the text is empty, malformed or its encoding unsupported; locale data in the Windows form (grouping text, UTF-16 characters) is read likewise. Obtaining it never fails or reads out of bounds.",
  ["inputs", "configurations"],
  "all byte strings for decimal point/separator/grouping x codeset names",
  "Tests cover only the locales installed where they run.",
  ["include/strf/locale.hpp", FC + "numpunct.hpp"], [("locale decoding", "include/strf/locale.hpp")], ["numpunct object and printed text"],)

p("P28", "Every build configuration produces identical output",
  "The library used header-only, compiled as a separate static library, under different supported language standards, optimisation levels or compilers yields the same output, return values and error reports for the same inputs.",
  ["configurations", "inputs"],
  "random printing scenarios x {header-only, static library, freestanding} x {C++14, 17, 20} x {gcc, clang} x optimisation",
  "CI-style tests check each build against the same few samples.",
  ["include/strf.hpp", "src/strf.cpp", D + "strf_def.hpp"],
  [("configuration macros", D + "strf_def.hpp"), ("separate compilation unit", "src/strf.cpp")], ["transcript of outputs"])

p("P29", "Format functions compose in any order and any documented spelling",
  "Any documented chain of format functions applied to a value means the same in every order and spelling (operators, member functions, constructor-style helpers, whole-format setters): functions setting different options commute, the last call for one option wins, and copying one value's format to another transfers exactly that format. Every documented combination is accepted.",
  ["programs"],
  "programs: random chains of documented format functions over values of each printable type",
  "The tests spell each function once; chains are combinatorial.",
  [D + "format_functions.hpp", D + "value_and_format.hpp", PT + "int.hpp", PT + "float.hpp", PT + "string.hpp"],
  [("format function mixins", D + "value_and_format.hpp")], ["printed text of generated programs"])

p("P30", "Printable types and overriders defined by users print what they define",
  "A type made printable through the documented customization point (specialised or overloaded definition, make_printer or print, with or without format specifiers of its own, copied, referenced, derived from or converted to) prints exactly what its definition prints, wherever it is allowed: as an argument, with its formats in any order, in joins, aligned joins, ranges, templates and groups with facets of their own, measured or not. Facets of user-defined categories reach it, selected by constraints on its representative. An overrider given as a facet replaces the printing of exactly the overridable types of its category that its constraints accept, the last applicable one winning, and is ignored by types that are not overridable.",
  ["programs", "inputs", "configurations"],
  "programs: user-defined types of every documented shape x overriders x constrained facets x nesting",
  "The tests define one or two such types and print each a few times.",
  [D + "printable_def.hpp", D + "printing_helpers.hpp", "include/strf/facets_pack.hpp", D + "value_and_format.hpp"],
  [("customization point", D + "printable_def.hpp"), ("choice between make_printer, print and overrider", D + "printing_helpers.hpp")], ["printed text of generated programs"])

p("P31", "Targets, reserve policies and facets combine in every documented way",
  "For every target (provided by the library or built from a user's destination creator, sized creator or both) and every chain of with, reserve, reserve_calc and no_reserve on it, through any documented value category, stored, copied, moved or reused in between, each print creates one destination through the creator and with the size the last policy selects (the given one, or a calculated one that is never less than the text), writes to it exactly the text of the arguments under the accumulated facets, ends it once and returns what its finish() returns. Deriving a target from another leaves the other as it was, except for the documented in-place change of reserve on a modifiable target. Every documented combination is accepted.",
  ["programs", "histories", "inputs"],
  "programs: every kind of target x chains of up to 6 steps and variables x the four printing functions x arguments",
  "The tests use a handful of fixed chains, nearly always on temporaries.",
  ["include/strf/printing_syntax.hpp", D + "reserve_policies.hpp", D + "separate_args_and_print.hpp", "include/strf/to_string.hpp"],
  [("printing_syntax", "include/strf/printing_syntax.hpp"), ("what each policy does", D + "reserve_policies.hpp")], ["text, sizes and calls observed by the destination creators of generated programs"])

p("P32", "Buffers deliver every element once, in order, whatever its type",
  "For every element type and guaranteed size, any sequence of write, put, output iterators, ensure followed by direct writing and advance, flush and recycle, through the buffer or any of its bases, hands the derived class exactly the written elements in order, never places a pointer out of the current buffer, and recycles only when the space left does not suffice (or when asked to). Negative or zero counts write nothing, the reported space is always what is left, and after a buffer turns bad or its recycle() throws nothing more is delivered and nothing is corrupted. Discarders accept everything, remain writable, and are never good.",
  ["histories", "inputs", "faults"],
  "histories: operations x bases x integer types of the counts; inputs: element types, sizes of buffers; faults: a buffer that turns bad or throws",
  "The tests write a few fixed sequences, nearly always of characters, to buffers of fixed sizes.",
  ["include/strf/destination.hpp", "include/strf/output_buffer_functions.hpp", "include/strf/iterator.hpp"],
  [("output_buffer", "include/strf/destination.hpp"), ("output_buffer_iterator", "include/strf/iterator.hpp")], ["elements, space and recycle() calls observed by a derived class"])

p("P33", "A printer is a value",
  "The function object made by make_printer for any argument and facets prints exactly what printing the argument directly prints, as often as it is called, into any destination and after anything else was printed. The same holds for each of its copies and for the object it is moved into, wherever they are stored, after the argument object, the pre-measurements and the printers they were copied from are gone.",
  ["histories", "inputs", "configurations"],
  "histories: make, copy, move, destroy and call in any order; inputs: arguments of every built-in type x formats x facets x charsets x pre-measurements",
  "The tests, and ordinary printing, make each printer once, call it once and never copy it.",
  [PT + "string.hpp", D + "polymorphic_printer.hpp", PT],
  [("type-erased string printers", PT + "string.hpp"), ("the printers of each type", PT)], ["text printed by copies of printers"])

p("P34", "Charsets made by the user work as the ones of the library",
  "A charset defined by specialising static_charset and static_transcoder, or given as a dynamic_charset, can be used wherever a charset of the library can: printing any arguments in it delivers the encoding of what they print in UTF-32, strings in it are decoded by its transcoders, and pre-computed sizes and widths match. Each invalid sequence and unsupported character found by its transcoders is notified as they report it. find_transcoder gives the function that the static specialisation or the optional find_transcoder_to / find_transcoder_from of either charset provides and nothing else, whichever of those a charset has.",
  ["inputs", "configurations"],
  "inputs: arguments x formats x facets x texts; configurations: encodings x code unit types x static or dynamic x which of the optional lookups exist",
  "The tests define no charset of their own beyond stubs for find_transcoder.",
  [D + "facets/charset.hpp", D + "printable_types/", D + "utf.hpp"],
  [("lookups", D + "facets/charset.hpp"), ("printing in a charset", D + "facets/charset.hpp")], ["text, sizes and notifications when printing in an encoding the harness defines"])

p("P35", "Prints that go on at the same time do not interfere",
  "Every print delivers exactly what it delivers alone, whatever other prints go on meanwhile: inside the recycle() of its destination, inside the error notifier it calls, or in other threads, in any interleaving. This holds when they share arguments, facets, printers, charsets and an error notifier, each print having a destination of its own. No data race happens.",
  ["schedules", "inputs", "histories"],
  "schedules: prints nested in one another, switches between threads at each recycle() and notification, free-running threads; inputs: arguments x formats x facets x destinations",
  "The tests print one thing at a time.",
  ["include/strf/", D + "facets/charset.hpp", PT, "include/strf/destination.hpp"],
  [("function-local buffers", D + "int_digits.hpp"), ("pivots of conversions", D + "facets/charset.hpp"), ("function-local statics", D + "utf.hpp")], ["text delivered by overlapping prints, reports of ThreadSanitizer"])

p("P36", "Exceptions of user code pass through a print unchanged",
  "When code of the user that a print calls throws (a destination or its creator, an allocator, an error notifier, a width calculator, an iterator, a transformation, a user-defined printable or its printer), that exception reaches the caller of the print. Everything the print had made is destroyed exactly once, nothing leaks, and the destination has received exactly the text that is delivered before that call without the exception. Nothing else changes: the same print made again is right.",
  ["faults", "inputs", "histories"],
  "faults: an exception from any one of the calls of user code of a print; inputs: arguments x compositions x formats x facets x destinations and reserve policies; histories: prints after the exception",
  "The tests throw only from the error notifier of a single conversion.",
  ["include/strf/", PT, D + "tr_printer.hpp", D + "premeasurements.hpp", "include/strf/to_string.hpp"],
  [("width measurement of characters and strings", PT + "char.hpp"), ("arrays of printers", D + "tr_printer.hpp"), ("printing with and without reserve", D + "reserve_policies.hpp"), ("conversions with a notifier", D + "utf.hpp")], ["the exception caught, live objects and allocated bytes, delivered text, the next print"])

if __name__ == "__main__":
    ids = set()
    for x in P:
        assert x["id"] not in ids and len(x["title"]) <= 80, x["id"]
        ids.add(x["id"])
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        print(json.dumps(x))
