#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
H = "include/logic/"
ENC = [("value", "2-state payload; native integer up to 64 bits, array of 64-bit words above", H+"bit.hh bit::value / big_num.hh big_num::values"),
       ("xz_mask", "1 marks an unknown bit; value 0 there is x, 1 is z", H+"logic.hh logic::xz_mask")]

p("C01", "Values are exact modulo their declared width",
  "Constructing or assigning a 2- or 4-state value of width w from a native integer, or from another value of any width and storage class (extended by the source's own signedness, an unknown sign bit included), stores exactly the source modulo 2^w, and every way of reading it back (integer conversion, bit string, equality) agrees with that stored number interpreted with the value's own signedness. A default-constructed 4-state value is all x and a default-constructed 2-state value is all 0; integer conversion of a value with any x or z gives 0.",
  ["inputs", "programs"], "every width 1..2048, either signedness, every integer/bit pattern",
  "Tests sample about six widths with values that fit; widths that do not fill their storage (5, 20, 100 bits) with values that overflow them are never read back numerically.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh", H+"util.hh"],
  [("bit/logic constructors and operator=", H+"bit.hh, logic.hh 'constructors'"), ("mask_off", H+"bit.hh, big_num.hh"), ("holder selection", H+"util.hh get_holder_type")],
  ["to_uint64()", "to_num()", "str()", "operator=="], ENC)
p("C02", "Bitwise operators follow the four-state truth tables",
  "&, |, ^ and ~ on 2- and 4-state values compute every result bit from the corresponding operand bits by the IEEE 1800 tables (0 dominates &, 1 dominates |, anything else touching x or z is x), after the narrower operand has been extended to the wider width (sign-extended only if both operands are signed). The compound forms &=, |= and ^= leave the left operand equal to the low bits of the binary result.",
  ["inputs", "programs"], "all operand values over {0,1,x,z}, all width pairs (native/native, native/wide, wide/wide), both signedness where offered",
  "Tests use 1-bit operands for 5 of the 16 table entries and zero or all-ones operands for wide values; no test puts x/z in a wide value or uses ^ on different widths with overlapping ones.",
  [H+"logic.hh", H+"bit.hh", H+"big_num.hh"],
  [("logic::operator& | ^ ~", H+"logic.hh 'bitwise operators'"), ("and_/or_/xor_ resizing", H+"logic.hh, bit.hh, big_num.hh")],
  ["result value and xz bits"], ENC)
p("C03", "Reductions, logical not and truth value are exact",
  "r_and, r_or, r_xor and their negations equal the IEEE 1800 fold of all bits of the value in every width (a 0 decides r_and, a 1 decides r_or, otherwise any x or z gives x; r_xor is x if any bit is unknown and otherwise the parity). Conversion to bool is true exactly when no bit is unknown and some bit is 1, and ! is x when any bit is unknown and otherwise its complement. popcount, any_set, all_set, highest_bit and negative of a 2-state value describe its declared bits only, mask and clear set and clear all of them.",
  ["inputs"], "all values over {0,1,x,z} of every width, 2- and 4-state",
  "Tests use 4-bit values only; parity in odd widths, an unknown bit below a deciding bit and bits above 32 in a word are not reached.",
  [H+"logic.hh", H+"bit.hh", H+"big_num.hh"],
  [("r_and..r_xnor", H+"logic.hh, bit.hh"), ("any_set/all_set/popcount", H+"big_num.hh, bit.hh")],
  ["returned 1-bit value", "operator bool"], ENC)
p("C04", "Shifts are exact for every amount",
  "<<, >>, ashl and ashr return the operand shifted by the unsigned numeric value of the amount, for every amount including 0, the width, and amounts far beyond the width or beyond 64 bits: vacated positions are 0, except that ashr on a signed operand replicates the sign bit. If either operand has an unknown bit the result is all x; <<= and >>= equal their binary forms.",
  ["inputs", "programs"], "all operand widths/values and all amount widths/values, including amount >= width",
  "Tests use about ten (value, amount) pairs, with native amounts always smaller than the width.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("big_num shifts", H+"big_num.hh operator>> << ashr"), ("bit shifts", H+"bit.hh operator>> << ashr")],
  ["result value and xz bits"], ENC)
p("C05", "Addition, subtraction, negation and increments are modular",
  "+, -, unary -, ++ and -- on operands of widths m and n give the mathematical result modulo 2^max(m,n), where operands are extended with their sign only if both are signed; the result is all x if any operand bit is unknown. negate() equals unary -. Post-forms return the old value and pre-forms the new one.",
  ["inputs", "programs"], "all operand values, all width pairs, both signedness",
  "Tests check a handful of sums; carries across word boundaries into a partially used top word, wrap-around and mixed signedness are never numerically checked.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("big_num operator+/-/negate", H+"big_num.hh"), ("bit operator+ - ++ --", H+"bit.hh"), ("logic x-propagation", H+"logic.hh")],
  ["result value and xz bits"], ENC)
p("C06", "Multiplication is modular in every width",
  "The product of operands of widths m and n is the mathematical product modulo 2^max(m,n), with operands extended by sign only if both are signed, and all x if any operand bit is unknown. It never reads or writes outside the operands' storage.",
  ["inputs", "programs"], "all operand values, all width pairs up to 1024 bits",
  "Tests check four products; none has a full-length operand, so partial products beyond the top word are never formed.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("schoolbook multiply", H+"big_num.hh operator*"), ("native multiply", H+"bit.hh operator*")],
  ["result value and xz bits"], ENC)
p("C07", "Division and remainder satisfy Euclid's identity",
  "For x-free operands and a nonzero divisor, / truncates toward zero and % takes the sign of the dividend (signed only if both operands are signed), modulo 2^max(m,n). A zero divisor never traps: the result is all x for 4-state values and 0 for 2-state values; any unknown operand bit makes the result all x.",
  ["inputs", "programs"], "all operand values incl. 0, -1, minimum and divisor > dividend, all width pairs",
  "Tests check six quotients, all unsigned or positive; signed wide division, most-negative/-1 and 2-state division by zero are never executed.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("div_mod / div_mod_unsigned", H+"big_num.hh"), ("native / %", H+"bit.hh"), ("zero-divisor guard", H+"logic.hh operator/ operator%")],
  ["result value and xz bits"], ENC)
p("C08", "Comparisons form one numeric order",
  "==, !=, <, <=, > and >= compare the operands' mathematical values, as signed numbers if both are signed and otherwise as unsigned numbers at the wider width, so for x-free operands exactly one of <, ==, > holds and the others follow from it. Any unknown operand bit makes a 4-state comparison x (and one that returns a plain bool false); match/nmatch never give x and hold exactly when all bits, unknowns included, are identical.",
  ["inputs", "programs"], "all operand values, all width pairs, both signedness, 2-state, 4-state and mixed operands where offered",
  "Tests check about twenty pairs; equality where only high bits differ, native against wide operands and most-negative values are not covered.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("big_num operator== >", H+"big_num.hh 'comparators'"), ("bit comparators", H+"bit.hh"), ("logic comparators", H+"logic.hh")],
  ["returned 1-bit value / bool"], ENC)
p("C09", "Extension and sign reinterpretation preserve the number",
  "extend<N> to a larger width, like assignment to a wider value, keeps the low bits and fills with 0 for unsigned values and with the top bit - its unknown state included - for signed values. to_signed and to_unsigned keep every bit and change only the interpretation, so a round trip gives back the same value.",
  ["inputs", "programs"], "all values over {0,1,x,z}, all source/target widths on either side of the 64-bit storage boundary",
  "Tests extend only zero-valued or native operands; positive wide signed values and signed values with an unknown top bit are never extended.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("extend", H+"bit.hh, logic.hh, big_num.hh"), ("to_signed/to_unsigned", H+"bit.hh, logic.hh, big_num.hh")],
  ["result value and xz bits"], ENC)
p("C10", "Bit and part selects read exactly the addressed bits",
  "Bit selects (with the x_set/z_set state queries), constant part selects, run-time part selects and indexed part selects (both directions) of a value return exactly the addressed bits, in order and with their unknown state, as an unsigned value of the selected width. A bit select addresses bits by the declared range, ascending or descending and with any base; addressed bits outside the value read as x from a 4-state value and 0 from a 2-state value.",
  ["inputs", "programs"], "all values, all (in- and out-of-range) indices and bounds; bit selects over all declared ranges, part selects over descending ranges [m:l] with any base",
  "Tests select from about eight positions of mostly zero or all-one values; signed values, 65-bit results and out-of-range bounds are never selected.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("slice/slice_", H+"bit.hh, logic.hh, big_num.hh"), ("operator[]/get_", H+"bit.hh, logic.hh")],
  ["returned value"], ENC)
p("C11", "Part-select writes change exactly the addressed bits",
  "set, update<hi,lo>, update(hi,lo,v) and assignment through slice_ref store the low bits of the source (0-filled if it is narrower) into exactly the addressed bits, unknown states included. Every other bit keeps its state, and addressed bits outside the value are ignored.",
  ["inputs", "histories"], "all destination/source values, widths, bounds in and out of range, and sequences of writes, over any declared range, ascending or descending",
  "Tests write the low nibble or low bits of an all-x or all-one value; writes at an offset, sources wider than the hole and neighbouring bits afterwards are mostly unobserved.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh"],
  [("update/update_/set", H+"bit.hh, logic.hh"), ("slice_ref_fixed/slice_ref_runtime", H+"bit.hh")],
  ["whole destination after each write"], ENC)
p("C12", "Concatenation and unpacking are inverse",
  "Concatenating values (member or free function, any number of arguments, 2- or 4-state) gives a value whose width is the sum of the widths and whose bits are the arguments' bits with the first argument most significant, unknown states included. Unpacking a [N-1:0] value into targets gives the first target the most significant bits, so unpacking a concatenation into targets of the same widths restores every argument.",
  ["inputs", "programs"], "all argument values, widths and counts, results below, at and above 64 bits",
  "Tests concatenate three 4-bit values once and unpack twice; results of 64 bits or more and arguments wider than the first one are never formed.",
  [H+"bit.hh", H+"logic.hh", H+"big_num.hh", H+"util.hh"],
  [("concat", H+"bit.hh, logic.hh, big_num.hh"), ("unpack/unpack_", H+"bit.hh, logic.hh"), ("reverse_tuple", H+"util.hh")],
  ["result bits", "targets after unpack"], ENC)
p("C13", "Literal strings denote exactly the written number",
  "A literal [size]'<b|o|d|h>digits (either case, underscores anywhere between digits, x/z digits in b, o and h) initialises a value of any width to the written digits' value and unknown bits modulo 2^width, zero-filled above the written digits; a string without ' gives its characters' bytes, last character least significant. Parsing never touches memory outside the destination, whatever the text length.",
  ["inputs"], "all well-formed literals of 0..600 digits, all destination widths",
  "Tests parse about fifteen short literals; x/z digits above bit 31, lower-case hex, separators and octal in wide values and over-long literals are not parsed.",
  ["src/util.cc", H+"util.hh", H+"bit.hh", H+"logic.hh"],
  [("parse_raw_str/parse_xz_raw_str", "src/util.cc"), ("get_input_base", "src/util.cc"), ("string constructors", H+"bit.hh, logic.hh")],
  ["value and xz bits after construction"], ENC)
p("C14", "Formatted text is the IEEE 1800 rendering of the value",
  "str(fmt) with b, o, h/x, d or s (also the meaning of a format without a letter) and an optional minimum width renders the value's own w bits most significant first: padded to the natural width of the base for w bits or to the requested width if larger (blanks for d and s, zeros otherwise), unpadded for width 0 in d, x/z per digit (lower case if the whole digit is unknown alike, X/Z if mixed), and in d a leading minus for negative signed values, within one further column. 2-state and 4-state values holding the same number render identically.",
  ["inputs", "configurations"], "all values over {0,1,x,z}, all widths, all formats and minimum widths",
  "Tests format about a dozen values, almost all 4-state and positive, in widths where the top digit is full.",
  ["src/util.cc", H+"bit.hh", H+"logic.hh"],
  [("to_string overloads", "src/util.cc"), ("parse_fmt/pad_result", "src/util.cc"), ("str", H+"bit.hh, logic.hh")],
  ["returned string"], ENC)
p("C15", "Printing then parsing restores the value",
  "Prefixing the b, o or h rendering of any value whose unknown bits fill whole digits with ' and the base letter, and parsing it back at the same width, gives an identical value; likewise the unpadded d rendering of non-negative x-free values, and, parsed as a plain string, the s rendering of x-free values of whole bytes without an apostrophe.",
  ["inputs"], "all values over {0,1,x,z}, all widths",
  "No test round-trips; both directions are only sampled separately with different literals.",
  ["src/util.cc", H+"util.hh", H+"logic.hh", H+"bit.hh"],
  [("to_string overloads", "src/util.cc"), ("parse_raw_str/parse_xz_raw_str", "src/util.cc")],
  ["value after str() and reconstruction"], ENC)
p("C16", "Packed array elements are independent",
  "In a packed array (2- or 4-state elements, any element width and bounds, nested arrays included), reading element i returns the value last written to element i, and element and slice writes change no other element. An index that is unknown or outside the declared bounds reads as x (0 for 2-state elements) and such a write changes nothing. An operator with the array on its left, a reduction, a comparison or formatting gives what it gives on a plain vector of the array's bits; one in place changes the elements that way.",
  ["inputs", "histories"], "all sequences of element/slice writes and reads with in-range, out-of-range and unknown indices",
  "Tests write one element and read the same one back; neighbours, the last element and out-of-range indices are never observed.",
  [H+"array.hh", H+"logic.hh", H+"bit.hh"],
  [("packed_array operator[]/update/slice_array", H+"array.hh")],
  ["every element after every step"], [("packed_array base value", "element i occupies base_size bits from (i-min)*base_size", H+"array.hh")])
p("C17", "Unpacked arrays and packed overlays keep their members apart",
  "An unpacked array of any bounds returns for each index the value last stored there, an out-of-range read gives a default element and an out-of-range store is ignored. Packed struct and union types hold one vector of the declared width and kind, so members accessed by their bit ranges see exactly the bits stored through any overlapping member and nothing else.",
  ["inputs", "histories"], "all sequences of stores and reads over all indices and member layouts",
  "Tests store one element or one member and read it back; arrays whose bounds do not start at 0 and overlapping members are not covered.",
  [H+"array.hh", H+"struct.hh", H+"union.hh"],
  [("unpacked_array operator[]/update", H+"array.hh"), ("packed_struct/union_ type mapping", H+"struct.hh, union.hh")],
  ["every element/member after every step"])
p("C18", "Unknown bits are sound and known values agree across kinds",
  "For every operator, replacing unknown operand bits by any choice of 0 and 1 never changes a result bit that was already known. On x-free operands a 4-state operation gives the same bits as the 2-state operation, and the answer does not depend on whether the widths are held natively or as multi-word values.",
  ["inputs", "programs"], "all operators, operand widths and values, all refinements of unknown bits",
  "Relational property over pairs of executions; each test looks at one execution, and unknown bits appear in tests in under ten values.",
  [H+"logic.hh", H+"bit.hh", H+"big_num.hh"],
  [("logic operators over value/xz_mask", H+"logic.hh"), ("bit operators", H+"bit.hh")],
  ["pairs of results"], ENC)
p("C19", "No operation has undefined behaviour",
  "Whatever the operand values, indices, shift amounts, divisors, literals and format widths, no operation of the library accesses memory outside its objects, reads uninitialised storage, shifts by an out-of-range amount, overflows signed arithmetic, traps or fails to terminate.",
  ["inputs", "histories"], "all operations of the API with in- and out-of-range arguments on values of every storage class",
  "The test build has no sanitizer and never uses extreme arguments, so such accesses pass silently.",
  [H+"big_num.hh", H+"bit.hh", H+"logic.hh", H+"array.hh", "src/util.cc"],
  [("index and amount guards", H+"big_num.hh, bit.hh, logic.hh, array.hh"), ("text buffers", "src/util.cc")],
  ["AddressSanitizer/UBSan/MemorySanitizer/valgrind reports", "signals", "progress watchdog"])
p("C20", "Concurrent use needs no external locking",
  "Any number of threads may at the same time run any operations on their own values and any reading operations (operators, selects, array reads, formatting, parsing) on shared values that no thread modifies, without data races, and every thread obtains the result a single-threaded run obtains.",
  ["schedules", "inputs"], "all interleavings of threads reading shared values and working on private ones",
  "All tests are single-threaded.",
  ["src/util.cc", H+"array.hh", H+"logic.hh"],
  [("no mutable global state; precomputed decimal table", "src/util.cc decimal_size_table"), ("function-local constants", H+"array.hh")],
  ["ThreadSanitizer reports", "per-thread results against the sequential result"])
p("C21", "Operators have value semantics",
  "No operator, select, conversion, comparison or formatting call modifies its operands or depends on earlier calls: repeating it gives the same answer, copies are independent of their source, and only compound assignments, ++/--, set, update, unpack targets and slice_ref writes change a value - exactly the one named. Operations whose source is the destination itself behave as if the source had been copied first.",
  ["histories", "inputs"], "all sequences of calls over shared operands, including self-aliased ones",
  "Tests rarely look at an operand again after using it and never alias source and destination.",
  [H+"logic.hh", H+"bit.hh", H+"big_num.hh", H+"array.hh"],
  [("const operators returning by value", H+"logic.hh, bit.hh"), ("update_ copy loops", H+"logic.hh, bit.hh")],
  ["all live values before and after each call"], ENC)
p("C22", "Random programs compute what a reference simulator computes",
  "After any finite sequence of assignments, operators, selects, part-select writes, concatenations, conversions, array accesses, literal parsing and formatting over a set of variables of different widths, signedness and kinds, every variable and every text produced equals what a bit-accurate four-state reference model computes from the same sequence.",
  ["histories", "programs"], "all operation sequences up to a few hundred steps over mixed variables",
  "Tests exercise one operation on fresh operands; results of one operation (with whatever hidden storage state they leave) are almost never fed to the next.",
  [H+"logic.hh", H+"bit.hh", H+"big_num.hh", H+"array.hh", "src/util.cc"],
  [("all operators over the shared representation", H+"*.hh, src/util.cc")],
  ["all variables after every step"], ENC)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
