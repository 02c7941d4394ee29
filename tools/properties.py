#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

REPR = [{"name": "magnitude representation", "where": "src/ubig.rs",
         "meaning": "one inline machine word, or a heap buffer of >=2 words with no leading zero word and compact capacity"}]
ALLSIZES = "every pair of integers, of any size up to the supported maximum, in every combination of signs, and every borrowed/owned/in-place way of writing the operation"

p("C01", "Addition and subtraction are exact",
  "For all integers a and b, UBig and IBig addition and subtraction return exactly the mathematical sum and difference, whatever the operand sizes and however far carries and borrows propagate, whether written with owned, borrowed or in-place operands. UBig subtraction panics exactly when the true difference is negative. A value that went through any chain of in-place additions and subtractions equals the exact running total.",
  ["inputs", "histories"], ALLSIZES + "; every chain of in-place updates",
  "The tests check a few dozen literal sums; carries across many words, borrow chains that end exactly at the top word, and buffers with leftover capacity are sampled once or not at all.",
  ["src/add_ops.rs", "src/add.rs", "src/arch/x86_64/add.rs", "src/arch/x86/add.rs", "src/arch/generic/add.rs", "src/sign.rs"],
  [("add/sub with carry over word slices", "src/add.rs"), ("form dispatch that reuses the larger buffer", "src/add_ops.rs")],
  ["Add/Sub/AddAssign/SubAssign results"], REPR)

p("C02", "Multiplication is exact at every size",
  "For all integers a and b, UBig and IBig multiplication (including squaring, multiplication of operands of very different lengths and in-place multiplication) returns exactly the mathematical product. This holds for operands of a few words up to many thousands of words, whatever their bit patterns.",
  ["inputs"], ALLSIZES,
  "The product is computed by four cooperating algorithms selected by operand length; the tests compare a few hand-picked lengths, not the length x pattern space where carries between sub-products misbehave.",
  ["src/mul_ops.rs", "src/mul/mod.rs", "src/mul/simple.rs", "src/mul/karatsuba.rs", "src/mul/toom_3.rs", "src/mul/helpers.rs"],
  [("schoolbook / Karatsuba / Toom-Cook-3 selection", "src/mul/mod.rs"), ("splitting of unbalanced operands into chunks", "src/mul/helpers.rs")],
  ["Mul/MulAssign results"], REPR)

p("C03", "Integer powers are exact",
  "For every UBig or IBig base b and exponent n whose result fits, b.pow(n) is exactly b multiplied by itself n times, with pow(0) = 1 for every base (including 0) and the sign of a negative base following the parity of n. Exponents of any size, up to usize::MAX, work for bases 0, 1 and -1.",
  ["inputs"], "every base of any size and sign, every exponent for which the result is representable",
  "Tests try a handful of bases and exponents; the shortcuts for powers of two and the square-and-multiply loop are exercised at single points.",
  ["src/pow.rs"], [("square-and-multiply, shortcuts for small exponents, 0/1 and powers of two", "src/pow.rs")],
  ["pow results"])

p("C04", "Division returns the unique quotient and remainder",
  "For all a and nonzero b, a / b and a % b (and div_rem) give the quotient rounded toward zero and the remainder with a = q*b + r, |r| < |b| and r of the sign of a or zero; the Euclidean forms give the unique q, r with a = q*b + r and 0 <= r < |b|. This holds for UBig and IBig, at all operand sizes and sign combinations and in all owned, borrowed and in-place forms.",
  ["inputs"], "every dividend and nonzero divisor: all sizes, sizes ratios, bit patterns and signs",
  "Quotient-digit estimation errors appear only for rare leading-word patterns and at the switch between the two long-division algorithms; tests contain a few literals and one random comparison per algorithm.",
  ["src/div_ops.rs", "src/div/mod.rs", "src/div/simple.rs", "src/div/divide_conquer.rs", "src/fast_divide.rs"],
  [("normalised long division with reciprocal estimates", "src/div/simple.rs"), ("divide and conquer division with correction steps", "src/div/divide_conquer.rs"), ("reciprocal precomputation", "src/fast_divide.rs")],
  ["Div/Rem/DivRem/DivEuclid/RemEuclid/DivRemEuclid results"], REPR)

p("C05", "Every way of writing an operation agrees",
  "For each arithmetic, bitwise and shift operator, all implemented forms (owned or borrowed left and right operands, in-place assignment, either operand a primitive integer of any of the 12 types, by value or by reference, on either side) produce the mathematically correct result, identical to the big-integer form applied to the converted operands. When the exact result does not exist (division by zero, negative value for an unsigned result) every form panics, and otherwise none does.",
  ["inputs", "programs"], "every operator form x primitive type x operand value, including the extremes of each primitive type",
  "About 2500 forms are generated by macros; the tests exercise a few dozen with one value each, almost never with primitive extremes.",
  ["src/add_ops.rs", "src/mul_ops.rs", "src/div_ops.rs", "src/bits.rs", "src/shift_ops.rs", "src/helper_macros.rs", "src/primitive.rs"],
  [("forwarding macros", "src/helper_macros.rs"), ("primitive conversion shims", "src/primitive.rs")],
  ["result of each operator form"])

p("C06", "Equality and hashing depend only on the value",
  "Two UBig (or IBig) values are equal exactly when they denote the same integer, and equal values hash equally, no matter which sequence of operations produced each of them (arithmetic that shrinks or cancels, bit clearing, shifts, parsing with leading zeros, padded bytes, cloning into existing values, deserialization, conversions). In particular there is a single zero: every computation that yields 0 gives a value equal to the default value and not negative.",
  ["inputs", "histories"], "every value and every pair of operation histories that reach it",
  "Equality and hashing are derived from the internal representation, so they are right only if every one of some hundred operations normalises its result; tests check normalisation for a few of them.",
  ["src/ubig.rs", "src/ibig.rs", "src/buffer.rs", "src/sign.rs", "src/cmp.rs"],
  [("normalisation when a word buffer becomes a number", "src/ubig.rs"), ("sign of zero", "src/ibig.rs")],
  ["PartialEq, Hash, formatting of results"], REPR)

p("C07", "Ordering is the numerical order",
  "For all a and b, UBig and IBig comparison (cmp, partial_cmp, <, <=, >, >=, min, max) agrees with the order of the integers they denote, and is consistent with equality. Sorting or using values as keys of ordered maps therefore orders them numerically.",
  ["inputs"], "all pairs of values, of equal and different lengths, sharing long common high or low parts, of all signs",
  "Tests compare a few literals; differences located in a single low or middle word of long equal-length numbers, and negative numbers of equal length, are not sampled.",
  ["src/cmp.rs", "src/add.rs"], [("length then most-significant-first word comparison, reversed for negatives", "src/cmp.rs")],
  ["Ord/PartialOrd results"])

p("C08", "Bitwise operators act on two's complement",
  "For all a and b, &, |, ^, and_not (a & !b) and ! on IBig equal the same operations on infinite two's complement representations, and on UBig on binary representations, at all sizes and sign combinations, in owned, borrowed and in-place forms. and_not on UBig clears exactly the bits set in the other operand.",
  ["inputs"], "all pairs of values of all sizes, lengths ratios and sign combinations",
  "Negative operands are reduced to unsigned operations on complements, case by case per sign and ownership form; the tests check a small table of small numbers.",
  ["src/bits.rs"], [("sign case analysis through complements", "src/bits.rs")], ["BitAnd/BitOr/BitXor/AndNot/Not results"])

p("C09", "Shifts are exact multiplication and floor division by 2^n",
  "For every value a and shift amount n, a << n equals a * 2^n whenever that fits (0 << n is 0 for every n), and a >> n equals a / 2^n rounded toward negative infinity, for UBig and IBig, for every n up to usize::MAX in the right-shift case, and in owned, borrowed and in-place forms.",
  ["inputs"], "every value x every shift amount, including multiples of the word size, one off them, and amounts beyond the length of the number",
  "Rounding of negative right shifts depends on all the bits shifted out; tests sample a few amounts.",
  ["src/shift_ops.rs", "src/shift.rs"], [("word moves plus sub-word shifts", "src/shift_ops.rs"), ("rounding of negative values", "src/shift_ops.rs")],
  ["Shl/Shr results"])

p("C10", "Bit queries and single-bit updates are exact",
  "For every value and bit index, bit(n), bit_len, trailing_zeros (None exactly for zero), is_power_of_two and next_power_of_two agree with the binary expansion of the number, and set_bit(n) and clear_bit(n) change exactly bit n. This holds along any sequence of such updates, including indices beyond the current length.",
  ["inputs", "histories"], "every value, every bit index up to the supported maximum (queries: any usize), every sequence of updates",
  "Tests check a few indices of a few values; growth across word boundaries, collapse to shorter numbers and long sequences are not covered.",
  ["src/bits.rs"], [("word/bit index split and normalisation after clearing", "src/bits.rs")], ["return values and the updated number"])

p("C11", "Text output is exact and honours format flags",
  "Formatting any UBig or IBig in any radix from 2 to 36 (Display, Debug, Binary, Octal, LowerHex, UpperHex, in_radix) writes exactly the positional digits of the number without leading zeros, with the sign, '+', prefix, width, fill, alignment and zero-padding flags rendered as the standard library renders them for primitive integers, and upper-case letters only for UpperHex or the alternate in_radix form. Modular values print as residue and modulus in the same formats. If the underlying writer fails, the error is returned.",
  ["inputs", "fault_sequences"], "every value, radix and combination of flags; every point at which the writer can fail",
  "Tests print a few numbers per radix; chunk boundaries of the divide-and-conquer conversion, interior runs of zero digits and flag combinations are sampled thinly.",
  ["src/fmt/mod.rs", "src/fmt/non_power_two.rs", "src/fmt/power_two.rs", "src/fmt/digit_writer.rs", "src/radix.rs", "src/modular/fmt.rs"],
  [("division by cached powers of the radix", "src/fmt/non_power_two.rs"), ("digit buffer and SWAR conversion to ASCII", "src/fmt/digit_writer.rs"), ("padding", "src/fmt/mod.rs")],
  ["formatted strings", "fmt::Write calls"])

p("C12", "Parsing accepts exactly the valid numerals",
  "Parsing a string in any radix from 2 to 36 returns the exact number when the string is an optional sign ('+', and '-' for IBig) followed by at least one digit of that radix in either case (leading zeros allowed), and otherwise an error: NoDigits when nothing follows the optional sign or prefix, InvalidDigit when any character is not a digit. The prefix-aware parser additionally accepts 0b, 0o and 0x after the sign, and no input, however long or however encoded, makes parsing panic unless the denoted number exceeds the supported size.",
  ["inputs"], "every string and every radix",
  "Tests parse short literals and one long random numeral per radix; invalid characters at arbitrary positions of long inputs, non-ASCII text and chunk boundaries of the recursive parser are not covered.",
  ["src/parse/mod.rs", "src/parse/power_two.rs", "src/parse/non_power_two.rs", "src/radix.rs"],
  [("sign and prefix stripping", "src/parse/mod.rs"), ("chunked and divide-and-conquer digit accumulation", "src/parse/non_power_two.rs")],
  ["Result of from_str, from_str_radix, from_str_with_radix_prefix"])

p("C13", "Byte-string conversions are exact inverses",
  "to_le_bytes and to_be_bytes give the unique minimal-length base-256 expansion of the number (empty for zero), and from_le_bytes and from_be_bytes give the number denoted by any byte string, including the empty one and ones padded with any number of zero bytes. Converting to bytes and back returns an equal value.",
  ["inputs"], "every byte string of every length and every value",
  "Tests convert a few byte arrays; lengths that are not multiples of the word size, zero padding and every partial top word are not enumerated.",
  ["src/convert.rs", "src/primitive.rs"], [("partial top word handling", "src/convert.rs")], ["returned bytes and numbers"])

p("C14", "Primitive integer conversions are exact or refused",
  "Converting any primitive integer or bool into UBig or IBig preserves its value, and converting a big integer into any primitive integer type (by value or by reference), or an IBig or negative primitive into UBig, succeeds with the same value exactly when it is representable in the target type and otherwise returns the out-of-bounds error.",
  ["inputs"], "every value x each of the 12 integer types and bool, in both directions",
  "Boundary values of each type interact with the word size of the platform (128-bit values span 2 to 8 words); the tests check some boundaries of some types.",
  ["src/convert.rs", "src/primitive.rs"], [("word-wise reassembly with overflow checks", "src/convert.rs")], ["From/TryFrom results"])

p("C15", "Conversion to floating point is correctly rounded",
  "to_f32 and to_f64 return, for every UBig and IBig, the nearest representable floating-point number with ties to the even significand, overflow to the correctly signed infinity exactly from the rounding threshold on, and 0 for zero.",
  ["inputs"], "every value, in particular exact ties, ties broken by one far low bit, and values around the largest finite float",
  "Tests check a dozen constants; a tie decided by a single low bit thousands of bits away, carries out of the significand and each word size's fast path are not sampled.",
  ["src/convert.rs", "src/bits.rs"], [("sticky-bit rounding", "src/convert.rs")], ["bits of the returned float"])

p("C16", "GCD and Bezout coefficients are correct",
  "For all a, b not both zero, gcd(a, b) is the positive greatest common divisor, and extended_gcd(a, b) returns the same g with x*a + y*b = g, |x| <= max(|b|, 1) and |y| <= max(|a|, 1), for UBig and IBig of any size and sign.",
  ["inputs"], "every pair of values not both zero",
  "Tests check a few small pairs and one random family; the coefficient bounds and the even/odd case analysis depend on rare orderings inside the binary algorithm.",
  ["src/gcd.rs"], [("binary GCD after one Euclid step, with coefficient invariants", "src/gcd.rs")], ["gcd and extended_gcd results"])

p("C17", "Modular arithmetic equals integer arithmetic modulo n",
  "In a ring modulo any n >= 1, converting any integer (big or primitive, negative included) and then adding, subtracting, negating and multiplying, in any owned, borrowed or in-place form and in any order, gives values whose residue is the same computation on integers reduced to 0..n-1, and modulus() returns n. Two values of one ring are equal exactly when their residues are.",
  ["inputs", "histories"], "every modulus, every integer, every sequence of ring operations",
  "Residues are kept in a shifted form, with separate code for one-word and longer moduli; tests use a few moduli, none chosen so that the shift is zero or the reduction needs a correction.",
  ["src/modular/modulo_ring.rs", "src/modular/modulo.rs", "src/modular/convert.rs", "src/modular/add.rs", "src/modular/mul.rs", "src/modular/cmp.rs"],
  [("normalised modulus and precomputed reciprocal", "src/modular/modulo_ring.rs"), ("conditional subtraction / borrow correction", "src/modular/add.rs")],
  ["residue(), modulus(), PartialEq"])

p("C18", "Modular inverse, division and powers are correct",
  "In a ring modulo any n >= 1, inverse() is Some(y) with x*y = 1 exactly when gcd(x, n) = 1 and None otherwise; division by an invertible value undoes multiplication; pow(e) equals the e-fold product for every exponent e >= 0 of any size, with pow(0) = 1, and pow_signed(-e) is the inverse of pow(e).",
  ["inputs"], "every modulus, residue and exponent, including exponents of thousands of bits and windows of zeros",
  "Sliding-window exponentiation depends on exponent bit patterns and window sizes that grow with exponent length; tests use a few exponents.",
  ["src/modular/div.rs", "src/modular/pow.rs"], [("sliding window", "src/modular/pow.rs"), ("inverse via extended GCD", "src/modular/div.rs")],
  ["inverse(), Div, pow(), pow_signed()"])

p("C19", "Modular rings never mix and copies stay faithful",
  "Any arithmetic or comparison between values of two different ring objects panics, even when the moduli are equal, while values of one ring never panic for that reason. Cloning a value, or cloning it into any existing value (of the same or another ring, of any modulus size), yields a value equal to the source in the source's ring and leaves the source unchanged.",
  ["inputs", "histories"], "every pair of rings (one-word and longer moduli) x every binary operation and form, every sequence of clone/clone_from/overwrite",
  "Tests check a single mixed operation per kind; clone_from across moduli of different lengths and rings is not tested.",
  ["src/modular/modulo_ring.rs", "src/modular/modulo.rs", "src/modular/cmp.rs"],
  [("ring identity check before each operation", "src/modular/modulo.rs"), ("buffer-reusing clone_from", "src/modular/modulo.rs")],
  ["panics, residues after cloning"])

p("C20", "Random sampling is uniform over exactly the requested range",
  "Sampling UBig or IBig from a half-open or inclusive range (gen_range, Uniform, by value or by reference, negative bounds included) always returns a value inside the range, gives every value of the range the same probability when the random source is uniform, and panics exactly for an empty range. Whatever the random source produces, a returned sample is in range.",
  ["inputs", "histories"], "every range (one word, several words, one value, powers of two and one off them) and every random source",
  "The existing test checks membership and hits of tiny ranges with one seed; bias in the top word of long ranges and boundary inclusion need distribution-level observation.",
  ["src/rand.rs"], [("word-wise rejection sampling", "src/rand.rs")], ["samples drawn from scripted and uniform random sources"])

p("C21", "Serialization round-trips in one portable encoding",
  "Serializing any UBig and deserializing it, in any format, with or without a length hint, returns an equal value; the encoding is the sequence of its little-endian 64-bit words without leading zero words (empty for zero), and IBig is the pair of its sign and magnitude, identical on every platform and word size. Well-formed input with superfluous zero words or a negative zero yields the ordinary value, and malformed, truncated or oversized input is reported as an error rather than a panic or an abort.",
  ["inputs", "configurations", "fault_sequences"], "every value, every input byte stream, self-describing and length-prefixed formats, every word size",
  "Tests check token streams of a few values; truncated or hostile streams, odd numbers of words per 64-bit element and other formats are not covered.",
  ["src/serde.rs", "src/sign.rs"], [("packing of words into 64-bit elements", "src/serde.rs")], ["serializer calls, deserialization results"])

p("C22", "The size limit is exact",
  "Every operation whose exact result has at most UBig::MAX_BIT_LEN bits succeeds with the correct value, however close to the limit operands and result are, and every operation whose result would be longer panics instead of returning a wrong or truncated value. After such a panic the other values are intact and usable.",
  ["inputs"], "every operation (arithmetic, shifts, bit updates, parsing, byte and modular conversions, gcd, text output, sampling) with operands and results within a few bits of the limit",
  "No test goes near the limit in operations other than one or two constructors; on 64-bit words it cannot be reached at all.",
  ["src/ubig.rs", "src/buffer.rs", "src/mul_ops.rs", "src/shift_ops.rs", "src/bits.rs", "src/pow.rs", "src/gcd.rs", "src/convert.rs", "src/modular/convert.rs", "src/rand.rs"],
  [("buffer capacity limit with a little headroom", "src/buffer.rs"), ("length check on normalisation", "src/ubig.rs")],
  ["result or panic near UBig::MAX_BIT_LEN in a build with 16-bit words"])

p("C23", "Calls fail exactly where documented",
  "Division and remainder in every form panic exactly for a zero divisor; UBig results that would be negative panic; a radix outside 2..=36, a ring modulo 0, gcd and extended_gcd of two zeros, and modular division or negative powers of non-invertible values panic; all other calls of these functions on values within the size limit return normally. Error values returned by fallible functions are of the documented kind and printable.",
  ["inputs"], "every public fallible or panicking function x every argument, in particular the boundary between failing and succeeding arguments",
  "should_panic tests show one failing input each and do not show that neighbouring inputs succeed, nor that each operator form fails in the same way.",
  ["src/div_ops.rs", "src/add_ops.rs", "src/radix.rs", "src/modular/modulo_ring.rs", "src/modular/div.rs", "src/gcd.rs", "src/error.rs", "src/primitive.rs"],
  [("explicit checks and panics", "src/div_ops.rs, src/radix.rs, src/gcd.rs")], ["panic or return of each call"])

p("C24", "A failure part-way leaves only valid values",
  "When an operation fails part-way (a documented panic inside an in-place operator, a panic or error raised by a caller-supplied writer, random source, hasher, serializer or deserializer, or a refused memory allocation), every surviving value is still a valid number: operands passed by shared reference are unchanged, an in-place target holds some valid number that can be used, compared, cloned and dropped, and no memory is leaked or freed twice. A refused memory allocation ends in a panic or an orderly abort, never in corrupted memory or a wrong result.",
  ["fault_sequences", "inputs"], "every operation x every point at which a callback or an allocation can fail",
  "Tests never observe a value after a caught panic, and never make a callback or the allocator fail.",
  ["src/memory.rs", "src/buffer.rs", "src/bits.rs", "src/add_ops.rs", "src/rand.rs", "src/serde.rs", "src/fmt/digit_writer.rs"],
  [("taking the target before the fallible part", "src/*_ops.rs"), ("scratch memory freed by a drop guard", "src/memory.rs")],
  ["values after catch_unwind, live heap bytes, child process exit status"])

p("C25", "No undefined behaviour in any safe use",
  "No sequence of calls of the public (entirely safe) API causes undefined behaviour: no out-of-bounds or misaligned access, no use of uninitialised, freed or aliased memory, no invalid UTF-8 string, no mismatched deallocation, at any operand size, word size and byte order.",
  ["inputs", "histories", "configurations"], "every sequence of public calls, at sizes that reach each algorithm and its scratch memory",
  "Ordinary tests cannot see a stray write into spare scratch memory or an aliasing violation; they compare results only.",
  ["src/memory.rs", "src/fmt/digit_writer.rs", "src/arch/x86_64/add.rs", "src/arch/x86/add.rs", "src/buffer.rs"],
  [("bump allocation out of one scratch block", "src/memory.rs"), ("unchecked UTF-8 conversion of digits", "src/fmt/digit_writer.rs")],
  ["Miri and AddressSanitizer reports while the API is driven"])

p("C26", "Memory stays proportional to the values held",
  "A number that fits in one machine word owns no heap memory, and any other number owns a single heap block at most moderately larger than its digits (about a quarter plus a few words), whatever larger values took part in producing it. An operation's temporary memory is released when it returns, is proportional to the size of its operands and result, and dropping all values returns the heap to where it was.",
  ["histories", "inputs"], "every value, every operation history that produces it, every size",
  "Functional tests do not look at the heap; unit tests check the capacity of two constructors.",
  ["src/buffer.rs", "src/ubig.rs", "src/memory.rs", "src/mul/mod.rs", "src/div/mod.rs"],
  [("shrinking on normalisation", "src/ubig.rs"), ("scratch size formulas", "src/mul/mod.rs, src/div/mod.rs")],
  ["live and peak bytes seen by a counting global allocator"], REPR)

p("C27", "Values can be shared and moved between threads",
  "UBig, IBig, ModuloRing, modular values, sampling distributions and formatters can be moved to and shared with other threads, and any number of threads working at once on shared or separate values get exactly the results of sequential execution, with no data race, at every interleaving.",
  ["schedules"], "every number of threads and interleaving of operations on shared and separate values",
  "All tests are single threaded; hidden mutable state (caches, statics) would go unnoticed.",
  ["src/ubig.rs", "src/modular/modulo_ring.rs", "src/memory.rs", "src/radix.rs"],
  [("no interior mutability, constant tables", "src/radix.rs, src/modular/modulo_ring.rs")],
  ["results of concurrent runs; ThreadSanitizer and Miri race reports"])

p("C28", "Results do not depend on platform or configuration",
  "The same program gives the same values, texts, bytes, serialized forms, errors and panics on every supported word size (16, 32 and 64 bits), target architecture (intrinsics-based and generic code, 32- and 64-bit pointers, both byte orders), build profile and feature set, except for the size limit, hash values, the particular random samples drawn, and which of several valid Bezout coefficients are returned.",
  ["configurations", "inputs"], "every pair of configurations x every program within the smaller configuration's size limit",
  "Each configuration runs the same tests separately; nothing compares their outputs on common inputs.",
  ["src/arch/mod.rs", "src/arch/x86_64/mod.rs", "src/arch/x86/mod.rs", "src/arch/generic_16_bit/mod.rs", "src/arch/generic_32_bit/mod.rs", "src/arch/generic_64_bit/mod.rs", "src/primitive.rs"],
  [("architecture selection", "src/arch/mod.rs"), ("word-size generic code", "src/primitive.rs")],
  ["event logs of the same program in each configuration"])

p("C29", "Literal macros denote the written number",
  "ubig! and ibig! accept every numeral they document (decimal, 0b, 0o, 0x literals with optional underscore prefix, identifiers and literals with 'base N' for N in 2..=36, an optional minus for ibig!) of any length, in any scope, and produce exactly the number written. An underscore in front of the digits never changes the value.",
  ["programs", "inputs"], "every program using a documented literal form",
  "Tests contain a dozen literals; the macros work on token text, so each combination of token kind, prefix and base takes its own arm.",
  ["src/macros.rs", "src/parse/mod.rs"], [("macro arms by token kind", "src/macros.rs")], ["values of macro invocations in generated programs"])

p("C30", "Sign operations and signed/unsigned conversion are exact",
  "For every IBig, negation, abs, unsigned_abs and signum give the mathematically defined value (by value and by reference), signs multiply as usual, and converting UBig to IBig and back is the identity while converting a negative IBig to UBig is refused. Zero has no sign in any of these.",
  ["inputs", "histories"], "every value, reached in any way",
  "Tests check a few small constants; sign handling of values that cancel to zero or come from each operation is not covered.",
  ["src/sign.rs", "src/ibig.rs", "src/convert.rs", "src/mul_ops.rs"], [("sign and magnitude constructor", "src/ibig.rs")], ["results"])

p("C31", "Large operations cost less than quadratic work",
  "For operands of thousands of words, multiplication, division with quotient and divisor of comparable length, and conversion to and from decimal text take asymptotically less than quadratic work (doubling the operand length multiplies the work by clearly less than 4), and addition, subtraction, comparison, bit operations, shifts, byte conversions and power-of-two radix conversions take linear work, as do multiplication and division by operands of fixed length; growing a number by setting ever higher bits takes amortised linear work.",
  ["inputs"], "every operand length; uniformly random and structured operands",
  "Tests check results only: a change that silently falls back to a quadratic (or quadratically reallocating) path passes all of them.",
  ["src/mul/mod.rs", "src/div/mod.rs", "src/fmt/non_power_two.rs", "src/parse/non_power_two.rs"],
  [("algorithm selection thresholds", "src/mul/mod.rs, src/div/mod.rs")], ["executed instructions counted by valgrind"])

p("C32", "Generic numeric traits agree with the inherent operations",
  "Through the num_traits interfaces (Zero, One, Num, Pow, Signed, Unsigned and the operator bounds they imply) and Default, UBig and IBig behave as those traits specify and as the inherent operations do: zero, one, is_zero, is_one, signum, abs, abs_sub (the positive difference, or zero), is_positive, is_negative, pow and from_str_radix give the mathematically defined results for every value.",
  ["inputs"], "every value and trait method",
  "The trait methods have at most one assertion each in the tests.",
  ["src/num_traits.rs"], [("forwarding implementations", "src/num_traits.rs")], ["results of generic code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
