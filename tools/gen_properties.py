#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or ["public operators and methods of UBig"], hook_needed=None)))
def m(name, where): return dict(name=name, where=where)
DIG = dict(name="digits", meaning="little-endian digit vector of a number, no leading (last) zero digits", where="src/ubig.rs UBig::digits")
ALLT = "all eight digit types (binary and decimal digits stored in u8, u16, u32, u64)"

p("C01", "Addition is exact for every operand",
  "For every pair of numbers of the same digit type, and for every number plus a single digit or a native integer of the digit's storage type (including native values that need two decimal digits), the sum read back from the result equals the mathematical sum. This holds at every length and carry-propagation pattern, and never panics.",
  ["inputs"], ALLT + "; operand lengths 0..thousands of digits; any digit contents incl. full-length carry chains; big/digit/native right-hand sides",
  "tests add a handful of fixed constants of at most 5 digits per type; carry chains across length differences and native values above the decimal radix are barely sampled",
  ["src/ubig/add.rs", "src/ubig/ops.rs", "src/ubig.rs", "src/digit.rs"],
  [m("carry propagation", "src/ubig/add.rs add_assign_big, inc_assign"), m("length extension", "src/ubig.rs add_assign_big_at_offset"), m("two-digit native addend", "src/ubig/ops.rs AddAssign<T> for DecimalDigit")], [DIG])
p("C02", "Subtraction is exact, and an impossible subtraction always panics",
  "For every minuend and subtrahend (number, single digit, or native integer, including native values that need two decimal digits) with minuend >= subtrahend the result equals the mathematical difference and nothing panics. When the subtrahend is larger the operation panics: it never returns a wrapped or otherwise wrong number.",
  ["inputs"], ALLT + "; equal operands, operands differing in one low digit, borrows through long runs of zero digits, all length differences",
  "tests subtract a few constants; cancellation to short results, native values above the radix and near-equal operands are not covered",
  ["src/ubig/sub.rs", "src/ubig/ops.rs", "src/ubig.rs", "src/digit.rs"],
  [m("borrow propagation and underflow error", "src/ubig/sub.rs sub_assign_big, sub_assign_digit, dec_assign"), m("error to panic", "src/ubig/ops.rs SubAssign")], [DIG])
p("C03", "Multiplication is exact at every size and balance of operands",
  "The product of any two numbers of the same digit type, or of a number and a single digit or native integer, equals the mathematical product. This holds whatever the lengths of the operands (very unequal ones included), whichever multiplication algorithm those lengths select, and whatever the digit contents; no multiplication of in-memory numbers panics.",
  ["inputs"], ALLT + "; lengths 0..>1000 digits each, around and between the algorithm switch-over sizes at every recursion depth, balanced and unbalanced; digit patterns that make intermediate differences zero, negative, short or maximal",
  "tests multiply few operands, almost all random or shorter than the switch-over sizes, so sign and carry cases of the recursive schemes and deeper recursion levels are never reached",
  ["src/ubig/mul.rs", "src/ubig/mul/long.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", "src/ubig/ops.rs", "src/digit.rs"],
  [m("algorithm dispatch and scratch sizing", "src/ubig/mul.rs"), m("Karatsuba", "src/ubig/mul/karatsuba.rs"), m("Toom-3", "src/ubig/mul/toom3.rs"), m("digit product with carry", "src/digit.rs")], [DIG])
p("C04", "Squares and powers equal repeated multiplication",
  "For every number its square equals the number multiplied by itself, and raising it to any exponent gives the mathematical power (any number to the power 0 is 1, including zero). This holds for all sizes and exponents whose result fits in memory.",
  ["inputs"], ALLT + "; lengths 0..>1000 digits, exponents 0..large; digit patterns exercising every branch of the squaring schemes",
  "dedicated squaring code paths are tested on a few constants and random numbers; structured digit patterns and deep recursion are not",
  ["src/ubig/mul.rs", "src/ubig/mul/long.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", "src/ubig/ops.rs"],
  [m("square dispatch", "src/ubig/mul.rs square_into"), m("square and multiply", "src/ubig/ops.rs Pow")], [DIG])
p("C05", "Division yields the unique quotient and remainder",
  "For every dividend n and non-zero divisor d (number, single digit or native integer) the quotient q and remainder r returned satisfy n = q*d + r with 0 <= r < d, whether they are obtained with the division operator, the remainder operator, or the method that returns both. This holds for all lengths of n and d and never panics.",
  ["inputs"], ALLT + "; divisors of 1, 2, few, and hundreds of digits around every algorithm switch-over; dividends built as q*d+r with extreme q and r, leading digits equal to those of the divisor",
  "quotient-digit over-estimation and add-back happen with probability ~2/base on random data, so a sampled test practically never reaches them for wide digits",
  ["src/ubig/div.rs", "src/ubig/div/long.rs", "src/ubig/div/bz.rs", "src/ubig/ops.rs", "src/ubig.rs", "src/digit.rs"],
  [m("normalisation and quotient-digit estimate", "src/ubig/div/long.rs, src/ubig/div.rs div_assign_digit_pair"), m("Burnikel-Ziegler recursion", "src/ubig/div/bz.rs"), m("single digit division", "src/digit.rs div_carry_assign, rem_carry")], [DIG])
p("C06", "Division by zero is always reported and never corrupts the dividend",
  "Dividing or taking a remainder by zero, in whatever form the zero is given (number, digit, native integer), and for every dividend including zero, panics for operators and returns the division-by-zero error for the fallible methods, which then leave the dividend exactly as it was. A fallible division by a non-zero number never returns an error.",
  ["inputs"], ALLT + "; every dividend, every form of zero divisor; every non-zero divisor for the converse",
  "tests only check that one or two operators panic; they do not look at the dividend after a reported error",
  ["src/ubig/div.rs", "src/ubig.rs", "src/ubig/ops.rs", "src/result.rs"],
  [m("zero divisor checks", "src/ubig/div.rs rem_digit, div_assign_digit, div_big_with_work"), m("error to panic", "src/ubig/ops.rs DivAssign, RemAssign")], [DIG])
p("C07", "Left shift multiplies by a power of two for every shift count",
  "Shifting any number (zero included) left by any count k gives exactly the number times 2^k, in binary as well as in decimal representation. It never panics for results that fit in memory.",
  ["inputs"], ALLT + "; shift counts 0..thousands, multiples of the digit width, the decimal fast-path limit and beyond",
  "tests shift few constants by a few counts; digit-width multiples, zero operands and the decimal slow path are scarcely sampled",
  ["src/ubig/shl.rs", "src/ubig/ops.rs", "src/digit.rs"],
  [m("within-digit shift with carry", "src/ubig/shl.rs, src/digit.rs shl_carry_assign"), m("whole-digit shift / power-of-two product", "src/ubig/ops.rs ShlAssign")], [DIG])
p("C08", "Right shift is floor division by a power of two for every shift count",
  "Shifting any number right by any count k gives exactly floor(number / 2^k), in binary as well as in decimal representation. This includes counts larger than the number (giving zero), up to the largest representable count, and it never panics.",
  ["inputs"], ALLT + "; shift counts 0..usize::MAX, multiples of the digit width, counts at, just below and beyond the number's length",
  "tests never shift decimal numbers right and never shift by more than the number's length",
  ["src/ubig/shr.rs", "src/ubig/ops.rs", "src/digit.rs"],
  [m("within-digit shift with carry", "src/ubig/shr.rs, src/digit.rs shr_carry_assign"), m("whole-digit drop", "src/ubig/ops.rs ShrAssign")], [DIG])
p("C09", "Every reachable number is in canonical form",
  "After any sequence of constructions, parses, conversions and arithmetic operations, every number produced has a non-zero most significant digit (zero has no digits at all) and every digit is below the base of its type. Hence each value has exactly one representation and the zero test is true exactly for the value zero.",
  ["histories", "inputs"], ALLT + "; arbitrary operation histories over a pool of numbers, results fed back as operands, cancellations to short results and to zero",
  "tests inspect printed values of single operations and never feed results back; a stray leading zero is invisible to most of them but breaks later comparisons, divisions and multiplications",
  ["src/ubig.rs", "src/ubig/ops.rs", "src/ubig/support.rs", "src/ubig/sub.rs", "src/ubig/div.rs", "src/digit.rs"],
  [m("leading zero removal", "src/ubig/support.rs drop_leading_zeros and its callers")], [DIG], ["UBig::digits()", "UBig::nr_digits()", "is_zero()"])
p("C10", "Comparison is the total order of the values",
  "For any two numbers, however they were obtained, ==, <, <=, >, >=, cmp, partial_cmp, min and max agree exactly with the mathematical order of their values. In particular numbers computed along different routes compare equal exactly when their values are equal.",
  ["inputs", "histories"], ALLT + "; pairs that share leading digits, differ only in one digit or in length, and pairs obtained through different computations",
  "tests compare a few literals; they never compare numbers that went through arithmetic",
  ["src/ubig/cmp.rs", "src/ubig.rs"],
  [m("length-then-lexicographic compare", "src/ubig/cmp.rs cmp"), m("derived equality on digits", "src/ubig.rs UBig")], [DIG])
p("C11", "Parsing accepts exactly well-formed numerals and gives their value",
  "A string made of one or more decimal digits, or of 0x followed by one or more hexadecimal digits of either case, of any length and with any number of leading zeros, parses to exactly the number it denotes. Every string that contains any character that is not a digit of that base (apart from the 0x prefix, and a single leading + before decimal digits, which is ignored), or that has no digits, is rejected with the invalid-number error; parsing never panics.",
  ["inputs"], ALLT + "; all strings: numerals of every length around the chunk sizes, and malformed strings with stray signs, blanks, underscores, multi-byte characters or prefixes at any position",
  "tests parse a few valid literals and one invalid string per type; positions of stray characters relative to the chunk boundaries are not explored",
  ["src/ubig.rs", "src/digit.rs"],
  [m("chunked parsing", "src/ubig.rs FromStr for UBig<BinaryDigit>/UBig<DecimalDigit>"), m("digit parsing", "src/digit.rs from_base_str")], [DIG], ["str::parse / FromStr"])
p("C12", "Formatting prints the exact value and honours the format flags",
  "Displaying any number prints its exact decimal value, and lower/upper hexadecimal formatting of binary numbers its exact hexadecimal value, without leading zeros and with zero printed as 0. Width, fill, alignment, zero padding, sign and alternate flags have the same effect as for the standard integer types (a precision is ignored), a destination that refuses output makes printing fail instead of succeeding with part of the text, and parsing printed text gives back the same number.",
  ["inputs"], ALLT + "; all numbers incl. ones with inner zero digits and short top digits; all combinations of format flags",
  "tests format about a dozen literals, all with fewer digits than needed for the block-wise conversion",
  ["src/ubig.rs"],
  [m("digit-wise formatting with padding", "src/ubig.rs Display, LowerHex, UpperHex")], [DIG], ["format!/to_string"])
p("C13", "Binary to decimal conversion preserves the value",
  "Converting any binary number to decimal representation yields the decimal number with exactly the same value, in canonical form. This holds for all sizes, including values with long runs of zeros in their decimal expansion such as powers of ten and their neighbours.",
  ["inputs"], "the four binary digit types; lengths 0..thousands of digits; powers of ten times small numbers, values just above/below splitting powers, random values",
  "tests convert numbers of at most three digits; the recursive conversion for 16 or more digits is never executed on values whose parts have leading zeros",
  ["src/ubig.rs"],
  [m("recursive splitting by powers of the radix", "src/ubig.rs to_decimal, build_decimal")], [DIG], ["UBig::to_decimal"])
p("C14", "Results do not depend on the digit type used",
  "The same computation on the same input values gives the same number (and the same panics for impossible operations) in all eight digit types. This holds for addition, subtraction, multiplication, squaring, powers, division, remainder, shifts, comparison, parsing and decimal formatting, also when the length crosses algorithm thresholds in one digit type and not in another.",
  ["configurations", "inputs"], "all eight digit-type configurations for each input; operand sizes that select different algorithms in different digit types",
  "tests run separate constants per type and never compare types with each other",
  ["src/digit.rs", "src/ubig.rs", "src/ubig/ops.rs", "src/ubig/mul.rs", "src/ubig/div.rs"],
  [m("generic algorithms over the Digit trait", "src/digit.rs impl_digit_binary, impl_digit_decimal and u64 impls")], [DIG])
p("C15", "All forms of an operation agree",
  "For each operation and operands, the by-value, by-reference and compound-assignment forms give the same result or all panic; using a single digit or native integer gives the same as first converting it to a number; the operator / method pairs (division operator and division method, remainder operator and remainder method, square and multiplication by itself, construction from a native integer and parsing it) agree. Operands passed by reference keep their value.",
  ["inputs"], ALLT + "; every operator x every ownership form x every right-hand-side kind; edge digits and native values at and above the decimal radix",
  "tests exercise most forms on one or two constants each, not on common random and extreme operands",
  ["src/ubig/ops.rs", "src/ubig.rs"],
  [m("operator forwarding impls", "src/ubig/ops.rs")], [DIG])
p("C16", "Operations are total and identical in debug and release builds",
  "No arithmetic, comparison, conversion, parsing or formatting operation on valid numbers panics or fails to return, except for subtraction below zero and division by zero. A build with overflow checks and debug assertions and an optimised build without them produce identical results for every input.",
  ["inputs", "configurations"], ALLT + "; both build configurations; every public operation; all sizes and digit patterns",
  "tests run only in the debug configuration and on inputs that do not reach rare branches with arithmetic near the limits of the storage type",
  ["src/digit.rs", "src/ubig.rs", "src/ubig/mul.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", "src/ubig/div.rs", "src/ubig/div/bz.rs", "src/ubig/div/long.rs", "src/ubig/ops.rs"],
  [m("unwraps, asserts, slices, casts that are meant never to fail", "throughout src/ubig"), m("scratch space sizing", "src/ubig/mul.rs calc_mul_work_size, src/ubig/div/bz.rs calc_div_bz_work_size")], [DIG])
p("C17", "Operations are pure: no dependence on history, threads or reused memory",
  "The result of an operation depends only on the values of its operands: repeating it, in any order relative to other operations, in a fresh or long-lived thread, or from several threads at once on shared operands, gives identical results, and operands shared by reference never change. Algebraic identities relating different operations (distributivity, (a+b)-b = a, (a*b)/b = a, (a+b)^2 = a^2+2ab+b^2, shift-and-back) hold along any history of in-place updates.",
  ["histories", "schedules", "inputs"], ALLT + "; arbitrary interleavings of operations of different sizes on one thread, and concurrent use of shared operands on several threads",
  "tests run every operation once on fresh operands; none repeats an operation after others or shares operands between threads",
  ["src/ubig.rs", "src/ubig/mul.rs", "src/ubig/mul/toom3.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/div/bz.rs", "src/ubig/ops.rs"],
  [m("scratch buffers local to each call", "src/ubig/mul.rs, src/ubig/div.rs, src/ubig/div/bz.rs")], [DIG])
p("C18", "No undefined behaviour or memory error on any input",
  "No sequence of public operations on any input accesses memory out of bounds, reads uninitialised memory, leaks, or otherwise has undefined behaviour, and memory allocated for a number is released with it.",
  ["inputs", "histories"], ALLT + "; every public operation, sizes up to every recursion scheme, panicking (underflow, division by zero) operations included",
  "plain test runs do not notice undefined behaviour, uninitialised reads or leaks",
  ["src/digit.rs", "src/ubig.rs", "src/ubig/mul.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", "src/ubig/div.rs", "src/ubig/div/bz.rs"],
  [m("the crate avoids unsafe code", "README.md, src/**")], [DIG])
p("C19", "Large multiply and divide take sub-quadratic time and linear space",
  "For operands beyond a few hundred digits, doubling the operand lengths increases the work of multiplying, squaring, dividing and converting to decimal by a factor clearly below four, while addition, subtraction, comparison and shifting binary numbers stay linear. The additional memory an operation needs stays proportional to the combined length of its operands and result.",
  ["inputs"], ALLT + "; ladders of doubling operand lengths, work counted in executed instructions and memory in bytes requested from the allocator, not in wall-clock time",
  "tests check results only; benchmarks measure but decide nothing",
  ["src/ubig/mul.rs", "src/ubig/mul/karatsuba.rs", "src/ubig/mul/toom3.rs", "src/ubig/div.rs", "src/ubig/div/bz.rs", "src/ubig.rs"],
  [m("cut-offs choosing Karatsuba, Toom-3 and Burnikel-Ziegler", "src/ubig/mul.rs KARATSUBA_CUTOFF/TOOM3_CUTOFF, src/ubig/div.rs BZ_CUTOFF"), m("scratch sizing", "calc_*_work_size")], [DIG])
with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
