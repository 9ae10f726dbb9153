#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
DIG=dict(name="digits",meaning="little-endian digit vector of a number, without leading zeros",where="src/ubig.rs: struct UBig")

p("C01","Addition is exact for all operands, sizes, radices and operand forms",
  "For every two numbers a and b of the same type, a + b is the number whose value is exactly the sum of the two values, in every operand form (owned, borrowed, in place). This holds for any lengths and any carry pattern, including carries that ripple through the whole number and grow it by a digit. No addition of valid numbers ever panics.",
  ["inputs"],"all pairs of numbers of any length, for each of the eight number types, and every operator form of + and +=",
  "The tests add a few hand-written numbers of at most a handful of digits, mostly u8/u32; carry ripples at each length, unequal lengths in both orders and the u16/u64 types are sampled at best once.",
  ["src/ubig.rs","src/ubig/add.rs","src/ubig/ops.rs","src/digit.rs"],
  [("ripple carry addition","src/ubig/add.rs: add_assign_big, inc_assign"),("extension of the shorter operand","src/ubig.rs: add_assign_big_at_offset"),("digit addition with carry","src/digit.rs: add_carry_assign, inc")],
  ["UBig + UBig","UBig += UBig","UBig::digits"],[DIG])
p("C02","Subtraction is exact, and underflow is always reported",
  "For every two numbers a >= b of the same type, a - b is exactly the difference of the two values, in every operand form and for every borrow pattern. When a < b, the subtraction panics; it never returns a number.",
  ["inputs"],"all ordered pairs of numbers of any length, for each of the eight number types, and every operator form of - and -=",
  "The tests subtract a few dozen fixed numbers; whether a borrow that ripples over several digits, or a difference much shorter than its operands, is handled depends on exact digit patterns they do not enumerate.",
  ["src/ubig.rs","src/ubig/sub.rs","src/ubig/ops.rs","src/digit.rs"],
  [("ripple borrow subtraction","src/ubig/sub.rs: sub_assign_big, dec_assign"),("underflow detection","src/ubig/sub.rs: dec_assign; src/ubig/ops.rs: SubAssign panics on Err"),("digit subtraction with borrow","src/digit.rs: sub_carry_assign, dec")],
  ["UBig - UBig","UBig -= UBig"],[DIG])
p("C03","Multiplication is exact whichever algorithm the operand sizes select",
  "For every two numbers a and b of the same type, a * b is exactly the product of the two values, in every operand form. This holds for every combination of operand lengths (schoolbook, Karatsuba and Toom-3 sizes, nested levels, very unequal lengths) and every digit pattern, and never panics.",
  ["inputs"],"all pairs of numbers of any two lengths, for each of the eight number types",
  "The tests have a handful of Karatsuba- and Toom-3-sized products; the sign and carry branches inside those algorithms depend on the relation between the operands' halves and thirds, and on length combinations that are never enumerated.",
  ["src/ubig/mul.rs","src/ubig/mul/long.rs","src/ubig/mul/karatsuba.rs","src/ubig/mul/toom3.rs","src/ubig/ops.rs","src/digit.rs"],
  [("algorithm selection by length","src/ubig/mul.rs: mul_big_into, mul_big_into_with_work"),("Karatsuba recombination with signs","src/ubig/mul/karatsuba.rs: mul_big_karatsuba_into"),("Toom-3 evaluation and interpolation","src/ubig/mul/toom3.rs: mul_big_toom3_into"),("scratch space sizing","src/ubig/mul.rs: calc_mul_work_size")],
  ["UBig * UBig","UBig *= UBig"],[DIG],"tuning thresholds lowered in a cfg build, so that every branch is reached on numbers small enough to enumerate")
p("C04","Squares and powers equal repeated multiplication",
  "For every number a, its square is exactly a times a, and a raised to any exponent e is exactly the product of e copies of a, with a to the power 0 equal to 1 (also for a = 0). This holds at every size, for every exponent, for owned and borrowed bases, and a borrowed base is left unchanged.",
  ["inputs"],"all numbers of any length and all exponents, for each of the eight number types",
  "The tests square fewer than ten numbers and use the exponents 0, 1, 2, 13 and 356; the dedicated squaring code paths at Karatsuba and Toom-3 sizes and the exponent bit patterns are not covered.",
  ["src/ubig.rs","src/ubig/ops.rs","src/ubig/mul.rs","src/ubig/mul/long.rs","src/ubig/mul/karatsuba.rs","src/ubig/mul/toom3.rs"],
  [("squaring kernels","src/ubig/mul.rs: square_into; square_*_into in long.rs, karatsuba.rs, toom3.rs"),("square-and-multiply","src/ubig/ops.rs: impl Pow<usize>")],
  ["UBig::square","Pow::pow"],[DIG],"lowered thresholds, as for C03")
p("C05","Division yields the exact quotient and remainder at every size",
  "For every number n and every non-zero number d of the same type, the quotient q and remainder r satisfy n = q*d + r with 0 <= r < d exactly, whether obtained from /, %, their assigning forms, or the combined divide-and-return-remainder and remainder-only methods. This holds for one- and two-digit divisors, schoolbook sizes, recursive (Burnikel-Ziegler) sizes, and every digit pattern, and never panics.",
  ["inputs"],"all pairs (n, d) with d non-zero and of any lengths, for each of the eight number types",
  "Quotient digits are estimated and then corrected; the corrections and the overflow case of the estimate occur only for rare digit patterns, which the few dozen fixed test divisions do not contain.",
  ["src/ubig/div.rs","src/ubig/div/long.rs","src/ubig/div/bz.rs","src/ubig.rs","src/ubig/ops.rs","src/digit.rs"],
  [("single and double digit division","src/ubig/div.rs: div_assign_digit, div_assign_digit_pair"),("schoolbook division with estimate and correction","src/ubig/div/long.rs: div_big_long_scaled"),("Burnikel-Ziegler recursion","src/ubig/div/bz.rs: div_big_bz_2n_n, div_big_bz_3n_2n"),("normalising shift","src/digit.rs: max_shift, shl_carry_assign, shr_carry_assign")],
  ["UBig / UBig","UBig % UBig","UBig::div_assign_big","UBig::rem_assign_big"],[DIG],"lowered thresholds and a tiny-radix digit type in a cfg build")
p("C06","Arithmetic with a machine word equals arithmetic with that value",
  "For every number a and every value w of the digit's storage type, a + w, a - w, a * w, a / w and a % w, given as a plain word or as a digit, equal the same operation on a and the big number with the value w: same result, panic on underflow and on division by zero. This includes words that are at least the radix of a decimal number and so do not fit in one digit.",
  ["inputs"],"all numbers, all words of the storage type (all digits below the radix for the digit form), for the eight number types and every operator form",
  "The tests use a few words per operator; the two-digit path for words at or above the decimal radix is exercised with a couple of values and lengths only.",
  ["src/ubig/ops.rs","src/ubig/add.rs","src/ubig/sub.rs","src/ubig/mul.rs","src/ubig/div.rs","src/digit.rs"],
  [("splitting of a word into two decimal digits","src/digit.rs: DecimalDigit::fits_single, split"),("single digit kernels","add_assign_digit, sub_assign_digit, mul_add_assign_digit, div_assign_digit, rem_digit"),("two digit kernels","src/ubig/mul.rs: mul_pair_add_assign_digit; src/ubig/div.rs: div_assign_digit_pair")],
  ["UBig op word","UBig op digit","UBig op= word"],[DIG])
p("C07","Shifting left multiplies by the power of two",
  "For every number a and every shift count n, a << n is exactly a times 2 to the power n, in the assigning, owned and borrowed forms, for binary and decimal numbers. Shifting zero gives zero for every n.",
  ["inputs"],"all numbers and all shift counts, including 0, multiples of the digit width, and counts beyond it, for the eight number types",
  "The tests shift a few u32/u64 numbers by about six different counts; u8/u16 numbers, shifts by whole digits, of zero, and at the switch between the two decimal methods are not covered.",
  ["src/ubig/ops.rs","src/ubig/shl.rs","src/digit.rs"],
  [("whole-digit and within-digit shift","src/ubig/ops.rs: ShlAssign"),("digit shift with carry","src/digit.rs: shl_carry_assign")],
  ["UBig << usize","UBig <<= usize"],[DIG])
p("C08","Shifting right divides by the power of two, rounding down",
  "For every number a and every shift count n, a >> n is exactly the integer part of a divided by 2 to the power n, in the assigning, owned and borrowed forms, for binary and decimal numbers. It is zero once n is at least the number of bits of a, and no shift count panics.",
  ["inputs"],"all numbers and all shift counts, including counts beyond the length of the number, for the eight number types",
  "The tests shift three binary numbers by a few counts, never past the last digit of the number and never for decimal numbers.",
  ["src/ubig/ops.rs","src/ubig/shr.rs","src/digit.rs"],
  [("whole-digit and within-digit shift","src/ubig/ops.rs: ShrAssign"),("digit shift with carry","src/digit.rs: shr_carry_assign")],
  ["UBig >> usize","UBig >>= usize"],[DIG])
p("C09","Every history of operations leaves a number in canonical form",
  "After any sequence of operations, each resulting number has digits below its radix and no leading zero digit, so that it has the same digits as a number built directly from its value. Hence equality, is-zero and the digit count reflect the value alone, however the number was obtained.",
  ["histories"],"all finite sequences of constructions, arithmetic, shift, power, parse and conversion operations, from any starting number, for the eight number types",
  "Tests compare printed results of single operations, and printing often hides a superfluous leading zero; which operation leaves one depends on the state produced by earlier operations.",
  ["src/ubig.rs","src/ubig/ops.rs","src/ubig/sub.rs","src/ubig/support.rs","src/ubig/div.rs","src/ubig/mul.rs"],
  [("leading zero removal","src/ubig/support.rs: drop_leading_zeros and the digit counts the kernels return"),("derived equality on digits","src/ubig.rs: #[derive(PartialEq)]")],
  ["UBig::digits","UBig::nr_digits","==","is_zero"],[DIG])
p("C10","Comparison is the numeric total order",
  "For every two numbers of the same type, comparison by any of <, <=, >, >=, ==, !=, cmp and partial_cmp gives the order of their values. It is hence total, antisymmetric and transitive, and sorting, min and max of numbers follow their values.",
  ["inputs"],"all pairs (and triples) of numbers of any lengths, for each of the eight number types",
  "The tests compare about a dozen pairs in two types; pairs that differ in one digit at each position and with opposing differences in other digits are not enumerated.",
  ["src/ubig/cmp.rs","src/ubig.rs","src/digit.rs"],
  [("length, then most significant digit first","src/ubig/cmp.rs: cmp"),("Ord/PartialOrd/Eq impls","src/ubig.rs")],
  ["Ord::cmp","PartialOrd","PartialEq"],[DIG])
p("C11","Parsing a number is exact and rejects everything else",
  "Every non-empty string of decimal digits, and every 0x followed by a non-empty string of hexadecimal digits in either case, of any length and with any leading zeros, parses to exactly the value it denotes, for binary and for decimal numbers. A string that contains any character that is not a digit of its base, such as a sign, blank, underscore, letter out of range or non-ASCII character, at any position, is rejected with an error; no string makes parsing panic.",
  ["inputs"],"all strings over any alphabet and of any length, for each of the eight number types",
  "The tests parse about ten strings; a string is processed in groups whose size differs per type, so the position of a bad character and the length modulo the group size matter, and are not enumerated.",
  ["src/ubig.rs","src/digit.rs"],
  [("group-wise conversion","src/ubig.rs: impl FromStr (binary and decimal)"),("per-group digit conversion","src/digit.rs: from_base_str")],
  ["str::parse / FromStr"],[DIG])
p("C12","Formatting prints the exact digits and honours every format flag",
  "For every number, the decimal display of binary and decimal numbers and the lower- and upper-case hexadecimal forms of binary numbers print the exact value without superfluous zeros. Width, fill, alignment, sign, zero-padding and prefix flags act exactly as they do for a built-in integer of the same value, and parsing the plain or prefixed text gives the number back. A writer that fails gets no more than the beginning of that text, and its error is passed on to the caller.",
  ["inputs","configurations"],"all numbers of any length, for the eight number types, and all combinations of format flags",
  "The tests print some fifteen numbers with a few flags; inner digits with leading zeros at each position, and flag combinations at each length class, are not enumerated.",
  ["src/ubig.rs"],
  [("digit-wise formatting with inner zero padding","src/ubig.rs: impl Display, LowerHex, UpperHex"),("flag handling","Formatter::pad_integral")],
  ["format!","to_string"],[DIG])
p("C13","Conversion from binary to decimal preserves the value at every size",
  "For every binary number of any size, converting it to a decimal number yields a number with exactly the same value in canonical decimal form, and leaves the original unchanged. This holds in particular for numbers large enough to be converted by recursive splitting, whatever digits their parts have.",
  ["inputs"],"all binary numbers of any length, for each of the four digit widths",
  "The conversion tests use numbers of at most three digits; the recursive method starts at sixteen digits and is never run by a test that checks its result.",
  ["src/ubig.rs"],
  [("shift-and-add for short numbers","src/ubig.rs: build_decimal"),("recursive splitting by powers of the decimal radix","src/ubig.rs: to_decimal, build_decimal")],
  ["UBig::to_decimal","Display of binary numbers"],[DIG],"lowered conversion threshold in a cfg build")
p("C14","All number types agree on every history of operations",
  "Running the same sequence of valid operations in any two of the eight number types gives the same integers at every step, also when intermediate numbers grow and shrink across the sizes at which the algorithms change. No step of such a history panics.",
  ["histories"],"all finite sequences of add, subtract, multiply, divide, remainder, shift, square and power steps with valid operands, from any starting value, across the eight number types",
  "Each test checks one operation in one or two types on fixed operands; no test chains operations or compares types.",
  ["src/ubig.rs","src/ubig/ops.rs","src/digit.rs","src/ubig/mul.rs","src/ubig/div.rs"],
  [("generic algorithms over the digit type","src/ubig/**"),("per-type digit kernels","src/digit.rs")],
  ["any chain of public operations"],[DIG])
p("C15","All operand forms of an operation agree and leave borrowed operands alone",
  "For every operation and all operands, the owned, borrowed and assigning forms, and the plain-word and digit forms, give the same result, also when both operands are the same number. An operand passed by reference has the same value afterwards.",
  ["inputs","programs"],"all operand pairs and all ways to write each of + - * / % << >> and pow, for the eight number types",
  "The tests exercise most operators in one or two forms on one example each; agreement over all operands, lengths and radices is not checked, nor is preservation of borrowed operands.",
  ["src/ubig/ops.rs"],
  [("forwarding operator impls","src/ubig/ops.rs")],
  ["all std::ops impls"],[DIG])
p("C16","Division by zero is always reported and leaves the operand intact",
  "For every number, including zero, dividing or taking the remainder by zero, given as a word, a digit or a number, panics in the operator forms and returns a division-by-zero error in the fallible methods; it never returns a number. After such an error the operand of a fallible method still has its original value and can be used further.",
  ["inputs","fault_sequences"],"all numbers of any length, every form of division and remainder, for the eight number types",
  "One or two tests check that an error occurs for one number; none looks at the operand afterwards, or at all forms and lengths.",
  ["src/ubig.rs","src/ubig/div.rs","src/ubig/ops.rs"],
  [("zero check before division","src/ubig/div.rs: div_assign_digit, rem_digit, div_big_with_work"),("operand taken out and replaced","src/ubig.rs: div_assign_big, rem_assign_big")],
  ["/ 0","% 0","div_assign_big","rem_assign_big"],[DIG])
p("C17","Inverse operations restore a number exactly, from every reachable state",
  "From any number x reached by any history and for any operand y: x + y - y, x * y / y (y non-zero, with remainder 0), x << n >> n, and x / y * y + x % y all equal x. Likewise (x + y) squared equals x squared plus twice x times y plus y squared, multiplication distributes over addition, and a sum or product does not depend on the order of its operands.",
  ["histories"],"all reachable numbers x, all operands y and shifts n, for the eight number types",
  "No test chains an operation with its inverse; the states reached after other operations are not used as inputs.",
  ["src/ubig/ops.rs","src/ubig/add.rs","src/ubig/sub.rs","src/ubig/mul.rs","src/ubig/div.rs","src/ubig/shl.rs","src/ubig/shr.rs"],
  [("arithmetic kernels","src/ubig/*.rs")],
  ["chains of public operations"],[DIG])
p("C18","Tuning thresholds never change a result",
  "For every legal setting of the size thresholds that select the multiplication, squaring, division and decimal-conversion algorithms, every operation gives the same exact result. In particular no result depends on the digit radix, down to very small radices.",
  ["configurations","inputs"],"all legal threshold settings and all operands; radices from 3 upwards",
  "The tests run one setting, whose thresholds (20, 128, 20, 16 digits) are too large for tests to enumerate operands around them.",
  ["src/ubig/mul.rs","src/ubig/mul/karatsuba.rs","src/ubig/mul/toom3.rs","src/ubig/div.rs","src/ubig/div/bz.rs","src/ubig.rs"],
  [("threshold constants","KARATSUBA_CUTOFF, TOOM3_CUTOFF in src/ubig/mul.rs; BZ_CUTOFF in src/ubig/div.rs; TO_DEC_DIV_CUTOFF in src/ubig.rs"),("work-space sizing from thresholds","calc_*_work_size"),("Digit trait contract","src/digit.rs")],
  ["* / % square pow to_decimal"],[DIG],"cfg(babs_mc): thresholds set at compile time, Digit trait exported so that tiny-radix digits can be plugged in")
p("C19","Construction and digit access agree with the value",
  "For every list of valid digits, the number built from it has the value denoted by the list in little-endian order, whatever leading zeros the list has, and reading its digits back gives the list without them. A number built from a word has the value of that word for every word of the storage type; zero and one have their values, and so have numbers that are set to zero or one, whatever they were before. A clone, also one assigned to an existing number, has the value of the original.",
  ["inputs"],"all digit lists of any length, all words of the storage type, for the eight number types",
  "The tests build about ten numbers; leading-zero patterns per length and words around multiples of the decimal radix are not enumerated.",
  ["src/ubig.rs","src/ubig/support.rs","src/digit.rs"],
  [("construction","src/ubig.rs: UBig::new, impl From<T>, Zero, One"),("splitting words into decimal digits","src/digit.rs: DecimalDigit::split")],
  ["UBig::new","From","Zero::zero","One::one","digits","nr_digits"],[DIG])
p("C20","Results depend only on the operands, not on earlier or concurrent operations",
  "The result of an operation is a function of its operands alone: it is the same in a fresh program, after any other sequence of operations of any sizes and types (including ones that failed, and ones interrupted by a writer that fails or that formats numbers itself), and when other threads perform operations in between. A clone and its original never influence each other.",
  ["histories","schedules"],"all sequences of operations that precede a given one, and all interleavings, at operation granularity, of operations in several threads",
  "The tests run each operation once on fresh operands; none repeats an operation after others, after a failed one, or from another thread.",
  ["src/ubig.rs","src/ubig/mul.rs","src/ubig/div.rs","src/ubig/ops.rs"],
  [("scratch buffers local to each call","src/ubig/mul.rs: mul_big_into; src/ubig/div.rs: div_big"),("value semantics of the digit vector","src/ubig.rs: UBig, Clone")],
  ["any public operation repeated in different contexts"],[DIG])
for x in P: print(json.dumps(x,ensure_ascii=False))
