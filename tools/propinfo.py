"""What each check enumerates, for the evidence files and the manifest."""

REF = ("the reference in mc/src/refn.rs: schoolbook arithmetic on digit vectors with 128-bit intermediates, written "
       "independently of /repo and sharing no code with it")
TYPES = "all eight number types (binary and decimal digits in u8, u16, u32 and u64)"
HIST = ("Histories: from each of 5 start values (0, 1, 20 maximal digits, 41 digits, r^21) every sequence of 2 moves (thorough: 3 where "
        "noted) out of 38 moves (every operation, in several forms, with operands from 1 to 22 digits), states merged on value, and in each "
        "state reached the object that the history left behind is probed with %s.")
BASE = [
    "Bounded: nothing is claimed beyond the operand families, lengths and depths given under bounds.",
    "The reference arithmetic, the enumeration and rustc are trusted; the reference is checked against the standard library's integers at start-up.",
    "x86-64; the stable Rust toolchain of the sandbox. Explored in an optimised build with overflow checks and debug assertions, and once more without them.",
]

LENGTHS = "A case is one operation on one pair (or tuple) of operands, in one form and type; it is non-trivial if no operand is zero and the result is not fixed by a trivial rule; distinct by fingerprint of operation, type and operands."


def info(bounds, oracle, extra=(), rule=LENGTHS):
    return {"bounds": bounds, "oracle": oracle, "assumptions": BASE + list(extra), "rule": rule}


HOOK = ("The builds named thresholds-K-T-B-D have the tuning thresholds (Karatsuba, Toom-3, Burnikel-Ziegler, decimal conversion) lowered by the "
        "hook cfg(babs_mc), and digits of radix 4, 6 and 10 next to the real ones; the code is otherwise that of the normal build.")

FAR = "Numbers of 1500 to 5000 digits (all types) and of 65535 to 66236 (131075) digits: a few shapes of each length%s."
INFO = {
    "C01": info(
        ["Complete for u8 types: all pairs of values below 1000 (thorough 3000).",
         "All words of up to 3 digits over 6 boundary digits, in all 6 forms; of up to 4 (5) digits over 5 and of up to 6 (7) over 3; all runs (3 segments) of up to 8 (9) digits; every digit at a border (powers of two and ten, fractions of the radix, with neighbours).",
         "Digits related place by place: in 2 and 3 places, all combinations of pairs of digits whose sum is at or next to the radix, the storage word or zero, with and without carries from below and digits above; complete for one place of radices up to 2^16.",
         "All pairs of lengths 0..72 (160) with 8 (11) shapes each, and of 30 lengths up to 1025; a carry from every position rippling through numbers of every length up to 80 (330) and of selected ones up to 520 (1100).",
         "The same object as both operands, lengths up to 70 (400).", FAR % ", with carries through all of them", HIST % "additions in all forms"],
        REF),
    "C02": info(
        ["As C01, with both orders of operands, so that underflow is met at every length; every x+y-y, x+y-x and x+y-(x+y+1) over the words and lengths up to 40 (150).",
         HIST % "subtractions in all forms"],
        REF + "; a panic is required when the subtrahend is larger"),
    "C03": info(
        ["Complete for u8 types: all pairs below 900 (2500); all words of up to 3 digits over 6 and 4 digits over 5 boundary digits; digits whose product is at or next to a multiple of the radix, with all extreme carries from below and digits above.",
         "All pairs of lengths 0..64 (110); Karatsuba and Toom-3 sizes with all combinations of block contents, cut as the algorithms cut, to 3 (4) nested levels; unequal lengths up to 300.", FAR % " with numbers of few digits",
         "With lowered thresholds and radices 4, 6, 10, 100, 256: all words of 4-6 (7) digits over 3 digits, all two-valued words of 9 (11) digits, all length pairs up to 64 (130).",
         HIST % "multiplications in all forms"],
        REF, [HOOK]),
    "C04": info(
        ["Squares: all values below 70000 (1000000) for u8, all words of 4 digits over 8 (10) boundary digits, every length up to 260 (420), selected ones up to 1150 (3400), block combinations at all thresholds; lowered thresholds: all words of 7 (8) digits over 4 digits, of 9 (11) over 3, two-valued words of 14 (17).",
         "Powers: all exponents 0..70 (200) for small bases, owned and borrowed, 0..330 (1200) for 8 bases, powers of two up to 2100 (4200), exponents up to u64::MAX for 0 and 1, larger bases up to 420 (900) digits.",
         "Squares of 2048 and 3390 digits (thorough: nine lengths up to 4096).", HIST % "squares and powers"],
        REF + " (repeated multiplication)", [HOOK]),
    "C05": info(
        ["Complete for u8 types: all numerators x denominators below 1500 (6000); all two-digit denominators with extreme quotients and remainders.",
         "All words over boundary digits (numerators of 4, denominators of 3 digits); all triples (quotient, denominator, remainder) of words; every denominator length 1..19 x quotient length; every recursive denominator length 20..130 (190) and selected ones up to 300; block combinations; every leading digit of the denominator (scaling).",
         FAR % ", by short and by long denominators",
         "With lowered thresholds and radices 4, 6, 10, 100, 256: all denominators of 4-5 (6) digits over 4 digits, complete small spaces for radices up to 10, every length up to 45 (100).",
         HIST % "divisions and remainders in all forms"],
        "numerators are built as q*d + r by the reference, with r < d, so that quotient and remainder are known; otherwise " + REF, [HOOK]),
    "C06": info(
        ["All words of the storage type for u8, some 250 words (all powers of two and ten and multiples of the radix, with neighbours, and the extremes) for the others; as word and as digit, in all forms.",
         "Numbers: all values below 1200 (20000) for u8, words over boundary digits, every length up to 34 (80) and selected ones up to 1025, multiples of each word and their neighbours; all x = q*w + r with r extreme.",
         FAR % "", HIST % "word operations in all forms"],
        REF),
    "C07": info(["Words over boundary digits, lengths up to 24 (60) and selected ones up to 130, all powers of two up to 2^140 (2^400) and neighbours, all values below 1200 (12000) for u8, x all shift counts 0..200 (420) and around the multiples of the digit width up to 2049; every third (every) count up to 2600 (5000) for selected numbers; zero by counts up to u64::MAX.", FAR % ", by counts up to 30000", HIST % "left shifts"],
                REF + " (doubling)"),
    "C08": info(["As C07, with shift counts past the end of every number and up to u64::MAX.", HIST % "right shifts"], REF + " (halving)"),
    "C09": info(
        ["Every history of 2 (3) moves from 5 start values, followed by every operation of C01-C08's probes (some 300); every history of 3 moves out of 26 (38).",
         "Every operation on every pair of small values (u8: below 400 (1500)); differences of sums and parts for lengths up to 24 (60).", TYPES],
        "the digits read back: each below the radix, no leading zero, and the object indistinguishable by ==, cmp, is_zero and nr_digits from one built from these digits; values are not judged",
        rule="A case is a transition of the state graph (operation on a live object); states are distinct by type and value."),
    "C10": info(["Complete for u8 types: all pairs below 700 (4000); all pairs of words over boundary digits; all pairs of lengths 0..64 (130), and of 30 lengths up to 1025; all pairs of equal length up to 64 (150) that differ in two digits in opposite directions, at part of the places for lengths up to 1025.", FAR % " that differ in one digit or in length", HIST % "comparisons"],
                "order of the values by the reference, for all of < <= > >= == != cmp partial_cmp max min; since every relation is that of the integers, transitivity and antisymmetry follow on the space"),
    "C11": info(
        ["All strings of up to 2 characters of ASCII and some others after '' and '0x'; all strings of up to 5 characters over 17 (23) characters; digit strings of every length up to 200 (400) with leading and trailing zeros, and a bad character at every position of every length up to 80 (160); two bad characters at all pairs of positions; selected lengths up to 10000 (20000) and beyond 65536 characters.",
         HIST % "printing and parsing back"],
        "digit-by-digit reference; strings with any character that is no digit must give an error, and none may panic",
        ["The result for the empty string and for '0x' alone is not specified and only has to be free of panics."]),
    "C12": info(
        ["All combinations of fill (also non-ASCII), alignment, sign, prefix and zero flag, also with a precision and through nested formatting, x 10 widths around the length of the text, for decimal and both hexadecimal forms, on words over boundary digits and lengths up to 48; the digits of all values below 20000 (200000), lengths up to 100 (250), powers of ten and two up to the 150th (400th) with neighbours; each text parsed back; numbers of up to 700 (2048) and of more than 65536 digits.",
         "Writers that fail or panic after every number of characters, and writers that format numbers themselves at every write.", HIST % "formatting with all flags"],
        "digits by the reference; flags by the standard library's documented rules (Formatter::pad_integral), cross-checked at start-up against the formatting of u128 for all flags and widths"),
    "C13": info(
        ["Binary types: all values below 70000 (1000000) for u8; words of 4 digits over 7 (9) boundary digits; every length up to 180 (400) and selected ones up to 1024 (2048); all powers of ten (x1, 2, 5, 9, plus and minus 1, sums of two) up to beyond two levels of splitting; runs of nines and zeros at all places of the decimal form; multiples of the splitting powers and neighbours.",
         "With lowered thresholds: all words of up to 8 (9) digits over 3 digits, values below 200000 (3000000), runs at every place.", HIST % "conversion"],
        "conversion of the value by the reference (radix conversion by repeated multiplication), canonical form, unchanged original", [HOOK]),
    "C14": info(
        ["Every history of 3 (4) moves out of 26 (30) from 7 start values up to 1400 bits, intermediate values up to 2300 bits; every history of 2 moves from values of 2000-5300 bits, up to 6400 (21000) bits.",
         "Every operation on every pair of some hundred integers at the borders of the eight types' digits (powers of two and ten with neighbours, their products and sums).",
         "Eight types in lockstep; after each step values are compared, and so are the comparison with the previous number and the conversion to decimal."],
        "agreement of the eight types with each other, and the absence of panics; the reference only says which steps are valid",
        rule="A case is one step of all eight types together; states are distinct by value."),
    "C15": info(
        ["All pairs of words over boundary digits, of numbers of two blocks, of 23 lengths up to 200, and of small values (u8: below 110 (700)), x all forms of + - * / %, including the same object twice; words and digits in all forms x some 250 words; all forms of shifts, powers, squares, conversions; numbers of more than 65536 digits.",
         HIST % "all operations in all forms, on clones of the live object"],
        "the outcomes (value, error or panic) of all forms are compared with each other, and operands passed by reference with their former digits"),
    "C16": info(
        ["All values below 3000 (70000) for u8, words of 3 digits over 7 (9) boundary digits, every length up to 140 (420) and selected ones up to 1025, divided by zero in every form.",
         HIST % "division by zero in all forms, by a new zero and by a zero left of a subtraction, and with further operations after the error"],
        "a panic in operator forms, Error::DivisionByZero and unchanged digits in the fallible methods; afterwards the operand does as one that has not been through the error"),
    "C17": info(
        ["Laws: 15 laws on every state reached by up to 2 moves from 5 start values, x 11 (14) operands y (and z), x 13 shift counts; the laws on pairs of numbers of all selected lengths; the laws of two operands for all pairs of small values (u8: below 260 (700)).", TYPES],
        "both sides of each law are evaluated by the library alone and compared digit by digit; no reference is involved",
        rule="A case is one law at one state with one choice of operands; states are distinct by type and value."),
    "C18": info(
        ["Thresholds (Karatsuba, Toom-3, Burnikel-Ziegler, decimal): the built-in ones; (4,5,4,2), (6,16,6,3) and (26,44,36,24); thorough: also (4,7,6,3), (5,10,4,2), (6,16,8,4), (20,5,6,5), (9,12,10,7) and (40,160,50,40).",
         "For each: the spaces of C03-C05 and C13 for lowered thresholds, with radices 4, 6 (10), 256 and 100 (thorough: also 2^16, 2^64, 10^9, 10^19); histories with probes.",
         "The built-in thresholds: lengths around all of them."],
        REF, [HOOK, "Legal settings are those for which the algorithms end and their splits make sense: Karatsuba at least 4, Toom-3 at least 5, Burnikel-Ziegler even and at least 4, conversion at least 2."]),
    "C19": info(
        ["All lists of up to 5 (6) digits over 6 (8) boundary digits including leading zeros, all two-digit lists for u8, up to 60 (200) leading zeros after up to 60 (200) digits, lists of more than 65536 digits; all words for u8 and u16, some 250 words for the others; zero and one, set_zero and set_one, is_zero and is_one, clone and clone_from over numbers of all lengths.",
         "Histories of 3 moves: each number reached is rebuilt from its digits with 0, 1, 2, 17 leading zeros."],
        REF),
    "C20": info(
        ["Some 190 calls covering all operations and size classes of the eight types, among them failing ones and ones with failing, panicking and nested writers. All histories of 2 calls, each in a process of its own forked from a state in which the library has not been used, with the second call on the same thread, on a new thread, and with operands made on another thread; each call followed by all others in both orders; two calls in turn up to 70 (300) times; one call repeated up to 70000 times; all histories of 3 out of a quarter of the calls (thorough: all); calls of every size class after each other; calls after memory filled with other bytes, another environment and other CPU affinity; formatting calls within formatting calls.",
         "One object that stays where it is, looked at in 12 ways (compared, printed, converted, used as an operand) and changed in 34 (operated on in place in every operation and form, assigned to, cloned into, swapped, given other digits of as many places): all sequences look, change, look; for 11 changes also look, change, look, change, look, where quick takes the last look the same as the first; judged by the reference.",
         "Schedules of two threads with one call each, preempted at every scheduling point (each allocation, reallocation and deallocation; in builds with hooks also each digit operation): all pairs with one preemption, part of the pairs (thorough: all) with two.",
         "Schedules by memory access: in a build in which every load and store calls the explorer, the locations a call shares with another call are recorded; where no call writes a location another accesses, all schedules of the pair are equivalent to one (partial-order reduction), otherwise all schedules with up to 2 preemptions at these accesses are run."],
        "the outcome of the same call as the first one of a fresh process",
        [HOOK, "Schedules in which one thread blocks the other are resolved by letting both run.", "Sequentially consistent memory: reorderings by the hardware are not explored."],
        rule="A case is one call in a history, or one schedule of two calls; distinct by sequence."),
}

for _p in INFO:
    _b = INFO[_p]["bounds"]
    if _p in "C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C15 C16 C19".split():
        _b.insert(-1, "Every digit of the types with digits in u16 (all 65536 or 10000 values) at each of four (six) places of numbers of up to three digits.")
    if _p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12 C13 C15 C16 C19".split():
        _b.insert(-1, "Operands in memory of their exact size, with little and with much spare capacity, in nine combinations, 13 (53) lengths, in all forms.")
INFO["C05"]["bounds"].insert(-1, "Denominators of 328 and 640 (nine lengths up to 2048) digits in two blocks, of alike, extreme and generic contents, by numerators that start with the denominator's upper block.")
INFO["C11"]["bounds"].insert(-1, "Every Unicode character alone, between digits and after 0x.")
INFO["C12"]["bounds"].insert(-1, "Writers that fail at one write only, after every number of characters, also for texts of up to 700 digits.")
INFO["C20"]["bounds"].insert(1, "Each call followed by calls that nearly are the same: one digit, count or character of the operands changed, digits swapped, operands longer or shorter, the same digits in another type.")
for _p in "C01 C02 C03 C04 C05 C06 C07 C08 C11 C12 C13 C19".split():
    INFO[_p]["bounds"].insert(-1, "Digits of two halves, each half zero, one, half the range or extreme, in numbers of two and more digits (types with digits of 16 bits and more).")
INFO["C07"]["bounds"].insert(-1, "Counts of more than 65536 places for decimal types, up to 2^20 and beyond for binary ones.")
INFO["C12"]["bounds"].insert(-1, "Every width from 0 to 140 (600) and selected ones up to 4097.")
INFO["C13"]["bounds"].insert(-1, "Numbers of 65536 bits and next to it, of twice and of four times as many, with extreme contents.")
INFO["C20"]["bounds"].insert(-2, "Calls of one type: the second call performed 20 (300) times while the first is stopped at each of its scheduling points.")
INFO["C20"]["bounds"].insert(-2, "Crowds: 2 to 32 threads stopped at each scheduling point of their calls, other calls performed meanwhile, the threads then let go in either order.")

for _p in "C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C15 C19".split():
    INFO[_p]["bounds"].insert(-1, "Numbers of more than 65536 digits also in a build without optimisation, on a stack of 2 MB.")
DEEP = {
    "C01": "all pairs of numbers of two digits with digits in u8; all pairs of words of up to 4 digits over 8 boundary digits, 8 digits over three, 12 over two",
    "C02": "all pairs of numbers of two digits with digits in u8; all pairs of words of up to 4 digits over 8 boundary digits, 8 digits over three, 12 over two",
    "C03": "all pairs of values below 40000 (10000 for radix 100) with digits in u8; all pairs of words of up to 4 digits over 8 boundary digits, 7 over three, 11 over two; with lowered thresholds all pairs of numbers of 7 digits in radix 4, 5 in radix 6, 4 in radix 10, and words of 8 and 12 digits over three and two digits",
    "C04": "squares of all values below 2^28 with digits in u8 and u16, of words of up to 6 digits over 10 boundary digits, 12 over three, 20 over two; powers up to the 40th of words of 3 digits over 8; with lowered thresholds squares of all numbers of 12 digits in radix 4, 9 in radix 6, 7 in radix 10",
    "C05": "all numerators below 2^18 with all denominators below 2^12 with digits in u8; denominators and quotients over words of up to 4 digits over 7 to 10, of 6 over three and four and of 11 over two boundary digits, each with remainder 0, half and maximal; with lowered thresholds all numbers of up to 6 digits in radix 4 as denominator and as quotient",
    "C06": "all values below 2^18 with all machine words for u8; words of 3 digits over 8 with all machine words for u16; words of 4 digits over 10 with some 250 machine words",
    "C07": "all values below 2^21 with digits in u8 and u16 and counts to two digits and one, all below 2^16 with counts to 80; words of up to 4 digits over 8, 8 over three and 14 over two boundary digits with all counts to several digits",
    "C08": "all values below 2^21 with digits in u8 and u16 and counts to 24, all below 2^16 with counts to 80; words of up to 4 digits over 8, 8 over three and 14 over two boundary digits with all counts to several digits",
    "C10": "all pairs of numbers of two digits with digits in u8; all pairs of words of up to 4 digits over 8 boundary digits, 8 over three, 13 over two",
    "C11": "after '' and '0x' all texts of 3 characters of ASCII and some others, of 7 over 10 characters and 8 over 7; all texts of up to 7 decimal and 6 hexadecimal digits; texts of 16 to 20 digits over two",
    "C12": "all values below 2^23 with digits in u8 and u16, each also parsed back; words of up to 5 digits over 9 and 11 over three boundary digits; all values below 1100 with all flags and all widths to 14",
    "C13": "all values below 2^29 with digits in u8 and u16; words of up to 6 digits over 11, 13 over three and 20 over two boundary digits",
    "C15": "all pairs of values below 1500 with digits in u8, of words of 3 digits over 7 and 6 over three boundary digits",
    "C16": "all values below 2^22 with digits in u8 and u16; words of 5 digits over 8 and 11 over three boundary digits",
    "C18": "with lowered thresholds what C03, C04 and C05 explore with them in the thorough tier",
    "C19": "all lists of three digits for u8, lists of 7 digits over 10 and 14 over three boundary digits; every machine word for u32",
}
for _p, _t in DEEP.items():
    INFO[_p]["bounds"].insert(-1, "Thorough only: " + _t + ".")
TECH = {
    "C09": "explicit-state search over operation histories on the real code, canonical-form invariant in every state",
    "C14": "explicit-state lockstep search over operation histories of eight implementations",
    "C17": "explicit-state search over operation histories, algebraic laws checked in every state",
    "C18": "exhaustive enumeration over configurations (thresholds, radices) x operand spaces x histories, on the real code",
    "C20": "stateless exploration of call histories from a pristine state and of thread schedules (all preemptions up to a bound, with partial-order reduction by recorded memory accesses) under a controlled scheduler",
    "C15": "exhaustive enumeration of operand spaces and forms, and explicit-state search over histories, agreement of all forms",
    "C16": "exhaustive enumeration of fault points (division by zero) over operand spaces and states of histories",
}
TECH_DEFAULT = "exhaustive enumeration of bounded operand spaces and explicit-state search over operation histories on the real code against a reference model"
