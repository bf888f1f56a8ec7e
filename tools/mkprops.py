#!/usr/bin/env python3
"""Writes properties.jsonl. The property texts live here so that they can be
read and edited without JSON quoting; the output is committed."""
import json, os

I = "include/ieme/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [I + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None}})


prop("C01", "Arithmetic is exact under every policy",
     "For every arithmetic policy (safe, fast, and each with reduced inputs and/or outputs), every integer representation and every operand shape (fraction-fraction, fraction-scalar, scalar-fraction), the results of + - * / % and of unary + and - equal the exact rational result whenever the operands' cross products and the result are representable. The result of x % y is x - y*trunc(x/y): it has the sign of the dividend.",
     ["inputs", "configurations"],
     "All pairs of defined fractions (including negative and unreduced denominators and, for / and %, non-zero divisors) whose cross products and result fit the representation, under all ten policies.",
     "Tests try a few small operand pairs per policy; wrong lcm, sign or operand-order handling shows only for particular common factors, signs or magnitudes.",
     ["ops.hpp", "fraction.hpp"],
     [("lcm-based plus/minus/modulus", "ops.hpp class safe"), ("cross-product plus/minus/modulus", "ops.hpp class fast"),
      ("input and output reduction wrappers", "ops.hpp reduced_input, reduced_output"), ("operator dispatch macros", "fraction.hpp IEME_DO_*_OP")],
     ["values returned by the fraction operators"])
prop("C02", "Comparisons are the order of the rational numbers",
     "For defined fractions ==, !=, <, <=, >, >= (against fractions and against scalars on either side) answer exactly as the rational values compare, whatever the signs of the denominators and whether or not the operands are reduced. Safe policies do so for every pair of representable operands whose signs can be normalised; fast policies whenever the cross products (of the operands in lowest terms, if the policy reduces its inputs) are representable.",
     ["inputs", "configurations"],
     "All pairs of defined operands, all ten policies, three operand shapes, four integer representations.",
     "Tests compare a few positive small fractions; wrong answers need a negative denominator, nearly equal values, or operands whose scaling overflows.",
     ["ops.hpp", "fraction.hpp"],
     [("overflow-free comparison", "ops.hpp safe"), ("cross-multiplied comparison", "ops.hpp fast"), ("comparison operator macros", "fraction.hpp")],
     ["results of the comparison operators"])
prop("C03", "Undefined fractions propagate and nothing traps",
     "A fraction with a zero denominator is undefined: every + - * / %, compound assignment, sign change, abs, reduction and mixed-number construction or sum involving one yields an undefined result, every ordered or equality comparison with one is false and != is true, its sign/integer/reduced queries are false, and its floating-point value is a NaN. Dividing or taking a remainder by a zero fraction or zero scalar yields an undefined fraction. None of this traps, under any policy.",
     ["inputs", "histories", "configurations"],
     "All operand pairs with at least one undefined fraction or a zero divisor, all policies and shapes, and all histories of up to 3 (thorough: 4) compound assignments on an undefined value.",
     "Tests check is_undefined on one or two values and never operate on an undefined fraction.",
     ["ops.hpp", "mixed_number.hpp", "raw_fraction_queries.hpp", "raw_fraction_math.hpp", "floating_point.hpp"],
     [("undefined checks in the operations", "ops.hpp"), ("reduction of undefined to 0/0", "raw_fraction_math.hpp"), ("guard in mixed-number construction", "mixed_number.hpp")],
     ["results of operators and queries; absence of SIGFPE"])
prop("C04", "Reduction and sign normalisation give canonical forms",
     "reduce keeps the value and returns lowest terms with a positive denominator (zero becomes 0/1); with reduce_mode::ignore_signs it divides out the common factor and leaves both signs alone; normalize_signs keeps magnitudes and makes the denominator positive; reciprocal swaps the parts; abs returns the magnitude of the value. Reducing twice changes nothing, and the same holds for raw fractions and for fractions of every policy.",
     ["inputs"],
     "All defined fractions whose parts and their negations are representable (also lowest-value numerators over positive denominators).",
     "Tests reduce a handful of fractions; sign and gcd edge cases (zero, negative, large common factors) are unsampled.",
     ["raw_fraction_math.hpp", "fraction_math.hpp"],
     [("gcd division and sign flip", "raw_fraction_math.hpp")],
     ["parts of the returned fraction"])
prop("C05", "Queries answer the mathematical question over the full range",
     "is_defined/undefined/positive/non_negative/zero/non_positive/negative/integer/unit_fraction/reduced/reduced_ignore_signs/proper/improper answer exactly the mathematical question about the fraction for every pair of parts, including zero, negative and the lowest representable ones (is_reduced means lowest terms with a positive denominator; is_unit_fraction means value 1/n for some non-zero integer n). are_identical and are_different compare representations, not values.",
     ["inputs"],
     "All pairs of representable parts, raw fractions and fractions.",
     "Tests use a few fractions per query; extreme values trap or answer wrongly without any test noticing.",
     ["raw_fraction_queries.hpp", "fraction_queries.hpp", "math_utilities.hpp"],
     [("sign-case analysis, gcd and remainder tests", "raw_fraction_queries.hpp")],
     ["boolean results"])
prop("C06", "Rounding to whole numbers is mathematically right",
     "For every defined fraction trunc rounds toward zero, floor toward minus infinity, ceil toward plus infinity and round to the nearest integer with ties toward plus infinity; to_whole does the same according to its mode and rounds by default. This holds for both signs of the denominator, for magnitudes below one, and without overflow for numerators and denominators up to the limits of the representation.",
     ["inputs"],
     "All defined fractions whose parts and their negations are representable.",
     "Tests round seven fractions of magnitude above one.",
     ["fraction_math.hpp"], [("trunc/ceil/floor/round", "fraction_math.hpp")], ["returned whole numbers"])
prop("C07", "Redenominating rounds to the right multiple",
     "redenominate(x, k) and its trunc/ceil/floor/round variants return a fraction whose denominator is exactly k and whose value is the multiple of 1/k obtained by rounding x toward zero, up, down, or to nearest (ties upward for positive k; the default mode is nearest), whenever the product of x's numerator with k is representable.",
     ["inputs"],
     "All defined fractions a/b and non-zero k with a*k representable, both signs of a, b and k.",
     "Tests redenominate a few tiny fractions.",
     ["fraction_math.hpp"], [("*_redenominate", "fraction_math.hpp")], ["numerator and denominator returned"])
prop("C08", "Integer powers are exact",
     "pow(base, n) and pow2(n) return a fraction equal to base^n (2^n) for every integer exponent, negative ones included, whenever base^|n| is representable; anything to the power zero is 1, and zero to a negative power is undefined.",
     ["inputs"],
     "All (base, exponent) whose power is representable.",
     "Tests try a few small powers.",
     ["fraction_math.hpp", "math_utilities.hpp"], [("square-and-multiply", "math_utilities.hpp pow"), ("pow/pow2", "fraction_math.hpp")], ["returned fraction"])
prop("C09", "Output-reducing policies return lowest terms",
     "Under the policies that reduce output, every result of + - * / %, their compound assignments and unary minus is in lowest terms with a positive denominator (zero is 0/1), so equal results are identical representations; when the policy is told to ignore signs, the result is in lowest terms up to signs.",
     ["inputs", "configurations"],
     "All operand pairs with a representable defined result under the five output-reducing policies, three operand shapes.",
     "Tests check results by value, or a few representations.",
     ["ops.hpp"], [("reduced_output", "ops.hpp")], ["parts of the results"])
prop("C10", "Safe and input-reducing policies keep their headroom",
     "The safe policies compute + - % exactly whenever the operands brought to their least common denominator, and the result over it, are representable, even if the cross products are not; the input-reducing policies compute every operation and comparison exactly whenever that is so for the operands in lowest terms. An unreduced operand therefore never makes an input-reducing policy overflow where the reduced one would not.",
     ["inputs", "configurations"],
     "All operand pairs satisfying the stated headroom condition but not C01's.",
     "Tests use small numbers that cannot overflow under any formula.",
     ["ops.hpp"], [("lcm scaling that divides before multiplying", "ops.hpp safe::plus/minus/modulus"), ("reduction before the operation", "ops.hpp reduced_input")], ["values of results near the limits"])
prop("C11", "Mixed representations and conversions keep the value",
     "Operators on fractions or scalars of different integer representations behave as if both operands were first converted to their common type, with a result of that representation. Converting a fraction to another representation or policy, constructing one from a numerator and denominator, a scalar or a std::ratio, and assigning or copying keep numerator and denominator exactly when they are representable in the target.",
     ["inputs", "configurations"],
     "All ordered pairs of representations from {int, unsigned, long, unsigned long, long long, unsigned long long}, all ten policies, all operand shapes, all small and boundary operands that survive the conversion.",
     "Tests mix int with long in a few expressions; four dispatch branches times eleven operators times three shapes are mostly unvisited.",
     ["fraction.hpp", "raw_fraction.hpp"], [("IEME_DO_*_OP dispatch branches", "fraction.hpp"), ("converting constructors", "fraction.hpp, raw_fraction.hpp")], ["values and types of results"])
prop("C12", "Compound assignment is assignment of the operator's result",
     "After x op= y (op one of + - * / %, y a fraction or scalar, possibly of another representation and possibly x itself) x holds the exact value of x op y converted to x's representation, the expression refers to x, and y is unchanged unless it is x. This holds along every history of compound assignments, increments from earlier results included.",
     ["histories", "inputs"],
     "All histories of compound assignments over a small alphabet of operands up to the stated depth, by breadth-first search over reached values, including self-assignment forms.",
     "Tests apply each compound operator once.",
     ["fraction.hpp"], [("IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS", "fraction.hpp")], ["the left operand, the reference returned, the right operand"],
     [("raw_", "numerator and denominator of the fraction", "fraction.hpp")])
prop("C13", "Mixed numbers keep their invariant and value",
     "A mixed number made from a whole and a fractional part, from a fraction (of any policy), by unary + or -, or by adding mixed numbers, fractions and whole numbers has the exact value of what it was made from, a proper fractional part, and a fractional part whose sign never opposes a non-zero whole part; converting it to a fraction returns that value. This holds along every history of such additions and negations.",
     ["histories", "inputs"],
     "All small wholes and fractional parts (both signs, improper, unreduced) whose sums fit, and all histories of additions and negations over a small alphabet to the stated depth.",
     "Tests build about a dozen mixed numbers.",
     ["mixed_number.hpp"], [("normalisation after construction", "mixed_number.hpp fix"), ("operator+ overloads", "mixed_number.hpp")], ["whole(), fractional(), as_fraction()"],
     [("whole_, fractional_", "the two parts", "mixed_number.hpp")])
prop("C14", "Floating-point numbers convert to exactly equal fractions",
     "to_fraction of a finite float or double whose exact value has a representable numerator and denominator in lowest terms (zero, subnormal-free and any sign) returns a fraction of exactly that value; NaN and infinities give an undefined fraction.",
     ["inputs"],
     "All 2^32 floats (thorough) or all exponents and signs times structured mantissas (quick); structured doubles; int, long long and unsigned representations.",
     "Tests convert three floats and three doubles.",
     ["floating_point.hpp"], [("IEEE field extraction and scaling", "floating_point.hpp floating_point_to_fraction")], ["returned fraction"])
prop("C15", "Fractions convert to correctly rounded floating point",
     "to_float, to_double and to_long_double of a defined fraction return the correctly rounded (to nearest even) quotient whenever the numerator and denominator in lowest terms are exactly representable in the floating-point type, and otherwise a value within three units of relative rounding error; converting an exactly representable floating-point value to a fraction and back returns it unchanged.",
     ["inputs"],
     "All fractions in a large square plus boundary pools, for float, double and long double.",
     "Tests convert three exactly representable fractions.",
     ["floating_point.hpp"], [("division of the reduced parts", "floating_point.hpp fraction_to_floating_point")], ["returned floating-point value"])
prop("C16", "Floating-point strings parse exactly as C++ literals do",
     "floating_point_string_to_fraction accepts exactly the unsigned, unsuffixed C++ floating-point literals (decimal with a radix point or exponent; hexadecimal with a binary exponent; single digit separators between digits) and returns an undefined fraction for every other string. For an accepted string the result is exactly the literal's value whenever its digits as one integer, the power of the base for the fractional digits, and the scaling by the exponent are representable.",
     ["inputs"],
     "All strings over an alphabet of the significant characters up to a length bound, and all structured literals of a grammar with longer parts.",
     "Tests list about eighty strings; a scanner's mistakes live in combinations.",
     ["parse_utilities.hpp", "floating_point.hpp"], [("scanner", "parse_utilities.hpp scan_floating_point_string"), ("digit sequences", "parse_utilities.hpp is_valid_digit_sequence, digit_sequence_to_int")], ["definedness and value of the result"])
prop("C17", "Stream output and input round-trip",
     "Writing a fraction to a stream produces its numerator, a slash and its denominator unreduced, and reading that text back with the same formatting (base, field width, digit grouping), alone or in a whitespace-separated sequence, yields the identical fraction and leaves the stream positioned right after it; a text that ends within a fraction, or whose numerator or denominator is not a number of the representation, leaves the stream failed (and makes it throw, if it was told to throw on failure). The outcome does not depend on how the stream buffer delivers the characters.",
     ["inputs", "fault_sequences", "histories"],
     "All small and boundary fractions, all sequences of up to three, every way of cutting the text into buffer refills, and every truncation point.",
     "Tests write and read one fraction through a string stream.",
     ["raw_fraction.hpp", "fraction.hpp"], [("operator<< and operator>>", "raw_fraction.hpp")], ["text written, fraction read, stream state and position"])
prop("C18", "Hashing agrees with equality",
     "Fractions of the same type that compare equal have equal hashes (std::hash and ieme::hash agree with each other and are stable), so unordered containers keyed by fractions behave as sets and maps of rational values; identical raw fractions and mixed numbers with equal parts hash equally too. A hash depends on both parts: whatever the numerator, fractions of it with different denominators have different hashes among them, and whatever the denominator, different numerators do (likewise raw fractions, and the whole and fractional parts of mixed numbers).",
     ["inputs", "histories"],
     "All pairs among small fractions and their multiples and sign variants, and all insert/erase/find histories on an unordered set over equal-but-different representations to the stated depth.",
     "Tests hash one value twice.",
     ["hash.hpp"], [("hash of the canonical form", "hash.hpp")], ["hash values; container behaviour"])
prop("C19", "Fractional durations and clocks are exact",
     "Converting a std::chrono duration or time point to its fractional form, converting fractional durations between periods (in either direction, without duration_cast), and adding, subtracting, scaling and comparing them give exactly the rational result; clock_wrapper::now() is exactly the wrapped clock's time, including when the wrapper has another period.",
     ["inputs", "histories"],
     "All pairs of the standard periods and some unusual ones, small and boundary tick counts, and every reading sequence of a scripted clock to the stated length.",
     "Tests convert one duration.",
     ["chrono.hpp"], [("treat_as_floating_point", "chrono.hpp"), ("to_fractional, clock_wrapper", "chrono.hpp")], ["count() of durations"])
prop("C20", "Limits bound every value",
     "limits<fraction>::max() and min() are the largest and smallest values a fraction of that representation can hold with a positive denominator, smallest() is its smallest positive value and undefined() is undefined; every defined fraction compares between min() and max() and every positive one is at least smallest() under the safe policies. std::numeric_limits agrees: min/lowest, max, epsilon, quiet_NaN, digits and signedness describe the same type. For mixed numbers whose two parts have one representation, limits and std::numeric_limits have the same bounds, smallest positive and undefined value as for its fractions.",
     ["inputs", "configurations"],
     "All small and boundary fractions against each bound, six representations, ten policies for the constants.",
     "Tests check the constants of one representation.",
     ["limits.hpp"], [("limits and numeric_limits specialisations", "limits.hpp")], ["constants and comparisons with them"])
prop("C21", "Compile-time evaluation agrees with run time",
     "Every arithmetic, comparison, query, reduction, rounding, power, mixed-number, literal and string-parsing operation can be evaluated in a constant expression within its stated preconditions, without undefined behaviour, and gives the same result as at run time.",
     ["inputs", "programs"],
     "All operand tuples of a small box plus boundary operands, for every constexpr operation of the public API, each evaluated by the compiler and at run time.",
     "Tests evaluate everything at run time only.",
     ["fraction.hpp", "ops.hpp", "fraction_math.hpp", "mixed_number.hpp", "parse_utilities.hpp", "floating_point.hpp"], [("constexpr functions", "all headers")], ["constant expressions"])
prop("C22", "Literals denote the fraction written",
     "n/d_fr denotes exactly the fraction with numerator n and denominator d (with either sign written before either part, and with n of any integer type giving the representation, or a fraction divided by the denominator), unreduced; x_dec denotes exactly the decimal or hexadecimal literal's value, and an invalid or undefined _dec literal throws instead of producing a value.",
     ["inputs"],
     "All small and boundary numerators and denominators with all sign placements and numerator types; all strings to the length bound for _dec.",
     "Tests write a few literals.",
     ["fraction_literals.hpp"], [("denominator_literal", "fraction_literals.hpp"), ("operator\"\"_dec", "fraction_literals.hpp")], ["literal values"])
prop("C23", "Operations are pure and independent across threads",
     "The result of every operation depends on its operands alone: not on what was computed before, on evaluation order or on other threads, and it modifies nothing but the left operand of an assignment or the target of a stream read. Two threads working on distinct fractions never affect each other, however they are interleaved.",
     ["schedules", "histories"],
     "All ordered pairs of operations (history of length two, and three on a smaller set), and for each pair of operations every interleaving with one preemption at every machine instruction of the first.",
     "Tests are single-threaded and call each operation on fresh data once.",
     ["ops.hpp", "fraction.hpp", "parse_utilities.hpp", "floating_point.hpp", "mixed_number.hpp", "hash.hpp"], [("absence of mutable shared state", "all headers")], ["results with and without interference"])
prop("C24", "The default policy is the one selected",
     "Without configuration fractions use the safe policy with inputs and outputs reduced; defining one of the IEME_DEFAULT_OPS_* macros selects exactly the named policy for every fraction, literal, power, conversion, mixed number and duration that does not name a policy, and all results stay exact.",
     ["configurations"],
     "All nine configurations (no macro and the eight macros), every defaulted entity of the API, and small operand tuples in each.",
     "Tests are built in one configuration only.",
     ["ops.hpp", "fraction.hpp", "fraction_literals.hpp", "mixed_number.hpp", "chrono.hpp"], [("macro ladder", "ops.hpp defaults")], ["types and result representations"])
prop("C25", "Policies never mix silently",
     "An operator applied to two fractions of different policies is rejected at compile time for every arithmetic, compound and comparison operator and every pair of distinct policies, while the same expression with equal policies is accepted; a fraction converts implicitly only to the same policy and explicitly to any.",
     ["programs", "configurations"],
     "All ordered pairs of ten policies times sixteen operators times three representation pairs, and all conversions among them.",
     "Tests cannot express that something does not compile and contain no such check.",
     ["fraction.hpp"], [("deleted operator overloads", "fraction.hpp"), ("explicit converting constructor", "fraction.hpp")], ["well-formedness of expressions"])
prop("C26", "Every header stands on its own",
     "Any public header can be the only one a program includes, can be included repeatedly and together with any others (and with standard headers) in any order, and in several translation units of one program. Whatever the history of #include directives, the program compiles and links, and everything the included headers declare is usable and gives the same answers.",
     ["programs", "configurations", "histories"],
     "All eighteen public headers alone and in every ordered pair (thorough: every ordered triple), every rotation of all of them both ways round, after two preludes of standard headers, under each IEME_DEFAULT_OPS_* macro, and in every pair of translation units.",
     "Each test program includes one fixed set of headers, most of them after the test framework's, and is a single translation unit.",
     ["chrono.hpp", "floating_point.hpp", "fraction_literals.hpp", "fraction_math.hpp", "fraction_queries.hpp", "hash.hpp", "limits.hpp",
      "math_utilities.hpp", "mixed_number.hpp", "numbers.hpp", "ops.hpp", "parse_utilities.hpp", "raw_fraction.hpp", "raw_fraction_math.hpp",
      "raw_fraction_queries.hpp", "reduce_mode.hpp", "ieme.hpp", "fraction.hpp"],
     [("#include directives", "each header"), ("linkage of non-template functions", "hash.hpp hash_combine, fraction_literals.hpp, parse_utilities.hpp")],
     ["well-formedness of translation units and programs; their answers"])

prop("C27", "Fractions are plain values",
     "A default-constructed fraction is 0/1 and a default-constructed mixed number is 0. num(), numerator(), raw().numerator and den(), denominator(), raw().denominator name the same two parts: what is written through one of them is read back through all of them, and nothing else changes. After any history of writes, constructions, assignments, copies, moves and swaps every object holds what was last put into it, whatever happened to the objects it was copied from.",
     ["histories", "inputs"],
     "All states reachable for two objects by writes through every accessor, constructions, assignments, copies, moves and swaps over a set of values, and all histories of three (four) such actions, for raw fractions, fractions of every policy and mixed numbers.",
     "Tests construct a few fractions and read them back once, never after a history of writes and copies.",
     ["fraction.hpp", "raw_fraction.hpp", "mixed_number.hpp"],
     [("accessors", "fraction.hpp numerator, denominator, num, den, raw"), ("default member initialisers", "fraction.hpp, mixed_number.hpp, raw_fraction.hpp"), ("constructors", "fraction.hpp, raw_fraction.hpp")],
     ["parts of both objects after every action"],
     [("raw_", "the two parts of a fraction", "fraction.hpp"), ("whole_, fractional_", "the two parts of a mixed number", "mixed_number.hpp")])
prop("C28", "A fraction does what its policy says",
     "Any type with the operations of ops::safe can be a fraction's policy, and reduced_input and reduced_output can be put around any policy, built-in or the user's own, in any nesting and with either mode. Every operator, compound assignment and comparison of such fractions, of one or two representations or with a scalar, then gives that policy's answer: for the operands as they are, for the operands in lowest terms (reduced_input), or in lowest terms itself (reduced_output). The policies' own functions on raw fractions give the same answers as the operators.",
     ["inputs", "configurations"],
     "All operand tuples of a box, of a lattice of common factors and of boundary values, under seven policies made from a checked policy of the user's own; the functions of all built-in policies on a box.",
     "Tests use the built-in policies only, under which an operator that asks another policy, or hands it unreduced operands, mostly still gives the right value.",
     ["fraction.hpp", "ops.hpp"],
     [("dispatch to the policy", "fraction.hpp operators"), ("wrappers", "ops.hpp reduced_input, reduced_output")],
     ["values, and whether they are defined, under a checked policy"])

prop("C29", "A fraction costs two integers and no operation needs more",
     "A fraction (raw or of any policy, also as a duration's count) occupies exactly the two integers it consists of and a mixed number three; all are trivially copyable, trivially destructible standard-layout types. No operation on them - construction, arithmetic, comparison, query, reduction, rounding, redenomination, power, hash, mixed numbers, conversion from and to floating point, parsing of any text, limits, durations - allocates memory or throws, whatever the operands; all except the _dec literal (which rejects a malformed text) are declared noexcept, which holds for every policy the library defines. Streams are exempt.",
     ["inputs", "configurations"],
     "All operand tuples of boxes and boundary values, all strings up to a length and longer malformed ones, for ten policies and four representations.",
     "Tests look at values; an allocation, an exception specification or a hidden member shows in none of them.",
     ["fraction.hpp", "ops.hpp", "mixed_number.hpp", "parse_utilities.hpp", "floating_point.hpp", "hash.hpp"],
     [("the two parts", "raw_fraction.hpp, fraction.hpp"), ("string_view scanning", "parse_utilities.hpp"), ("noexcept on every operation", "all headers")],
     ["allocation functions of the process, exceptions, sizeof, type traits, noexcept"])
prop("C30", "The same answers in every environment",
     "A program that uses the library gets the same answers whichever conforming compiler (GCC or Clang), language standard from C++20 on, optimisation level and options (plain char signed or unsigned, assertions on or off, with or without -fwrapv, run-time type information, a debug standard library or sanitizers) it is built with, and on machines of other widths of int, long and long double and of either byte order. fraction<long> answers as the fraction of the other type of that width does. Operations whose results are representable have no undefined behaviour in any of these environments.",
     ["configurations", "inputs"],
     "Eleven builds and eight (thorough: fourteen) other machines, 16 to 64 bits, times all operand tuples of boxes and boundary values, all strings up to four characters, and every other operation.",
     "Tests are built once, by one compiler, for one machine.",
     ["ops.hpp", "fraction.hpp", "raw_fraction_math.hpp", "fraction_math.hpp", "parse_utilities.hpp", "floating_point.hpp", "mixed_number.hpp", "math_utilities.hpp"],
     [("integer arithmetic in the representation itself", "ops.hpp, math_utilities.hpp"), ("digits of characters", "parse_utilities.hpp"), ("bits of floating-point numbers", "floating_point.hpp"), ("reads in order", "raw_fraction.hpp operator>>")],
     ["all answers of all operations, per environment"])

prop("C31", "No operation takes long, whatever the operands",
     "Every operation on fractions, raw fractions and mixed numbers of N-bit integers (arithmetic, comparison, reduction, rounding, redenomination, queries, hashes, durations, conversions) takes a number of steps bounded by a small multiple of N, whatever the operands: large and small parts together, coprime or not, neighbouring Fibonacci numbers, undefined fractions. So does a conversion from a float or double of any exponent. A power takes at most steps in proportion to its exponent, and parsing a text, well-formed or not, in proportion to its length.",
     ["inputs"],
     "All operand tuples of boxes, boundary values and the worst cases of known algorithms, powers with exponents up to thousands, texts up to thousands of characters, for ten policies and four representations.",
     "Tests use small operands, with which an algorithm that needs 2^N steps is as fast as any.",
     ["ops.hpp", "raw_fraction_math.hpp", "fraction_math.hpp", "math_utilities.hpp", "mixed_number.hpp", "parse_utilities.hpp", "floating_point.hpp"],
     [("greatest common divisors and least common multiples", "raw_fraction_math.hpp, ops.hpp"), ("comparison without overflow", "ops.hpp safe::compare"), ("powers", "math_utilities.hpp"), ("scanning", "parse_utilities.hpp")],
     ["basic blocks executed until each answer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
