import json,glob,os
head = r'''# Model checking Ieme

Ieme is a header-only template library: pure functions over pairs of machine
integers, under eight (or more) arithmetic policies. Its guarantees are of the
form "for every operand, representation, policy and operand shape", "along every
history of assignments", "for every text and every way a stream delivers it" and
"for every schedule of two threads". This directory decides them by model
checking of the *real code*: every check is a program compiled from `/repo`'s
headers that enumerates a bounded space of behaviours completely, executes the
implementation on each of them, and compares what it did with a small reference
model. Nothing is sampled, nothing is solved symbolically, no model stands in
for the code: each explored trace *is* an execution of the implementation, so
the conformance of model and code is checked on every one of them.

## How it is built

* `run.py <ID>` builds the harness of one property from `$IEME_REPO` (`/repo`)
  in a scratch directory, runs its units on all cores, writes
  `evidence/<ID>.json`, prints `VIOLATION property=<ID> replay=<file>` and exits
  1, or exits 0. `run.py <ID> --replay <file>` runs the recorded cases again.
  Exit 2 is an error of the check itself (no verdict).
* `lib/specs.py`: what each check is made of. `tools/mkprops.py` and
  `tools/mkmanifest.py` write `properties.jsonl` and `MANIFEST.json`.
* `harness/mc.hpp`: the explorer. A *unit* is one deterministic, complete
  enumeration; a *case* inside it is announced with `begin(...)`. The first case
  that fails, crashes (SIGFPE, SIGSEGV, SIGILL, SIGABRT) or does not return (15 s
  of CPU time) ends its unit and is reported with its operands and ordinal.
* Before a violation is believed, the unit is **run again up to that very case**;
  only what fails again is reported. After eight confirmed failing units the rest
  is skipped (`exhaustive` is then false in the evidence).
* `harness/ref.hpp`: the reference model: 128-bit exact rationals, an exact
  three-way comparison by continued fractions, floor division, "does it fit"
  predicates for the preconditions, and the pools of boundary values.
  `harness/domains.hpp`: the spaces of operand tuples. `harness/policies.hpp`: the
  ten policies (safe and fast, each plain, reduced in, out, in and out, plus
  the two sign-mode variants that no alias names).
  `harness/literal.hpp`: an independent recogniser and evaluator of C++
  floating-point literals.
* A harness part that no longer compiles while the umbrella header still does is
  a violation (the API the property is about cannot be used); if nothing compiles
  it is an error.

Spaces that recur ("quick / thorough"): **box n** = all tuples with every part in
-n..n; **edge** = all tuples over boundary values (0, 1, 2, powers of two and
ten and their neighbours, square roots of the limits, the limits and their
halves and thirds, negatives); **wide** = a finer edge pool paired with a few
small values; **square** = every fraction p/q up to a bound against a handful of
others; **lattice** = multiples of small fractions by common factors with all
sixteen sign patterns. Preconditions (what must be representable) are computed
in 128 bits by the model; a tuple outside them is not judged.

In the evidence "states" are operand tuples, register states, texts or schedules,
"traces" are executions of the implementation on one of them (tuple x policy,
say), "transitions" are single API calls whose result was compared.

**Hooks.** None: everything goes through the public API, and the controlled
scheduler works on unmodified machine code. `/repo` carries only `fix:` commits.

**Judging behaviour only.** Harnesses use the public API and compare values;
representations are compared only where the property states them (reduction,
redenomination, conversions, streams, output-reducing policies). A tree in which
about twenty functions were rewritten at once (square-and-multiply as a linear
loop, gcd as an explicit Euclid loop, reordered sums, helpers and temporaries in
parsing, rounding, hashing, streams, mixed numbers and compound assignment) is
quiet under all checks. Two things follow: exponents of pow stop at 2^24+1, so
that a linear pow is still checked in time, and hashes are compared with each
other only.

## The properties

Each is claimed at level `model_checking`. Why tests cannot settle them: the
quantifier. 187 tests evaluate a few hundred operand tuples in total, nearly all
small, positive and reduced, in one thread, with one representation.

'''
P = {}
P['C01'] = ("all tuples (a/b, c/d) x ten policies x {fraction-fraction, fraction-scalar, scalar-fraction} x five operators and the unary signs; four representations (int, long long, unsigned, unsigned long long)",
 "exact 128-bit rationals; judged when cross products and result are representable",
 "box 16/40 (int), 8/24 (64 bits), 14/48 (unsigned); edge; wide pools against few 3/6; square 120/700; lattice")
P['C02'] = ("as C01 with six comparisons, scalars on either side",
 "continued-fraction comparison, exact for all 64-bit parts. Safe policies: every tuple with a positive denominator and any numerator, or a negative denominator with both parts above the lowest value; fast ones when the cross products fit",
 "box 13/32, 7/20, 12/40; edge; wide; neighbours of equal fractions; lowest values")
P['C03'] = ("all tuples in which at least one operand is undefined, or a divisor is zero; every operator, comparison, compound assignment, query, sign change, reduction, mixed-number operation and conversion to floating point",
 "the result must be undefined (false, true for !=, a NaN); a trap is a violation", "box 8/16 including zeros, edge values against zero denominators")
P['C04'] = ("single fractions (and raw fractions) x policies x reduce modes, applied once and twice",
 "Euclid in 128 bits", "square 250/2500, edge, runs of 5000/400000 along limits, multiples by common factors")
P['C05'] = ("single fractions over the full range including the lowest value, all thirteen queries; pairs for are_identical",
 "the mathematical definition in 128 bits", "square 700/3000, edge, runs 40000/1M from zero and from both limits")
P['C06'] = ("single fractions x {trunc, floor, ceil, round, to_whole in each mode and by default}",
 "floor division in 128 bits", "as C05 plus all halves and their neighbours")
P['C07'] = ("fractions x new denominators x four modes and the default", "exact; with a negative new denominator either neighbour is accepted for a tie (the statement leaves it open)",
 "box^3 48/120, edge values, new denominators that are multiples of the old one")
P['C08'] = ("(base, exponent) with a representable power, three policies plus the default argument", "repeated multiplication in 128 bits",
 "all bases to 100000/3M, exponents -64..64; bases 0, 1, -1 up to 2^24+1")
P['C09'] = ("as C01 under the output-reducing policies, plus compound assignments and unary minus", "canonical form of the exact result; lowest terms up to sign where the policy ignores signs", "box 10/30, edge, wide, lattice")
P['C10'] = ("tuples whose cross products overflow while the least-common-denominator form (or the form in lowest terms) fits", "exact; preconditions computed for exactly that form", "edge, wide, tuples sharing large factors of their denominators, unreduced multiples")
P['C11'] = ("5 left x 7 right representations x all operators and comparisons x shapes; conversions between all representations and policies; std::ratio", "both operands converted to the common type, then C01/C02's oracle", "edge values of both types crossed, three policy groups, twenty ratios")
P['C12'] = ("explicit-state search: the states are two registers x, y of the real type, the actions compound assignments with y, x itself, references to x's own parts, fractions and scalars of the same and another representation, copies and swaps; plus every x op= y with y of four representations at their limits", "exact rationals next to the registers; the returned reference, the right operand and the bystander are checked after each step", "all histories to depth 3/4, ten policies, four representations")
P['C13'] = ("construction from all parts and fractions; explicit-state search over histories of sums (mixed, fraction, whole; either side; other representations), negations and round trips; sums whose whole parts are near the limits", "exact value next to the register, invariant after every step", "parts box 7..20 x 16..40; edge; fractions 150/600; histories to depth 4/5; five pairs of representations")
P['C14'] = ("floats and doubles: every exponent and sign with structured mantissas (thorough: all 2^32 floats); NaNs and infinities", "the significand and exponent taken from the bits, in 128 bits", "four representations")
P['C15'] = ("fractions to float, double, long double; and back", "exact nearest-even quotient by 128-bit division when the parts in lowest terms are representable, else three units of rounding error", "square 180/1200, edge, parts around the mantissa sizes")
P['C16'] = ("all strings over the full alphabet (digits, letters, separators, signs, points, exponents) to length 5-6/7, over the core alphabet to 7/9; structured literals; every one-character mutation of them", "harness/literal.hpp, an independent grammar and exact evaluator", "exhaustive within these lengths, 32- and 64-bit representations")
P['C17'] = ("all texts over the alphabet of fractions to length 6/7; for those to 4/5 every way of cutting them into chunks of the stream buffer and every position at which it reports end or throws; written output of all pools, in several bases, field widths and with grouped digits; sequences; the same on streams told to throw (exceptions())", "a reference reader; position, state bits, value and the rest of the stream are compared", "see left")
P['C18'] = ("one part fixed to every value of a set, the other varied over it (hashes must differ); pairs of equal and unequal fractions, raw fractions and mixed numbers; histories of insert, find and erase on unordered_set and unordered_map", "equality of the values; a set of exact rationals", "square, multiples, container histories to depth 3/4")
P['C19'] = ("7 x 7 periods x counts: conversions, casts, arithmetic, comparisons, time points; every history of three readings of a scripted clock through clock_wrapper; implicit convertibility for six representations and ten policies", "exact rationals", "counts box 14/40 and clock-like boundaries, denominators of both signs; six (representation, policy) builds")
P['C20'] = ("limits and numeric_limits constants of fractions and of mixed numbers, six representations x ten policies; all boundary fractions against each bound", "the definition", "edge pools, box")
P['C21'] = ("operand tuples evaluated by the compiler's constant evaluator, which rejects undefined behaviour, into tables; the same calls at run time; harnesses of other properties rebuilt with overflow, shift and division traps", "the two must agree; a table that is not a constant expression is a violation; a trap is a violation", "the operation groups x representations; C05 and C06 (thorough: also C01 C02 C04 C07 C08 C10) under traps")
P['C22'] = ("n/d_fr for all n, d in a box and boundary values, with signs in every place, seven numerator types, fractions over denominators; _dec with generated tokens", "the parts as written; the literal's exact value", "box 300/1200")
P['C23'] = ("(histories) every ordered pair of some 60 operations x variants, and triples of one operation, each from a fresh process; a long walk through all triples in one process. (schedules) thread 1 runs A under the CPU's trap flag; at each of its instruction boundaries the process is forked and thread 2 runs B to the end on its own stack and TLS before A continues: every schedule with one preemption. For short operations B is itself preempted at each instruction. All this on optimised code, and pairs of the same operation also on unoptimised code, where statics are really stored and read back at each step", "each operation's result on its own, in a fresh process; operands unchanged", "about 2.4 million schedules (quick); sequentially consistent interleavings; a schedule in which B blocks on something A holds is not of this kind and skipped")
P['C24'] = ("nine build configurations (no macro and each IEME_DEFAULT_OPS_*): each defaulted entity's policy, and a box of operands", "the named policy; C01's oracle", "box 12")
P['C25'] = ("(policy, policy, operator, representations, value category): is the expression accepted by overload resolution?", "accepted iff the policies are equal; implicit conversion iff equal, explicit always", "ten policies squared, sixteen operators, six pairs of representations: complete")
P['C26'] = ("histories of #include directives: every header alone, every ordered pair (thorough: triple), every rotation of all, after preludes of standard headers, under each policy macro; pairs of translation units. Histories that preprocess to the same text are one state, compiled once and made to use everything any of those histories included", "it compiles, links and every answer is the one written down in harness/c26_use.hpp (which includes nothing of the library itself)", "18 headers: some 600 histories, 300 distinct translation units, 324 two-unit programs")
P['C27'] = ("explicit-state search: the states are the parts of two real objects, the actions writes through each accessor, each construction, assignment, copy, move, self-assignment, swap; to closure, and all histories without merging states", "a model of four integers; after each action both objects are read through every accessor, const and not, and compared with newly made ones", "3 to 7 values; histories of 3/4 actions; raw fractions, ten policies, four representations; mixed numbers pairwise")
P['C28'] = ("operand tuples under policies defined in the harness: `checked` (schoolbook formulas, undefined on overflow), and reduced_input / reduced_output of it in both modes and nestings; all operators, compounds, comparisons, shapes and two representations. Because `checked` shows overflow, an answer tells which operands the policy was handed. Also every built-in policy's own functions against the operators", "a second computation in 128 bits of what `checked` says about the operands (in lowest terms, for reduced_input); lowest terms of the answer for reduced_output", "box 4/7 (unsigned 8/14), wide pool 0/1, lattice; thorough also the boundary values in all four places")
P['C29'] = ("every operation (harness/rows.hpp, and those that are not constant expressions) on boxes of operands, boundary values, powers, strings and malformed strings, for ten policies and four representations; the types and some 130 expressions", "malloc, calloc, realloc, aligned_alloc (and through them new) of the process are replaced by counting ones: the count must not move during an operation; exceptions are caught; sizeof, type traits and noexcept as stated", "box 4 (unsigned 4; thorough 8/16), boundary pairs, all strings up to 4 over 9 characters")
P['C30'] = ("environments. Natively: eleven builds (g++ and clang++, O0 to O3 and Os, C++20/23/26, -funsigned-char, -fshort-enums, -ftrapv, without -fwrapv, NDEBUG, debug and asserting libstdc++, no RTTI, undefined-behaviour sanitizers) of one program that executes every operation of harness/rows.hpp and the non-constant ones on complete operand sets for six representations. Other machines: clang's constant evaluator executes the same program for i686, mips, armv7, windows, powerpc64, aarch64, msp430 and avr (thorough: six more), with the system's libstdc++ headers over small stand-ins (harness/elsewhere) for glibc's notion of the word size. to_fraction of floats and doubles, which is not constexpr, is compiled for powerpc64, mips and s390x (thorough: five more big-endian machines) and LLVM's interpreter executes the intermediate code: its loads are corrected to the machine's byte order first, code with anything the interpreter could get wrong is left out, and a wrong answer counts only if two optimisation levels agree on the case", "the answers of the build all other checks use (those are compared with the exact reference there): one digest per unit, and on a difference a bisection over prefixes to the first case, whose operands and both rows of answers are reported. A machine is left out, and said so, if standard headers alone do not compile for it or the errors are in system headers", "some 39000 operand tuples per unit natively, 11000 elsewhere (3200 on 16 bits, with all values under 2^15); the 16-bit machines are compared with a native build of the same cases")
P['C31'] = ("every operation (harness/rows.hpp, and those that are not constant expressions) on boxes of operands, boundary values and the worst operands of known algorithms (neighbouring Fibonacci numbers for Euclid's, 1 and the largest values for repeated subtraction, powers of two and three; near half and all of the bits) in all four places; exponents of 1, -1 and 0 up to 4100, floats and doubles of every exponent, texts of up to 12000 characters", "every basic block executed is counted (gcc's trace-pc instrumentation of library and standard headers): no answer after more than 1000 + 800 N steps (+ 100 per character of a text, + 50 times the exponent of a power), which is five to ten times what the answers take now, without optimisation (5000 for six comparisons of 32 bits, 15 per character), so that rearranged code stays far below it and an algorithm of another order far above", "box 3/6 (unsigned same), 22 worst values (thorough 40) to the power of four with signs, 8201 exponents, 9 x 5 x 2111 floating-point values, 2560 texts")
tail = r'''
## What the bounds leave out

* A quick check that is still running after 600 s (an order of magnitude more
  than on an idle sandbox) leaves the units it has not explored out, says so in
  its output and evidence (units_left_out_for_lack_of_time, exhaustive: false) and
  decides on those it has. It does not happen on a sandbox that is not overloaded.
* C30 needs exceptions to be enabled (with -fno-exceptions the throw in
  operator""_dec does not compile) and does not claim to_fraction(double) where a
  double has 32 bits (avr).
* 128-bit and user-defined representations, and fraction<short> (which does not
  compile: integral promotion makes its braced initialisations narrowing).
* Results that are undefined anyway may still compute products that overflow
  (outside the preconditions, as is everything C++ calls overflow).
* C25 is about two fractions; mixed_number + fraction of another policy is
  accepted through the generic mixed + whole overload and is not claimed.
* limits and numeric_limits of mixed numbers are specialised for parts of one
  representation; for others the standard's primary template applies.
* What a stream read does with characters between the numerator and the slash
  (it skips them) is not claimed.
* reciprocal(n/0) is 0/n, which is defined: reciprocal swaps the parts, as C04
  says.
* Weak memory orders: C23's interleavings are sequentially consistent. The library
  has no shared state on the unchanged tree at all, so that any interleaving of
  any memory model is the same as none.
* The README promises C++17, CMake asks for C++20 and std::endian needs it: only C++20
  is checked.

## Findings

All genuine defects found were small to repair; each is one `fix:` commit in
`/repo`, listed in `known-findings.txt`, and the existing tests pass with them.
No open findings.

'''
import re
kf=open('/verif/known-findings.txt').read().strip().split('\n')
fx=''.join('* '+re.sub(r'^fixed: property=(\S+) (\S+) ',r'\1, `\2`: ',l)+'\n' for l in kf)
fa = r'''
### False alarms, and what became of them

* C01 and C09 first judged tuples whose result fits but whose own unary minus
  overflows: precondition corrected. The reference's own products overflowed at
  the limits of 64 bits: they saturate now.
* C02 compared by 128-bit cross products that overflowed for 64-bit parts; replaced by
  continued fractions.
* C07 demanded upward ties for negative new denominators as well; the statement
  says "for positive k" now.
* C15's error bound was one unit for parts that are not representable; the
  division of two rounded parts has three. Stated as three.
* C23 reported the C++ standard streams' one-time initialisation as shared
  state; it is done before exploration now. Its thorough tier ended the second thread
  of a schedule with two preemptions at its first trap (it inherits a mask in which
  the trap is blocked); unblocked now, and the quick tier has such schedules too.
* C08 tried exponents up to 2^31-1 for bases 0 and 1, which is no property of
  square-and-multiply alone but took hours with a (legitimate) linear loop; bounded.
* A compiler or a machine too slow was taken for a violation (compile time-out); it is an
  error now.

'''
mem=r'''## Planted bugs

`seeded/` holds the changes planted to test the machinery, each written from a
property's text and the code, each compiling and passing all existing tests, with
a demonstration. `(was missed)` marks those the check did not catch when they were
planted; it was then strengthened as described.

| change | property | needs | caught by |
|---|---|---|---|
'''
missed={'c18-mixed-raw':'mixed numbers with unreduced fractional parts added to C18','c13-mixed-plus-fraction':'sums near the limits of the whole part added to C13','c19-not-floating':'unsigned builds and the convertibility matrix added to C19','c12-compound-common':'right operands of four representations at their limits added to C12','c23-static-bits':'unoptimised build added to C23'}
extra={}
if os.path.exists('/verif/tools/missed.json'):
    missed.update(json.load(open('/verif/tools/missed.json')))
rows=''
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); i=m.split('/')[-2]
    rows+='| %s | %s | %s | %s%s |\n'%(i,d['property'],d['needs'].replace('|','\\|'),d['property'],(' (was missed: '+missed[i]+')') if i in missed else '')
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
out=head
for k in sorted(P):
    e,o,b=P[k]
    out+='### %s %s\n\n*Explored:* %s.\n*Oracle:* %s.\n*Bounds (quick/thorough):* %s.\n\n'%(k,props[k]['title'],e,o,b)
missing=set(props)-set(P)
assert not missing,missing
out+=tail+fx+fa+mem+rows
import textwrap
res=[]
for line in out.split('\n'):
    if line.startswith(('|','#')) or len(line)<=100: res.append(line)
    else: res+=textwrap.wrap(line,96,break_long_words=False,break_on_hyphens=False,subsequent_indent='  ' if line.startswith('* ') else '')
open('/verif/DESIGN.md','w').write('\n'.join(res).rstrip()+'\n')
