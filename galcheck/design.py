"""Text of DESIGN.md (assembled by design_gen.py)."""
HEAD = '''# Static verification of jeremyong/gal

GAL is a header-only C++17 geometric algebra compiler: a user's lambda is turned into an expression tree during
constant evaluation, simplified, common subexpressions are extracted, and the reduced multivector is evaluated with
run-time numbers. Nearly all defects therefore live in *compile-time* code whose output differs for every
instantiation, and the run-time code of one instantiation is straight-line arithmetic. That shape suits static
analysis unusually well: for one instantiation, a dataflow pass over the compiler's intermediate representation
yields the exact function of the inputs that is computed, for all inputs.

## Machinery

    check.py PROPERTY        driver: builds the obligations, decides them, prints verdict, writes evidence/
    galcheck/registry.py     the properties (properties.jsonl and MANIFEST.json are generated from it: gen.py)
    galcheck/props*.py       per property, the obligations (which instantiations, which tables, which entry points)
    galcheck/corpus.py       seeded generators of expressions
    galcheck/expr.py, ga.py  reference model: Clifford algebra over any signature, written from the definitions
    galcheck/compilew.py     obligations -> translation units -> clang++ -emit-llvm (nothing is linked or run)
    galcheck/ir.py, sym.py   IR parser, forward dataflow pass, algebraic value domain
    galcheck/effects.py      call-graph effect analysis
    galcheck/headers.py      linkage analysis of include-only units
    galcheck/text.py         algebraic model of text for the printed form
    known-findings.txt       defects found (repaired and recorded)

**Value analysis** (technique "IR dataflow"). An obligation is a function `void w(T* out, args...)` that calls the
public API from /repo's current headers. clang translates it to LLVM IR with full inlining; the result is an SSA
function. One forward pass assigns every SSA value an element of an abstract domain: exact rational functions over
*atoms* (the scalar inputs, pi, e, and applications of sqrt/sin/cos/... to other abstract values), in a normal form in
which algebraically equal values are identical (sin and cos of the same argument satisfy sin²+cos²=1, sqrt(x)²=x, tan =
sin/cos). Memory is a map from (object, constant offset) to values; joins of control flow produce a guarded value
(gamma) with both alternatives, never an enumeration of paths. Loads from unwritten cells give *undef*. At the end each
output cell is compared with the reference model. There is no execution, no sampling of numbers, no solver. A cell that
differs, is undef or is conditional on something it should not depend on is reported, together with the program, the
component, the value computed and the value expected; a program that must compile and does not is reported with the
compiler's diagnostic (file, line). Everything outside the domain (calls the analysis does not know, offsets that are not constant) makes the
obligation *undecided*, which is counted in the evidence, never a violation; more than 20 % undecided means the analysis is
broken (exit 2). Each program has an allowance of processor time and memory; one that exceeds it is undecided, unless a
store to an input was already seen, which is reported. A program on which clang runs out of resources is put to g++; if
g++ rejects it, it does not compile. In a computation on doubles any conversion to a narrower type is reported.

**Tables** (technique "constant-evaluated tables"). The library's own arithmetic (rationals, sort, tuples, stack, blade
products) is `constexpr`. An obligation is a `constexpr` array; the compiler's type checker folds it and the initialiser
is read from the IR and compared with the reference. Enumerated exhaustively where the domain is small.

**Effect analysis**. On unoptimised IR, the set of functions and constants reachable from an entry point is searched for
constructs that the rule forbids; the function and instruction are reported.

**Oracle**. `ga.py` implements Clifford algebra directly from the definition (blades are bit sets, products by counting
transpositions and squaring generators by the signature), duals by complement sign, the conformal null basis by explicit
change of basis, entities by their documented formulas. It does not share any code or structure with the library.

**Why this reaches what tests cannot.** The suite evaluates a few expressions at a few numbers. Here every obligation is
settled for *all* inputs; the programs are enumerated systematically (every operation on every pair of entity types,
every literal, every signature of small dimension, every operation applied to every *shape* of operand with and without
a rational factor) and complemented by generated ones (seeded by VERIF_SEED).

**Bounds.** All values of the inputs in exact arithmetic; the programs are a finite set. Rounding, overflow and NaN
are not modelled. The translation by clang 18 at -O2 (no vectorisation, no contraction, no fast-math) is trusted.

**Robustness to refactoring.** Obligations use the public API wherever possible and look only at the IR, so names,
helpers, statement order and loop shapes inside the library do not matter. Obligations that need an internal name (user
signatures via `detail::compute`, blade product tables) form groups: when *every* obligation of a group fails to
compile, the name is gone and the group is skipped with a note instead of raising an alarm.

**Exit status.** 0 held on everything explored; 1 with a VIOLATION line; 2 analysis broken (headers do not compile,
witness missing from the IR, too much undecided). A check stops starting new batches after 600 s (quick) and reports how many
programs it did not reach.
'''

V = 'Value analysis. '
HOW = {
'C01': V + 'Full × full multivectors of the four algebras and of every signature of dimension 1–4 (thorough 5); every pair of named entities; squares; every literal on each side; triples of sparse operands in both bracketings; sparse operands in dimensions 5–8; `x*b`, `b*x`, and mixed forms for every operand shape (sums, scaled sums, quotients, functions, duals, …: 105 shapes); generated expressions. Blade product table (`gp` of all blade pairs, all signatures to dimension 4) read as constants. Cost ≈ 50 s.',
'C02': V + 'As C01 for `^`, `>>`, `|`; plus exterior chains of three to five factors in random bracketings with scaled and repeated factors (the library keeps chains as one variadic node and sorts them). Tables of the three blade products. Cost ≈ 75 s.',
'C03': V + 'Dual, double dual, dual of scaled/summed operands, `&` on all entity pairs and all operand shapes, literals, triple regressive products, all signatures to dimension 4 (6), layered multivectors in dimension 5–8. Cost ≈ 55 s.',
'C04': V + 'Reversion and sandwich on full, named and sparse operands, all operand shapes, nested sandwiches, signatures to dimension 4 and layered multivectors (every grade up to 8). Cost ≈ 90 s.',
'C05': V + 'Sums of up to six terms in every order and association with merging/cancelling rational factors (350 generated, thorough 4000), integer scale/offset on both sides, named pairs, all operand shapes under each linear operation. Cost ≈ 85 s.',
'C06': V + 'Each component of full and named operands, each grade, scalar products of all pairs, of every operand shape (scaled sums, products, zero parts), in user signatures and dimensions 5–8. Cost ≈ 75 s.',
'C07': V + 'Each function of each argument form and each pair of functions; divisors of every form; PI and E in every position; operands of every shape under division and function application; generated scalar expressions. Functions are opaque atoms of their normalised argument, so an argument off by a factor or a wrong temporary is a different atom. Inputs of entity types declared in the witness (scalar components that are polynomials of the stored numbers) as divisors and arguments. Cost ≈ 120 s.',
'C08': V + 'Every pair of nested operators in several positions and sharing patterns; pools of repeatedly used subexpressions (680 quick); expressions whose nodes have equal checksums under weak hashing and differing contents (collision pairs: same operator and components, different operands); expressions with up to hundreds of nodes; *twins*: two large subexpressions that differ in exactly one leaf, sign, factor, operator or selected component, side by side, so that an identity test that is too coarse merges them; *near pairs*: 140 pairs of small expressions whose internal forms agree but for one attribute (the factor kept inside a quotient or function, the selected part, an operand, the order of operands) in 51 contexts (sums of sums, products, exterior chains, several results, functions of both), shared out over C02, C05, C06, C07, C08 and C09. Cost ≈ 110 s.',
'C09': V + 'Tuples of two to sixteen results: sharing, duplicates, vanishing results, shared temporaries, permutations. Each result is compared with the reference of its own expression. Cost ≈ 25 s.',
'C10': V + 'Nineteen forms of zero under every operation in every position, zero entities (no components) as inputs, vanishing results among several; must compile and be exactly zero / absent. Cost ≈ 17 s.',
'C11': V + 'The witness also emits the element list of the result *type*; strict obligations require it to equal the support of the reference polynomial, sorted, without duplicates. Includes polynomial identities that vanish (commutators, Jacobi, expansions) and sums of pairs of monomials of equal degree in the same variables with different powers, which must not be collected. Cost ≈ 40 s.',
'C12': V + 'Parameter lists of up to dozens of mixed entities, numbers and empty entities, each used alone, in pairs, with temporaries. Inputs are distinct atoms, so a swapped or shifted binding is a different polynomial. Includes user-declared entity types (several components, constants, polynomials of the stored numbers) mixed with the supplied ones. Cost ≈ 25 s.',
'C13': V + 'Every entity type through identity, scaling, reversal, dual, each component; constructors and normalisations as functions of their arguments; a point passed from one model to another. Cost ≈ 6 s.',
'C14': V + 'Every target type from every relevant component subset, by construction, copy and computation, including missing/extra components and weights: all subsets of the defining components, with and without foreign ones, and random sources of every size; round trips. Cost ≈ 10 s.',
'C15': V + 'Every suffix × coefficients around every power-of-two boundary up to 2³¹−1, every pair of suffixes under the binary operations, with inputs. Cost ≈ 25 s.',
'C16': V + 'All grade pairs, each of the 32 blades alone and selected, points, temporaries and generated conformal expressions, against the reference that converts explicitly between null and natural basis. Cost ≈ 15 s.',
'C17': V + 'All operations on full multivectors for all signatures to dimension 3, products to dimension 4 (5), sparse operands to dimension 8, generator squares; blade product tables to dimension 5 (6); metric and algebra constants as tables. Cost ≈ 15 s.',
'C18': V + 'exp of every bivector form, logarithm and normalisation of motors: compared with the closed formulas as rational functions of the inputs, sqrt, sin, cos, atan atoms; both branches of the logarithm are decided through the guarded value. Cost ≈ 9 s.',
'C19': V + '`pow` for numerators −16…16 and denominators 1, 2 and selected others; powers arising in products and quotients, in both scalar types. Cost ≈ 10 s.',
'C20': 'Tables. All pairs of small rationals under all operations and comparisons, generated larger ones, near-overflow ones against the documented tolerance; conversion to floating point by value analysis. Cost ≈ 4 s.',
'C21': 'Tables. All patterns up to length five, generated ones of up to 300 (600) elements, three orders; result must be an ordered permutation (stability is not claimed). Cost ≈ 3 s.',
'C22': 'Tables. All sizes to twelve and selected ones to 33, all positions, for the tuple operations; generated histories for stacks of capacity 1 to 300 (push, pop, multiple pop, peek at any depth through const and non-const access, index, clear), against a list model. Cost ≈ 2 s.',
'C23': 'Effect analysis. One entry point per public operation, entity, constructor, conversion and scalar type, plus generated expressions; the unoptimised IR of everything reachable is searched for mutable globals, guards of lazily initialised statics, thread-local storage, atomics, volatile accesses, inline assembly, calls other than mathematical functions; writes through inputs are found by the value analysis; aliased inputs (same object twice, result over an input) by value analysis. Absence of shared state implies freedom from races in every schedule. Cost ≈ 20 s.',
'C24': V + 'All accessors of all entity types for reading and writing in both scalar types; generic entities of random component subsets and with up to 256 components; sizes, trivial copyability as tables. Cost ≈ 45 s.',
'C25': 'Type dataflow: no floating-point instruction, constant or call of another type than the inputs\' in the IR of any obligation; values decided as well. Both scalar types. Cost ≈ 23 s.',
'C26': V + 'Rotors (general axis and norm), translators, reflections: expected values are the classical formulas (Rodrigues, p + d, v − 2(v·n)n), independent of geometric algebra. The matrix of every mover × every moved entity × every way to write the motion × scalar type; in addition generated motions with composite movers (products, reversals, blends, literals) against the reference algebra. Cost ≈ 60 s.',
'C27': V + 'Join/meet of points, lines and planes, dot, cross, triple products, distances; expected values from vector calculus. Several equivalent forms of each; generated joins, meets and inner products of composite operands (blends, multiples, nested joins and meets, duals, literals) in all four models against the reference algebra. Cost ≈ 10 s.',
'C29': 'Value analysis with a model of text: at the point where gal/format.hpp is included, stream and string are replaced by classes that represent a text as a polynomial in a symbol X (character codes and printed numbers as coefficients), so the printed text of an arbitrary entity is one value of the domain and is compared with the documented form. Every blade of every algebra, all grades, sparse subsets, dimensions to 8. If the header uses facilities the model does not have, the obligations are skipped with a note. Cost ≈ 5 s.',
'C30': 'Tables. Generated polynomials (up to five indeterminates per monomial, integer, negative and fractional exponents, rational coefficients) per blade, in nine algebras; each operation on compile-time multivectors is constant-evaluated and its result listed; the list must be canonical and equal polynomial arithmetic on dictionaries. Cost ≈ 15 s.',
'C28': 'Linkage analysis. Each header alone, ordered pairs of the model headers, random permutations: compiles, defines no strong external symbol, has no dynamic initialiser. Cost ≈ 3 s.',
}

TAIL = '''## Out of reach, and not claimed

* `samples/` needs a Vulkan SDK and `benchmark/` third-party libraries that are not installed: they cannot be type-checked here,
  and they are users of the library, not part of its guarantees.
* Rounding error, NaN propagation, speed and compile time: see the not-applicable list above.

## Findings

All alarms raised on the original tree were investigated. Twenty-nine were genuine defects with small repairs, each a `fix:`
commit, listed with what failed in known-findings.txt (lost rational factors, wrong sharing of subexpressions,
E evaluated to pi, sign errors of entities, selections and conversions, zero handling, multi-result lengths, conformal
literals, rational arithmetic, tuple and stack defects, …). One is recorded and not repaired:

* `gal/cga2.hpp` does not compile: it is written against an interface that no longer exists; repairing it means
  rewriting the header (C28, known finding; any other header failing is still a violation).

## False alarms met while building, and what was done

* Transcendental functions of constants and sums such as PI + 1 are folded by the compiler to rounded numbers: such
  expressions are excluded from the corpus (reference model rejects them).
* Point distance / normalisation obligations first demanded sqrt of a perfect square to simplify with a sign: the domain treats
  sqrt(x²) as opaque and the obligations state the squared relation.
* `metric<4, 1, 0>` is the conformal model (null basis) by design; it is excluded from the generic signatures.
* Repeated subexpressions can hide a cancellation from the type of the result (a temporary is opaque): strictness of the
  result type (C11) is only demanded of expressions without repeated subexpressions.
* Entities have no const iteration; the storage obligations do not ask for it.

## Planted bugs

'''
