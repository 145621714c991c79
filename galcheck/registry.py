"""The properties, and how each is decided."""
from . import props as P, props2 as P2, effects as F, headers as H, text as X, symb as S
from .props import sigs

PUB = 'public/gal/'
TV = 'IR dataflow (value numbering to an algebraic normal form) against a reference model'
TB = 'constant-evaluated tables read from the IR, against a reference model'
NOTE = ('each program is an instantiation of the public API over symbolic inputs: agreement is for every value of the inputs (exact arithmetic), '
        'for the enumerated and generated programs only')
TEST_WHY = 'The suite evaluates a few fixed expressions at a few numbers; '


class Prop:
    def __init__(self, id, title, statement, over, text, why, files, mech, build, technique=TV, level='translation_validation', note=NOTE, extra=(), batch=12, runner=None):
        self.id, self.title, self.statement, self.over, self.text, self.why = id, title, statement, over, text, why
        self.files, self.mech, self.build, self.technique, self.level, self.note = [PUB + f for f in files], mech, build, technique, level, note
        self.extra, self.batch, self.runner = extra, batch, runner

    def record(self):
        return dict(id=self.id, title=self.title, statement=self.statement, quantifier=dict(over=self.over, text=self.text), why_tests_cant=self.why,
                    anchors=dict(files=self.files, mechanism=[dict(name=n, where=PUB + w) for n, w in self.mech]))


def cat(*fs):
    def build(tier, seed):
        out = []
        for f in fs:
            out += f(tier, seed)
        return out
    return build


def tables(*names):
    def build(tier, seed):
        return P2.cayley(['vga', 'pga', 'pga2', 'cga'] + sigs(range(1, 5 if tier == 'quick' else 6)), names)
    return build


IP = ['inputs', 'programs']
def near(pairs, ctxs, keep):
    return lambda t, s: P2.near_twins(t, s, pairs, ctxs, keep)


ALL = 'all input values, for every expression built from the operations of the four shipped algebras and user-defined signatures'

PROPS = [
    Prop('C01', 'Geometric product is exact and associative',
         'For every pair of multivectors of an algebra, the product `a * b` has in each component exactly the value the Clifford product of that signature assigns, whatever subset of components the operands carry. '
         'Longer products have the value of the associative product in either bracketing, and operands that are sums, scalar multiples, literals or the same input repeated change nothing.',
         IP, ALL, TEST_WHY + 'a wrong sign or a dropped term for one pair of blades, one sparsity pattern or one bracketing stays invisible.',
         ['geometric_algebra.hpp', 'algebra.hpp', 'expr.hpp'], [('blade product with metric contraction', 'geometric_algebra.hpp'), ('sparse polynomial product and collection', 'algebra.hpp')],
         cat(P.c_geometric, tables('geometric'))),
    Prop('C02', 'Exterior, contraction and inner products are exact',
         'For every pair of multivectors, `a ^ b`, `a >> b` and `a | b` have in each component exactly the value of the exterior product, the left contraction and the symmetric (fat dot) inner product of the algebra. '
         'The exterior product is associative and anticommutes on vectors for any number of factors, in any order and with repetitions.',
         IP, ALL, TEST_WHY + 'n-ary chains reorder and merge factors by position and parity, which only specific orders exercise.',
         ['geometric_algebra.hpp', 'expr.hpp', 'dfa.hpp'], [('blade rules of the graded products', 'geometric_algebra.hpp'), ('flattening and reordering of exterior chains', 'expr.hpp')],
         cat(P.c_graded, tables('exterior', 'contract', 'symmetric_inner'), near(None, ('ext',), .5))),
    Prop('C03', 'Dual and regressive product are exact',
         'For every multivector, `!a` is the Poincaré dual of the algebra (every component moved to its complement with the sign of the permutation), and `a & b` is the regressive product obtained by dualising both operands, wedging and dualising back. '
         'This holds for every component subset, also when dualised again, combined with other operations or applied to sums and scalar multiples.',
         IP, ALL, TEST_WHY + 'sign errors of the complement permutation appear only for particular blades and dimensions.',
         ['expr.hpp', 'algebra.hpp', 'dfa.hpp', 'geometric_algebra.hpp'], [('complement with permutation sign', 'algebra.hpp'), ('dual rewriting of the regressive product', 'expr.hpp')],
         P.c_dual),
    Prop('C04', 'Reversion and sandwich product are exact',
         'For every multivector, `~a` reverses the order of the factors of each blade (sign by grade), and the sandwich `a % b` equals `b * a * ~b`. '
         'Both hold for every component subset, nested, scaled and in combination with every other operation.',
         IP, ALL, TEST_WHY + 'the simplifications of nested reversions and sandwiches depend on the structure of the operand.',
         ['expr.hpp', 'algebra.hpp', 'dfa.hpp'], [('grade signs of the reversion', 'algebra.hpp'), ('sandwich expansion', 'expr.hpp')],
         P.c_sandwich),
    Prop('C05', 'Sums, differences and scalar multiples are exact',
         'Addition, subtraction, negation, and multiplication, division and offset by integers act component-wise and exactly on every expression. '
         'The value does not depend on the order or bracketing of the terms, on how often a term is repeated, or on the rational factors it carries.',
         IP, ALL, TEST_WHY + 'merging of like terms depends on the order of internal hashes, so a defect shows only for particular operand combinations.',
         ['expr.hpp', 'algebra.hpp', 'numeric.hpp'], [('n-ary sum merging with rational factors', 'expr.hpp'), ('multivector sum', 'algebra.hpp')],
         cat(P.c_linear, near(None, ('sum',), .5))),
    Prop('C06', 'Component and grade selection and scalar product are exact',
         'Selecting a component of any expression yields exactly that coefficient, selecting a grade yields exactly the part of that grade, and the scalar product of two expressions is the scalar part of their product. '
         'Parts that the operand does not carry are zero.',
         IP, ALL, TEST_WHY + 'only a handful of selections on full operands are tried.',
         ['expr.hpp', 'algebra.hpp', 'dfa.hpp'], [('component and grade extraction', 'algebra.hpp'), ('selection nodes', 'expr.hpp')],
         cat(P.c_select, near(('sel',), None, .6))),
    Prop('C07', 'Scalar functions, division and constants are exact',
         'sqrt, sin, cos and tan of any scalar expression, division by any scalar expression, and the constants PI and E have the value of the mathematical function of the whole argument. '
         'This includes arguments that are sums, multiples, quotients, powers or other function values, repeated uses of the same argument, and use of the result in any further operation.',
         IP, ALL, TEST_WHY + 'arguments are hoisted into temporaries whose factor and identity depend on the expression around them.',
         ['expr.hpp', 'dfa.hpp', 'engine.hpp'], [('extraction of function arguments into temporaries', 'dfa.hpp'), ('evaluation order of temporaries', 'engine.hpp')],
         cat(P.c_scalar, near(('fun', 'div'), None, .3), P2.user_scalars)),
    Prop('C08', 'Every composed expression has its mathematical value',
         'For every expression composed from the operations of the library, however large, nested or repetitive, the computed components are those of the expression evaluated operation by operation. '
         'In particular sharing of common subexpressions is unobservable: two subexpressions are treated as one only when they are equal, wherever and however often they occur.',
         IP, ALL, TEST_WHY + 'identity of subexpressions is decided through hashes, and which subexpressions meet depends on the whole program.',
         ['dfa.hpp', 'expr.hpp', 'engine.hpp', 'crc.hpp'], [('common subexpression elimination', 'dfa.hpp'), ('node comparison and checksums', 'expr.hpp')],
         cat(P.c_compose, lambda t, s: P2.collision_exprs(t), P2.big_exprs, P2.twin_exprs, near(None, None, .15)), batch=8),
    Prop('C09', 'Computations with several results are independent and ordered',
         'When one computation returns several results, the i-th result has exactly the components and value it would have if computed alone, for any number of results. '
         'Sharing, duplication and order of the results do not influence each other.',
         IP, 'all input values, for every tuple of result expressions', TEST_WHY + 'interactions between results depend on which of them share subexpressions or temporaries.',
         ['engine.hpp', 'expr.hpp', 'dfa.hpp'], [('concatenation of results', 'expr.hpp'), ('finalisation of several entities', 'engine.hpp')],
         cat(P.c_multi, near(None, ('multi',), .6))),
    Prop('C10', 'Expressions that vanish are handled exactly',
         'An expression, subexpression or result that is identically zero behaves as zero: it contributes nothing to a sum, annihilates every product, and yields a result without components, alone or among several results. '
         'No operation on it fails to compile or leaves a component unspecified.',
         IP, ALL, TEST_WHY + 'zero arises only from particular cancellations and degenerate metrics, and takes separate code paths in every operation.',
         ['expr.hpp', 'dfa.hpp', 'algebra.hpp', 'engine.hpp'], [('zero short-cuts of the operators', 'expr.hpp'), ('empty multivectors', 'algebra.hpp')],
         P.c_zero),
    Prop('C11', 'Terms that cancel do not appear in the result type',
         'The result of a polynomial expression carries exactly the components that are not identically zero as polynomials in the inputs, each once and in increasing order of basis blade, and has the scalar type of the inputs. '
         'Equal monomials are always collected, wherever they come from.',
         IP, ALL, TEST_WHY + 'the set of components is a property of the type of each instantiation.',
         ['algebra.hpp', 'engine.hpp'], [('sorting and collection of terms and monomials', 'algebra.hpp'), ('result type from the reduced form', 'engine.hpp')],
         P.c_types),
    Prop('C12', 'Every input is bound to its own values',
         'Each parameter of the expression denotes the argument passed in the same position, and each of its components denotes the corresponding stored number. '
         'This holds for any number and mix of entity types, generic multivectors and plain numbers, including unused, repeated and empty arguments.',
         IP, 'all input values, for every parameter list', TEST_WHY + 'offsets of later inputs depend on the types of the earlier ones.',
         ['engine.hpp', 'dfa.hpp', 'expr.hpp', 'entity.hpp'], [('numbering of input scalars', 'expr.hpp'), ('binding of numbers to storage', 'engine.hpp')],
         cat(P.c_binding, P2.user_entities)),
    Prop('C13', 'Geometric entities denote their documented multivectors',
         'Every entity type of every algebra (vectors, points, planes, lines, rotors, translators, motors, scalars) enters a computation as its documented multivector, and its constructors, angle and axis parameters and normalisations set the stored numbers accordingly. '
         'A point used in another model keeps its coordinates.',
         IP, 'all stored values, for every entity type and scalar type, in every operation', TEST_WHY + 'several entity types and components are never touched.',
         ['vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'entity.hpp'], [('multivector form of each entity', 'pga.hpp'), ('multivector form of each entity', 'vga.hpp'), ('multivector form of each entity', 'pga2.hpp'), ('multivector form of each entity', 'cga.hpp')],
         P.c_entities),
    Prop('C14', 'Converting results to entities is exact and round-trips',
         'Constructing an entity from a computed multivector extracts exactly the components that define it (dehomogenising points by their weight), ignores the others and takes missing ones as zero. '
         'Any entity passed through the identity computation and converted back has its original values.',
         IP, 'all values, for every entity type and every component subset of the source', TEST_WHY + 'sources with missing, additional or scaled components are not tried.',
         ['vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'entity.hpp'], [('conversion constructors', 'pga.hpp'), ('component selection', 'entity.hpp')],
         P.c_convert),
    Prop('C15', 'Literals denote their basis elements',
         'Every literal suffix of every algebra denotes its basis blade (pseudoscalar and inverse pseudoscalar included) with the integer in front as its coefficient. '
         'Literals behave like any other multivector in every operation, alone, combined with each other and with inputs.',
         IP, 'all suffixes and coefficients, in every operation and expression', TEST_WHY + 'most suffixes are never used.',
         ['vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'expr.hpp'], [('literal operators', 'pga.hpp'), ('literal operators', 'cga.hpp'), ('literal operators', 'vga.hpp'), ('literal operators', 'pga2.hpp')],
         P.c_literals),
    Prop('C16', 'Conformal computations are expressed in the null basis',
         'In the conformal algebra, inputs, literals, component selections and results all refer to the null basis of origin and infinity, while products obey the underlying metric. '
         'The change of basis is an exact isomorphism: the origin and infinity square to zero, their inner product is minus one, and converting there and back is the identity for every component.',
         IP, 'all input values, for every conformal expression', TEST_WHY + 'only a few points and products are evaluated.',
         ['null_algebra.hpp', 'cga.hpp', 'dfa.hpp', 'engine.hpp'], [('change between null and natural basis', 'null_algebra.hpp')],
         P.c_null),
    Prop('C17', 'User-defined signatures follow the same laws',
         'For an algebra declared with any numbers of positive, negative and null generators, every operation has the value that signature assigns: generators square to +1, -1 or 0 in the declared order, and the dual, pseudoscalar, even and bivector parts have the right blades and signs.',
         ['inputs', 'configurations', 'programs'], 'all signatures of small dimension, all input values, all operations', TEST_WHY + 'almost no signature besides the shipped ones is instantiated.',
         ['geometric_algebra.hpp', 'algebra.hpp', 'engine.hpp'], [('metric and algebra templates', 'geometric_algebra.hpp')],
         cat(P.c_signature, lambda t, s: P2.cayley(sigs(range(1, 6 if t == 'quick' else 7))), lambda t, s: P2.metric_tabs(sigs(range(1, 6))))),
    Prop('C18', 'Exponential, logarithm and motor normalisation follow their formulas',
         'The exponential of a bivector is its closed form (a rotation, or in the projective algebra a screw motion), a normalised motor is the motor divided by its norm including the dual part, and the logarithm of a motor is the bivector given by its angle and translation. '
         'The logarithm of a half-turn does not divide by the vanishing scalar part.',
         IP, 'all bivectors with non-vanishing rotation part and all motors', TEST_WHY + 'the tests use one or two motors.',
         ['engine.hpp', 'expr.hpp', 'pga.hpp', 'vga.hpp'], [('closed form of the exponential', 'expr.hpp'), ('motor normalisation and logarithm', 'pga.hpp')],
         P2.c_exp),
    Prop('C19', 'Powers of scalars are exact for every exponent',
         'A scalar raised to any rational exponent that arises in an expression, positive, negative, zero or fractional, is evaluated as exactly that power, also inside products and quotients.',
         IP, 'all scalars, all exponents that arise', TEST_WHY + 'each exponent instantiates different code.',
         ['numeric.hpp', 'engine.hpp', 'algebra.hpp'], [('power evaluation', 'engine.hpp'), ('power evaluation', 'numeric.hpp')],
         P2.c_pow),
    Prop('C20', 'Rational coefficients are exact until documented rounding',
         'Sums, differences, products, quotients, negations and comparisons of the rational coefficients are exact and keep a positive denominator. '
         'When a denominator grows too large the coefficient is replaced by one that differs by at most the documented tolerance, and conversion to floating point yields the quotient.',
         ['inputs'], 'all pairs of small rationals (enumerated), larger ones and near-overflow ones (generated)', TEST_WHY + 'sign normalisation and reduction fail only for particular pairs.',
         ['numeric.hpp'], [('rational number type', 'numeric.hpp')],
         P2.c_rational, technique=TB + '; and ' + TV),
    Prop('C21', 'Sorting yields an ordered permutation',
         'Sorting any sequence with any strict weak order yields a permutation of the sequence in that order, for every length including zero and one, and every pattern of repetitions.',
         ['inputs'], 'all patterns up to length 5 (enumerated), longer ones (generated)', TEST_WHY + 'small sequences, long ones and repetitions take different branches.',
         ['algorithm.hpp'], [('constant-evaluated sort', 'algorithm.hpp')],
         P2.c_sort, technique=TB),
    Prop('C22', 'Tuples and stacks keep their elements',
         'Pushing, appending, popping, splitting, replacing, applying and searching tuples, and any history of pushes, pops and look-ups on a stack, yield exactly the elements put in, in order.',
         ['inputs', 'histories'], 'all tuple sizes up to eight and split positions (enumerated), operation histories (generated)', TEST_WHY + 'positions at the ends take separate specialisations.',
         ['tuple.hpp', 'stack.hpp'], [('tuple', 'tuple.hpp'), ('stack', 'stack.hpp')],
         P2.c_containers, technique=TB),
    Prop('C23', 'Operations are pure and thread-safe',
         'No operation of the library reads or writes anything but its arguments and its result: no global, static or thread-local state, no allocation, no input or output, no lazily initialised data, and inputs are never modified. '
         'Hence any number of computations may run concurrently, and passing one object for several inputs or assigning a result over an input is safe.',
         ['schedules', 'inputs', 'programs'], 'all interleavings of any computations, all aliasing of inputs', 'Tests are sequential and never alias arguments.',
         ['engine.hpp', 'entity.hpp', 'pga.hpp', 'vga.hpp'], [('evaluation through local storage only', 'engine.hpp')],
         None, technique='call-graph effect analysis on unoptimised IR; IR dataflow for aliased inputs', level='other',
         note='reachability over every instantiated function of each entry point; entry points enumerated from the public operations'),
    Prop('C24', 'Storage layout and accessors are faithful',
         'An entity stores exactly its numbers, contiguously and in the documented order, with no padding, and is trivially copyable. '
         'Named fields, indexing, iteration, data access and selection by blade (compile-time, run-time, several at once) all refer to the same numbers for reading and writing; absent blades read as zero and have no address.',
         IP, 'all values, for every entity type, component subset and scalar type', TEST_WHY + 'few accessors are used.',
         ['entity.hpp', 'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp'], [('entity storage and selection', 'entity.hpp')],
         P2.c_storage),
    Prop('C25', 'Arithmetic stays in the scalar type of the inputs',
         'All arithmetic, constants and library calls of a computation on single-precision inputs are single precision, and on double-precision inputs double precision; results have that type. '
         'Values agree with the mathematical ones in both.',
         ['inputs', 'programs', 'configurations'], 'all programs in both scalar types', TEST_WHY + 'tests compare with a tolerance that hides silent conversions.',
         ['engine.hpp', 'numeric.hpp', 'pga.hpp', 'vga.hpp'], [('typed evaluation', 'engine.hpp')],
         P2.c_precision, technique='type dataflow on IR; ' + TV),
    Prop('C26', 'Rotors and translators act as rigid motions',
         'A rotor applied to a vector, point or direction rotates it about its axis by its angle, a translator moves every point by its displacement and leaves directions and plane normals unchanged, translations compose additively, and reflections in vectors and planes are the Euclidean ones. '
         'This holds for every axis, angle, displacement and operand.',
         IP, 'all values', TEST_WHY + 'a few right-angle rotations are checked.',
         ['vga.hpp', 'pga.hpp', 'expr.hpp'], [('rotor and translator multivectors', 'pga.hpp'), ('rotor multivector', 'vga.hpp')],
         cat(P2.c_motion, P2.geo_motion)),
    Prop('C27', 'Join, meet and metric products agree with Euclidean geometry',
         'Joining points gives the line or plane through them, meeting planes and lines gives their intersection, in two and three dimensions, and coordinates satisfy the documented equations. '
         'Dot, cross and triple products of vectors, angles between planes and distances between conformal points have their Euclidean values.',
         IP, 'all coordinates', TEST_WHY + 'a few axis-aligned configurations are checked.',
         ['pga.hpp', 'pga2.hpp', 'cga.hpp', 'vga.hpp', 'expr.hpp'], [('regressive and exterior products', 'expr.hpp'), ('entity multivectors', 'pga.hpp')],
         cat(P2.c_incidence, P2.geo_incidence)),
    Prop('C28', 'Every public header stands alone',
         'Each public header can be included by itself, in any order with the others and in any number of translation units of one program: it needs no other include, defines no symbol twice and has no dynamic initialisation.',
         ['configurations', 'programs'], 'every header, every order of inclusion', 'Each test file includes one or two headers; several headers are never included first or twice.',
         ['vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'cga2.hpp', 'entity.hpp', 'format.hpp'], [('inline and template definitions', 'numeric.hpp')],
         None, technique='linkage analysis of include-only translation units', level='other',
         note='strong external definitions and dynamic initialisers in the IR of include-only units', runner=H.run),
    Prop('C29', 'The printed form lists every component',
         'Converting a multivector to text lists every component exactly once and in order: its number, followed by the name of its basis blade ("e" and the indices of its generators in increasing order; nothing for the scalar part), separated by " + ". '
         'A multivector without components prints as "0".',
         IP, 'all component values, for every set of components of every algebra', 'The suite never compares printed text.',
         ['format.hpp'], [('text conversion', 'format.hpp')],
         None, technique='IR dataflow with the standard stream replaced by an algebraic model of text', runner=X.run),
    Prop('C30', 'Compile-time multivectors are exact canonical polynomials',
         'Inside a computation every multivector is a compile-time object holding, per basis blade, a polynomial in the inputs with rational coefficients and rational exponents. Every operation on such objects (sum, the four products, division by a monomial, scaling, shift, negation, reversal, dual, selection, extraction, change of size and of basis) yields exactly the polynomials that the algebra prescribes. '
         'The result is again canonical: blades in increasing order, each monomial collected once with a non-zero coefficient and its total degree, and the recorded sizes equal to the contents.',
         IP, 'all compile-time multivectors of every algebra, under every operation', 'The suite builds a handful of such objects and inspects a few of their fields.',
         ['algebra.hpp', 'null_algebra.hpp', 'geometric_algebra.hpp'], [('symbolic sum, product and collection', 'algebra.hpp'), ('change of basis', 'null_algebra.hpp')],
         S.build, technique=TB, level='translation_validation', note='tables are finite: generated polynomials with up to five indeterminates per monomial, in nine algebras'),
]
BYID = {p.id: p for p in PROPS}



def na(id, title, statement, over, text, why, files, mech, reason):
    p = Prop(id, title, statement, over, text, why, files, mech, None)
    p.reason = reason
    return p


NOT_APPLICABLE = [
    na('C90', 'Results are accurate to rounding', 'The floating-point result of a computation differs from the exact value by a small multiple of the rounding unit times the magnitude of the terms summed.',
       ['inputs'], 'all input values', 'Tests compare a few numbers with a tolerance.', ['engine.hpp'], [('order of evaluation', 'engine.hpp')],
       'the error depends on magnitudes and cancellation of run-time inputs; no sound static bound is in reach for unbounded inputs, and the compiler is free to reassociate under the recommended flags'),
    na('C91', 'Exponential and logarithm are inverse', 'For every normalised motor whose angle is below a full turn, the exponential of its logarithm is the motor itself up to rounding.',
       ['inputs'], 'all normalised motors', 'Tests use one motor.', ['pga.hpp', 'expr.hpp'], [('motor logarithm', 'pga.hpp'), ('exponential', 'expr.hpp')],
       'needs branch-dependent identities between atan2, sqrt, sin and cos on the set of normalised motors, which the algebraic normal form does not contain; the two formulas are decided separately (C18)'),
    na('C93', 'Compile-time cost stays bounded', 'Instantiating an expression takes time and memory polynomial in its size.',
       ['programs'], 'all expressions', 'Tests instantiate small expressions.', ['dfa.hpp', 'algebra.hpp'], [('constant evaluation', 'algebra.hpp')],
       'a resource bound of the host compiler, not visible in the code as a decidable rule'),
]


def effects_run(work, tier, seed):
    from .values import decide
    res = decide(work, F.c_effects(tier, seed), batch=6, extra=('-Xclang', '-disable-llvm-passes'))
    return res + decide(work, F.c_alias(tier, seed))


BYID['C23'].runner = effects_run
