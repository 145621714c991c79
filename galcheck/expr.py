"""Witness expressions: one AST, two readings (C++ source for the library, value in the
reference model)."""
from fractions import Fraction
from .ga import MV, ALG, alg_of


class X:
    def __add__(self, o):
        return Bin('+', self, wrap(o))

    def __radd__(self, o):
        return Bin('+', wrap(o), self)

    def __sub__(self, o):
        return Bin('-', self, wrap(o))

    def __rsub__(self, o):
        return Bin('-', wrap(o), self)

    def __mul__(self, o):
        return Bin('*', self, wrap(o))

    def __rmul__(self, o):
        return Bin('*', wrap(o), self)

    def __truediv__(self, o):
        return Bin('/', self, wrap(o))

    def __rtruediv__(self, o):
        return Bin('/', wrap(o), self)

    def __xor__(self, o):
        return Bin('^', self, wrap(o))

    def __and__(self, o):
        return Bin('&', self, wrap(o))

    def __or__(self, o):
        return Bin('|', self, wrap(o))

    def __rshift__(self, o):
        return Bin('>>', self, wrap(o))

    def __mod__(self, o):
        return Bin('%', self, wrap(o))

    def __neg__(self):
        return Un('-', self)

    def __invert__(self):
        return Un('~', self)

    def dual(self):
        return Un('!', self)

    def __getitem__(self, e):
        return Comp(self, e)

    def grade(self, g):
        return Grade(self, g)


def wrap(o):
    return o if isinstance(o, X) else Int(o)


def prim(x):
    return '(%s)' % x.cpp() if isinstance(x, Lit) else x.cpp()


class Int(X):
    def __init__(self, n):
        self.n = n

    def cpp(self):
        return str(self.n) if self.n >= 0 else '(%d)' % self.n

    def ev(self, env):
        return MV(env.ctx, env.alg, {0: env.ctx.const(self.n)})


class In(X):
    def __init__(self, i):
        self.i = i

    def cpp(self):
        return 'abcdefghijklmnpqsuvwxyz'[self.i]

    def ev(self, env):
        return env.inputs[self.i]


class Lit(X):
    """1_e12 style literal; elem in the surface (null, for CGA) basis"""
    def __init__(self, suffix, elem, n=1, sign=1):
        self.suffix, self.elem, self.n, self.sign = suffix, elem, n, sign

    def cpp(self):
        return '%d%s' % (self.n, self.suffix)

    def ev(self, env):
        m = MV(env.ctx, env.alg, {self.elem: env.ctx.const(self.n * self.sign)})
        return m.to_natural() if env.alg.null else m


class Const(X):
    def __init__(self, name):
        self.name = name

    def cpp(self):
        return 'gal::' + self.name

    def ev(self, env):
        return MV(env.ctx, env.alg, {0: env.ctx.var(self.name.lower())})


class Bin(X):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def cpp(self):
        return '(%s %s %s)' % (self.a.cpp(), self.op, self.b.cpp())

    def ev(self, env):
        a, b = env.ev(self.a), env.ev(self.b)
        op = self.op
        if op == '+':
            return a.add(b)
        if op == '-':
            return a.add(b.neg())
        if op == '*':
            return a.gp(b)
        if op == '^':
            return a.ep(b)
        if op == '|':
            return a.ip(b)
        if op == '>>':
            return a.lc(b)
        if op == '&':
            return a.dual().ep(b.dual()).dual()
        if op == '%':
            return b.gp(a).gp(b.rev())
        if op == '/':
            return a.smul(b.scalar().inv())
        raise KeyError(op)


class Un(X):
    def __init__(self, op, a):
        self.op, self.a = op, a

    def cpp(self):
        if self.op in '-~!':
            return '(%s%s)' % (self.op, self.a.cpp())
        return 'gal::%s(%s)' % (self.op, self.a.cpp())

    def ev(self, env):
        a = env.ev(self.a)
        if self.op == '-':
            return a.neg()
        if self.op == '~':
            return a.rev()
        if self.op == '!':
            return a.dual()
        if self.op == 'exp':
            return exp_ref(a)
        s = a.scalar()
        c = env.ctx
        v = c.sqrt(s) if self.op == 'sqrt' else c.trig(self.op, s)
        return MV(c, env.alg, {0: v})


def exp_ref(b):
    """Closed form of exp of a bivector b with b*b = s + p*I, I*I = 0 or I central in the even
    subalgebra; written from the definition: u = sqrt(-s), v = -p/(2u):
    exp(b) = (cos u - v sin u I) + (sin u + v cos u I)(1/u + v/s I) b."""
    c = b.ctx
    alg = b.alg
    I = MV(c, alg, {alg.full: c.const(1)})
    s = b.ip(b).scalar()
    p = b.ep(b).t.get(alg.full, c.const(0))
    u = c.sqrt(s.neg())
    v = p.neg().div(u.scale(2))

    def sc(x):
        return MV(c, alg, {0: x})
    inv_norm = sc(u.inv()).add(I.smul(v.div(s)))
    cu, su = c.trig('cos', u), c.trig('sin', u)
    real = sc(cu).add(I.smul(v.mul(su).neg()))
    ideal = sc(su).add(I.smul(v.mul(cu)))
    return real.add(ideal.gp(inv_norm).gp(b))


class Comp(X):
    def __init__(self, a, e):
        self.a, self.e = a, e

    def cpp(self):
        return '%s[%d]' % (prim(self.a), self.e)

    def ev(self, env):
        m = env.ev(self.a)
        if env.alg.null:
            m = m.to_null()
        return m.comp(self.e)


class Grade(X):
    def __init__(self, a, g):
        self.a, self.g = a, g

    def cpp(self):
        return '%s.select_grade(%d)' % (prim(self.a), self.g)

    def ev(self, env):
        return env.ev(self.a).grd(self.g)


class SP(X):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def cpp(self):
        return 'gal::scalar_product(%s, %s)' % (self.a.cpp(), self.b.cpp())

    def ev(self, env):
        return env.ev(self.a).gp(env.ev(self.b)).comp(0)


class Env:
    def __init__(self, ctx, alg, inputs):
        self.ctx, self.alg, self.inputs = ctx, alg, inputs
        self.memo = {}

    def ev(self, x):
        k = id(x)
        if k not in self.memo:
            self.memo[k] = (x, x.ev(self))
        return self.memo[k][1]


# ---------------------------------------------------------------- entities
class Ent:
    """kind: C++ type template, number of stored scalars, multivector it denotes as
    {element: [(coef, [field, ...]), ...]} in the surface basis of the algebra."""

    def __init__(self, name, cpp, n, rep):
        self.name, self.cpp, self.n, self.rep = name, cpp, n, rep

    def mv(self, ctx, alg, argname):
        t = {}
        for e, terms in self.rep.items():
            acc = ctx.const(0)
            for c, fs in terms:
                v = ctx.const(c)
                for f in fs:
                    v = v.mul(ctx.var('in', argname, f))
                acc = acc.add(v)
            t[e] = acc
        m = MV(ctx, alg, t)
        return m.to_natural() if alg.null else m


def plain(elems):
    return {e: [(1, [i])] for i, e in enumerate(elems)}


H = Fraction(1, 2)


def generic(alg, *elems):
    a = cpp_algebra(alg)
    return Ent('entity<%s>' % ','.join(map(str, elems)),
               'gal::entity<%s, {T}%s>' % (a, ''.join(', %d' % e for e in elems)),
               len(elems), plain(elems))


class UEnt(Ent):
    """An entity type a user declares: the struct is generated from the multivector it denotes."""

    def __init__(self, alg, tag, n, rep, foreign=None):
        Ent.__init__(self, 'user.%s' % tag, 'U_%s<{T}>' % tag, n, rep)
        own = cpp_algebra(alg)
        inds, mons, terms = [], [], []
        for e in sorted(rep):
            ms = []
            for c, fs in rep[e]:
                powers = sorted((f, fs.count(f)) for f in set(fs))
                ms.append((len(fs), powers, Fraction(c)))
            ms.sort(key=lambda m: m[:2])
            terms.append('gal::term{%d, %d, %d}' % (len(ms), len(mons), e))
            for d, powers, c in ms:
                mons.append('gal::mon{gal::rat{%d, %d}, gal::rat{%d, 1}, %d, %d}' % (c.numerator, c.denominator, d, len(powers), len(inds)))
                inds += ['gal::ind{id + %d, gal::rat{%d, 1}}' % p for p in powers]
        size = '%d, %d, %d' % (len(inds), len(mons), len(terms))
        form = 'return {gal::mv_size{%s}, {%s}, {%s}, {%s}};' % (size, ', '.join(inds), ', '.join(mons), ', '.join(terms))
        head = 'constexpr static gal::mv<%s, %s> ie(%suint32_t id) noexcept' % (own, size, own + ', ' if foreign else '')
        self.pre = ('template <typename T> struct U_%s { using algebra_t = %s; using value_t = T; %s'
                    'constexpr static size_t size() noexcept { return %d; } %s { %s } };\n'
                    % (tag, foreign or own,
                       'std::array<T, %d> data; constexpr T const& operator[](size_t i) const noexcept { return data[i]; } ' % n if n else '', n, head, form))


def cpp_algebra(alg):
    m = alg_of(alg).custom
    return 'gal::algebra<gal::metric<%d, %d, %d>>' % m if m else 'gal::%s::%s_algebra' % (alg, alg)


ENT = {
    'scalar': Ent('scalar', '{T}', 1, {0: [(1, [0])]}),
    # VGA
    'vga.vector': Ent('vga.vector', 'gal::vga::vector<{T}>', 3, plain([1, 2, 4])),
    'vga.rotor': Ent('vga.rotor', 'gal::vga::rotor<{T}>', 5,
                     {0: [(1, [0])], 3: [(-1, [1, 4])], 5: [(1, [1, 3])], 6: [(-1, [1, 2])]}),
    'vga.scalar': Ent('vga.scalar', 'gal::scalar<gal::vga::vga_algebra, {T}>', 1, {0: [(1, [0])]}),
    'vga.point@pga': Ent('vga.point@pga', 'gal::vga::point<{T}>', 3,
                         {7: [(-1, [2])], 11: [(1, [1])], 13: [(-1, [0])], 14: [(1, [])]}),
    # PGA
    'pga.plane': Ent('pga.plane', 'gal::pga::plane<{T}>', 4, plain([1, 2, 4, 8])),
    'pga.point': Ent('pga.point', 'gal::pga::point<{T}>', 4, plain([7, 11, 13, 14])),
    'pga.vector': Ent('pga.vector', 'gal::pga::vector<{T}>', 3,
                      {7: [(-1, [2])], 11: [(1, [1])], 13: [(-1, [0])]}),
    'pga.line': Ent('pga.line', 'gal::pga::line<{T}>', 6,
                    {3: [(-1, [3])], 5: [(-1, [4])], 6: [(-1, [2])], 9: [(-1, [5])], 10: [(1, [1])], 12: [(-1, [0])]}),
    'pga.motor': Ent('pga.motor', 'gal::pga::motor<{T}>', 8, plain([0, 3, 5, 6, 9, 10, 12, 15])),
    'pga.rotor': Ent('pga.rotor', 'gal::pga::rotor<{T}>', 5,
                     {0: [(1, [0])], 6: [(1, [1, 4])], 10: [(-1, [1, 3])], 12: [(1, [1, 2])]}),
    'pga.translator': Ent('pga.translator', 'gal::pga::translator<{T}>', 4,
                          {0: [(1, [])], 3: [(-H, [0, 1])], 5: [(-H, [0, 2])], 9: [(-H, [0, 3])]}),
    'pga.scalar': Ent('pga.scalar', 'gal::scalar<gal::pga::pga_algebra, {T}>', 1, {0: [(1, [0])]}),
    # PGA2
    'pga2.line': Ent('pga2.line', 'gal::pga2::line<{T}>', 3, plain([1, 2, 4])),
    'pga2.point': Ent('pga2.point', 'gal::pga2::point<{T}>', 2,
                      {3: [(1, [1])], 5: [(-1, [0])], 6: [(1, [])]}),
    'pga2.vector': Ent('pga2.vector', 'gal::pga2::vector<{T}>', 2, {3: [(1, [1])], 5: [(-1, [0])]}),
    'pga2.scalar': Ent('pga2.scalar', 'gal::scalar<gal::pga2::pga2_algebra, {T}>', 1, {0: [(1, [0])]}),
    # CGA
    'cga.point': Ent('cga.point', 'gal::cga::point<{T}>', 3,
                     {1: [(1, [0])], 2: [(1, [1])], 4: [(1, [2])], 8: [(1, [])],
                      16: [(H, [0, 0]), (H, [1, 1]), (H, [2, 2])]}),
    'cga.scalar': Ent('cga.scalar', 'gal::scalar<gal::cga::cga_algebra, {T}>', 1, {0: [(1, [0])]}),
}


def ent(alg, k):
    if isinstance(k, Ent):
        return k
    if k == 'scalar':
        return ENT['scalar']
    if isinstance(k, tuple):
        return generic(alg, *k)
    return ENT[k if '.' in k else alg + '.' + k]


LITS = {
    'vga': {'_e0': 1, '_e1': 2, '_e2': 4, '_e01': 3, '_e02': 5, '_e12': 6, '_e012': 7, '_ps': 7, '_ips': (7, -1)},
    'pga': {'_e0': 1, '_e1': 2, '_e2': 4, '_e3': 8, '_e01': 3, '_e02': 5, '_e03': 9, '_e12': 6, '_e13': 10,
            '_e23': 12, '_e012': 7, '_e013': 11, '_e023': 13, '_e123': 14, '_e0123': 15, '_ps': 15},
    'pga2': {'_e0': 1, '_e1': 2, '_e2': 4, '_e01': 3, '_e02': 5, '_e12': 6, '_e012': 7, '_ps': 7},
    'cga': {'_e1': 1, '_e2': 2, '_e3': 4, '_no': 8, '_ni': 16, '_ps': 31, '_ips': (31, -1)},
}


def lit(alg, suffix, n=1):
    e = LITS[alg][suffix]
    s = 1
    if isinstance(e, tuple):
        e, s = e
    return Lit(suffix, e, n, s)
