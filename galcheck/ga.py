"""Independent reference model of the geometric algebras (the oracle).

Written from the textbook definitions (products of generator lists by explicit
transposition), not from the library's bit tricks.
"""
from fractions import Fraction
from functools import lru_cache


def bits(e):
    return [i for i in range(e.bit_length()) if e >> i & 1]


@lru_cache(maxsize=None)
def gp_blade(sig, a, b):
    """Clifford product of basis blades; sig = tuple of squares of the generators."""
    l = bits(a) + bits(b)
    s = 1
    # bubble sort counting transpositions
    n = len(l)
    swapped = True
    while swapped:
        swapped = False
        for i in range(n - 1):
            if l[i] > l[i + 1]:
                l[i], l[i + 1] = l[i + 1], l[i]
                s = -s
                swapped = True
    out = []
    i = 0
    while i < n:
        if i + 1 < n and l[i] == l[i + 1]:
            s *= sig[l[i]]
            i += 2
        else:
            out.append(l[i])
            i += 1
    if s == 0:
        return 0, 0
    e = 0
    for x in out:
        e |= 1 << x
    return e, s


def grade(e):
    return bin(e).count('1')


@lru_cache(maxsize=None)
def ep_blade(sig, a, b):
    e, s = gp_blade(tuple(1 for _ in sig), a, b)
    return (e, s) if grade(e) == grade(a) + grade(b) else (0, 0)


@lru_cache(maxsize=None)
def lc_blade(sig, a, b):
    e, s = gp_blade(sig, a, b)
    if s and grade(b) >= grade(a) and grade(e) == grade(b) - grade(a):
        return e, s
    return 0, 0


@lru_cache(maxsize=None)
def ip_blade(sig, a, b):
    if a == 0 or b == 0:
        return 0, 0
    e, s = gp_blade(sig, a, b)
    if s and grade(e) == abs(grade(b) - grade(a)):
        return e, s
    return 0, 0


def dual_blade(dim, a):
    """Right complement: a ^ dual(a) = +I."""
    full = (1 << dim) - 1
    c = full ^ a
    e, s = ep_blade(tuple([1] * dim), a, c)
    assert e == full
    return c, s


def metric_sig(p, v, r):
    return tuple([0] * r + [1] * p + [-1] * v)


class Algebra:
    def __init__(self, name, sig, null=False, custom=None):
        self.name = name
        self.custom = custom
        self.sig = tuple(sig)
        self.dim = len(sig)
        self.null = null
        self.full = (1 << self.dim) - 1


VGA = Algebra('vga', (1, 1, 1))
PGA = Algebra('pga', (0, 1, 1, 1))
PGA2 = Algebra('pga2', (0, 1, 1))
CGA = Algebra('cga', (1, 1, 1, 1, -1), null=True)
ALG = {a.name: a for a in (VGA, PGA, PGA2, CGA)}


def alg_of(name):
    """Named algebra, or 'm_p_v_r' for a user-defined signature."""
    if name not in ALG:
        p, v, r = map(int, name[2:].split('_'))
        ALG[name] = Algebra(name, metric_sig(p, v, r), custom=(p, v, r))
    return ALG[name]


class MV:
    """Multivector with coefficients in the algebraic domain; natural basis."""
    __slots__ = ('ctx', 'alg', 't')

    def __init__(self, ctx, alg, t=None):
        self.ctx = ctx
        self.alg = alg
        self.t = {e: v for e, v in (t or {}).items() if v.num}

    def _bin(self, o, table):
        out = {}
        sig = self.alg.sig
        for a, x in self.t.items():
            for b, y in o.t.items():
                e, s = table(sig, a, b)
                if s:
                    p = x.mul(y)
                    if s != 1:
                        p = p.scale(s)
                    out[e] = out[e].add(p) if e in out else p
        return MV(self.ctx, self.alg, out)

    def gp(self, o):
        return self._bin(o, gp_blade)

    def ep(self, o):
        return self._bin(o, ep_blade)

    def lc(self, o):
        return self._bin(o, lc_blade)

    def ip(self, o):
        return self._bin(o, ip_blade)

    def add(self, o):
        out = dict(self.t)
        for e, v in o.t.items():
            out[e] = out[e].add(v) if e in out else v
        return MV(self.ctx, self.alg, out)

    def scale(self, c):
        return MV(self.ctx, self.alg, {e: v.scale(c) for e, v in self.t.items()})

    def smul(self, x):
        return MV(self.ctx, self.alg, {e: v.mul(x) for e, v in self.t.items()})

    def neg(self):
        return self.scale(-1)

    def rev(self):
        return MV(self.ctx, self.alg,
                  {e: (v.scale(-1) if (grade(e) * (grade(e) - 1) // 2) % 2 else v) for e, v in self.t.items()})

    def dual(self):
        out = {}
        for e, v in self.t.items():
            c, s = dual_blade(self.alg.dim, e)
            out[c] = v.scale(s)
        return MV(self.ctx, self.alg, out)

    def comp(self, e):
        return MV(self.ctx, self.alg, {0: self.t[e]} if e in self.t else {})

    def grd(self, g):
        return MV(self.ctx, self.alg, {e: v for e, v in self.t.items() if grade(e) == g})

    def scalar(self):
        return self.t.get(0, self.ctx.const(0))

    # null basis <-> natural basis; generators dim-2, dim-1 are (no, ni) / (ep, en)
    def to_null(self):
        """natural -> null: ep = no - ni/2, en = no + ni/2."""
        P, N = 1 << (self.alg.dim - 2), 1 << (self.alg.dim - 1)
        h = Fraction(1, 2)
        return self._basis(P, N, ((P, 1), (N, -h)), ((P, 1), (N, h)))

    def to_natural(self):
        """null -> natural: no = (ep + en)/2, ni = en - ep."""
        P, N = 1 << (self.alg.dim - 2), 1 << (self.alg.dim - 1)
        h = Fraction(1, 2)
        return self._basis(P, N, ((P, h), (N, h)), ((N, 1), (P, -1)))

    def _basis(self, P, N, mp, mn):
        out = {}

        def put(e, v):
            out[e] = out[e].add(v) if e in out else v
        for e, v in self.t.items():
            hasP, hasN = e & P, e & N
            rest = e & ~(P | N)
            if hasP and hasN:
                # (sum mp) ^ (sum mn)
                for x, cx in mp:
                    for y, cy in mn:
                        if x == y:
                            continue
                        s = 1 if x == P else -1
                        put(rest | P | N, v.scale(cx * cy * s))
            elif hasP:
                for x, c in mp:
                    put(rest | x, v.scale(c))
            elif hasN:
                for x, c in mn:
                    put(rest | x, v.scale(c))
            else:
                put(e, v)
        return MV(self.ctx, self.alg, out)

    def out_basis(self):
        return self.to_null() if self.alg.null else self

    def __str__(self):
        return ' + '.join('(%s)e%s' % (v, e) for e, v in sorted(self.t.items())) or '0'
