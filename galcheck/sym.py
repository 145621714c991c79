"""Algebraic value domain of the dataflow analysis.

An abstract value is an exact rational function over *atoms*.  Atoms are the
scalar inputs of a witness, mathematical constants, and applications of opaque
functions (sqrt, sin, cos, ...) to abstract values.  Values are kept in a normal form
in which two values that are equal as algebraic expressions compare equal, so one
forward pass over an SSA function (value numbering in this domain) yields, for
every output, the function of the inputs it computes.  Nothing is executed or
sampled and no solver is involved.

Representation: (num, den) where num is a Laurent polynomial
{monomial: coefficient}, monomial = tuple of (atom id, exponent), and den a tuple of
(interned multi-term polynomial id, exponent).
"""
from fractions import Fraction
import math

ONE_M = ()


class TooBig(Exception):
    pass


LIMIT = 60000


class Ctx:
    """Atom and factor tables (one per analysed comparison universe)."""

    def __init__(self):
        self.atoms = []          # id -> key tuple
        self.byname = {}
        self.factors = []        # id -> poly dict (primitive, multi-term)
        self.factor_ix = {}
        self.kinds = {}          # kind -> [(id, args)]

    # ---------------------------------------------------------------- atoms
    def atom(self, *key):
        i = self.byname.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.byname[key] = i
        return i

    def fun_atom(self, kind, *args):
        """Atom for kind(args) where args are Values; interned up to equality."""
        lst = self.kinds.setdefault(kind, [])
        ck = (kind,) + tuple(a.key() if isinstance(a, Value) else a for a in args)
        i = self.byname.get(ck)
        if i is not None:
            return i
        for i, oargs in lst:
            ok = True
            for x, y in zip(args, oargs):
                if isinstance(x, Value):
                    if not isinstance(y, Value) or not x.equals(y):
                        ok = False
                        break
                elif x != y:
                    ok = False
                    break
            if ok:
                self.byname[ck] = i
                return i
        i = len(self.atoms)
        self.atoms.append((kind,) + args)
        self.byname[ck] = i
        lst.append((i, args))
        return i

    def factor(self, poly):
        k = frozenset(poly.items())
        i = self.factor_ix.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(poly)
            self.factor_ix[k] = i
        return i

    # ---------------------------------------------------------------- values
    def const(self, c):
        return Value(self, {ONE_M: c} if c != 0 else {}, ())

    def var(self, *key):
        return Value(self, {((self.atom(*key), 1),): 1}, ())

    def from_atom(self, i):
        return Value(self, {((i, 1),): 1}, ())

    # functions ----------------------------------------------------------
    def sqrt(self, v):
        if not v.num:
            return v
        if v.is_const():
            c = Fraction(v.cval())
            if c > 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return self.const(Fraction(a, b))
        # pull out square rational content
        c = _content(v.num)
        sq = _square_part(c)
        if sq != 1:
            v2 = v.scale(Fraction(1) / (sq * sq))
            return self.sqrt_prim(v2).scale(sq)
        return self.sqrt_prim(v)

    def sqrt_prim(self, v):
        return self.from_atom(self.fun_atom('sqrt', v))

    def trig(self, kind, v):
        if not v.num:
            return self.const(1) if kind == 'cos' else self.const(0)
        sgn = 1
        if v.lead_sign() < 0:
            v = v.scale(-1)
            if kind != 'cos':
                sgn = -1
        if kind == 'tan':
            r = self.trig('sin', v).div(self.trig('cos', v))
        else:
            r = self.from_atom(self.fun_atom(kind, v))
        return r.scale(sgn)

    def fun(self, kind, *args):
        return self.from_atom(self.fun_atom(kind, *args))

    def pow(self, v, e):
        e = Fraction(e)
        if e.denominator == 1:
            return v.ipow(int(e))
        if e.denominator == 2:
            r = self.sqrt(v)
        else:
            r = self.from_atom(self.fun_atom('root', v, e.denominator))
        return r.ipow(e.numerator)

    # reduction ----------------------------------------------------------
    def atom_relation(self, i):
        """(n, value) if atom^n == value."""
        k = self.atoms[i]
        if k[0] == 'sqrt':
            return 2, k[1]
        if k[0] == 'root':
            return k[2], k[1]
        return None


def _content(num):
    g = 0
    l = 1
    for c in num.values():
        c = Fraction(c)
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    return Fraction(g, l)


def _square_part(c):
    def sq(n):
        r = 1
        d = 2
        while d * d <= n and d < 2000:
            while n % (d * d) == 0:
                n //= d * d
                r *= d
            if n % d == 0:
                n //= d
            d += 1
        k = math.isqrt(n)
        if k * k == n:
            r *= k
        return r
    return Fraction(sq(c.numerator), sq(c.denominator))


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c * s
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def _pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig()
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
    if len(out) > LIMIT:
        raise TooBig()
    return out


class Value:
    __slots__ = ('ctx', 'num', 'den', '_key')

    def __init__(self, ctx, num, den):
        self.ctx = ctx
        self.num = num
        self.den = den if num else ()
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), self.den)
        return self._key

    def is_zero_form(self):
        return not self.num

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and ONE_M in self.num))

    def cval(self):
        return self.num.get(ONE_M, 0)

    def lead_sign(self):
        m = min(self.num)
        return 1 if self.num[m] > 0 else -1

    def scale(self, c):
        if c == 0:
            return Value(self.ctx, {}, ())
        if c == 1:
            return self
        return Value(self.ctx, {m: k * c for m, k in self.num.items()}, self.den)

    def neg(self):
        return self.scale(-1)

    def _lift(self, den):
        """num over a larger denominator den (superset)."""
        have = dict(self.den)
        num = self.num
        for f, e in den:
            d = e - have.get(f, 0)
            for _ in range(d):
                num = _pmul(num, self.ctx.factors[f])
        return num

    def add(self, o, s=1):
        if not o.num:
            return self
        if not self.num:
            return o if s == 1 else o.scale(s)
        if self.den == o.den:
            return Value(self.ctx, _padd(self.num, o.num, s), self.den)
        d = dict(self.den)
        for f, e in o.den:
            if d.get(f, 0) < e:
                d[f] = e
        den = tuple(sorted(d.items()))
        return Value(self.ctx, _padd(self._lift(den), o._lift(den), s), den).reduced()

    def sub(self, o):
        return self.add(o, -1)

    def mul(self, o):
        if not self.num or not o.num:
            return Value(self.ctx, {}, ())
        if not o.den and len(o.num) == 1 and ONE_M in o.num:
            return self.scale(o.num[ONE_M])
        if not self.den and len(self.num) == 1 and ONE_M in self.num:
            return o.scale(self.num[ONE_M])
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return Value(self.ctx, _pmul(self.num, o.num), tuple(sorted(d.items()))).reduced()

    def reduced(self):
        """Apply atom^n relations (sqrt/root) to the numerator."""
        ctx = self.ctx
        need = None
        for m in self.num:
            for a, e in m:
                if e == 1:
                    continue
                k = ctx.atoms[a][0]
                if k == 'sqrt' or k == 'root':
                    n = 2 if k == 'sqrt' else ctx.atoms[a][2]
                    if e >= n or e < 0:
                        need = a
                        break
            if need is not None:
                break
        if need is None:
            return self
        n, base = ctx.atom_relation(need)
        # split numerator by q = floor(e/n)
        groups = {}
        for m, c in self.num.items():
            e = 0
            for a, x in m:
                if a == need:
                    e = x
            q, r = divmod(e, n)
            rest = tuple((a, x) for a, x in m if a != need)
            mm = _mmul(rest, ((need, r),)) if r else rest
            g = groups.setdefault(q, {})
            v = g.get(mm, 0) + c
            if v == 0:
                g.pop(mm, None)
            else:
                g[mm] = v
        acc = Value(ctx, {}, ())
        for q, g in groups.items():
            t = Value(ctx, g, self.den)
            if q:
                t = t.mul(base.ipow(q))
            acc = acc.add(t)
        return acc.reduced()

    def inv(self):
        if not self.num:
            raise ZeroDivisionError
        ctx = self.ctx
        # denominator of self becomes numerator
        num = {ONE_M: 1}
        for f, e in self.den:
            for _ in range(e):
                num = _pmul(num, ctx.factors[f])
        if len(self.num) == 1:
            (m, c), = self.num.items()
            im = tuple((a, -e) for a, e in m)
            inv1 = {im: Fraction(1) / c}
            return Value(ctx, _pmul(num, inv1), ()).reduced()
        # multi-term: extract monomial content (min exponents) and leading coeff
        mins = None
        for m in self.num:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                for a in list(mins):
                    mins[a] = min(mins[a], d.get(a, 0))
                for a in d:
                    if a not in mins:
                        mins[a] = min(0, d[a])
        shift = tuple(sorted((a, -e) for a, e in mins.items() if e))
        p = {_mmul(m, shift): c for m, c in self.num.items()}
        lc = p[min(p)]
        p = {m: Fraction(c) / lc for m, c in p.items()}
        p = {m: (int(c) if c.denominator == 1 else c) for m, c in p.items()}
        f = ctx.factor(p)
        num = _pmul(num, {shift: Fraction(1) / lc})
        return Value(ctx, num, ((f, 1),)).reduced()

    def div(self, o):
        return self.mul(o.inv())

    def ipow(self, n):
        if n == 0:
            return self.ctx.const(1)
        if n < 0:
            return self.inv().ipow(-n)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def equals(self, o):
        if self.key() == o.key():
            return True
        try:
            d = self.add(o, -1)
        except TooBig:
            raise
        if not d.num:
            return True
        d2 = d.trig_reduced()
        return not d2.num

    def trig_reduced(self):
        ctx = self.ctx
        v = self
        while True:
            tgt = None
            for m in v.num:
                for a, e in m:
                    if e >= 2 and ctx.atoms[a][0] == 'cos':
                        tgt = a
                        break
                if tgt is not None:
                    break
            if tgt is None:
                return v
            s = ctx.trig('sin', ctx.atoms[tgt][1])
            rep = ctx.const(1).sub(s.mul(s))
            acc = Value(ctx, {}, ())
            for m, c in v.num.items():
                e = dict(m).get(tgt, 0)
                if e >= 2:
                    q = e // 2
                    rest = tuple((a, x) for a, x in m if a != tgt)
                    if e % 2:
                        rest = _mmul(rest, ((tgt, 1),))
                    acc = acc.add(Value(ctx, {rest: c}, v.den).mul(rep.ipow(q)))
                else:
                    acc = acc.add(Value(ctx, {m: c}, v.den))
            v = acc

    # ------------------------------------------------------------- printing
    def __str__(self):
        s = pstr(self.ctx, self.num)
        if self.den:
            ds = []
            for f, e in self.den:
                t = '(' + pstr(self.ctx, self.ctx.factors[f]) + ')'
                if e != 1:
                    t += '^%d' % e
                ds.append(t)
            s = '(' + s + ')/' + '/'.join(ds)
        return s

    __repr__ = __str__


def astr(ctx, a):
    k = ctx.atoms[a]
    if k[0] == 'in':
        return '%s[%s]' % (k[1], k[2])
    return '%s(%s)' % (k[0], ', '.join(str(x) for x in k[1:])) if len(k) > 1 else k[0]


def pstr(ctx, p, maxterms=12):
    if not p:
        return '0'
    out = []
    items = sorted(p.items(), key=lambda mc: [(astr(ctx, a), e) for a, e in mc[0]])
    for m, c in items[:maxterms]:
        fs = [astr(ctx, a) + ('' if e == 1 else '^%s' % e) for a, e in m]
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(fs))
        elif c == -1:
            out.append('-' + '*'.join(fs))
        else:
            out.append('%s*%s' % (c, '*'.join(fs)))
    if len(items) > maxterms:
        out.append('... (%d terms)' % len(items))
    return ' + '.join(out).replace('+ -', '- ')


# ------------------------------------------------------------------ constants
def rat_of_double(x, bits=52):
    """Simplest rational within 2 ulp of x (None if x is inf/nan)."""
    if x != x or x in (float('inf'), float('-inf')):
        return None
    f = Fraction(x)
    if f.denominator == 1:
        return int(f) if f.denominator == 1 else f
    tol = abs(f) / (1 << (bits - 1))
    return simplest_between(f - tol, f + tol)


def simplest_between(lo, hi):
    if lo <= 0 <= hi:
        return Fraction(0)
    if hi < 0:
        return -simplest_between(-hi, -lo)
    fl = lo.numerator // lo.denominator
    if Fraction(fl) == lo:
        return Fraction(fl)
    if fl < hi.numerator // hi.denominator:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_SPECIALS = None


def decode_const(ctx, x, bits=52):
    """FP literal -> Value: small rational, or small rational times pi^i e^j, or exact."""
    if x == 0:
        return ctx.const(0)
    r = rat_of_double(x, bits)
    if r is None:
        return ctx.fun('fpconst', repr(x))
    lim = 1 << (bits // 3 + 3)
    r = Fraction(r)
    best = None
    if abs(r.numerator) * r.denominator <= lim * 16 or r.denominator == 1:
        return ctx.const(int(r) if r.denominator == 1 else r)
    for i in range(-3, 4):
        for j in range(-3, 4):
            if i == 0 and j == 0:
                continue
            s = math.pi ** i * math.e ** j
            q = Fraction(rat_of_double(x / s, bits - 2))
            size = abs(q.numerator) * q.denominator
            if size <= (1 << (bits // 3)) and (best is None or (size, abs(i) + abs(j)) < best[0]):
                best = ((size, abs(i) + abs(j)), q, i, j)
    if best and best[0][0] < 100000:
        _, q, i, j = best
        v = ctx.const(q)
        if i:
            v = v.mul(ctx.var('pi').ipow(i))
        if j:
            v = v.mul(ctx.var('e').ipow(j))
        return v
    return ctx.const(r)
