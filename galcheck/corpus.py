"""Witness corpora: which expressions are decided.  Everything here depends only on the seed and
on the reference model, never on the code under analysis."""
import random
from .ga import ALG, alg_of
from .sym import Ctx, TooBig
from .expr import In, Int, Lit, Const, Bin, Un, Comp, Grade, SP, LITS, lit, ent, Env, ENT
from .values import W, reference


class ConstCtx(Ctx):
    """Reference context that rejects transcendental functions of compile-time constants (the
    compiler may fold those to a rounded number, which an exact domain cannot compare)."""

    def _vet(self, v):
        if v.num and not any(self.atoms[a][0] == 'in' or self.atoms[a][0] in ('sqrt', 'sin', 'cos')
                             for m in v.num for a, _ in m):
            raise Reject('transcendental of a constant')

    def sqrt(self, v):
        self._vet(v)
        return Ctx.sqrt(self, v)

    def trig(self, kind, v):
        self._vet(v)
        return Ctx.trig(self, kind, v)


class Reject(Exception):
    pass


def support(w):
    """Reference value of a witness or None when it has none (division by zero, too big, ...)."""
    try:
        r = reference(w, ConstCtx())
    except (ZeroDivisionError, TooBig, Reject):
        return None
    for m in r:
        for v in m.t.values():
            # sums of constants such as PI + 1 may be folded to one rounded number
            part = set()
            for mono in v.num:
                k = tuple(x for x in mono if v.ctx.atoms[x[0]][0] not in ('pi', 'e'))
                if k in part:
                    return None
                part.add(k)
    if sum(len(v.num) for m in r for v in m.t.values()) > 400:
        return None
    return r


KINDS = {
    'vga': ['vector', 'rotor', 'scalar', (0, 3, 5, 6), (1, 2, 4, 7), (0, 1, 2, 3, 4, 5, 6, 7), 'vga.scalar', (3, 6)],
    'pga': ['plane', 'point', 'line', 'motor', 'vector', 'rotor', 'translator', 'scalar', 'vga.point@pga', (1, 14), (0, 5, 15)],
    'pga2': ['line', 'point', 'scalar', (3, 5, 6), (0, 3, 5, 6), (0, 1, 2, 3, 4, 5, 6, 7)],
    'cga': ['point', 'scalar', (1, 2, 4, 8, 16), (8, 16), (3, 24, 31), (0, 5, 20)],
}
SMALL = {
    'vga': ['vector', 'vector', 'rotor', (0, 3), (1, 4), (6,), 'scalar', 'vga.scalar', (0,)],
    'pga': ['plane', 'point', 'vector', 'line', 'scalar', (1, 4), (3, 12), (0, 15), 'pga.scalar'],
    'pga2': ['line', 'point', 'scalar', (3, 5, 6), 'pga2.scalar'],
    'cga': ['point', (1, 8), (4, 16), 'scalar', (8, 16), (24,)],
}
ALGS = ('vga', 'pga', 'pga2', 'cga')


def is_scalar_kind(k):
    return k == 'scalar' or k == (0,) or (isinstance(k, str) and k.endswith('.scalar'))


class Gen:
    def __init__(self, rng, alg, kinds, ops='*^|>>&%', lin=True, scal=True, lits=True, trans=True, div=True, comp=True):
        self.rng, self.alg, self.kinds = rng, alg, kinds
        self.n = len(kinds)
        self.bins = [o for o in ('*', '^', '|', '>>', '&', '%') if o in ops]
        self.lin, self.scal, self.lits, self.trans, self.div, self.comp = lin, scal, lits, trans, div, comp
        self.sc_in = [i for i, k in enumerate(kinds) if is_scalar_kind(k)]
        self.D = 1 << alg_of(alg).dim

    def leaf(self):
        if self.lits and self.rng.random() < 0.18:
            return lit(self.alg, self.rng.choice(list(LITS[self.alg])), self.rng.choice([1, 1, 2, 3]))
        return In(self.rng.randrange(self.n))

    def comp_of_input(self):
        rng = self.rng
        i = rng.randrange(self.n)
        return In(i)[rng.choice(list(ent(self.alg, self.kinds[i]).rep))]

    def scalar(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.3:
            if self.sc_in and rng.random() < 0.6:
                return In(rng.choice(self.sc_in))
            return self.comp_of_input()
        if r < 0.42:
            return SP(self.mv(d - 1), self.mv(d - 1))
        if r < 0.55 and self.trans:
            return Un(rng.choice(['sqrt', 'sin', 'cos', 'tan']), self.scalar(d - 1))
        if r < 0.67 and self.div:
            return self.scalar(d - 1) / self.scalar(d - 1)
        if r < 0.75:
            return self.scalar(d - 1) * self.scalar(d - 1)
        if r < 0.85:
            return self.scalar(d - 1) + rng.choice([1, -1, 2, 3])
        if r < 0.9 and self.trans:
            return Const(rng.choice(['PI', 'E'])) * self.scalar(d - 1)
        if r < 0.95:
            return rng.choice([2, 3, -1]) * self.scalar(d - 1)
        return self.comp1(self.mv(d - 1), rng.randrange(self.D))

    def comp1(self, x, e):
        return Comp(x, e)

    def mv(self, d):
        rng = self.rng
        if d <= 0:
            return self.leaf()
        while True:
            r = rng.random()
            if r < 0.32 and self.bins:
                return Bin(rng.choice(self.bins), self.mv(d - 1), self.mv(d - 1))
            if 0.32 <= r < 0.6 and self.lin:
                return Bin(rng.choice('+-'), self.mv(d - 1), self.mv(d - 1))
            if 0.6 <= r < 0.7:
                return Un(rng.choice('~!-'), self.mv(d - 1))
            if 0.7 <= r < 0.77 and self.lin:
                return rng.choice([2, 3, -1, -2, 5]) * self.mv(d - 1)
            if 0.77 <= r < 0.82 and self.lin:
                return self.mv(d - 1) / rng.choice([2, 3, -2, 5])
            if 0.82 <= r < 0.87 and self.lin:
                x, k = self.mv(d - 1), rng.choice([1, 2, -3])
                return rng.choice([x + k, k + x, k - x, x - k])
            if 0.87 <= r < 0.91 and self.comp:
                return Grade(self.mv(d - 1), rng.randrange(alg_of(self.alg).dim + 1))
            if 0.91 <= r < 0.96 and self.scal:
                return self.mv(d - 1) * self.scalar(d - 1)
            if r >= 0.96 and self.scal and self.div:
                return self.mv(d - 1) / self.scalar(d - 1)


def pick_kinds(rng, table, alg, counts=(1, 2, 2, 3)):
    ks = [rng.choice(table[alg]) for _ in range(rng.choice(counts))]
    if all(is_scalar_kind(k) for k in ks):
        ks[0] = table[alg][0]
    return ks


def draw(seed, n, make):
    """n well-formed witnesses"""
    rng = random.Random(seed)
    out, seen = [], set()
    tries = 0
    while len(out) < n and tries < 20 * n + 100:
        tries += 1
        w = make(rng)
        if w.wid in seen or support(w) is None:
            continue
        seen.add(w.wid)
        out.append(w)
    return out


def random_exprs(seed, n, algs=ALGS, depth=(1, 2, 2, 3), p_scalar=0.2, T='double', **kw):
    def make(rng):
        alg = rng.choice(algs)
        ks = pick_kinds(rng, KINDS, alg)
        g = Gen(rng, alg, ks, **kw)
        d = rng.choice(depth)
        if alg == 'cga':
            d = min(d, 2)
        x = g.scalar(d) if rng.random() < p_scalar else g.mv(d)
        return W(alg, ks, x, T=T if isinstance(T, str) else rng.choice(T))
    return draw('re%s' % seed, n, make)


def shared_pool(rng, alg, kinds):
    """Expressions assembled from a pool of repeatedly used subexpressions."""
    n = len(kinds)
    pool, spool = [In(i) for i in range(n)], []
    D = 1 << alg_of(alg).dim

    def p():
        return rng.choice(pool)

    def s0():
        i = rng.randrange(n)
        return In(i)[rng.choice(list(ent(alg, kinds[i]).rep))]
    for _ in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        if r < 0.35:
            x = Bin(rng.choice(['*', '^', '|', '>>', '&']), p(), p())
        elif r < 0.6:
            x = Bin(rng.choice('+-'), p(), p())
        elif r < 0.7:
            x = Un(rng.choice('~!-'), p())
        elif r < 0.75:
            x = rng.choice([2, 3, -2]) * p()
        elif r < 0.85:
            s = rng.choice(spool) if spool and rng.random() < .6 else s0()
            x = p() * s if rng.random() < .5 else p() / s
        else:
            s = rng.choice(spool) if spool and rng.random() < .6 else (
                SP(p(), p()) if rng.random() < .5 else p()[rng.randrange(D)])
            k = rng.random()
            if k < .4:
                s = Un(rng.choice(['sqrt', 'sin', 'cos', 'tan']), s + rng.choice([1, 2]) if rng.random() < .4 else s)
            elif k < .6:
                s = rng.choice([1, 2]) / s
            spool.append(s)
            continue
        pool.append(x)
    out = rng.choice(pool[n:] or pool)
    for _ in range(rng.choice([1, 2, 3])):
        out = Bin(rng.choice(['+', '-', '*', '^', '|', '>>', '+']), out, rng.choice(pool))
    if spool and rng.random() < .7:
        s = rng.choice(spool)
        out = rng.choice([out * s, out / s, out + s])
    return out, pool, spool


def shared_exprs(seed, n, algs=ALGS, multi=0.0, T='double'):
    def make(rng):
        alg = rng.choice(algs)
        ks = pick_kinds(rng, SMALL, alg)
        x, p, s = shared_pool(rng, alg, ks)
        if rng.random() < multi:
            x = [x] + [rng.choice(p + s) for _ in range(rng.choice([1, 2, 3]))]
            rng.shuffle(x)
        return W(alg, ks, x, T=T)
    return draw('sh%s' % seed, n, make)
