"""Per property: the witnesses whose verdicts decide it.

A builder returns the list of witnesses for one property, tier and seed.  Everything here depends
only on the seed and the reference model; the code under analysis is only ever looked at through
the IR the compiler produces for the witnesses."""
import itertools
import random
from fractions import Fraction
from .ga import ALG, alg_of, grade, MV, gp_blade
from .expr import (In, Int, Lit, Const, Bin, Un, Comp, Grade, SP, LITS, lit, ENT, ent, Ent)
from .values import W, Raw, Tab, reference, NAMES
from .corpus import (ALGS, KINDS, SMALL, Gen, draw, support, pick_kinds, random_exprs, shared_exprs,
                     shared_pool, is_scalar_kind)

A, B, Cc, D = In(0), In(1), In(2), In(3)
FULL = {a: tuple(range(1 << ALG[a].dim)) for a in ALGS}
NAMED = {
    'vga': ['vector', 'rotor', 'scalar', 'vga.scalar'],
    'pga': ['plane', 'point', 'vector', 'line', 'motor', 'rotor', 'translator', 'scalar', 'pga.scalar', 'vga.point@pga'],
    'pga2': ['line', 'point', 'vector', 'scalar', 'pga2.scalar'],
    'cga': ['point', 'scalar', 'cga.scalar'],
}
GEOM = {a: [k for k in NAMED[a] if not is_scalar_kind(k)] for a in ALGS}


def blades(alg, g):
    return tuple(e for e in range(1 << alg_of(alg).dim) if grade(e) == g)


def sigs(dims):
    out = []
    for n in dims:
        for p in range(n, -1, -1):
            for v in range(n - p, -1, -1):
                if (p, v, n - p - v) != (4, 1, 0):  # that type is the conformal model itself (null basis)
                    out.append('m_%d_%d_%d' % (p, v, n - p - v))
    return out


def full(alg):
    return tuple(range(1 << alg_of(alg).dim))


def only_supported(ws):
    out, seen = [], set()
    for w in ws:
        if w.wid in seen:
            continue
        seen.add(w.wid)
        if not isinstance(w, W) or support(w) is not None:
            out.append(w)
    return out


def sparse(rng, alg, k):
    return tuple(sorted(rng.sample(range(1 << alg_of(alg).dim), k)))


def named_pairs(ops, algs=ALGS, T='double'):
    ws = []
    for alg in algs:
        for x, y in itertools.product(NAMED[alg], NAMED[alg]):
            for op in ops:
                ws.append(W(alg, [x, y], Bin(op, A, B), T=T))
    return ws


def sig_products(ops, dims, T='double'):
    return [W(s, [full(s), full(s)], Bin(op, A, B), T=T) for s in sigs(dims) for op in ops]


def high_dim_products(rng, ops, n, dims=(5, 6, 7, 8)):
    """Sparse operands in high-dimensional user-defined signatures."""
    ws = []
    for _ in range(n):
        d = rng.choice(dims)
        r = rng.randrange(0, min(3, d) + 1)
        v = rng.randrange(0, d - r + 1)
        if (d - r - v, v, r) == (4, 1, 0):
            v = 2
        s = 'm_%d_%d_%d' % (d - r - v, v, r)
        ws.append(W(s, [sparse(rng, s, 4), sparse(rng, s, 4)], Bin(rng.choice(ops), A, B)))
    return ws


HIGH = ['m_5_0_0', 'm_3_2_0', 'm_2_1_2', 'm_6_0_0', 'm_3_3_0', 'm_4_1_1', 'm_7_0_0', 'm_2_4_1', 'm_8_0_0', 'm_4_4_0', 'm_3_3_2', 'm_0_0_6']


def layered(rng, alg, k):
    """At most k blades of every grade."""
    out = []
    for g in range(alg_of(alg).dim + 1):
        b = list(blades(alg, g))
        out += rng.sample(b, min(k, len(b)))
    return tuple(sorted(out))


def unary_high(rng, fs, tier):
    """Unary operations on multivectors with components of every grade, in dimensions five to eight."""
    ws = []
    for s in HIGH:
        for _ in range(1 if tier == 'quick' else 4):
            for f in fs:
                ws.append(W(s, [layered(rng, s, 3)], f(A)))
    return ws


def blade_triples(ops, alg, rng, n):
    """(a o b) p c and a o (b p c) over sparse random operands"""
    ws = []
    for _ in range(n):
        ks = [sparse(rng, alg, min(3, 1 << alg_of(alg).dim)) for _ in range(3)]
        o, p = rng.choice(ops), rng.choice(ops)
        ws.append(W(alg, ks, rng.choice([Bin(p, Bin(o, A, B), Cc), Bin(o, A, Bin(p, B, Cc))])))
    return ws


def repeated(ops, kinds_of):
    """The same argument in both positions (squares)."""
    return [W(alg, [k], Bin(op, A, A)) for alg in ALGS for k in kinds_of[alg] for op in ops]


def op_random(seed, n, ops, algs=ALGS, table=KINDS, **kw):
    def make(rng):
        alg = rng.choice(algs)
        ks = pick_kinds(rng, table, alg)
        g = Gen(rng, alg, ks, ops=ops, **kw)
        d = rng.choice((2, 2, 3))
        if alg == 'cga':
            d = min(d, 2)
        return W(alg, ks, g.mv(d))
    return draw('op%s%s' % (ops, seed), n, make)


# ------------------------------------------------------------------ every operation on every kind of operand
def operand_forms(a, rng):
    """One operand of every shape an expression node can have, with and without a rational factor."""
    S = In(2)
    e = rng.choice(list(ent(a, GEOM[a][0]).rep))
    l = lit(a, rng.choice(list(LITS[a])), rng.choice([1, 2, 3]))
    fs = [A, A + B, A - B, A * B, A ^ B, A | B, A >> B, A & B, A % B, ~A, A.dual(), -A, A + 1, 1 - A, A + l, l * A, l, A * S, A / S, S * (A + B), A.grade(1), (A * B).grade(2), A[e], SP(A, B),
          S * S, 1 / S, Un('sin', S), Un('sqrt', S) * A, Const('PI') * A, (A + B) * A, A * A, A + A, A ^ B ^ A, ~(A * B), (A ^ B).dual()]
    out = []
    for x in fs:
        out.append(x)
        out.append(rng.choice([2, 3, -1, -2]) * x)
        out.append(x / rng.choice([2, 3, -2]))
    return out


def matrix(key, ctxs, tier, seed, algs=ALGS, keep=1.0):
    """ctxs: functions (x, a, rng) -> expression or list of them, applied to every operand form."""
    rng = random.Random('mx%s%s' % (key, seed))
    ws = []
    for a in algs:
        for c in ctxs:
            for x in operand_forms(a, rng):
                if tier == 'quick' and rng.random() > keep:
                    continue
                k = rng.choice(GEOM[a])
                ks = [rng.choice([k, GEOM[a][0]]) if a != 'cga' else rng.choice(['point', (1, 8), (4, 16)]), k if a != 'cga' else rng.choice([(2, 8), (16,), (1, 4)]), 'scalar']
                if a != 'cga' and rng.random() < .5:
                    ks = [rng.choice([t for t in SMALL[a] if not is_scalar_kind(t)]) for _ in (0, 1)] + ['scalar']
                y = c(x, a, rng)
                for z in y if isinstance(y, list) else [y]:
                    ws.append(W(a, ks, z))
    return only_supported(ws)


def bin_ctx(op):
    return [lambda x, a, rng: Bin(op, x, B), lambda x, a, rng: Bin(op, B, x), lambda x, a, rng: rng.choice([Bin(op, x, x), Bin(op, x, A), Bin(op, A, x), Bin(op, x, A + B), Bin(op, 2 * B, x)])]


CTX = {
    'geometric': bin_ctx('*'),
    'graded': bin_ctx('^') + bin_ctx('|') + bin_ctx('>>'),
    'dual': [lambda x, a, rng: x.dual(), lambda x, a, rng: x.dual() + A] + bin_ctx('&'),
    'sandwich': [lambda x, a, rng: ~x, lambda x, a, rng: ~x * x, lambda x, a, rng: A + ~x, lambda x, a, rng: x % B, lambda x, a, rng: B % x if not isinstance(x, Bin) else A + ~x],
    'linear': [lambda x, a, rng: -x, lambda x, a, rng: rng.choice([2, -3, 5]) * x, lambda x, a, rng: x / rng.choice([2, -3, 7]), lambda x, a, rng: x + rng.choice([1, -2]), lambda x, a, rng: rng.choice([1, -2]) - x,
               lambda x, a, rng: x - rng.choice([1, 3]), lambda x, a, rng: x + x, lambda x, a, rng: 3 * x - x] + bin_ctx('+') + bin_ctx('-'),
    'select': [lambda x, a, rng: x[rng.choice(list(ent(a, GEOM[a][0]).rep))], lambda x, a, rng: x[0], lambda x, a, rng: x[rng.randrange(1 << ALG[a].dim)] * A,
               lambda x, a, rng: x.grade(rng.randrange(ALG[a].dim + 1)), lambda x, a, rng: x.grade(1) + A, lambda x, a, rng: rng.choice([2, -1]) * x.grade(2) / 3,
               lambda x, a, rng: SP(x, B), lambda x, a, rng: SP(B, x), lambda x, a, rng: SP(x, x), lambda x, a, rng: SP(x, A) * B],
    'scalar': [lambda x, a, rng: Un(rng.choice(['sqrt', 'sin', 'cos', 'tan']), x[0]), lambda x, a, rng: Un(rng.choice(['sqrt', 'sin', 'cos', 'tan']), x[rng.choice(list(ent(a, GEOM[a][0]).rep))]),
               lambda x, a, rng: x / In(2), lambda x, a, rng: A / x[0], lambda x, a, rng: x * (1 / In(2)), lambda x, a, rng: x * Un('sqrt', In(2)), lambda x, a, rng: Const('PI') * x, lambda x, a, rng: x / Const('E'),
               lambda x, a, rng: rng.choice([1, 2]) / x[0], lambda x, a, rng: x / (SP(A, A) + In(2)) if a != 'cga' else x / (2 * In(2))],
}


# ------------------------------------------------------------------ the same operations in larger programs
def chain(rng, op, xs, coef=True):
    xs = list(xs)
    if coef:
        xs = [x if rng.random() < .7 else rng.choice([2, -1, 3, -5]) * x if rng.random() < .6 else x / rng.choice([2, 3, -4]) for x in xs]
    while len(xs) > 1:
        i = rng.randrange(len(xs) - 1) if rng.random() < .5 else 0
        xs[i:i + 2] = [Bin(op if isinstance(op, str) else rng.choice(op), xs[i], xs[i + 1])]
    return xs[0]


def cross(key, f, tier, seed, n=24, heavy=False):
    """f(rng, alg, x, y) -> an expression applying the operations under study to x and y.
    Embeds them in: repeated subexpressions, several results, many inputs, single precision, user-defined signatures."""
    rng = random.Random('cr%s%s' % (key, seed))
    m = 1 if tier == 'quick' else 8
    ws = []

    def small(a, k):
        return [rng.choice([t for t in SMALL[a] if not is_scalar_kind(t)]) for _ in range(k)]
    for a in ALGS:
        for _ in range(n * m):
            ks = small(a, 3) + ['scalar']
            X, Y, Z, S = In(0), In(1), In(2), In(3)
            u, v = f(rng, a, X, Y), f(rng, a, Y, Z)
            u2 = f(rng, a, rng.choice([X + Y, 2 * X, X - Z, ~X, X.dual(), X * S]), rng.choice([Y, Y + Z, Z / 2, -Y]))
            T = 'double' if rng.random() < .75 else 'float'
            c = rng.randrange(9)
            if c == 0:      # repeated
                x = rng.choice([u * u if not heavy else u + u, u + u, u - 2 * u + v, u * S + u, (u + v) - (v - u), u + u2 + u])
            elif c == 1:    # several results
                x = rng.sample([u, v, u2, u + v, u * S, X, Y - u], rng.choice([2, 3, 4]))
            elif c == 2:    # with temporaries
                x = rng.choice([u / S, u * Un('sin', S), Un('sqrt', u[0] + 2) * X, u / (S + 1) + v, u * (1 / S)])
            elif c == 3:    # scaled and selected
                x = rng.choice([(3 * u / 2).grade(rng.randrange(ALG[a].dim + 1)), (u + v)[rng.randrange(1 << ALG[a].dim)], SP(u, Z), ~u, u.dual(), -(u - v) / 3])
            elif c == 4:    # nested in itself
                x = rng.choice([f(rng, a, u, Z), f(rng, a, Z, u), f(rng, a, X, v), f(rng, a, u, X)])
            elif c == 5:    # many inputs, the operands among the last
                ks = [rng.choice(SMALL[a]) for _ in range(rng.choice([3, 5, 8]))] + small(a, 2)
                x = f(rng, a, In(len(ks) - 1), In(len(ks) - 2))
                if rng.random() < .5:
                    x = x + In(rng.randrange(len(ks)))
            elif c == 6:    # literals
                l = lit(a, rng.choice(list(LITS[a])), rng.choice([1, 2, 3]))
                x = rng.choice([f(rng, a, X + l, Y), f(rng, a, l, Y) + X, f(rng, a, X, l * Y), f(rng, a, X, Y + 1), f(rng, a, 2 - X, Y)])
            elif c == 7:
                x = rng.choice([u2, u + v, u - u2, 2 * u2])
            else:
                x = [u, u] if rng.random() < .3 else [u2, u2 + X, u]
            ws.append(W(a, ks, x, T=T))
    for _ in range(n * m):
        d = rng.choice([2, 3, 4, 5, 6, 7, 8])
        r = rng.randrange(0, min(3, d) + 1)
        q = rng.randrange(0, d - r + 1)
        if (d - r - q, q, r) == (4, 1, 0):
            q = 2
        sg = 'm_%d_%d_%d' % (d - r - q, q, r)
        ks = [sparse(rng, sg, min(3, 1 << d)) for _ in range(3)]
        u = f(rng, sg, In(0), In(1))
        ws.append(W(sg, ks, rng.choice([u, u + In(2), f(rng, sg, In(2), u), f(rng, sg, In(0) + In(2), In(1)), f(rng, sg, 2 * In(0), In(1) / 3), u.grade(rng.randrange(d + 1)), [u, In(2)]])))
    return only_supported(ws)


def x_bin(*ops):
    return lambda rng, a, x, y: Bin(rng.choice(ops), x, y)


def x_select(rng, a, x, y):
    d = alg_of(a).dim
    return rng.choice([lambda: x[rng.randrange(1 << d)] * y, lambda: (x * y).grade(rng.randrange(d + 1)), lambda: SP(x, y), lambda: SP(x, y) * x, lambda: (x + y)[rng.randrange(1 << d)], lambda: (x ^ y).grade(2) + x, lambda: (2 * (x + y)).grade(rng.randrange(d + 1))])()


def x_scalar(rng, a, x, y):
    d = alg_of(a).dim
    s = rng.choice([lambda: SP(x, y) + 2, lambda: x[0] + 1, lambda: y[rng.randrange(1 << d)] + 3, lambda: SP(x, x) + 1])()
    return rng.choice([lambda: y / s, lambda: x * Un('sqrt', s), lambda: Un('sin', s) * y, lambda: Un('cos', 2 * s) + Un('sin', s), lambda: Un('tan', s / 2), lambda: Const('PI') * x + y / s, lambda: 1 / s, lambda: y / Un('sqrt', s)])()


def x_linear(rng, a, x, y):
    return rng.choice([lambda: x + y, lambda: x - y, lambda: 2 * x - y / 3, lambda: x + x + y, lambda: -(x + 2 * y), lambda: 1 - x + y, lambda: x / 2 + x / 3 - y])()


def x_dual(rng, a, x, y):
    return rng.choice([lambda: x & y, lambda: x.dual() + y, lambda: x.dual() * y, lambda: (x ^ y).dual(), lambda: (x & y).dual(), lambda: x ^ y.dual(), lambda: (x + y).dual()])()


def x_sandwich(rng, a, x, y):
    return rng.choice([lambda: x % y, lambda: ~x * y, lambda: ~(x * y), lambda: ~(x + y), lambda: x + ~y, lambda: ~x ^ y, lambda: y * x * ~y])()


def long_chains(rng, a, ops, lens, kinds, n, tier):
    """Chains of many factors or terms over few small operands."""
    ws = []
    for k in lens:
        for _ in range(n if tier == 'quick' else 6 * n):
            ks = [rng.choice(kinds) for _ in range(rng.choice([2, 3, 5, 8]))]
            ws.append(W(a, ks, chain(rng, ops, [In(rng.randrange(len(ks))) for _ in range(k)])))
    return only_supported(ws)


# ------------------------------------------------------------------ products
def c_geometric(tier, seed):
    rng = random.Random('gp%s' % seed)
    ws = [W(a, [FULL[a], FULL[a]], A * B) for a in ALGS]
    ws += named_pairs(['*'])
    ws += repeated(['*'], {a: NAMED[a] + [FULL[a]] for a in ('vga', 'pga', 'pga2', 'cga')} | {'cga': NAMED['cga']})
    ws += sig_products(['*'], (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5))
    ws += high_dim_products(rng, ['*'], 40 if tier == 'quick' else 300)
    for a in ALGS:
        ws += blade_triples(['*'], a, rng, 30 if tier == 'quick' else 200)
    for a in ALGS:
        for s in LITS[a]:
            for k in GEOM[a]:
                ws.append(W(a, [k], lit(a, s) * A))
                ws.append(W(a, [k], A * lit(a, s)))
    ws += op_random(seed, 120 if tier == 'quick' else 1500, '*')
    ws += [W('pga', ['motor', 'point'], A * B * ~A, T='float'), W('cga', ['point', 'point'], A * B, T='float')]
    ws += cross('gp', x_bin('*'), tier, seed)
    for a in ALGS:
        ws += long_chains(rng, a, '*', (4, 5, 6), [(1,), (2,), (3,), (1, 2), (0, 3)], 4, tier)
        ws += long_chains(rng, a, '*', (8, 12), [(1,), (2,), (5,), (0,)], 3, tier)
    ws += matrix('geometric', CTX['geometric'], tier, seed)
    return ws


def c_graded(tier, seed):
    rng = random.Random('gr%s' % seed)
    ops = ['^', '>>', '|']
    ws = [W(a, [FULL[a], FULL[a]], Bin(o, A, B)) for a in ALGS for o in ops]
    ws += named_pairs(ops)
    ws += repeated(ops, NAMED)
    ws += sig_products(ops, (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))
    if tier == 'quick':
        ws += [W(s, [full(s), full(s)], Bin(o, A, B)) for s in ('m_4_0_0', 'm_2_2_0', 'm_1_1_2', 'm_0_3_1') for o in ops]
    ws += high_dim_products(rng, ops, 40 if tier == 'quick' else 300)
    for a in ALGS:
        ws += blade_triples(ops, a, rng, 40 if tier == 'quick' else 300)
    # exterior chains: the library keeps them as one variadic node
    for a in ALGS:
        for _ in range(20 if tier == 'quick' else 200):
            n = rng.choice([3, 4, 5] if a != 'cga' else [3, 4])
            k = rng.choice([2, 3])
            ks = [rng.choice([blades(a, 1), sparse(rng, a, 2)]) if a != 'cga' else rng.choice([(1, 8), (2, 4, 16), sparse(rng, a, 2)]) for _ in range(k)]
            xs = [In(rng.randrange(k)) if rng.random() < .8 else rng.choice([2, 3, -1]) * In(rng.randrange(k)) for _ in range(n)]
            while len(xs) > 1:
                i = rng.randrange(len(xs) - 1)
                xs[i:i + 2] = [xs[i] ^ xs[i + 1]]
            ws.append(W(a, ks, xs[0]))
    for a in ALGS:
        for s in LITS[a]:
            for o in ops:
                k = GEOM[a][0]
                ws.append(W(a, [k], Bin(o, lit(a, s), A)))
                ws.append(W(a, [k], Bin(o, A, lit(a, s))))
    ws += op_random(seed, 150 if tier == 'quick' else 1500, '^|>>')
    ws += cross('gr', x_bin('^', '|', '>>'), tier, seed)
    for a in ('m_6_0_0', 'm_8_0_0', 'm_4_2_1', 'cga', 'pga'):
        for k in (3, 4, 5, 6, 7):
            for _ in range(3 if tier == 'quick' else 20):
                g = [tuple(sorted(rng.sample(blades(a, 1), 2))) for _ in range(min(k, 8))]
                if k > 5:
                    g = [(b,) for b in rng.sample(blades(a, 1), min(k, len(blades(a, 1))))]
                xs = [In(i) for i in range(len(g))]
                rng.shuffle(xs)
                ws.append(W(a, g, chain(rng, '^', xs)))
    for a in ALGS:
        ws += long_chains(rng, a, ['^', '^', '|', '>>'], (4, 5), [(1,), (2,), (3,), (1, 2), (0, 3)], 4, tier)
    ws += matrix('graded', CTX['graded'], tier, seed, keep=.8)
    return only_supported(ws)


def c_dual(tier, seed):
    rng = random.Random('du%s' % seed)
    ws = []
    for a in ALGS:
        ws += [W(a, [FULL[a]], A.dual()), W(a, [FULL[a]], A.dual().dual()), W(a, [FULL[a]], (A.dual() * 2).dual() if False else (2 * A.dual()).dual()),
               W(a, [FULL[a], FULL[a]], A & B)]
        ws += [W(a, [k], A.dual()) for k in NAMED[a]] + [W(a, [k], A.dual().dual()) for k in NAMED[a]]
        ws += [W(a, [k], (A / 3).dual()) for k in NAMED[a]] + [W(a, [k, k], (A + 2 * B).dual()) for k in NAMED[a]]
        for k, l in itertools.product(NAMED[a], NAMED[a]):
            ws.append(W(a, [k, l], A & B))
            ws.append(W(a, [k, l], (A.dual() ^ B.dual()).dual()))
        for k in GEOM[a]:
            ws += [W(a, [k], A & A), W(a, [k, k, k], A & B & Cc), W(a, [k, k, k], A & (B & Cc)),
                   W(a, [k, k], (A & B).dual()), W(a, [k, k], (A ^ B).dual()), W(a, [k, k], A & (B ^ A))]
        for s in LITS[a]:
            ws.append(W(a, [GEOM[a][0]], A + lit(a, s).dual()))
            ws.append(W(a, [GEOM[a][0]], A & lit(a, s)))
            ws.append(W(a, [GEOM[a][0]], lit(a, s, 3) & A))
        ws += blade_triples(['&', '&', '^'], a, rng, 30 if tier == 'quick' else 200)
    for s in sigs((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
        ws.append(W(s, [full(s)], A.dual()))
        if alg_of(s).dim <= 3:
            ws.append(W(s, [full(s), full(s)], A & B))
    ws += high_dim_products(rng, ['&'], 30 if tier == 'quick' else 200)
    ws += unary_high(rng, [lambda x: x.dual(), lambda x: x.dual().dual()], tier)
    ws += op_random(seed, 100 if tier == 'quick' else 1200, '&^')
    ws += cross('du', x_dual, tier, seed)
    for a in ALGS:
        top = (1 << ALG[a].dim) - 1
        ws += long_chains(rng, a, '&', (3, 4, 5), [(top ^ 1,), (top ^ 2,), (top ^ 4, top ^ 2), (top,), (top ^ 1, top)], 4, tier)
    ws += matrix('dual', CTX['dual'], tier, seed)
    return only_supported(ws)


def c_sandwich(tier, seed):
    rng = random.Random('sw%s' % seed)
    ws = []
    for a in ALGS:
        ws += [W(a, [FULL[a]], ~A), W(a, [FULL[a]], ~~A), W(a, [FULL[a]], ~(2 * A / 3)), W(a, [FULL[a]], A + ~A), W(a, [FULL[a]], A - ~A)]
        for k in NAMED[a]:
            ws += [W(a, [k], ~A), W(a, [k], ~(3 * A)), W(a, [k], A * ~A), W(a, [k], ~A * A)]
            for l in NAMED[a]:
                ws += [W(a, [k, l], ~(A * B)), W(a, [k, l], A % B)]
                if not is_scalar_kind(k) and not is_scalar_kind(l):
                    ws += [W(a, [k, l], ~(A ^ B)), W(a, [k, l], A + B % A if False else (A % B) % A)]
        for s in LITS[a]:
            ws += [W(a, [GEOM[a][0]], ~lit(a, s) + A), W(a, [GEOM[a][0]], A % lit(a, s)), W(a, [GEOM[a][0]], lit(a, s) % A)]
        for _ in range(30 if tier == 'quick' else 200):
            ks = [sparse(rng, a, rng.choice([1, 2, 3])) for _ in range(3)]
            ws.append(W(a, ks, rng.choice([A % B, (A % B) % Cc, A % (B * Cc), (A + B) % Cc, A % (B + Cc), ~(A % B), A % ~B, (A ^ B) % Cc])))
    for s in sigs((1, 2, 3, 4)):
        ws.append(W(s, [full(s)], ~A))
        k = sparse(rng, s, min(4, 1 << alg_of(s).dim))
        l = sparse(rng, s, min(3, 1 << alg_of(s).dim))
        ws.append(W(s, [k, l], A % B))
    ws += unary_high(rng, [lambda x: ~x, lambda x: x + ~x], tier)
    if tier != 'quick':
        ws += [W('vga', [FULL['vga'], FULL['vga']], A % B), W('pga2', [FULL['pga2'], FULL['pga2']], A % B)]
        ws += [W(s, [full(s)], ~A) for s in sigs((5, 6))]
    ws += op_random(seed, 100 if tier == 'quick' else 1200, '%*')
    ws += cross('sw', x_sandwich, tier, seed, n=16, heavy=True)
    for a in ALGS:
        ws += long_chains(rng, a, '%', (3, 4), [(1,), (2,), (0, 3), (1, 2)], 3, tier)
    ws += matrix('sandwich', CTX['sandwich'], tier, seed)
    return only_supported(ws)


# ------------------------------------------------------------------ linear structure
def c_linear(tier, seed):
    rng = random.Random('li%s' % seed)
    ws = []
    ints = [-7, -3, -2, -1, 1, 2, 3, 5, 12]
    for a in ALGS:
        for k in NAMED[a] + [FULL[a]]:
            ws += [W(a, [k, k], A + B), W(a, [k, k], A - B), W(a, [k], A + A), W(a, [k], A + A + A), W(a, [k], -A), W(a, [k], 2 * A - A),
                   W(a, [k], A / 3 + 2 * A / 3), W(a, [k, k], A - B + A), W(a, [k, k], (A + B) - (A - B)), W(a, [k, k], -(A - 2 * B)),
                   W(a, [k, k], (A + B) / 2 + (A - B) / 2)]
            for n in rng.sample(ints, 4):
                ws += [W(a, [k], n * A), W(a, [k], A / n), W(a, [k], A + n), W(a, [k], n + A), W(a, [k], n - A), W(a, [k], A - n)]
        for k, l in itertools.product(NAMED[a], NAMED[a]):
            ws += [W(a, [k, l], A + B), W(a, [k, l], A - B), W(a, [k, l], 2 * A - B / 3)]
    # sums of several terms in every association and order, with coefficients that merge and cancel
    n = 350 if tier == 'quick' else 4000
    for _ in range(n):
        a = rng.choice(ALGS)
        k = rng.choice([1, 2, 3, 4])
        ks = [rng.choice(KINDS[a] if a != 'cga' else SMALL[a]) for _ in range(k)]
        xs = []
        for _ in range(rng.choice([2, 3, 4, 5, 6])):
            r = rng.random()
            if r < .7:
                x = In(rng.randrange(k))
            elif r < .85:
                x = lit(a, rng.choice(list(LITS[a])), rng.choice([1, 2, 5]))
            else:
                x = rng.choice([A * A, A * In(k - 1), ~A])
            q = rng.random()
            if q < .25:
                x = rng.choice([2, 3, -1, -4]) * x
            elif q < .5:
                x = x / rng.choice([2, 3, -2, 7])
            elif q < .6:
                x = -x
            xs.append(x)
        if rng.random() < .25:
            xs.insert(rng.randrange(len(xs) + 1), Int(rng.choice([1, -1, 2, 4])))
        while len(xs) > 1:
            i = rng.randrange(len(xs) - 1)
            if isinstance(xs[i], Int) and isinstance(xs[i + 1], Int):
                xs[i:i + 2] = [Int(xs[i].n + xs[i + 1].n)]
                continue
            y = Bin(rng.choice('++-'), xs[i], xs[i + 1])
            if rng.random() < .15:
                y = rng.choice([2, -1, 3]) * y
            elif rng.random() < .1:
                y = y / rng.choice([2, 5])
            xs[i:i + 2] = [y]
        ws.append(W(a, ks, xs[0]))
    ws += op_random(seed, 80 if tier == 'quick' else 800, '', scal=False, comp=False)
    # rational coefficients
    for num, den in [(3, 7), (22, 7), (-5, 9), (64, 63), (100, 3), (1, 1000), (1023, 1), (999, 998)]:
        ws.append(W('vga', ['vector', 'vector'], num * A / den + B))
        ws.append(W('vga', ['vector'], num * (A / den) - A))
    ws += cross('li', x_linear, tier, seed)
    for a in ALGS:
        ws += long_chains(rng, a, ['+', '+', '-'], (7, 9, 12, 17), SMALL[a] if a != 'cga' else [(1, 8), (4,), 'scalar'], 4, tier)
        ws += long_chains(rng, a, ['+', '+', '-'], (33, 66), [(1, 4), (2,), 'scalar'], 2, tier)
    for num, den in [(32767, 1), (1, 32767), (46341, 1), (100000, 7), (-65537, 2), (999983, 4), (1, 999), (-1, 1021)]:
        ws += [W('vga', ['vector'], num * A), W('vga', ['vector'], (num * A) / den), W('pga', ['plane', 'plane'], num * A - B), W('pga', ['plane'], A + num)]
    for d in (256, 257, -300, 32768, 65536, 65537, -70000, 100000, 1000003):
        ws += [W('vga', ['vector'], A / d), W('pga2', ['scalar'], A / d)]
    ws += matrix('linear', CTX['linear'], tier, seed, keep=.7)
    return only_supported(ws)


# ------------------------------------------------------------------ selection
def c_select(tier, seed):
    rng = random.Random('se%s' % seed)
    ws = []
    for a in ALGS:
        D_ = 1 << ALG[a].dim
        for e in range(D_):
            ws.append(W(a, [FULL[a]], A[e]))
            for k in (NAMED[a] if a != 'cga' else NAMED[a]):
                if e in ent(a, k).rep or rng.random() < .15:
                    ws.append(W(a, [k], A[e]))
        for g in range(ALG[a].dim + 1):
            ws += [W(a, [FULL[a]], A.grade(g))] + [W(a, [k], A.grade(g)) for k in NAMED[a]]
            ws += [W(a, [sparse(rng, a, 4), sparse(rng, a, 4)], (A * B).grade(g)) for _ in range(2)]
        ws += [W(a, [FULL[a], FULL[a]], SP(A, B))] if a != 'cga' or tier != 'quick' else [W(a, [blades(a, 1), blades(a, 1)], SP(A, B)), W(a, [blades(a, 2), blades(a, 2)], SP(A, B)), W(a, [sparse(rng, a, 8), FULL[a]], SP(A, B))]
        for k, l in itertools.product(NAMED[a], NAMED[a]):
            ws += [W(a, [k, l], SP(A, B)), W(a, [k, l], SP(A, A) * B)]
        for s in LITS[a]:
            ws += [W(a, [GEOM[a][0]], lit(a, s, 4)[LITS[a][s][0] if isinstance(LITS[a][s], tuple) else LITS[a][s]] * A),
                   W(a, [GEOM[a][0]], SP(lit(a, s), A) + 1), W(a, [FULL[a] if a != 'cga' else blades(a, 1)], SP(A, lit(a, s)) * A if False else SP(A, lit(a, s)))]
    n = 150 if tier == 'quick' else 2000
    for _ in range(n):
        a = rng.choice(ALGS)
        ks = pick_kinds(rng, SMALL, a)
        g = Gen(rng, a, ks, trans=False, div=False)
        x = g.mv(rng.choice([1, 2]))
        y = rng.choice([lambda: x[rng.randrange(1 << ALG[a].dim)], lambda: x.grade(rng.randrange(ALG[a].dim + 1)), lambda: SP(x, g.mv(1))])()
        r = rng.random()
        if r < .2:
            y = y * g.mv(1)
        elif r < .3:
            y = g.mv(1) + y
        elif r < .4:
            y = 3 * y / 2
        elif r < .5:
            y = y[0] if not isinstance(y, Grade) else y.grade(rng.randrange(ALG[a].dim + 1))
        ws.append(W(a, ks, y))
    for s in sigs((2, 3)):
        ws += [W(s, [full(s)], A.grade(g)) for g in range(alg_of(s).dim + 1)]
        ws.append(W(s, [full(s), full(s)], SP(A, B)))
    for s in HIGH:
        for g in rng.sample(range(alg_of(s).dim + 1), 3 if tier == 'quick' else alg_of(s).dim + 1):
            ws.append(W(s, [layered(rng, s, 3)], A.grade(g)))
        k = layered(rng, s, 2)
        ws.append(W(s, [k], A[rng.choice(k)]))
        ws.append(W(s, [k], SP(A, A)))
        ws.append(W(s, [k], SP(A, ~A)))
    ws += cross('se', x_select, tier, seed)
    ws += matrix('select', CTX['select'], tier, seed)
    return only_supported(ws)


# ------------------------------------------------------------------ scalar functions
def c_scalar(tier, seed):
    rng = random.Random('sf%s' % seed)
    ws = []
    F = ['sqrt', 'sin', 'cos', 'tan']
    for a in ALGS:
        s = 'scalar'
        sc = a + '.scalar'
        g0 = GEOM[a][0]
        for f in F:
            ws += [W(a, [s], Un(f, A)), W(a, [sc], Un(f, A)), W(a, [s], Un(f, 2 * A)), W(a, [s], Un(f, A / 3)), W(a, [s], Un(f, -A)), W(a, [s], 2 * Un(f, A)),
                   W(a, [s], Un(f, A) / 5), W(a, [s], Un(f, A + 1)), W(a, [s, s], Un(f, A + B)), W(a, [s, s], Un(f, A * B)), W(a, [s, s], Un(f, A - 3 * B)),
                   W(a, [s, g0], Un(f, A) * B), W(a, [s, g0], B * Un(f, A)), W(a, [s], Un(f, A) * Un(f, A)), W(a, [s], Un(f, A) + Un(f, A)), W(a, [s, s], Un(f, A) - Un(f, B)),
                   W(a, [s, g0], B / Un(f, A)), W(a, [s], 1 / Un(f, A)), W(a, [s], Un(f, 1 / A)), W(a, [s, s], Un(f, A / B)), W(a, [s], Un(f, Const('PI') * A)),
                   W(a, [s], Un(f, Const('E') * A / 2)), W(a, [g0], Un(f, A[list(ent(a, g0).rep)[0]])), W(a, [s], Un(f, 2 * (A + 1))), W(a, [s], Un(f, -1 * (A + 1))),
                   W(a, [s, g0], Un(f, SP(B, B) + A)), W(a, [s], ~Un(f, A)), W(a, [s], Un(f, A).dual()), W(a, [s], -Un(f, A)), W(a, [s], Un(f, A * A))]
            for h in F:
                ws += [W(a, [s], Un(f, Un(h, A))), W(a, [s], Un(f, 2 * Un(h, A))), W(a, [s], Un(f, A) * Un(h, A)), W(a, [s], Un(f, A) / Un(h, A)), W(a, [s, s], Un(f, A) + Un(h, B)), W(a, [s], Un(f, Un(h, A) + A))]
        ws += [W(a, [s, s], A / B), W(a, [g0, s], A / B), W(a, [s, s], A / (2 * B)), W(a, [s, s], (3 * A) / B), W(a, [s], 1 / A), W(a, [s], 5 / A), W(a, [s], -2 / A),
               W(a, [s], A / A), W(a, [s], A / (A * A)), W(a, [s], A * A / A), W(a, [s, s], A * B / A), W(a, [s, s], (A + B) / A), W(a, [s, s], A / (A + B)),
               W(a, [s, s], 1 / (A / B)), W(a, [s, s, s], A / B / Cc), W(a, [s, s, s], A / (B / Cc)), W(a, [s, s], 1 / A + 1 / B), W(a, [s, s], 1 / (1 / A + 1 / B)),
               W(a, [g0, s], A / (B / 3)), W(a, [g0, s], A * (1 / B)), W(a, [g0], A / SP(A, A)) if a != 'cga' else W(a, [g0, s], A / (B * B)),
               W(a, [g0, s, s], A / (B + Cc)), W(a, [g0, s, s], A / (B * Cc)), W(a, [g0, s], A * 3 / (2 * B) if False else (3 * A) / (2 * B)), W(a, [g0, s, s], A / (B * B * Cc)),
               W(a, [s, s, s], (A * A * B) / (A * B * Cc)), W(a, [s], 1 / (A * A * A)), W(a, [s, s], (A - B) / (A - B) if False else (A - B) / (A + B))]
        for c in ('PI', 'E'):
            k = Const(c)
            ws += [W(a, [s], k * A), W(a, [s], A * k), W(a, [s], k / A), W(a, [s], A / k), W(a, [s], 2 * (k * A)), W(a, [s], (2 * k) * A), W(a, [s], (k * 3) * A), W(a, [s], (k / 2) * A),
                   W(a, [g0], k * A), W(a, [g0], A / k), W(a, [s], (k * A) * (k * A)), W(a, [g0], A * (2 * k) + A), W(a, [s], A * k - A), W(a, [s, g0], (A * k) * B), W(a, [s], (k * A) / (2 * A + 1)),
                   W(a, [g0], 3 * (k * A)), W(a, [s], 1 / (k * A))]
            for n, d in ((3, 4), (-3, 2), (2, 3), (6, 4), (-1, -5), (4, 6), (7, 12), (1, -2)):
                kk = [(n * k) / d, (k / d) * n, n * (k / d), (k * n) / d, ((n * k) / d) * 2, ((k / d) / n) * 3, 5 * ((k * n) * 2), ((k / 2) / d) / 3]
                for q in (rng.sample(kk, 3) if tier == 'quick' else kk):
                    ws += [W(a, [s], q * A), W(a, [g0], A / q), W(a, [g0, s], A * q + B)]
                ws += [W(a, [s], Un(rng.choice(F), A * ((n * k) / d))), W(a, [s], (n * k) / d / A)]
        ws += [W(a, [s], Const('PI') * A * Const('E')), W(a, [s, s], Const('PI') * A + Const('E') * B), W(a, [s], (Const('E') * A) / Const('PI'))]
        # powers of a scalar through products and quotients
        x = A
        for n in range(2, 13 if a == 'vga' else 6):
            x = x * A
            ws += [W(a, [s], x), W(a, [s], 1 / x)]
            if n % 2 == 0:
                ws.append(W(a, [s, s], x / (B * B) + B))
    n = 150 if tier == 'quick' else 2500
    ws += draw('sc%s' % seed, n, lambda rng: scalar_case(rng))
    ws += [W('vga', ['scalar'], Un(f, A), T='float') for f in F]
    ws += [W('pga', ['scalar'], Const(c) * A, T='float') for c in ('PI', 'E')]
    ws += cross('sf', x_scalar, tier, seed, n=30)
    ws += matrix('scalar', CTX['scalar'], tier, seed)
    return only_supported(ws)


def scalar_case(rng):
    a = rng.choice(ALGS)
    ks = ['scalar'] + [rng.choice(SMALL[a]) for _ in range(rng.choice([0, 1, 1]))]
    g = Gen(rng, a, ks, ops='*' if rng.random() < .5 else '*^|')
    x = g.scalar(rng.choice([2, 3]))
    if rng.random() < .4:
        x = rng.choice([g.mv(1) * x, g.mv(1) / x, x + g.mv(1)])
    return W(a, ks, x)


# ------------------------------------------------------------------ composition
UNARY = [
    lambda x, a, rng: -x, lambda x, a, rng: ~x, lambda x, a, rng: x.dual(), lambda x, a, rng: 2 * x, lambda x, a, rng: x / 3,
    lambda x, a, rng: x + 1, lambda x, a, rng: 2 - x, lambda x, a, rng: -3 * x,
    lambda x, a, rng: x.grade(rng.randrange(ALG[a].dim + 1)), lambda x, a, rng: x[rng.randrange(1 << ALG[a].dim)],
]
BINARY = [lambda x, y, o=o: Bin(o, x, y) for o in ('*', '^', '|', '>>', '&', '%', '+', '-')] + [lambda x, y: SP(x, y)]


def c_compose(tier, seed):
    rng = random.Random('co%s' % seed)
    ws = []

    def kinds(a, n):
        ks = [rng.choice(SMALL[a]) for _ in range(n)]
        if is_scalar_kind(ks[0]):
            ks[0] = SMALL[a][0]
        return ks
    # every pair of nested operators, in each position and sharing pattern
    algs = ALGS
    for o in BINARY:
        for i in BINARY:
            a = rng.choice(algs)
            ks = kinds(a, 3)
            x = i(A, B)
            pats = [lambda: o(x, Cc), lambda: o(Cc, x), lambda: o(x, x), lambda: o(x, A), lambda: o(A, x), lambda: o(x, i(B, A)), lambda: o(i(A, Cc), i(Cc, B))]
            for p in (rng.sample(pats, 3) if tier == 'quick' else pats):
                ws.append(W(a, ks, p()))
        for u in UNARY:
            a = rng.choice(algs)
            ks = kinds(a, 2)
            pats = [lambda: o(u(A, a, rng), B), lambda: o(A, u(B, a, rng)), lambda: u(o(A, B), a, rng), lambda: o(u(A, a, rng), A), lambda: o(A, u(A, a, rng)), lambda: o(u(A, a, rng), u(B, a, rng)), lambda: u(o(A, A), a, rng)]
            for p in (rng.sample(pats, 3) if tier == 'quick' else pats):
                ws.append(W(a, ks, p()))
    for u in UNARY:
        for v in UNARY:
            a = rng.choice(algs)
            x = v(u(A, a, rng), a, rng)
            ws.append(W(a, kinds(a, 1), x))
            ws.append(W(a, kinds(a, 2), rng.choice([x * B, x + B, B - x, x ^ B])))
    k = 1 if tier == 'quick' else 10
    for a in ALGS:
        ws += random_exprs('%s.%s' % (seed, a), 90 * k, (a,))
        ws += shared_exprs('%s.%s' % (seed, a), 170 * k, (a,))
    return only_supported(ws)


def c_multi(tier, seed):
    rng = random.Random('mu%s' % seed)
    ws = []
    for a in ALGS:
        g0 = GEOM[a][0]
        k = [g0, GEOM[a][-1], 'scalar']
        ab = A * B
        ws += [W(a, k, [A, B]), W(a, k, [B, A]), W(a, k, [ab, ab]), W(a, k, [ab, ab * Cc]), W(a, k, [ab * Cc, ab]), W(a, k, [A, A, A]), W(a, k, [A, B, Cc, ab]),
               W(a, k, [2 * A, A / 3]), W(a, k, [2 * ab, 3 * ab, -ab]), W(a, k, [A - A, A]), W(a, k, [A, A - A]), W(a, k, [A - A, B - B]), W(a, k, [A, A - A, B]),
               W(a, k, [Un('sin', Cc), Un('cos', Cc), Un('sin', Cc) * A]), W(a, k, [A / Cc, B / Cc]), W(a, k, [1 / Cc, A / Cc, B / Cc]), W(a, k, [Un('sqrt', Cc), Un('sqrt', Cc)]),
               W(a, k, [~A, A.dual(), -A]), W(a, k, [A + B, A - B]), W(a, k, [A ^ B, A | B, A >> B, A & B]), W(a, k, [A + 1, 1 - A]), W(a, k, [ab[0], ab]), W(a, k, [ab.grade(2), ab.grade(0), ab]),
               W(a, k, [lit(a, '_e1'), lit(a, '_e2', 3), A]), W(a, k, [Const('PI') * Cc, Const('E') * A]), W(a, k, [A, B, A, B, A, B]),
               W(a, k, [SP(A, B), SP(A, A) if a != 'cga' else SP(B, A), SP(B, B) if a != 'cga' else Cc]), W(a, k, [A % B, B % A]), W(a, k, [2 * (A + B), (A + B) / 2])]
    m = 1 if tier == 'quick' else 10
    for a in ALGS:
        ws += shared_exprs('%s.m%s' % (seed, a), 130 * m, (a,), multi=1.0)

    def make(rng):
        a = rng.choice(ALGS)
        ks = pick_kinds(rng, SMALL, a)
        g = Gen(rng, a, ks)
        return W(a, ks, [g.mv(rng.choice([0, 1, 1, 2])) if rng.random() < .8 else g.scalar(1) for _ in range(rng.choice([2, 2, 3, 4]))])
    ws += draw('mm%s' % seed, 150 * m, make)

    def many(rng):
        a = rng.choice(ALGS)
        ks = pick_kinds(rng, SMALL, a)
        g = Gen(rng, a, ks)
        return W(a, ks, [g.mv(rng.choice([0, 0, 1])) if rng.random() < .8 else g.scalar(1) for _ in range(rng.choice([5, 6, 7, 8, 10, 12]))], T=rng.choice(['double', 'double', 'float']))
    ws += draw('mn%s' % seed, 50 * m, many)
    for a in ALGS:
        k = [GEOM[a][0], GEOM[a][-1], 'scalar']
        for n in (7, 9, 16, 17, 33):
            ws.append(W(a, k, [rng.choice([A, B, Cc, A + i, B - A, i * A, Cc * B, A - A]) for i in range(1, n + 1)]))
        # scales that differ between results
        ws += [W(a, k, [A / 2, 3 * B, Cc, -A]), W(a, k, [2 * (A + B), A + B, (A + B) / 2]), W(a, k, [5 * A * B, A * B / 7]), W(a, k, [Cc / 3, 2 / Cc, A / (3 * Cc)]), W(a, k, [3 * Un('sin', Cc), Un('sin', Cc) / 3]),
               W(a, k, [2 * (A ^ B), (B ^ A) / 3]), W(a, k, [A - A, 2 * A, B - B, B / 3]), W(a, k, [A])]
    for sg in ('m_2_0_0', 'm_1_1_1', 'm_5_0_0'):
        k = [sparse(rng, sg, 3), sparse(rng, sg, 3)]
        ws += [W(sg, k, [A * B, B * A, A ^ B]), W(sg, k, [A + B, A - B, ~A, A.dual()])]
    return only_supported(ws)


# ------------------------------------------------------------------ zero
def c_zero(tier, seed):
    rng = random.Random('ze%s' % seed)
    ws = []
    for a in ALGS:
        g0 = GEOM[a][0]
        ks = [g0, g0, 'scalar']
        e0 = blades(a, 1)
        ps = lit(a, '_ps')
        absent = [e for e in range(1 << ALG[a].dim) if e not in ent(a, g0).rep]
        zeros = [A - A, 0 * A, A * 0 if False else Int(0) * A, A[absent[0]], A[absent[-1]], A.grade(ALG[a].dim) if g0 != 'x' else A,
                 (A + B) - (B + A), (A * B) - (A * B), 2 * A - A - A, A / 2 - A / 2, ps ^ ps, (A - A) * B, B * (A - A), -(A - A), ~(A - A), (A - A).dual(), (A + 1) - A - 1, (A - A)[0], (A - A).grade(1)]
        # vectors square to zero under the exterior product
        zeros += [Lit('_e1', LITS[a]['_e1']) ^ Lit('_e1', LITS[a]['_e1'])]
        for z in zeros:
            base = [z, z + A, A + z, A - z, z - A, z * A, A * z, z ^ A, A ^ z, z | A, A | z, z >> A, A >> z, z & A, A & z, A % z, z % A, -z, ~z, z.dual(), 3 * z, z / 2, z + 2, 2 - z,
                    z[0], z.grade(1), z + z, z - z, z * z, SP(z, A), SP(A, z), z * Cc, z / Cc, Cc + z, Un('sin', z), Un('cos', z), Un('tan', z), Un('cos', z) * A,
                    Un('cos', 3 * z), Un('cos', z / 2) * A + B, Un('sin', 3 * z) + A, Un('cos', -2 * z) * Cc, Un('tan', z / 3) * A, Un('cos', z * Cc), Un('cos', z + z) + Un('cos', 2 * z), Un('sqrt', 4 * z) + A]
            pick = base if (tier != 'quick' or a in ('vga',)) else rng.sample(base, 16)
            for x in pick:
                ws.append(W(a, ks, x))
            ws.append(W(a, ks, [z, A]))
            ws.append(W(a, ks, [A, z, z]))
        # exactly zero entities as inputs
        zk = ()
        for x in [A + B, A - B, A * B, B * A, A ^ B, A & B, A | B, A >> B, -A, ~A, A.dual(), A + 1, 2 * A, B + A * B, A[0], A.grade(1), B % A, A % B, B, SP(A, B) + B]:
            ws.append(W(a, [zk, g0], x))
            ws.append(W(a, [g0, zk], _swap(x)))
        ws.append(W(a, ['scalar', zk, g0], A * Cc))
        ws.append(W(a, [zk, zk, g0], (A + B) * Cc))
    ws += draw('zz%s' % seed, 120 if tier == 'quick' else 1500, zero_case)
    return only_supported(ws)


def _swap(x):
    if isinstance(x, In):
        return In(1 - x.i)
    if isinstance(x, Bin):
        return Bin(x.op, _swap(x.a), _swap(x.b))
    if isinstance(x, Un):
        return Un(x.op, _swap(x.a))
    if isinstance(x, Comp):
        return Comp(_swap(x.a), x.e)
    if isinstance(x, Grade):
        return Grade(_swap(x.a), x.g)
    if isinstance(x, SP):
        return SP(_swap(x.a), _swap(x.b))
    return x


def zero_case(rng):
    a = rng.choice(ALGS)
    ks = pick_kinds(rng, SMALL, a)
    g = Gen(rng, a, ks)
    x, y = g.mv(1), g.mv(1)
    z = rng.choice([x - x, (x + y) - x - y, (x + y) - (y + x), x * y - x * y, (x ^ y) - (x ^ y), 2 * (x + y) - 2 * x - 2 * y, (x - x) * y, (2 * x) / 2 - x])
    z = rng.choice([z, z + g.mv(0), g.mv(0) * z, z * g.mv(1), [z, x], [x, z, y], z + z, (z + 1) * x])
    return W(a, ks, z)


# ------------------------------------------------------------------ result types
def c_types(tier, seed):
    """Exact symbolic cancellation: strict witnesses (no repeated subexpression is shared, so the
    result type must be exactly the support of the polynomial result)."""
    rng = random.Random('ty%s' % seed)
    ws = []

    def S(*a, **k):
        ws.append(W(*a, strict=True, **k))
    for a in ALGS:
        for k in NAMED[a] + [FULL[a]] if a != 'cga' else NAMED[a]:
            S(a, [k], A)
            S(a, [k], ~A)
            S(a, [k], A.dual())
            S(a, [k], A + ~A)
            S(a, [k], A - ~A)
            S(a, [k], A * A)
            S(a, [k], A ^ A)
            S(a, [k], A * ~A)
        for k, l in itertools.product(NAMED[a], NAMED[a]):
            for o in ('*', '^', '|', '>>', '&'):
                S(a, [k, l], Bin(o, A, B))
            S(a, [k, l], A * B - B * A)
            S(a, [k, l], A * B + B * A)
            if a != 'cga':
                S(a, [k, l], B * A * ~B)
        g = GEOM[a][0]
        S(a, [g, g], (A ^ B) + (B ^ A))
        S(a, [g, g], (A + B) * (A + B) - A * A - B * B)
        S(a, [g, g, g], (A ^ B ^ Cc) - (B ^ Cc ^ A))
    # associators and distributors of dense operands: hundreds of monomials, all of which cancel
    for a, ks in (('vga', [FULL['vga']] * 3), ('pga2', [FULL['pga2']] * 3), ('pga', ['motor', 'motor', 'plane']), ('pga', [FULL['pga'], 'plane', 'point']), ('m_4_0_0', [(1, 2, 4, 8)] * 3), ('m_2_2_0', [(0, 3, 5, 6, 9), (1, 2, 4, 8), (1, 2, 4, 8)])):
        S(a, ks, (A * B) * Cc - A * (B * Cc))
        S(a, ks, ((A ^ B) ^ Cc) - (A ^ (B ^ Cc)))
        S(a, ks, A * (B + Cc) - A * B - A * Cc)
        S(a, ks, ((A * B) * Cc) - (A * (B * Cc)) + A)
    S('cga', ['point'], A >> A)
    S('cga', ['point'], A | A)
    S('cga', ['point', 'point'], A | B)
    S('pga', ['plane', 'point'], B & A)
    S('pga', ['point', 'point'], A & B)
    S('pga', ['motor'], A * ~A)
    S('pga', ['line'], (A | A) + (A ^ A))
    S('pga', ['point', 'line'], A % B)
    S('vga', ['vector', 'vector'], A % B)

    def make(rng):
        a = rng.choice(ALGS)
        k = rng.choice([2, 3])
        ks = [rng.choice(SMALL[a]) for _ in range(k)]
        # products of distinct leaves: nothing repeats, nothing is shared
        xs = [In(i) for i in range(k)]
        rng.shuffle(xs)
        while len(xs) > 1:
            i = rng.randrange(len(xs) - 1)
            xs[i:i + 2] = [Bin(rng.choice('*^|&+-'), xs[i], xs[i + 1])]
            if rng.random() < .3:
                xs[i] = rng.choice([~xs[i], xs[i].dual(), 2 * xs[i], -xs[i]])
        return W(a, ks, xs[0], strict=True)
    ws += draw('ty%s' % seed, 200 if tier == 'quick' else 2500, make)

    # a product of vectors times its reverse is a scalar: every other component cancels term by term
    vec = {'vga': ['vector', (1, 2), (2, 4), (1, 2, 4)], 'pga': ['plane', (1, 2, 4), (2, 8), (1, 4, 8)], 'pga2': ['line', (1, 4), (2, 4)], 'cga': ['point', (1, 8), (1, 2), (4, 8, 16)]}
    for a in ALGS:
        for n in (2, 3, 4):
            for _ in range(4 if tier == 'quick' else 12):
                ks = [rng.choice(vec[a][:1 if n == 2 else None] if n < 4 else vec[a][1:]) for _ in range(n)]
                if a == 'cga' and n > 2:
                    ks = [rng.choice(vec[a][1:]) for _ in range(n)]
                xs = [In(i) for i in range(n)]
                e = xs[0]
                for x in xs[1:] + xs[::-1]:
                    e = e * x
                S(a, ks, e)
                if n == 3:
                    # the vector part alone survives
                    S(a, ks, A * B * Cc * B * A)
                    S(a, ks, (A * (B * (Cc * B))) * A)
                    S(a, ks, (A * B) * Cc * (B * A))

    def poly(rng):
        """A polynomial identity in up to nine scalars: a factored product minus its expansion, term by term in random
        order and association, plus at most one further term.  Nothing but that term may remain."""
        n = rng.choice([3, 4, 5, 6, 7, 8, 9])
        xs = list(range(n))
        rng.shuffle(xs)
        common = xs[:rng.randrange(0, max(1, n - 2))]
        rest = xs[len(common):]
        k = rng.choice([1, 2, 2, 3]) if len(rest) >= 4 else 1
        groups = [[] for _ in range(k)]
        for i, r in enumerate(rest[:2 * k + rng.randrange(0, 2)]):
            groups[i % k].append((rng.choice([1, 1, 1, 2, -1, 3]), r))
        groups = [g for g in groups if g]

        def mul(fs):
            fs = list(fs)
            rng.shuffle(fs)
            while len(fs) > 1:
                i = rng.randrange(len(fs) - 1)
                fs[i:i + 2] = [fs[i] * fs[i + 1]]
            return fs[0]

        def add(ts):
            r = ts[0]
            for t in ts[1:]:
                r = r + t if rng.random() < .8 else t + r
            return r
        fac = [In(c) for c in common]
        for g in groups:
            fac.append(add([In(x) if c == 1 else c * In(x) for c, x in g]))
        # expansion
        terms = [(1, [])]
        for g in groups:
            terms = [(c * d, v + [x]) for c, v in terms for d, x in g]
        rng.shuffle(terms)
        e = mul(fac)
        for c, v in terms:
            m = mul([In(x) for x in common + v])
            e = e - (m if c == 1 else c * m)
        if rng.random() < .4:
            e = e + In(rng.randrange(n)) * In(rng.randrange(n))
        a = rng.choice(ALGS)
        # two terms that share at most one factor have no product in common, so nothing is shared
        return W(a, ['scalar'] * n, e, strict=len(common) + len(groups) <= 2)
    ws += draw('py%s' % seed, 120 if tier == 'quick' else 1500, poly)

    # sums of two monomials of equal degree: collected exactly when they are the same, however each is built
    def build(ex):
        fs = [In(i) for i, k in enumerate(ex) for _ in range(k)]
        rng.shuffle(fs)
        while len(fs) > 1:
            i = rng.randrange(len(fs) - 1)
            fs[i:i + 2] = [fs[i] * fs[i + 1]]
        return fs[0]

    def subs(x):
        if isinstance(x, Bin):
            return [x.cpp()] + subs(x.a) + subs(x.b)
        return []
    for n in (2, 3):
        for d in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6):
            ms = [ex for ex in itertools.product(range(d + 1), repeat=n) if sum(ex) == d]
            for p, q in itertools.combinations_with_replacement(ms, 2):
                l, r = build(p), build(q)
                a = rng.choice(ALGS)
                c = rng.choice([-1, 1, 2, -3])
                if p == q:
                    # no product may occur twice, or it is evaluated once and the sum is no longer a polynomial in the inputs
                    all_ = subs(l) + subs(r)
                    ws.append(W(a, ['scalar'] * n, l - r, strict=len(set(all_)) == len(all_)))
                    ws.append(W(a, ['scalar'] * n, l + c * r))
                else:
                    ws.append(W(a, ['scalar'] * n, l + c * r))
                    if rng.random() < .3:
                        ws.append(W(a, ['scalar'] * n + [GEOM[a][0]], (l + c * r) * In(n)))
                    if rng.random() < .3:
                        ws.append(W(a, ['scalar'] * n, (l + c * r) - l))
    return only_supported(ws)


# ------------------------------------------------------------------ argument binding
def c_binding(tier, seed):
    rng = random.Random('bi%s' % seed)
    ws = []

    def make(rng):
        a = rng.choice(ALGS)
        n = rng.choice([3, 4, 5, 6, 7, 8])
        pool = NAMED[a] + SMALL[a] + [()]
        ks = [rng.choice(pool) for _ in range(n)]
        idx = [i for i in range(n)]
        rng.shuffle(idx)
        idx = idx[:rng.choice([1, 2, 3, n])]
        xs = [In(i) for i in idx]
        xs = [rng.choice([x, x, 2 * x, -x, ~x]) for x in xs]
        if len(xs) >= 2 and rng.random() < .5:
            xs[0:2] = [xs[0] * xs[1]]
        while len(xs) > 1:
            xs[0:2] = [Bin(rng.choice('+-'), xs[0], xs[1])]
        return W(a, ks, xs[0])
    ws += draw('bi%s' % seed, 350 if tier == 'quick' else 3000, make)
    # long parameter lists, large entities before the one that is used
    for a in ALGS:
        for n in (9, 12, 16, 20):
            for _ in range(3 if tier == 'quick' else 20):
                ks = [rng.choice(NAMED[a] + SMALL[a] + [(), FULL[a]]) for _ in range(n)]
                i, j = rng.randrange(n), n - 1
                ws += [W(a, ks, In(j)), W(a, ks, In(i) - 2 * In(j)), W(a, ks, [In(j), In(i)]), W(a, ks, In(i) + In(j) * In(0))]
        f = FULL[a]
        for ks in ([f, f, f, f, GEOM[a][0]], ['scalar', f, 'scalar', f, 'scalar'], [f] * 9 + ['scalar']):
            ws += [W(a, ks, In(len(ks) - 1)), W(a, ks, In(len(ks) - 1) * In(0)[1]), W(a, ks, In(2) if is_scalar_kind(ks[2]) else In(2)[(1 << ALG[a].dim) - 1])]
            ws += [W(a, ks, Un('sin', In(len(ks) - 1)[0] if not is_scalar_kind(ks[-1]) else In(len(ks) - 1)) * In(1))]
    for sg in ('m_8_0_0', 'm_7_0_0', 'm_3_3_0'):
        f = full(sg)
        g = blades(sg, 1)
        for ks in ([f, g], [f, f, 'scalar'], [g, f, f, g]):
            k = len(ks) - 1
            ws += [W(sg, ks, In(k)), W(sg, ks, In(0)[3] * In(k)), W(sg, ks, In(k) + In(1)[rng.choice(list(f))])] if k else []
    # every single argument on its own among many, with and without temporaries
    for a in ALGS:
        ks = (NAMED[a] * 3)[:8]
        for i in range(8):
            ws.append(W(a, ks, In(i)))
            ws.append(W(a, ks, In(i) + In((i + 3) % 8)))
            s = ks.index('scalar')
            ws.append(W(a, ks, In(i) / In(s)))
            ws.append(W(a, ks, Un('sin', In(s)) * In(i)))
            ws.append(W(a, ks, [In(i), In((i + 1) % 8)]))
    return only_supported(ws)


# ------------------------------------------------------------------ entities and literals
def c_entities(tier, seed):
    rng = random.Random('en%s' % seed)
    ws = []
    for T in ('double', 'float'):
        for a in ALGS:
            for k in NAMED[a]:
                for x in (A, 2 * A, A * 1 if False else Int(1) * A, A + A, ~A, A.dual()):
                    ws.append(W(a, [k], x, T=T))
                ws.append(W(a, ['scalar', k], A * B, T=T))
                ws.append(W(a, [k, k], A + 2 * B, T=T))
                for e in ent(a, k).rep:
                    ws.append(W(a, [k], A[e], T=T))
    for a in ALGS:
        for k in range(1, 5):
            for _ in range(6 if tier == 'quick' else 40):
                s = sparse(rng, a, min(k * 2, 1 << ALG[a].dim))
                ws.append(W(a, [s], A))
                ws.append(W(a, [s, NAMED[a][0]], A + B))
    ws += entity_raws(tier)
    return ws


def V3(v, n):
    return [v(n, i) for i in range(3)]


def dot(x, y):
    r = x[0].mul(y[0])
    for p, q in zip(x[1:], y[1:]):
        r = r.add(p.mul(q))
    return r


def entity_raws(tier):
    ws = []
    sc = '{T}'
    for T in ('double', 'float'):
        for al in ('vga', 'pga'):
            ws.append(Raw(al + ' rotor built from angle and axis', [(sc, 't', 1), (sc, 'x', 1), (sc, 'y', 1), (sc, 'z', 1)],
                          'gal::%s::rotor<T> r{t, x, y, z}; for (int i = 0; i != 5; ++i) o[i] = r[i];' % al,
                          lambda c, v: [c.trig('cos', v('t').scale(Fraction(1, 2))), c.trig('sin', v('t').scale(Fraction(1, 2))), v('x'), v('y'), v('z')], T=T))
            ws.append(Raw(al + ' rotor normalised', [('gal::%s::rotor<{T}>' % al, 'r', 5)],
                          'auto q = r; q.normalize(); for (int i = 0; i != 5; ++i) o[i] = q[i];',
                          lambda c, v: [v('r', 0), v('r', 1)] + [v('r', i).div(c.sqrt(dot([v('r', j) for j in (2, 3, 4)], [v('r', j) for j in (2, 3, 4)]))) for i in (2, 3, 4)], T=T))
        ws.append(Raw('pga translator normalised', [('gal::pga::translator<{T}>', 'r', 4)],
                      'auto q = r; q.normalize(); for (int i = 0; i != 4; ++i) o[i] = q[i];',
                      lambda c, v: [v('r', 0)] + [v('r', i).div(c.sqrt(dot([v('r', j) for j in (1, 2, 3)], [v('r', j) for j in (1, 2, 3)]))) for i in (1, 2, 3)], T=T))
        ws.append(Raw('vga vector normalised', [('gal::vga::vector<{T}>', 'a', 3)], 'auto v = a; v.normalize(); for (int i = 0; i != 3; ++i) o[i] = v[i];',
                      lambda c, v: [v('a', i).div(c.sqrt(dot(V3(v, 'a'), V3(v, 'a')))) for i in range(3)], T=T))
        ws.append(Raw('vga point to pga point', [('gal::vga::point<{T}>', 'a', 3)], 'gal::pga::point<T> r = a; for (int i = 0; i != 4; ++i) o[i] = r[i];',
                      lambda c, v: [v('a', 2).neg(), v('a', 1), v('a', 0).neg(), c.const(1)], T=T))
        ws.append(Raw('vga point to pga point and back', [('gal::vga::point<{T}>', 'a', 3)], 'gal::pga::point<T> p = a; gal::vga::point<T> r{p}; for (int i = 0; i != 3; ++i) o[i] = r[i];',
                      lambda c, v: [v('a', i) for i in range(3)], T=T))
    # constructors: argument order
    ctors = [('vga::vector', 3), ('vga::point', 3), ('pga::plane', 4), ('pga::vector', 3), ('pga::line', 6), ('pga::motor', 8), ('pga::translator', 4),
             ('pga2::line', 3), ('pga2::point', 2), ('pga2::vector', 2), ('cga::point', 3), ('pga::point', 4)]
    for T in ('double', 'float'):
        for t, n in ctors:
            ps = [(sc, 'p%d' % i, 1) for i in range(n)]
            ws.append(Raw(t + ' constructor', ps, 'gal::%s<T> r{%s}; for (int i = 0; i != %d; ++i) o[i] = r[i];' % (t, ', '.join(p[1] for p in ps), n),
                          lambda c, v, n=n: [v('p%d' % i) for i in range(n)], T=T))
    return ws


CONV = {  # concrete type -> list of (field, reference component as function of element values)
    'vga::vector': ('vga', [(1, 1), (1, 2), (1, 4)], None),
    'pga::plane': ('pga', [(1, 1), (1, 2), (1, 4), (1, 8)], None),
    'pga::motor': ('pga', [(1, e) for e in (0, 3, 5, 6, 9, 10, 12, 15)], None),
    'pga::vector': ('pga', [(-1, 13), (1, 11), (-1, 7)], None),
    'pga::line': ('pga', [(-1, 12), (1, 10), (-1, 6), (-1, 3), (-1, 5), (-1, 9)], None),
    'pga2::line': ('pga2', [(1, 1), (1, 2), (1, 4)], None),
    'pga2::point': ('pga2', [(-1, 5), (1, 3)], 6),
    'pga2::vector': ('pga2', [(-1, 5), (1, 3)], None),
    'cga::point': ('cga', [(1, 1), (1, 2), (1, 4)], None),
    'vga::point': ('pga', [(-1, 13), (1, 11), (-1, 7)], 14),
}


def c_convert(tier, seed):
    rng = random.Random('cv%s' % seed)
    ws = []

    def conv(t, elems, T, how):
        alg, fields, w = CONV[t]
        e = ent(alg, elems)
        order = {x: i for i, x in enumerate(elems)}

        def exp(c, v):
            def comp(x):
                return v('a', order[x]) if x in order else c.const(0)
            out = [comp(x).scale(s) for s, x in fields]
            if w is not None:
                out = [x.div(comp(w)) for x in out]
            return out
        body = {'cast': 'gal::%s<T> r{a};', 'copy': 'gal::%s<T> r = a;', 'compute': 'gal::%s<T> r = gal::' + alg + '::compute([](auto x) { return 2 * x / 2; }, a);'}[how] % t
        ws.append(Raw('%s from entity<%s> by %s' % (t, ','.join(map(str, elems)), how), [(e.cpp.replace('{T}', '{T}'), 'a', max(1, len(elems)))],
                      body + ' for (int i = 0; i != %d; ++i) o[i] = r[i];' % len(fields), exp, T=T))
    for t, (alg, fields, w) in CONV.items():
        els = sorted(x for _, x in fields) + ([w] if w is not None else [])
        els = tuple(sorted(set(els)))
        for T in ('double', 'float'):
            for how in ('cast', 'copy', 'compute'):
                conv(t, els, T, how)
            conv(t, FULL[alg], T, 'cast')
        for x in els:
            if x != w:
                rest = tuple(y for y in els if y != x)
                if rest:
                    conv(t, rest, 'double', 'cast')
                conv(t, (x,) if w is None else tuple(sorted((x, w))), 'double', 'copy')
        # every subset of the defining components, alone or with a foreign one, and sources of every size
        foreign = [x for x in FULL[alg] if x not in els]
        for k in range(len(els) + 1):
            for s in itertools.combinations(els, k):
                if not s or w is not None and w not in s:
                    continue
                conv(t, s, rng.choice(['double', 'float']), rng.choice(['cast', 'copy', 'compute']))
                if foreign:
                    conv(t, tuple(sorted(s + (rng.choice(foreign),))), 'double', rng.choice(['cast', 'copy']))
        for k in [x for x in range(1, len(FULL[alg]) + 1) for _ in range(3 if tier == 'quick' else 12)]:
            s = set(rng.sample(FULL[alg], k))
            if w is not None:
                s.add(w)
            conv(t, tuple(sorted(s)), 'double', rng.choice(['cast', 'copy', 'compute']))
    # round trip through the multivector form
    for t, alg, n in [('vga::vector', 'vga', 3), ('pga::plane', 'pga', 4), ('pga::motor', 'pga', 8), ('pga::vector', 'pga', 3), ('pga::line', 'pga', 6), ('pga::point', 'pga', 4),
                      ('pga2::line', 'pga2', 3), ('pga2::point', 'pga2', 2), ('pga2::vector', 'pga2', 2), ('cga::point', 'cga', 3), ('vga::point', 'pga', 3)]:
        for T in ('double', 'float'):
            for lam, q in (('x', 1), ('2 * x', 2 if t not in ('pga2::point', 'vga::point') else 1), ('-x', -1 if t not in ('pga2::point', 'vga::point') else 1), ('~~x', 1)):
                ws.append(Raw('%s through compute(%s) and back' % (t, lam), [('gal::%s<{T}>' % t, 'a', n)],
                              'gal::%s<T> r = gal::%s::compute([](auto x) { return %s; }, a); for (int i = 0; i != %d; ++i) o[i] = r[i];' % (t, alg, lam, n),
                              lambda c, v, n=n, q=q: [v('a', i).scale(q) for i in range(n)], T=T))
    # reverse twice: dual conversions between the vector-space point and the projective point
    for T in ('double', 'float'):
        ws.append(Raw('vga point to pga point', [('gal::vga::point<{T}>', 'a', 3)], 'gal::pga::point<T> r = a; for (int i = 0; i != 4; ++i) o[i] = r[i];',
                      lambda c, v: [v('a', 2).neg(), v('a', 1), v('a', 0).neg(), c.const(1)], T=T))
        ws.append(Raw('vga point to pga point and back', [('gal::vga::point<{T}>', 'a', 3)], 'gal::pga::point<T> p = a; gal::vga::point<T> r{p}; for (int i = 0; i != 3; ++i) o[i] = r[i];',
                      lambda c, v: [v('a', i) for i in range(3)], T=T))
        ws.append(Raw('motor bivector part', [('gal::pga::motor<{T}>', 'a', 8)], 'auto const b = a.bivector(); for (int i = 0; i != 6; ++i) o[i] = b[i]; for (int i = 0; i != 16; ++i) o[6 + i] = b.select(gal::elem_t(i));',
                      lambda c, v: [v('a', i) for i in range(1, 7)] + [{3: v('a', 1), 5: v('a', 2), 6: v('a', 3), 9: v('a', 4), 10: v('a', 5), 12: v('a', 6)}.get(e, c.const(0)) for e in range(16)], T=T))
        ws.append(Raw('motor from array', [('std::array<{T}, 8>', 'a', 8)], 'gal::pga::motor<T> m{a}; for (int i = 0; i != 8; ++i) o[i] = m[i];', lambda c, v: [v('a', i) for i in range(8)], T=T))
        ws.append(Raw('line from array', [('std::array<{T}, 6>', 'a', 6)], 'gal::pga::line<T> m{a}; for (int i = 0; i != 6; ++i) o[i] = m[i];', lambda c, v: [v('a', i) for i in range(6)], T=T))
        for al in ALGS:
            ws.append(Raw('%s scalar to number' % al, [('gal::scalar<gal::%s::%s_algebra, {T}>' % (al, al), 'a', 1)], 'T x = a; o[0] = x; o[1] = a[0]; o[2] = *a.data();', lambda c, v: [v('a')] * 3, T=T))
        # join of two points has the Pluecker coordinates of the line through them

        def pl(c, v):
            p, q = V3(v, 'p'), V3(v, 'q')
            d = [x.sub(y) for x, y in zip(p, q)]
            m = [q[(i + 1) % 3].mul(p[(i + 2) % 3]).sub(q[(i + 2) % 3].mul(p[(i + 1) % 3])) for i in range(3)]
            return d + m
        ws.append(Raw('line joining two points', [('gal::vga::point<{T}>', 'p', 3), ('gal::vga::point<{T}>', 'q', 3)],
                      'gal::pga::line<T> l = gal::pga::compute([](auto a, auto b) { return a & b; }, p, q); o[0] = l.dx; o[1] = l.dy; o[2] = l.dz; o[3] = l.mx; o[4] = l.my; o[5] = l.mz;', pl, T=T))
    return ws


def c_literals(tier, seed):
    rng = random.Random('lt%s' % seed)
    ws = []
    for a in ALGS:
        g0 = GEOM[a][0]
        names = list(LITS[a])
        for s in names:
            for n in (0, 1, 2, 7, 1000):
                ws.append(W(a, ['scalar'], A * lit(a, s, n)))
                ws.append(W(a, [g0], A + lit(a, s, n)))
            for n in (127, 128, 255, 256, 32767, 32768, 40000, 65535, 65536, 100003, 16777217, 2147483647 if a != 'cga' else 268435455):
                ws.append(W(a, ['scalar'], rng.choice([A * lit(a, s, n), lit(a, s, n) * A, lit(a, s, n), A + lit(a, s, n)])))
            ws += [W(a, ['scalar'], lit(a, s)), W(a, ['scalar'], lit(a, s, 5) / 2), W(a, ['scalar'], -lit(a, s)), W(a, ['scalar'], ~lit(a, s)), W(a, ['scalar'], lit(a, s).dual()),
                   W(a, ['scalar'], lit(a, s) + 1), W(a, ['scalar'], lit(a, s) - lit(a, s)), W(a, ['scalar'], lit(a, s) * lit(a, s))]
        for s, t in itertools.product(names, names):
            for o in (('*', '^', '|', '>>', '&') if a == 'cga' or tier != 'quick' else rng.sample(['*', '^', '|', '>>', '&'], 3)):
                ws.append(W(a, ['scalar'], Bin(o, lit(a, s), lit(a, t))))
            ws.append(W(a, ['scalar'], lit(a, s, 2) + lit(a, t, 3)))
            ws.append(W(a, [g0], (lit(a, s) + lit(a, t)) * A))
        for _ in range(40 if tier == 'quick' else 400):
            x = [lit(a, rng.choice(names), rng.choice([1, 2, 3])) for _ in range(3)]
            o, p = rng.choice('*^|&+-'), rng.choice('*^|&+-')
            ws.append(W(a, [g0], rng.choice([Bin(o, Bin(p, x[0], x[1]), A), Bin(o, A, Bin(p, x[0], x[1])), Bin(o, Bin(p, x[0], A), x[1]), Bin(o, Bin(p, x[0], x[1]), x[2])])))
    return only_supported(ws)


def c_null(tier, seed):
    """Conformal model: everything is expressed in the null basis."""
    rng = random.Random('nu%s' % seed)
    a = 'cga'
    ws = []
    for g in range(6):
        for h in range(6):
            ws.append(W(a, [blades(a, g), blades(a, h)], A + B))
            if tier != 'quick' or g + h <= 4:
                ws.append(W(a, [blades(a, g), blades(a, h)], A * B))
            if g <= 2 and h <= 2:
                ws += [W(a, [blades(a, g), blades(a, h)], Bin(o, A, B)) for o in ('^', '|', '>>', '&')]
    for e in range(32):
        ws += [W(a, [(e,)], A), W(a, [(e,)], A[e]), W(a, [(e,)], A.dual()), W(a, [(e,)], ~A), W(a, [(e,), 'scalar'], A * B), W(a, [FULL[a]], A[e])]
    for g in range(6):
        ws += [W(a, [FULL[a]], A.grade(g)), W(a, [blades(a, g)], A.grade(g))]
    P = 'point'
    ws += [W(a, [P, P], A | B), W(a, [P], A | A), W(a, [P], A * A), W(a, [P], A >> lit(a, '_ni')), W(a, [P], A | lit(a, '_ni')), W(a, [P], A | lit(a, '_no')), W(a, [P, P, P], A ^ B ^ Cc),
           W(a, [P, P], A ^ B ^ lit(a, '_ni')), W(a, [P, P], (A ^ B ^ lit(a, '_ni')) >> lit(a, '_ips')), W(a, [P, P, P], (A ^ B ^ Cc) | A if False else (A ^ B) | Cc), W(a, [P, P], A - B), W(a, [P], A[8]), W(a, [P], A[16]),
           W(a, ['scalar'], A * (lit(a, '_no') ^ lit(a, '_ni'))), W(a, ['scalar'], A * (lit(a, '_no') | lit(a, '_ni'))), W(a, ['scalar'], A * (lit(a, '_no') * lit(a, '_ni'))), W(a, ['scalar'], A * (lit(a, '_ni') * lit(a, '_no')))]
    # temporaries and repeated subexpressions in the null basis
    ws += shared_exprs('%s.nul' % seed, 220 if tier == 'quick' else 2500, ('cga',))
    ws += random_exprs('%s.nul' % seed, 150 if tier == 'quick' else 1500, ('cga',))
    if tier != 'quick':
        ws.append(W(a, [FULL[a], FULL[a]], A * B))
    ws += [W(a, [P, P], A | B, T='float'), W(a, [P], A * A, T='float')]
    return only_supported(ws)


def c_signature(tier, seed):
    rng = random.Random('sg%s' % seed)
    ws = []
    for s in sigs((1, 2, 3)):
        f = full(s)
        for o in ('*', '^', '|', '>>', '&'):
            ws.append(W(s, [f, f], Bin(o, A, B)))
        ws += [W(s, [f], ~A), W(s, [f], A.dual()), W(s, [f, f], A - 2 * B), W(s, [f, (1,)], A % B), W(s, [f], A * ~A), W(s, [f], SP(A, A))]
    for s in sigs((4,)) + (sigs((5,)) if tier != 'quick' else []):
        f = full(s)
        ws.append(W(s, [f, f], A * B))
        ws += [W(s, [f], ~A), W(s, [f], A.dual())]
        for o in ('^', '|', '>>', '&'):
            k = sparse(rng, s, 5)
            ws.append(W(s, [k, f], Bin(o, A, B)))
            ws.append(W(s, [f, k], Bin(o, A, B)))
        if tier != 'quick' and alg_of(s).dim == 4:
            ws += [W(s, [f, f], Bin(o, A, B)) for o in ('^', '|', '>>', '&')]
    ws += high_dim_products(rng, ['*', '^', '|', '>>', '&'], 80 if tier == 'quick' else 600)
    ws += unary_high(rng, [lambda x: ~x, lambda x: x.dual(), lambda x: x.grade(2), lambda x: SP(x, ~x), lambda x: 2 * x - x / 3], tier)
    # generators square to the signature
    for s in sigs((5, 6)) + ['m_7_0_0', 'm_0_7_0', 'm_3_3_2', 'm_8_0_0', 'm_4_4_0', 'm_1_6_1']:
        n = alg_of(s).dim
        gens = tuple(1 << i for i in range(n))
        ws.append(W(s, [gens], A * A))
        ws.append(W(s, [gens, gens], A * B))

    def make(rng):
        s = rng.choice(sigs((2, 3, 4)))
        ks = [sparse(rng, s, 3) for _ in range(rng.choice([1, 2]))]
        g = Gen(rng, s, ks, lits=False)
        return W(s, ks, g.mv(2))
    ws += draw('sg%s' % seed, 120 if tier == 'quick' else 1500, make)
    return only_supported(ws)
