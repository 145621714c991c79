"""Witnesses for the parts around the expression engine: closed forms, powers, rational numbers,
sorting, containers, storage, effects, geometry."""
import itertools
import random
from fractions import Fraction
from .ga import ALG, alg_of, grade, MV, gp_blade, ep_blade, lc_blade, ip_blade, dual_blade
from .expr import In, Int, Lit, Const, Bin, Un, Comp, Grade, SP, LITS, lit, ENT, ent, UEnt
from .ir import Gamma, Cond, UNDEF
from .sym import Value
from .values import W, Raw, Tab, mismatch
from .corpus import ALGS, SMALL, KINDS, Gen, draw, pick_kinds, shared_exprs, random_exprs, is_scalar_kind
from .props import (A, B, Cc, D, FULL, NAMED, GEOM, blades, sigs, full, sparse, only_supported, dot, V3)

TS = ('double', 'float')


def mvof(c, alg, d):
    return MV(c, alg_of(alg), d)


def inmv(c, v, alg, name, elems):
    return mvof(c, alg, {e: v(name, i) for i, e in enumerate(elems)})


# ------------------------------------------------------------------ exp / log / normalisation
def c_exp(tier, seed):
    rng = random.Random('ex%s' % seed)
    ws = []
    biv = {'vga': (3, 5, 6), 'pga': (3, 5, 6, 9, 10, 12), 'pga2': (3, 5, 6)}
    for T in TS:
        for a, b in biv.items():
            ws += [W(a, [b], Un('exp', A), T=T), W(a, [b], Un('exp', 2 * A), T=T), W(a, [b], Un('exp', -A), T=T), W(a, [b], Un('exp', A / 2), T=T)]
        ws.append(W('pga', ['line'], Un('exp', A), T=T))
    for a, b in biv.items():
        ws += [W(a, ['scalar', b], Un('exp', A * B)), W(a, [b, b], Un('exp', A + B)), W(a, [b], ~Un('exp', A)), W(a, [b], -Un('exp', A)), W(a, [b], 3 * Un('exp', A)),
               W(a, [b], Un('exp', A)[0]), W(a, [b], Un('exp', A).grade(2)), W(a, [b], Un('exp', ~A)), W(a, [b], Un('exp', 2 * A / 3)), W(a, [b, 'scalar'], Un('exp', A) * B),
               W(a, [b], [Un('exp', A), A]), W(a, [b], [Un('exp', A), Un('exp', A / 2)])]
        for k in range(1, 4):
            for _ in range(3 if tier == 'quick' else 12):
                s = tuple(sorted(rng.sample(b, min(k, len(b)))))
                # the closed form needs a part with non-zero square
                if any(not (e & 1) or a == 'vga' for e in s):
                    ws.append(W(a, [s], Un('exp', A)))
    ws += [W('pga', ['line', 'scalar'], Un('exp', B * A)), W('pga', ['line'], Un('exp', A / 2)), W('pga', ['line'], Un('exp', -A) if False else Un('exp', -A)),
           W('pga', ['line'], Un('exp', A)[15]), W('pga', ['line'], ~Un('exp', A)), W('pga', ['line', 'scalar', 'scalar'], Un('exp', (B + Cc) * A)),
           W('pga', [(6,), 'scalar'], Un('exp', A * B)), W('pga', [(3, 6)], Un('exp', A)), W('pga', [(6, 9)], Un('exp', A))]
    if tier != 'quick':
        ws += [W('pga', ['point', 'point'], Un('exp', A & B)), W('pga', ['plane', 'plane'], Un('exp', A ^ B)), W('pga', ['line', 'line'], Un('exp', A + B)),
               W('pga', ['line', 'line'], Un('exp', A) * Un('exp', B)), W('pga', ['line', 'plane'], B % Un('exp', A)), W('vga', ['vector', 'vector'], Un('exp', A ^ B))]
    # normalisation: m / |m|
    ME = (0, 3, 5, 6, 9, 10, 12, 15)

    def norm(c, v):
        m = inmv(c, v, 'pga', 'm', ME)
        n = m.gp(m.rev())
        u, w = n.t[0], n.t[15]
        r = c.sqrt(u)
        inv = mvof(c, 'pga', {0: r.inv(), 15: w.neg().div(r.mul(u).scale(2))})
        q = m.gp(inv)
        return [q.t[e] for e in ME]
    for T in TS:
        ws.append(Raw('motor normalised', [('gal::pga::motor<{T}>', 'm', 8)], 'auto q = m; q.normalize(); for (int i = 0; i != 8; ++i) o[i] = q[i];', norm, T=T))

    def log(c, v):
        s1, p1 = v('m', 0), v('m', 7)
        l = mvof(c, 'pga', {e: v('m', i) for i, e in enumerate(ME) if grade(e) == 2})
        s = l.ip(l).scalar()
        p = l.ep(l).t[15]
        s2 = c.sqrt(s.neg())
        p2 = p.neg().div(s2.scale(2))
        inv = mvof(c, 'pga', {0: s2.inv(), 15: p2.div(s)})
        u = c.fun('atan2', s2, s1)
        out = {}

        def form(w):
            return mvof(c, 'pga', {0: u, 15: w}).gp(l).gp(inv)
        fa, fb = form(p2.div(s1)), form(p1.neg().div(s2))
        for e in range(16):
            za, zb = fa.t.get(e, c.const(0)), fb.t.get(e, c.const(0))

            def test(x, za=za, zb=zb):
                def leaf(y, atzero):
                    if isinstance(y, Gamma):
                        z = at_zero(y.cond)
                        if z is None:
                            return 'depends on an unexpected condition %r' % (y.cond,)
                        return leaf(y.a, atzero and z) or leaf(y.b, atzero and not z)
                    if not isinstance(y, Value):
                        return 'is %s' % (y,)
                    if y.equals(zb):
                        return None
                    if y.equals(za):
                        return 'divides by the vanishing scalar part: %s' % y if atzero and not za.equals(zb) else None
                    return 'is %s; expected %s or %s' % (y, za, zb)

                def at_zero(cd):
                    """Truth of the condition when the scalar part is zero."""
                    if not isinstance(cd, Cond):
                        return None
                    if cd.kind == 'not':
                        r = at_zero(cd.args[0])
                        return None if r is None else not r
                    if cd.kind in ('and', 'or'):
                        r = [at_zero(y) if isinstance(y, Cond) else (bool(y) if isinstance(y, int) else None) for y in cd.args]
                        if None in r:
                            return None
                        return all(r) if cd.kind == 'and' else any(r)
                    x, y = cd.args
                    if not (isinstance(x, Value) and isinstance(y, Value)):
                        return None
                    fx, fy = val0(x), val0(y)
                    if fx is None or fy is None:
                        return None
                    k = cd.kind[-2:]
                    return {'lt': fx < fy, 'gt': fx > fy, 'le': fx <= fy, 'ge': fx >= fy, 'eq': fx == fy, 'ne': fx != fy}.get(k)

                def val0(x):
                    if x.is_const():
                        return Fraction(x.cval())
                    for q in (s1, s1.neg(), c.fun('fabs', s1), c.fun('abs', s1), s1.mul(s1)):
                        if x.equals(q):
                            return Fraction(0)
                    return None
                return leaf(x, True)
            out[e] = test
        return out
    for T in TS:
        ws.append(Raw('motor logarithm', [('gal::pga::motor<{T}>', 'm', 8)],
                      'auto const l = m.log(); for (int i = 0; i != 16; ++i) o[i] = l.select(gal::elem_t(i));', log, T=T))
    return only_supported(ws)


# ------------------------------------------------------------------ powers
def c_pow(tier, seed):
    ws = []
    rng = random.Random('pw%s' % seed)
    pre = 'template <int N, int D> T pw(T s) { return gal::pow(s, std::integral_constant<int, N>{}, std::integral_constant<int, D>{}); }'

    def raw(T, N, D):
        w = Raw('power %d/%d' % (N, D), [('{T}', 's', 1)],
                'o[0] = gal::pow(s, std::integral_constant<int, %d>{}, std::integral_constant<int, %d>{});' % (N, D),
                lambda c, v: [c.pow(v('s'), Fraction(N, D))], T=T)
        w.group = 'gal::pow'
        return w
    hi = 40 if tier == 'quick' else 130
    for T in TS:
        for N in range(-hi, hi + 1):
            ws.append(raw(T, N, 1))
        for N in (41, 47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 130, 199, 255, 256, 257, 300):
            ws += [raw(T, N, 1), raw(T, -N, 1)]
    for D in (2, 3, 4, 5, 7):
        for N in (-7, -5, -3, -2, -1, 1, 2, 3, 5, 7):
            if Fraction(N, D).denominator == D:
                ws += [raw(T, N, D) for T in TS]
    # the same powers arising inside expressions
    for a in ALGS:
        for n in list(range(2, 21)) + [31, 32, 33] if a in ('vga', 'pga') else (2, 3, 5, 9):
            x = A
            for _ in range(n - 1):
                x = x * A
            y = B
            ws += [W(a, ['scalar', 'scalar'], x), W(a, ['scalar', 'scalar'], x * B), W(a, ['scalar', 'scalar'], 1 / x), W(a, ['scalar', 'scalar'], B / x)]
            if n < 12:
                ws += [W(a, ['scalar', GEOM[a][0]], B / x), W(a, ['scalar', GEOM[a][0]], x * B), W(a, ['scalar', 'scalar'], (A * B) * x / 3), W(a, ['scalar', 'scalar'], x - 2 * x * A)]
    for T in TS:
        for n in (3, 7, 9, 11, 13):
            x = A + B
            for _ in range(n - 1):
                x = x * A
            ws.append(W('vga', ['scalar', 'scalar'], x, T=T))
    return only_supported(ws)


# ------------------------------------------------------------------ rational numbers
def rat_table(key, pairs, ops, check):
    """ops: C++ expressions over rat x, y giving rat; the table holds numerator and denominator."""
    n = len(pairs)
    k = len(ops)
    xs = ', '.join('{{%d, %d}, {%d, %d}}' % (p[0], p[1], q[0], q[1]) for p, q in pairs)
    body = ' '.join('{ gal::rat z = %s; r[j++] = z.num; r[j++] = z.den; }' % o for o in ops)
    pre = 'constexpr struct { gal::rat x, y; } P[%d] = {%s};' % (n, xs)
    init = '[] { std::array<long long, %d> r{}; size_t j = 0; for (auto const& p : P) { gal::rat x = p.x; gal::rat y = p.y; %s } return r; }()' % (n * k * 2, body)
    return Tab(key, init, n * k * 2, check, pre=pre)


def bool_table(key, pairs, ops, check):
    n, k = len(pairs), len(ops)
    xs = ', '.join('{{%d, %d}, {%d, %d}}' % (p[0], p[1], q[0], q[1]) for p, q in pairs)
    body = ' '.join('r[j++] = (%s) ? 1 : 0;' % o for o in ops)
    pre = 'constexpr struct { gal::rat x, y; } P[%d] = {%s};' % (n, xs)
    init = '[] { std::array<long long, %d> r{}; size_t j = 0; for (auto const& p : P) { gal::rat x = p.x; gal::rat y = p.y; %s } return r; }()' % (n * k, body)
    return Tab(key, init, n * k, check, pre=pre)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def c_rational(tier, seed):
    rng = random.Random('ra%s' % seed)
    ws = []
    N = 5 if tier == 'quick' else 9
    small = [(n, d) for n in range(-N, N + 1) for d in range(1, N + 1)]
    pairs = list(itertools.product(small, small))
    F = Fraction
    OPS = [('x + y', lambda x, y: x + y), ('x - y', lambda x, y: x - y), ('x * y', lambda x, y: x * y), ('-x', lambda x, y: -x),
           ('(x += y)', lambda x, y: x + y), ('(x *= y)', lambda x, y: x * y)]
    DIV = [('x / y', lambda x, y: x / y), ('(x /= y)', lambda x, y: x / y), ('y.reciprocal()', lambda x, y: 1 / y), ('x.negation()', lambda x, y: -x)]

    def val(ps, ops):
        def check(got):
            j = 0
            for p, q in ps:
                x, y = F(*p), F(*q)
                for s, f in ops:
                    n, d = got[j], got[j + 1]
                    j += 2
                    # each op starts from the same x, y: compound assignments come last
                    if d <= 0:
                        yield '%s with x = %s, y = %s has denominator %d' % (s, p, q, d)
                    elif F(n, d) != f(x, y):
                        yield '%s with x = %s/%s, y = %s/%s is %d/%d; expected %s' % (s, p[0], p[1], q[0], q[1], n, d, f(x, y))
        return check

    def T(key, ps, ops):
        out = []
        for i, ch in enumerate(chunks(ps, 1200)):
            cpp = ['[&] { auto z = x; (void) z; return %s; }()' % s if False else s for s, _ in ops]
            # compound operators act on a copy
            cpp = [('[=]() mutable { return %s; }()' % s) for s, _ in ops]
            t = rat_table('%s (part %d)' % (key, i), ch, cpp, val(ch, ops))
            t.group = 'gal::rat'
            out.append(t)
        return out
    ws += T('sums, differences, products', pairs, OPS)
    ws += T('quotients', [(p, q) for p, q in pairs if q[0]], DIV)
    INT = [('%d * x' % k, lambda x, y, k=k: k * x) for k in (-3, 0, 1, 2, 7)] + [('x / %d' % k, lambda x, y, k=k: x / k) for k in (-4, -1, 1, 3)]
    ws += T('integer multiples and quotients', [(p, (1, 1)) for p in small], INT)
    CMP = [('x == y', lambda x, y: x == y), ('x != y', lambda x, y: x != y), ('x < y', lambda x, y: x < y), ('x > y', lambda x, y: x > y),
           ('x.is_zero()', lambda x, y: x == 0), ('x != 2', lambda x, y: x != 2), ('x != -1', lambda x, y: x != -1)]

    def bcheck(ps, ops):
        def check(got):
            j = 0
            for p, q in ps:
                for s, f in ops:
                    if bool(got[j]) != f(F(*p), F(*q)):
                        yield '%s with x = %s, y = %s is %s' % (s, p, q, bool(got[j]))
                    j += 1
        return check
    for i, ch in enumerate(chunks(pairs, 1200)):
        t = bool_table('comparisons (part %d)' % i, ch, [s for s, _ in CMP], bcheck(ch, CMP))
        t.group = 'gal::rat'
        ws.append(t)
    # larger operands whose results still fit: exact while the reduced denominator stays small
    big = []
    while len(big) < (600 if tier == 'quick' else 6000):
        p = (rng.randrange(-900, 900), rng.randrange(1, 31))
        q = (rng.randrange(-900, 900), rng.randrange(1, 31))
        if q[0]:
            big.append((p, q))
    ws += T('larger operands', big, OPS[:4])
    # operands up to the limit of the representation: every intermediate value of the exact formulas fits
    M = 2**31 - 1

    def mag(k):
        return rng.choice([1, -1]) * rng.randrange(2**rng.randrange(k), 2**k)
    far, cmps = [], []
    while len(far) < (600 if tier == 'quick' else 6000):
        p = (mag(rng.randrange(1, 31)), rng.choice([1, 1, 1, rng.randrange(1, 32)]))
        q = (mag(rng.randrange(1, 31)), rng.choice([1, 1, 1, rng.randrange(1, 32)]))
        if max(abs(p[0] * q[1]) + abs(q[0] * p[1]), abs(p[0] * q[0])) <= M and p[1] * q[1] < 1000:
            far.append((p, q))
    ws += T('operands up to the limit', far, OPS)
    ws += T('quotients up to the limit', [(p, q) for p, q in far if abs(q[0] * p[1]) < 1000], DIV[:3])
    while len(cmps) < (900 if tier == 'quick' else 6000):
        k = rng.randrange(3)
        if k == 0:
            n, d = rng.randrange(1, 46340), rng.randrange(1, 46340)
            p, q = (n, d), (n + rng.choice([-1, 0, 1]), d + rng.choice([-1, 0, 1]))
        elif k == 1:
            n = rng.randrange(2**20, 2**31 - 2)
            p, q = (n, 1), (n + rng.choice([-1, 0, 1]), 1)
        else:
            p, q = (mag(rng.randrange(1, 31)), rng.randrange(1, 40000)), (mag(rng.randrange(1, 31)), rng.randrange(1, 40000))
        if rng.random() < .4:
            p, q = (-p[0], p[1]), (-q[0], q[1])
        if q[1] >= 1 and max(abs(p[0] * q[1]), abs(q[0] * p[1]), 2 * p[1]) <= M:
            cmps.append((p, q))
    t = bool_table('comparisons of close and large operands', cmps, [x for x, _ in CMP], bcheck(cmps, CMP))
    t.group = 'gal::rat'
    ws.append(t)
    # large denominators: the documented bound on the error of the overflow gate
    EPS = F(1, 10**7) * F(1000001, 1000000)
    lim = []
    while len(lim) < (800 if tier == 'quick' else 8000):
        d = rng.choice([rng.randrange(1024, 5000), rng.randrange(5000, 60000), rng.randrange(60000, 30000000), rng.randrange(1000, 1040)])
        n = rng.choice([rng.randrange(1, 50), rng.randrange(1, 5000), rng.randrange(1, 30000)]) * rng.choice([1, -1])
        lim.append(((n, d), (1, 1)))

    def near(ops):
        def check(got):
            j = 0
            for p, q in lim:
                for s, f in ops:
                    n, d = got[j], got[j + 1]
                    j += 2
                    w = f(F(*p), F(*q))
                    if d <= 0:
                        yield '%s with x = %s has denominator %d' % (s, p, d)
                    elif abs(F(n, d) - w) > EPS:
                        yield '%s with x = %s/%s is %d/%d, off by %.3g' % (s, p[0], p[1], n, d, float(abs(F(n, d) - w)))
                    elif w.denominator < 1024 and F(n, d) != w:
                        yield '%s with x = %s/%s is %d/%d; expected %s' % (s, p[0], p[1], n, d, w)
        return check
    G = [('x * y', lambda x, y: x), ('x / 1', lambda x, y: x), ('x / y', lambda x, y: x), ('x + gal::zero', lambda x, y: x)]
    t = rat_table('bounded error for large denominators', lim, [s for s, _ in G], near(G))
    t.group = 'gal::rat'
    ws.append(t)
    # conversion to floating point and coefficients inside expressions
    cases = [(1, 3), (-2, 7), (22, 7), (-311, 113), (1, 1000), (5, 1), (-1, 2), (0, 1)]
    for T_ in TS:
        def conv(n, d):
            return lambda c, v: [c.const(F(n, d)).mul(v('s'))]
        for n, d in cases:
            w = Raw('rational %d/%d as a number' % (n, d), [('{T}', 's', 1)], 'o[0] = static_cast<T>(gal::rat{%d, %d}) * s;' % (n, d), conv(n, d), T=T_)
            w.group = 'gal::rat'
            ws.append(w)
    for n, d in [(3, 7), (-5, 9), (100, 3), (7, 1023), (31, 29), (1, 512)]:
        for a in ALGS:
            k = GEOM[a][0]
            ws += [W(a, [k], n * A / d), W(a, [k, k], n * (A + B) / d - A / 3), W(a, [k], (n * A) / d + A / 2), W(a, ['scalar', k], (n * A / d) * B), W(a, ['scalar', k], B / (n * A / d))]
    # generator arithmetic on basis blades used by every product
    for key, expr, f in [('number of set bits', 'gal::pop_count(x)', lambda x: bin(x).count('1')), ('index of the leading bit', 'gal::leading_set_index(x)', lambda x: x.bit_length() - 1)]:
        t = Tab(key, '[] { std::array<long long, 1100> r{}; for (unsigned x = 1; x != 1101; ++x) r[x - 1] = %s; return r; }()' % expr, 1100, [f(x) for x in range(1, 1101)])
        t.group = 'bits'
        ws.append(t)
    evens = [x for x in range(600) if bin(x).count('1') % 2 == 0]
    t = Tab('next element of even grade', '[] { std::array<long long, %d> r{}; unsigned e = 0; for (auto& x : r) { x = e; e = gal::next_even(e); } return r; }()' % (len(evens) - 1), len(evens) - 1, evens[:-1])
    t.group = 'bits2'
    ws.append(t)
    for ty, top in (('uint32_t', 31), ('uint64_t', 62)):
        xs = sorted({0, 1, 2, 3} | set(range(4, 70)) | {x for k in range(6, top) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)})
        t = Tab('next power of two, %s' % ty, '[] { constexpr %s xs[] = {%s}; std::array<long long, %d> r{}; size_t j = 0; for (auto x : xs) r[j++] = gal::next_pow_2(x); return r; }()' % (ty, ', '.join('%dull' % x for x in xs), len(xs)),
                len(xs), [0 if x == 0 else 1 << (x - 1).bit_length() for x in xs])
        t.group = 'bits3'
        ws.append(t)
    xs = [rng.randrange(1 << 32) for _ in range(40)] + [0, 1, 255, 256, 0xff000000]
    t = Tab('rotation by a byte', '[] { constexpr unsigned xs[] = {%s}; std::array<long long, %d> r{}; size_t j = 0; for (auto x : xs) r[j++] = gal::rot32(x); return r; }()' % (', '.join('%du' % x for x in xs), len(xs)),
            len(xs), [(x >> 8) | (x & 255) << 24 for x in xs])
    t.group = 'bits4'
    ws.append(t)
    return only_supported(ws)


# ------------------------------------------------------------------ sorting
def c_sort(tier, seed):
    rng = random.Random('so%s' % seed)
    seqs = []
    top = 5 if tier == 'quick' else 6
    for n in range(0, top + 1):
        for s in itertools.product(range(n), repeat=n):
            if set(s) == set(range(len(set(s)))):
                seqs.append(s)
    for _ in range(400 if tier == 'quick' else 4000):
        n = rng.choice([6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 64, 65, 100])
        m = rng.choice([2, 3, n, 3 * n])
        s = [rng.randrange(m) for _ in range(n)]
        s = rng.choice([s, sorted(s), sorted(s, reverse=True), s])
        seqs.append(tuple(s))
    for n in (101, 127, 128, 129, 150, 180, 200, 255, 256, 257, 300) + ((400, 511, 512, 513, 600) if tier != 'quick' else ()):
        for m in (2, 7, n // 2, n, 5 * n):
            s = [rng.randrange(m) for _ in range(n)]
            seqs.append(tuple(s))
            if m == n:
                # ordered but for a few exchanges, and a permutation without repetitions
                t = sorted(s)
                for _ in range(5):
                    i, j = rng.randrange(n), rng.randrange(n)
                    t[i], t[j] = t[j], t[i]
                seqs.append(tuple(t))
                t = list(range(n))
                rng.shuffle(t)
                seqs.append(tuple(t))
    ws = []
    rng.shuffle(seqs)
    for i, ch in enumerate(chunks(seqs, 400)):
        flat = [x for s in ch for x in s] or [0]
        lens = [len(s) for s in ch]
        pre = ('constexpr int V[] = {%s}; constexpr int L[] = {%s};' % (', '.join(map(str, flat)), ', '.join(map(str, lens))))
        tot = sum(lens)

        def check(got, ch=ch):
            j = 0
            for s in ch:
                r = got[j:j + len(s)]
                j += len(s)
                if r != sorted(s):
                    yield 'sorting %s gives %s' % (list(s), r)

        def rcheck(got, ch=ch):
            # keys are value * 1000 + original position, ordered by value, descending
            j = 0
            for s in ch:
                r = got[j:j + len(s)]
                j += len(s)
                if sorted(r) != sorted(v * 1000 + k for k, v in enumerate(s)):
                    yield 'sorting %s by a comparator loses elements: %s' % (list(s), r)
                elif any(x // 1000 < y // 1000 for x, y in zip(r, r[1:])):
                    yield 'sorting %s by a comparator gives %s' % (list(s), [x // 1000 for x in r])
        t = Tab('sort, natural order (part %d)' % i, '[] { std::array<long long, %d> r{}; for (int i = 0; i != %d; ++i) r[i] = V[i]; size_t j = 0; for (int n : L) { gal::detail::sort(r.data() + j, r.data() + j + n); j += n; } return r; }()' % (tot, tot), tot, check, pre=pre, internal=True)
        t.group = 'sort'
        ws.append(t)
        t = Tab('sort, comparator (part %d)' % i, '[] { std::array<long long, %d> r{}; size_t j = 0; for (int n : L) { for (int k = 0; k != n; ++k) r[j + k] = V[j + k] * 1000 + k; gal::detail::sort(r.data() + j, r.data() + j + n, [](long long a, long long b) { return a / 1000 > b / 1000; }); j += n; } return r; }()' % tot, tot, rcheck, pre=pre, internal=True)
        t.group = 'sort2'
        ws.append(t)
    return ws


# ------------------------------------------------------------------ containers
def c_containers(tier, seed):
    rng = random.Random('tu%s' % seed)
    ws = []

    def tab(key, lines, exp, group='tuple', pre=''):
        n = len(exp)
        t = Tab(key, '[] { std::array<long long, %d> r{}; size_t j = 0; %s return r; }()' % (n, lines), n, exp, pre=pre)
        t.group = group
        ws.append(t)
    for n in list(range(1, 13)) + [16, 17, 20, 24, 32, 33]:
        vals = [rng.randrange(1, 90) for _ in range(n)]
        mk = 'auto t = gal::make_tuple(%s);' % ', '.join(['(short) %d', '%d', '%dL', '(char) %d'][i % 4] % v for i, v in enumerate(vals))
        put = lambda x, m, base=0: ' '.join('r[j++] = %s.template get<%d>();' % (x, i) for i in range(base, base + m))
        tab('tuple of %d: elements' % n, mk + put('t', n) + 'r[j++] = t.size(); r[j++] = t.back();', vals + [n, vals[-1]])
        tab('tuple of %d: push' % n, mk + 'auto u = t.push(77);' + put('u', n + 1) + 'r[j++] = u.size();', [77] + vals + [n + 1])
        tab('tuple of %d: append' % n, mk + 'auto u = t.append(78);' + put('u', n + 1) + 'r[j++] = u.size();', vals + [78, n + 1])
        tab('tuple of %d: pop' % n, mk + 'auto p = t.pop(); r[j++] = p.first; auto u = p.second; r[j++] = u.size();' + put('u', n - 1), [vals[0], n - 1] + vals[1:])
        for i in range(n + 1) if n <= 12 or tier != 'quick' else sorted({0, 1, 7, 8, 9, n // 2, n - 2, n - 1, n, rng.randrange(n)}):
            tab('tuple of %d: split at %d' % (n, i), mk + 'auto p = t.template split<%d>(); auto a = p.first; auto b = p.second; r[j++] = a.size(); r[j++] = b.size();' % i + put('a', i) + put('b', n - i), [i, n - i] + vals)
            if i < n:
                tab('tuple of %d: split dropping %d' % (n, i), mk + 'auto p = t.template split_drop<%d>(); auto a = p.first; auto b = p.second; r[j++] = a.size(); r[j++] = b.size();' % i + put('a', i) + put('b', n - i - 1), [i, n - i - 1] + vals[:i] + vals[i + 1:])
                tab('tuple of %d: set %d' % (n, i), mk + 't.template set<%d>(55);' % i + put('t', n), vals[:i] + [55] + vals[i + 1:])
        ps = ', '.join('auto a%d' % i for i in range(n))
        poly = ' + '.join('%dLL * a%d' % (100 ** (i % 5), i) for i in range(n))
        tab('tuple of %d: apply' % n, mk + 'r[j++] = t.apply([](%s) { return %s; });' % (ps, poly), [sum(100 ** (i % 5) * v for i, v in enumerate(vals))])
        tab('tuple of %d: apply in reverse' % n, mk + 'r[j++] = t.apply_reverse([](%s) { return %s; });' % (ps, poly), [sum(100 ** (i % 5) * v for i, v in enumerate(vals[::-1]))])
        tab('tuple of %d: mutate' % n, mk + 't.template mutate<inc>(5);' + put('t', n), [v + 5 for v in vals], pre='template <class X> struct inc { int k; constexpr auto operator()(X x) const { return x + k; } };')
    tys = ['int', 'long', 'short', 'char', 'unsigned']
    for i, ty in enumerate(tys):
        tab('tuple: first element of type %s' % ty, 'using U = gal::tuple<%s, %s>; r[j++] = U::template find_t<%s>();' % (', '.join(tys), ty, ty), [i])
        tab('tuple: split at type %s' % ty, 'auto t = gal::tuple<%s>{1, 2, 3, 4, 5}; auto p = t.template split_at_type<%s>(); r[j++] = p.first.size(); r[j++] = p.second.size();' % (', '.join(tys), ty), [i, 4 - i])
    t = Tab('tuple and pair traits', '{gal::is_tuple_v<gal::tuple<>>, gal::is_tuple_v<gal::tuple<int>>, gal::is_tuple_v<gal::tuple<int, long>>, gal::is_tuple_v<int>, gal::is_tuple_v<gal::pair<int, int>>, gal::is_pair_v<gal::pair<int, long>>, gal::is_pair_v<int>, gal::is_pair_v<gal::tuple<int, int>>}', 8, [1, 1, 1, 0, 0, 1, 0, 0])
    t.group = 'traits'
    ws.append(t)
    tab('pair', 'auto p = gal::make_pair(3, 4L); r[j++] = p.first; r[j++] = p.second;', [3, 4])
    # stack: random operation histories
    for h in range(160 if tier == 'quick' else 800):
        st, code, exp = [], [], []
        cap = rng.choice([1, 2, 3, 4, 8, 16, 16, 17, 33, 64, 130, 300])
        ety = rng.choice(['int', 'long', 'short', 'unsigned'])
        up = rng.choice([.5, .5, .75])
        for _ in range(rng.randrange(5, 40) if cap < 30 else rng.randrange(60, 200) if cap < 300 else rng.randrange(300, 500)):
            o = rng.random()
            o = o / up * .5 if o < up else .5 + (o - up) / (1 - up) * .5
            if o < .5 and len(st) < cap:
                v = rng.randrange(1, 1000)
                st.append(v)
                code.append('s.push(%d);' % v)
            elif o < .7 and st:
                exp.append(st.pop())
                code.append('r[j++] = s.pop();')
            elif o < .8 and st:
                exp.append(st[-1])
                code.append(rng.choice(['r[j++] = s.peek();', 'r[j++] = c.peek();']))
            elif o < .82 and st:
                k = rng.randrange(1, len(st) + 1)
                exp.append(st[-k])
                code.append('r[j++] = c.peek(%d);' % k)
            elif o < .85 and st:
                k = rng.randrange(1, len(st) + 1)
                x = st[-k]
                del st[-k:]
                exp.append(x)
                code.append('r[j++] = s.pop(%d);' % k)
            elif o < .95 and st:
                i = rng.randrange(len(st))
                exp.append(st[i])
                code.append('r[j++] = %s[%d];' % (rng.choice('sc'), i))
            elif o < .98:
                exp.append(int(not st))
                code.append('r[j++] = c.empty();')
            else:
                st.clear()
                code.append('s.clear();')
        exp.append(len(st))
        code.append('r[j++] = s.count;')
        tab('stack history %d' % h, 'gal::detail::stack<%s, %d> s; auto const& c = s; ' % (ety, cap) + ' '.join(code), exp, group='stack')
    return ws


# ------------------------------------------------------------------ storage
def c_storage(tier, seed):
    ws = []
    TY = {'vga::vector': ['x u', 'y v', 'z w'], 'vga::point': ['x', 'y', 'z'], 'vga::rotor': ['cos_theta', 'sin_theta', 'x', 'y', 'z'],
          'pga::rotor': ['cos_theta', 'sin_theta', 'x', 'y', 'z'], 'pga::translator': ['d', 'x', 'y', 'z'], 'pga::plane': ['d', 'x', 'y', 'z'],
          'pga::vector': ['x', 'y', 'z'], 'pga::line': ['dx', 'dy', 'dz', 'mx', 'my', 'mz'], 'pga::motor': [''] * 8,
          'pga2::line': ['d', 'x', 'y'], 'pga2::point': ['x u s', 'y v t'], 'pga2::vector': ['x', 'y'], 'cga::point': ['x u', 'y v', 'z w']}
    for T in TS:
        for t, fs in TY.items():
            n = len(fs)
            ty = 'gal::%s<{T}>' % t
            acc = [(f, i) for i, s in enumerate(fs) for f in s.split()]
            body = ' '.join('o[%d] = a.%s;' % (j, f) for j, (f, i) in enumerate(acc))
            m = len(acc)
            if acc:
                ws.append(Raw('%s fields read' % t, [(ty, 'a', n)], body, lambda c, v, acc=acc: [v('a', i) for f, i in acc], T=T))
            ws.append(Raw('%s indexing' % t, [(ty, 'a', n)], ' '.join('o[%d] = a[%d]; o[%d] = a.data[%d];' % (2 * i, i, 2 * i + 1, i) for i in range(n)), lambda c, v, n=n: [v('a', i // 2) for i in range(2 * n)], T=T))
            for i in range(n):
                ws.append(Raw('%s write through index %d' % (t, i), [(ty, 'a', n), ('{T}', 's', 1)], 'auto b = a; b[%d] = s; for (int i = 0; i != %d; ++i) o[i] = b[i];' % (i, n),
                              lambda c, v, n=n, i=i: [v('s') if k == i else v('a', k) for k in range(n)], T=T))
            for f, i in acc:
                ws.append(Raw('%s write through %s' % (t, f), [(ty, 'a', n), ('{T}', 's', 1)], 'auto b = a; b.%s = s; for (int i = 0; i != %d; ++i) o[i] = b[i];' % (f, n),
                              lambda c, v, n=n, i=i: [v('s') if k == i else v('a', k) for k in range(n)], T=T))
            ws.append(Tab('%s<%s> size' % (t, T), '{gal::%s<%s>::size(), sizeof(gal::%s<%s>), std::is_trivially_copyable_v<gal::%s<%s>>, std::is_standard_layout_v<gal::%s<%s>>}' % ((t, T) * 4), 4,
                          [n, n * (8 if T == 'double' else 4), 1, 1]))
    rng = random.Random('st%s' % seed)
    for T in TS:
        for a in ALGS:
            els = [FULL[a], (), blades(a, 2)] + [sparse(rng, a, k) for k in (1, 2, 3, 4)]
            for E in els:
                n = len(E)
                e = ent(a, E)
                ty = e.cpp
                D_ = 1 << ALG[a].dim
                ws.append(Raw('%s %s select at run time' % (a, e.name), [(ty, 'a', max(1, n))], 'for (int i = 0; i != %d; ++i) o[i] = a.select(gal::elem_t(i));' % D_,
                              lambda c, v, E=E, D_=D_: [v('a', E.index(i)) if i in E else 0 for i in range(D_)], T=T))
                ws.append(Raw('%s %s select by type' % (a, e.name), [(ty, 'a', max(1, n))], ' '.join('o[%d] = a.template select<%d>();' % (i, i) for i in range(D_)),
                              lambda c, v, E=E, D_=D_: [v('a', E.index(i)) if i in E else 0 for i in range(D_)], T=T))
                q = [rng.randrange(D_) for _ in range(3)]
                ws.append(Raw('%s %s select several' % (a, e.name), [(ty, 'a', max(1, n))], 'auto s = a.template select<%d, %d, %d>(); for (int i = 0; i != 3; ++i) o[i] = s[i];' % tuple(q),
                              lambda c, v, E=E, q=q: [v('a', E.index(i)) if i in E else 0 for i in q], T=T))
                if n:
                    ws.append(Raw('%s %s iteration and data' % (a, e.name), [(ty, 'a', n)],
                                  'auto b = a; int j = 0; for (auto x : b) o[j++] = x; for (int i = 0; i != %d; ++i) o[j++] = a.data()[i]; for (int i = 0; i != %d; ++i) o[j++] = a[i];' % (n, n),
                                  lambda c, v, n=n: [v('a', i % n) for i in range(3 * n)], T=T))
                    x = rng.choice(E)
                    ws.append(Raw('%s %s write through select(%d)' % (a, e.name, x), [(ty, 'a', n), ('{T}', 's', 1)], 'auto b = a; *b.select(gal::elem_t(%d)) = s; for (int i = 0; i != %d; ++i) o[i] = b[i];' % (x, n),
                                  lambda c, v, n=n, E=E, x=x: [v('s') if E[k] == x else v('a', k) for k in range(n)], T=T))
                else:
                    ws.append(Raw('%s %s iteration and indexing of nothing' % (a, e.name), [(ty, 'a', 1), ('{T}', 's', 1)],
                                  'auto b = a; o[0] = s; for (auto x : b) o[0] += x; o[1] = T(b.end() - b.begin()); o[2] = a[0]; o[3] = b[0]; o[4] = a.data() == nullptr ? T(1) : T(0);',
                                  lambda c, v: [v('s'), 0, 0, 0, 1], T=T))
                for k in sorted({2, 4, 5, min(9, D_), D_}):
                    q = rng.sample(range(D_), min(k, D_)) if k != D_ else list(range(D_))
                    if rng.random() < .3:
                        q[-1] = q[0]
                    ws.append(Raw('%s %s select %s' % (a, e.name, q), [(ty, 'a', max(1, n))], 'auto s = a.template select<%s>(); for (int i = 0; i != %d; ++i) o[i] = s[i];' % (', '.join(map(str, q)), len(q)),
                                  lambda c, v, E=E, q=q: [v('a', E.index(i)) if i in E else 0 for i in q], T=T))
                ab = [i for i in range(D_) if i not in E]
                if ab:
                    ws.append(Raw('%s %s absent component has no address' % (a, e.name), [(ty, 'a', max(1, n))], 'auto b = a; ' + ' '.join('o[%d] = b.select(gal::elem_t(%d)) == nullptr ? T(1) : T(0);' % (i, x) for i, x in enumerate(ab)),
                                  lambda c, v, ab=ab: [1] * len(ab), T=T))
                tt = ty.format(T=T)
                ws.append(Tab('%s %s<%s> size' % (a, e.name, T), '{%s::size(), %s std::is_trivially_copyable_v<%s>}' % (tt, 'sizeof(%s),' % tt if n else '0,', tt), 3, [n, n * (8 if T == 'double' else 4), 1]))
    # high-dimensional algebras: many components
    for T, sg, E in [('double', 'm_8_0_0', tuple(range(256))), ('float', 'm_8_0_0', tuple(range(256))), ('double', 'm_4_3_1', tuple(range(0, 256))[20:180]), ('double', 'm_7_0_0', tuple(range(128))), ('float', 'm_3_3_0', tuple(range(1, 64)))]:
        n = len(E)
        e = ent(sg, E)
        ty = e.cpp
        D_ = 1 << alg_of(sg).dim
        ws.append(Raw('%s %s select by type' % (sg, e.name[:40]), [(ty, 'a', n)], ' '.join('o[%d] = a.template select<%d>();' % (i, i) for i in range(D_)),
                      lambda c, v, E=E, D_=D_: [v('a', E.index(i)) if i in E else 0 for i in range(D_)], T=T))
        ws.append(Raw('%s %s select at run time' % (sg, e.name[:40]), [(ty, 'a', n)], ' '.join('o[%d] = a.select(gal::elem_t(%d));' % (i, i) for i in range(D_)),
                      lambda c, v, E=E, D_=D_: [v('a', E.index(i)) if i in E else 0 for i in range(D_)], T=T))
        ws.append(Raw('%s %s iteration' % (sg, e.name[:40]), [(ty, 'a', n)], 'auto b = a; int j = 0; for (auto x : b) o[j++] = x;', lambda c, v, n=n: [v('a', i) for i in range(n)], T=T))
        ws.append(Raw('%s %s iteration by reference' % (sg, e.name[:40]), [(ty, 'a', n)], 'auto b = a; int j = 0; for (auto& x : b) x = x * T(2); for (auto& x : b) o[j++] = x; o[%d] = T(b.end() - b.begin());' % n, lambda c, v, n=n: [v('a', i).scale(2) for i in range(n)] + [n], T=T))
        ws.append(Raw('%s %s indexing and data' % (sg, e.name[:40]), [(ty, 'a', n)], ' '.join('o[%d] = a[%d]; o[%d] = a.data()[%d];' % (2 * i, i, 2 * i + 1, i) for i in range(n)), lambda c, v, n=n: [v('a', i // 2) for i in range(2 * n)], T=T))
        for x in (E[0], E[-1], E[n // 2], rng.choice(E)):
            ws.append(Raw('%s %s write through select(%d)' % (sg, e.name[:40], x), [(ty, 'a', n), ('{T}', 's', 1)], 'auto b = a; *b.select(gal::elem_t(%d)) = s; for (int i = 0; i != %d; ++i) o[i] = b[i];' % (x, n),
                          lambda c, v, n=n, E=E, x=x: [v('s') if E[k] == x else v('a', k) for k in range(n)], T=T))
            ws.append(Raw('%s %s write through index %d' % (sg, e.name[:40], E.index(x)), [(ty, 'a', n), ('{T}', 's', 1)], 'auto b = a; b[%d] = s; for (int i = 0; i != %d; ++i) o[i] = b[i];' % (E.index(x), n),
                          lambda c, v, n=n, E=E, x=x: [v('s') if E[k] == x else v('a', k) for k in range(n)], T=T))
        tt = ty.format(T=T)
        ws.append(Tab('%s %s<%s> size' % (sg, e.name[:40], T), '{%s::size(), sizeof(%s), std::is_trivially_copyable_v<%s>}' % (tt, tt, tt), 3, [n, n * (8 if T == 'double' else 4), 1]))
    for T in TS:
        for a in list(ALGS) + ['m_5_0_0']:
            ty = 'gal::scalar<%s, {T}>' % ('gal::%s::%s_algebra' % (a, a) if a in ALGS else 'gal::algebra<gal::metric<5, 0, 0>>')
            ws.append(Raw('%s scalar access' % a, [(ty, 'a', 1), ('{T}', 's', 1)], 'auto b = a; o[0] = a; o[1] = a[0]; o[2] = a.value; o[3] = *a.data(); b[0] = s; o[4] = b; o[5] = b.value; b.value = a[0] + s; o[6] = b[0]; o[7] = T(b.data() == &b.value);',
                          lambda c, v: [v('a')] * 4 + [v('s')] * 2 + [v('a').add(v('s')), 1], T=T))
    # default scalar type
    for t in ('vga::vector', 'pga::plane', 'pga::line', 'pga::motor', 'pga::rotor', 'pga::translator', 'pga::vector', 'pga2::line', 'pga2::point', 'pga2::vector', 'cga::point'):
        ws.append(Tab('%s default scalar' % t, '{std::is_same_v<typename gal::%s<>::value_t, float>}' % t, 1, [1]))
    return ws


# ------------------------------------------------------------------ Cayley tables
def cayley(sig_list, names=('geometric', 'exterior', 'contract', 'symmetric_inner')):
    ws = []
    fns = {'geometric': gp_blade, 'exterior': ep_blade, 'contract': lc_blade, 'symmetric_inner': ip_blade}
    for s in sig_list:
        al = alg_of(s)
        n = 1 << al.dim
        m = al.custom or {'vga': (3, 0, 0), 'pga': (3, 0, 1), 'pga2': (2, 0, 1), 'cga': (4, 1, 0)}[s]
        for k in names:
            f = fns[k]

            def check(got, f=f, n=n, al=al, k=k, m=m):
                for a in range(n):
                    for b in range(n):
                        e, sg = f(al.sig, a, b)
                        ge, gs = got[2 * (a * n + b)], got[2 * (a * n + b) + 1]
                        if gs != sg or (sg and ge != e):
                            yield '%s product of blades %s and %s in signature %s is %d * e%s; expected %d * e%s' % (k, bin(a), bin(b), m, gs, bin(ge), sg, bin(e))
            t = Tab('%s product table, signature %s' % (k, m), '[] { std::array<long long, %d> r{}; size_t j = 0; for (unsigned a = 0; a != %d; ++a) for (unsigned b = 0; b != %d; ++b) { auto p = gal::algebra<gal::metric<%d, %d, %d>>::%s::product(a, b); r[j++] = p.first; r[j++] = p.second; } return r; }()' % ((2 * n * n, n, n) + tuple(m) + (k,)), 2 * n * n, check, internal=True)
            t.group = 'cayley ' + k
            ws.append(t)
    return ws


def metric_tabs(sig_list):
    """generators, pseudoscalar, even subalgebra and bivector of an algebra"""
    ws = []
    for s in sig_list:
        al = alg_of(s)
        m = al.custom
        n = al.dim
        if not m or n > 6:
            continue
        AL = 'gal::algebra<gal::metric<%d, %d, %d>>' % m
        t = Tab('metric %s' % (m,), '[] { std::array<long long, %d> r{}; size_t j = 0; for (size_t a = 0; a != %d; ++a) for (size_t b = 0; b != %d; ++b) r[j++] = gal::metric<%d, %d, %d>::dot(a, b); r[j++] = gal::metric<%d, %d, %d>::dimension; return r; }()' % ((n * n + 1, n, n) + m + m),
                n * n + 1, [al.sig[a] if a == b else 0 for a in range(n) for b in range(n)] + [n])
        t.group = 'metric'
        ws.append(t)
        if m[2] == 0:
            e, sg = gp_blade(al.sig, al.full, al.full)
            t = Tab('inverse pseudoscalar %s' % (m,), '{%s::pseudoscalar_inv.mons[0].q.num, %s::pseudoscalar_inv.mons[0].q.den, %s::pseudoscalar_inv.terms[0].element, %s::pseudoscalar.mons[0].q.num, %s::pseudoscalar.terms[0].element}' % ((AL,) * 5), 5, [sg, 1, al.full, 1, al.full])
            t.group = 'pseudoscalar'
            ws.append(t)
        for fn, els in (('even_mv', [e for e in range(1 << n) if grade(e) % 2 == 0]), ('bivector_mv', [e for e in range(1 << n) if grade(e) == 2])):
            if not els or fn == 'bivector_mv' and n < 2:
                continue
            k = len(els)
            t = Tab('%s of %s' % (fn, m), '[] { std::array<long long, %d> r{}; size_t j = 0; constexpr auto x = %s::%s(10); r[j++] = x.size.term; for (size_t i = 0; i != %d; ++i) { auto const& t = x.terms[i]; auto const& mo = x.mons[t.mon_offset]; r[j++] = t.element; r[j++] = t.count; r[j++] = mo.q.num; r[j++] = x.inds[mo.ind_offset].id; r[j++] = x.inds[mo.ind_offset].degree.num; } return r; }()' % (1 + 5 * k, AL, fn, k),
                    1 + 5 * k, [k] + [y for i, e in enumerate(els) for y in (e, 1, 1, 10 + i, 1)], internal=True)
            t.group = fn
            ws.append(t)
    return ws


# ------------------------------------------------------------------ geometry
def cross(x, y):
    return [x[(i + 1) % 3].mul(y[(i + 2) % 3]).sub(x[(i + 2) % 3].mul(y[(i + 1) % 3])) for i in range(3)]


def vadd(*vs):
    out = vs[0]
    for v in vs[1:]:
        out = [a.add(b) for a, b in zip(out, v)]
    return out


def smul(s, v):
    return [s.mul(x) for x in v]


def vsub(x, y):
    return [a.sub(b) for a, b in zip(x, y)]


def c_motion(tier, seed):
    ws = []
    for T in TS:
        def rod(c, p, cs, sn, n):
            nn = dot(n, n)
            return vadd(smul(cs.mul(cs).sub(sn.mul(sn).mul(nn)), p), smul(sn.mul(sn).scale(2).mul(dot(n, p)), n), smul(cs.mul(sn).scale(2), cross(n, p)))

        def rotor(v, name='r'):
            return v(name, 0), v(name, 1), [v(name, i) for i in (2, 3, 4)]
        R3 = [('gal::vga::vector<{T}>', 'p', 3), ('gal::vga::rotor<{T}>', 'r', 5)]
        ws.append(Raw('vector rotated by a rotor', R3, 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto r) { return p % r; }, p, r); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: rod(c, V3(v, 'p'), *rotor(v)), T=T))
        ws.append(Raw('vector rotated by a rotor, written out', R3, 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto r) { return r * p * ~r; }, p, r); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: rod(c, V3(v, 'p'), *rotor(v)), T=T))

        def angle(c, v, sgn):
            h = v('t').scale(Fraction(1, 2))
            return c.trig('cos', h), c.trig('sin', h).scale(sgn), [v('x'), v('y'), v('z')]
        sc = [('{T}', n, 1) for n in 'txyz']
        ws.append(Raw('vector rotated about an axis by an angle', [('gal::vga::vector<{T}>', 'p', 3)] + sc,
                      'gal::vga::rotor<T> r{t, x, y, z}; gal::vga::vector<T> q = gal::vga::compute([](auto p, auto r) { return p % r; }, p, r); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: rod(c, V3(v, 'p'), *angle(c, v, 1)), T=T))
        # projective model: the rotor turns points the other way round and scales by |r|^2
        def prot(c, v, P):
            cs, sn, n = rotor(v)
            w = cs.mul(cs).add(sn.mul(sn).mul(dot(n, n)))
            q = rod(c, P, cs, sn.neg(), n)
            return [x.div(w) for x in q]
        ws.append(Raw('point rotated in the projective model', [('gal::vga::point<{T}>', 'p', 3), ('gal::pga::rotor<{T}>', 'r', 5)],
                      'gal::vga::point<T> q = gal::pga::compute([](auto p, auto r) { return p % r; }, p, r); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: prot(c, v, V3(v, 'p')), T=T))
        ws.append(Raw('direction rotated in the projective model', [('gal::pga::vector<{T}>', 'p', 3), ('gal::pga::rotor<{T}>', 'r', 5)],
                      'gal::pga::vector<T> q = gal::pga::compute([](auto p, auto r) { return p % r; }, p, r); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: (lambda cs, sn, n: rod(c, V3(v, 'p'), cs, sn.neg(), n))(*rotor(v)), T=T))
        ws.append(Raw('point translated', [('gal::vga::point<{T}>', 'p', 3), ('gal::pga::translator<{T}>', 't', 4)],
                      'gal::vga::point<T> q = gal::pga::compute([](auto p, auto t) { return p % t; }, p, t); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: TRANS(c, v), T=T))
        ws.append(Raw('direction unchanged by a translation', [('gal::pga::vector<{T}>', 'p', 3), ('gal::pga::translator<{T}>', 't', 4)],
                      'gal::pga::vector<T> q = gal::pga::compute([](auto p, auto t) { return p % t; }, p, t); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: V3(v, 'p'), T=T))
        ws.append(Raw('plane translated keeps its normal', [('gal::pga::plane<{T}>', 'p', 4), ('gal::pga::translator<{T}>', 't', 4)],
                      'gal::pga::plane<T> q = gal::pga::compute([](auto p, auto t) { return p % t; }, p, t); for (int i = 0; i != 4; ++i) o[i] = q[i];',
                      lambda c, v: [v('p', 0).sub(v('t', 0).mul(dot([v('p', i) for i in (1, 2, 3)], [v('t', i) for i in (1, 2, 3)])).scale(TSIGN))] + [v('p', i) for i in (1, 2, 3)], T=T))
        ws.append(Raw('two translations compose', [('gal::vga::point<{T}>', 'p', 3), ('gal::pga::translator<{T}>', 't', 4), ('gal::pga::translator<{T}>', 'u', 4)],
                      'gal::vga::point<T> q = gal::pga::compute([](auto p, auto t, auto u) { return p % (u * t); }, p, t, u); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: vadd(TRANS(c, v), smul(v('u', 0).scale(TSIGN), [v('u', i) for i in (1, 2, 3)])), T=T))
        ws.append(Raw('translation distances add', [('gal::pga::translator<{T}>', 't', 4), ('gal::pga::translator<{T}>', 'u', 4)],
                      'gal::pga::motor<T> m = gal::pga::compute([](auto t, auto u) { return t * u; }, t, u); for (int i = 0; i != 8; ++i) o[i] = m[i];',
                      lambda c, v: [c.const(1)] + [vadd(smul(v('t', 0).scale(Fraction(-1, 2)), [v('t', i) for i in (1, 2, 3)]), smul(v('u', 0).scale(Fraction(-1, 2)), [v('u', i) for i in (1, 2, 3)]))[k] if k is not None else c.const(0) for k in (0, 1, None, 2, None, None, None)], T=T))
        # reflections
        ws.append(Raw('vector reflected in a vector', [('gal::vga::vector<{T}>', 'p', 3), ('gal::vga::vector<{T}>', 'n', 3)],
                      'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto n) { return n * p * n; }, p, n); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: vsub(smul(dot(V3(v, 'n'), V3(v, 'p')).scale(2), V3(v, 'n')), smul(dot(V3(v, 'n'), V3(v, 'n')), V3(v, 'p'))), T=T))
        ws.append(Raw('point reflected in a plane', [('gal::vga::point<{T}>', 'p', 3), ('gal::pga::plane<{T}>', 'm', 4)],
                      'gal::vga::point<T> q = gal::pga::compute([](auto p, auto m) { return m * p * m; }, p, m); for (int i = 0; i != 3; ++i) o[i] = q[i];',
                      lambda c, v: (lambda n, d: vsub(V3(v, 'p'), smul(dot(n, V3(v, 'p')).add(d).scale(2).div(dot(n, n)), n)))([v('m', i) for i in (1, 2, 3)], v('m', 0)), T=T))
        ws += motions(T, tier, seed)
    return ws


def motions(T, tier, seed):
    """Movers (rotors, translators, their products, inverses and normalised forms) applied, alone and in sequence, to
    every kind of object; the reference is Euclidean: x -> R x + t, written with dot and cross products only."""
    rng = random.Random('mt%s%s' % (seed, T))
    ws = []

    def rod(x, cs, sn, n):
        return vadd(smul(cs.mul(cs).sub(sn.mul(sn).mul(dot(n, n))), x), smul(sn.mul(sn).scale(2).mul(dot(n, x)), n), smul(cs.mul(sn).scale(2), cross(n, x)))

    # a mover: parameters, set-up code, names of values passed to compute, expression, and its Euclidean motion
    # (linear part times w, w, displacement)
    def rot(name, unit=False, angle=False, inv=False):
        def m(c, v):
            if angle:
                h = v(name + 't').scale(Fraction(1, 2))
                cs, sn, n = c.trig('cos', h), c.trig('sin', h), [v(name + k) for k in 'xyz']
            else:
                cs, sn, n = v(name, 0), v(name, 1), [v(name, i) for i in (2, 3, 4)]
            if unit:
                l = c.sqrt(dot(n, n))
                n = [x.div(l) for x in n]
            s = sn if inv else sn.neg()
            w = cs.mul(cs).add(sn.mul(sn).mul(dot(n, n)))
            return (lambda x: rod(x, cs, s, n)), w, None
        par = [('{T}', name + k, 1) for k in 'txyz'] if angle else [('gal::pga::rotor<{T}>', name, 5)]
        loc = name + 'l'
        pre = ('gal::pga::rotor<T> %s{%s};' % (loc, ', '.join(name + k for k in 'txyz')) if angle else 'auto %s = %s;' % (loc, name)) + (' %s.normalize();' % loc if unit else '')
        return par, pre, [loc], '~' + loc if inv else loc, m

    def tra(name, unit=False, inv=False):
        def m(c, v):
            d = [v(name, i) for i in (1, 2, 3)]
            if unit:
                l = c.sqrt(dot(d, d))
                d = [x.div(l) for x in d]
            return (lambda x: x), c.const(1), smul(v(name, 0).scale(-TSIGN if inv else TSIGN), d)
        loc = name + 'l'
        return [('gal::pga::translator<{T}>', name, 4)], 'auto %s = %s;' % (loc, name) + (' %s.normalize();' % loc if unit else ''), [loc], '~' + loc if inv else loc, m

    def seq(m1, m2):
        """first m1, then m2"""
        def m(c, v):
            l1, w1, t1 = m1[4](c, v)
            l2, w2, t2 = m2[4](c, v)
            t = t2
            if t1:
                u = [x.div(w2) for x in l2(t1)]
                t = vadd(u, t2) if t2 else u
            return (lambda x: l2(l1(x))), w1.mul(w2), t
        return m1[0] + m2[0], m1[1] + ' ' + m2[1], m1[2] + m2[2], None, m

    R, S, TT, U = rot('r'), rot('s'), tra('t'), tra('u')
    single = [R, rot('r', unit=True), rot('r', angle=True), rot('r', angle=True, unit=True), rot('r', inv=True), TT, tra('t', unit=True), tra('t', inv=True), tra('t', unit=True, inv=True)]
    pairs = [(R, S), (R, TT), (TT, R), (TT, U), (rot('r', unit=True), TT), (TT, rot('r', unit=True)), (rot('r', angle=True), tra('t', unit=True)), (rot('r', inv=True), TT), (R, tra('t', inv=True)), (rot('r'), rot('s', inv=True))]

    def objs():
        def pt(c, v, m):
            lin, w, t = m
            q = [x.div(w) for x in lin(V3(v, 'p'))]
            return vadd(q, t) if t else q

        def hp(c, v, m):
            lin, w, t = m
            x = [v('p', 2).neg(), v('p', 1), v('p', 0).neg()]
            wt = v('p', 3)
            q = lin(x)
            if t:
                q = vadd(q, smul(w.mul(wt), t))
            return [q[2].neg(), q[1], q[0].neg(), wt.mul(w)]

        def di(c, v, m):
            return m[0](V3(v, 'p'))

        def pl(c, v, m):
            lin, w, t = m
            n = lin([v('p', i) for i in (1, 2, 3)])
            d = w.mul(v('p', 0))
            if t:
                d = d.sub(dot(n, t))
            return [d] + n

        def li(c, v, m):
            lin, w, t = m
            d, mm = lin([v('p', i) for i in (0, 1, 2)]), lin([v('p', i) for i in (3, 4, 5)])
            if t:
                mm = vadd(mm, [x.scale(LSIGN) for x in cross(t, d)])
            return d + mm
        return [('point', 'gal::vga::point<T>', 3, pt), ('homogeneous point', 'gal::pga::point<T>', 4, hp), ('direction', 'gal::pga::vector<T>', 3, di),
                ('plane', 'gal::pga::plane<T>', 4, pl), ('line', 'gal::pga::line<T>', 6, li)]
    for on, ty, n, f in objs():
        res = ty if on != 'homogeneous point' else None
        get = 'for (int i = 0; i != %d; ++i) o[i] = q[i];' % n if res else 'o[0] = q.select(7); o[1] = q.select(11); o[2] = q.select(13); o[3] = q.select(14);'

        def add(what, mv, forms):
            for k, e in enumerate(forms):
                names = ['p'] + mv[2]
                body = '%s %s q = gal::pga::compute([](%s) { return %s; }, %s); %s' % (mv[1], res or 'auto const', ', '.join('auto ' + x for x in names), e, ', '.join(names), get)
                ws.append(Raw('%s moved by %s, form %d' % (on, what, k), [(ty.replace('<T>', '<{T}>'), 'p', n)] + mv[0], body, lambda c, v, mv=mv, f=f: f(c, v, mv[4](c, v)), T=T))
        for i, mv in enumerate(single):
            e = mv[3]
            add('mover %d' % i, mv, ['p %% (%s)' % e, '(%s) * p * ~(%s)' % (e, e)])
        for i, (x, y) in enumerate(pairs):
            mv = seq(x, y)
            a, b = x[3], y[3]
            forms = ['(p %% (%s)) %% (%s)' % (a, b), 'p %% ((%s) * (%s))' % (b, a), '(%s) * (%s) * p * ~((%s) * (%s))' % (b, a, b, a), '(%s) * (p %% (%s)) * ~(%s)' % (b, a, b)]
            add('movers %d' % i, mv, forms if on in ('point', 'line') or tier != 'quick' else rng.sample(forms, 2))
            # through a stored motor
            names = x[2] + y[2]
            for nz in (0, 1):
                mo = 'gal::pga::motor<T> k = gal::pga::compute([](%s) { return (%s) * (%s); }, %s); %s' % (', '.join('auto ' + z for z in names), b, a, ', '.join(names), 'k.normalize();' if nz else '')
                body = '%s %s %s q = gal::pga::compute([](auto p, auto k) { return p %% k; }, p, k); %s' % (mv[1], mo, res or 'auto const', get)

                def want(c, v, mv=mv, nz=nz, f=f):
                    lin, w, t = mv[4](c, v)
                    if nz:
                        return f(c, v, ((lambda x: [y.div(w) for y in lin(x)]), c.const(1), t))
                    return f(c, v, (lin, w, t))
                ws.append(Raw('%s moved by a stored motor %d%s' % (on, i, ' normalised' if nz else ''), [(ty.replace('<T>', '<{T}>'), 'p', n)] + mv[0], body, want, T=T))
    # vector space: sequences of rotations, reflections, and a round trip
    def vr(c, v, name, unit=False):
        n = [v(name, i) for i in (2, 3, 4)]
        if unit:
            l = c.sqrt(dot(n, n))
            n = [x.div(l) for x in n]
        return v(name, 0), v(name, 1), n
    VV, RR = ('gal::vga::vector<{T}>', 'p', 3), [('gal::vga::rotor<{T}>', 'r', 5), ('gal::vga::rotor<{T}>', 's', 5)]
    out = ' for (int i = 0; i != 3; ++i) o[i] = q[i];'
    for k, e in enumerate(['(p % r) % s', 'p % (s * r)', 's * r * p * ~r * ~s', 's * (p % r) * ~s']):
        ws.append(Raw('vector rotated twice, form %d' % k, [VV] + RR, 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto r, auto s) { return %s; }, p, r, s);' % e + out,
                      lambda c, v: rod(rod(V3(v, 'p'), *vr(c, v, 'r')), *vr(c, v, 's')), T=T))
    ws.append(Raw('vector rotated by a normalised rotor', [VV] + RR[:1], 'auto k = r; k.normalize(); gal::vga::vector<T> q = gal::vga::compute([](auto p, auto r) { return p % r; }, p, k);' + out,
                  lambda c, v: rod(V3(v, 'p'), *vr(c, v, 'r', True)), T=T))
    for k, e in enumerate(['(p % r) % ~r', '~r * (r * p * ~r) * r']):
        def back(c, v):
            cs, sn, n = vr(c, v, 'r')
            w = cs.mul(cs).add(sn.mul(sn).mul(dot(n, n)))
            return smul(w.mul(w), V3(v, 'p'))
        ws.append(Raw('vector rotated there and back, form %d' % k, [VV] + RR[:1], 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto r) { return %s; }, p, r);' % e + out, back, T=T))
    ws.append(Raw('rotation keeps inner products', [VV, ('gal::vga::vector<{T}>', 'm', 3)] + RR[:1],
                  'auto const q = gal::vga::compute([](auto p, auto m, auto r) { return (p % r) | (m % r); }, p, m, r); o[0] = q.select(0);',
                  lambda c, v: [(lambda cs, sn, n: (lambda w: w.mul(w).mul(dot(V3(v, 'p'), V3(v, 'm'))))(cs.mul(cs).add(sn.mul(sn).mul(dot(n, n)))))(*vr(c, v, 'r'))], T=T))

    def refl(x, n):
        return vsub(smul(dot(n, x).scale(2), n), smul(dot(n, n), x))
    N2 = [('gal::vga::vector<{T}>', 'm', 3), ('gal::vga::vector<{T}>', 'n', 3)]
    for k, e in enumerate(['n * m * p * m * n', 'p % (n * m)', 'n * (m * p * m) * n']):
        ws.append(Raw('vector reflected twice, form %d' % k, [VV] + N2, 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto m, auto n) { return %s; }, p, m, n);' % e + out,
                      lambda c, v: refl(refl(V3(v, 'p'), V3(v, 'm')), V3(v, 'n')), T=T))
    ws.append(Raw('vector projected onto a vector', [VV] + N2[:1], 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto m) { return (p | m) * m / gal::scalar_product(m, m); }, p, m);' + out,
                  lambda c, v: smul(dot(V3(v, 'p'), V3(v, 'm')).div(dot(V3(v, 'm'), V3(v, 'm'))), V3(v, 'm')), T=T))
    ws.append(Raw('vector rejected from a vector', [VV] + N2[:1], 'gal::vga::vector<T> q = gal::vga::compute([](auto p, auto m) { return (p ^ m) * m / gal::scalar_product(m, m); }, p, m);' + out,
                  lambda c, v: vsub(V3(v, 'p'), smul(dot(V3(v, 'p'), V3(v, 'm')).div(dot(V3(v, 'm'), V3(v, 'm'))), V3(v, 'm'))), T=T))

    def preflect(c, v, x, name):
        n, d = [v(name, i) for i in (1, 2, 3)], v(name, 0)
        return vsub(x, smul(dot(n, x).add(d).scale(2).div(dot(n, n)), n))
    P2 = [('gal::vga::point<{T}>', 'p', 3), ('gal::pga::plane<{T}>', 'm', 4), ('gal::pga::plane<{T}>', 'n', 4)]
    for k, e in enumerate(['n * m * p * m * n', 'p % (n * m)', '(p % m) % n']):
        ws.append(Raw('point reflected in two planes, form %d' % k, P2, 'gal::vga::point<T> q = gal::pga::compute([](auto p, auto m, auto n) { return %s; }, p, m, n);' % e + out,
                      lambda c, v: preflect(c, v, preflect(c, v, V3(v, 'p'), 'm'), 'n'), T=T))
    return ws


TSIGN = 1
LSIGN = 1


def TRANS(c, v):
    return vadd(V3(v, 'p'), smul(v('t', 0).scale(TSIGN), [v('t', i) for i in (1, 2, 3)]))


def c_incidence(tier, seed):
    ws = []
    P = 'gal::vga::point<{T}>'
    for T in TS:
        def plane3(c, v):
            p, q, r = V3(v, 'p'), V3(v, 'q'), V3(v, 'r')
            n = cross(vsub(q, p), vsub(r, p))
            return [dot(n, p).neg()] + n
        SG = PSIGN
        ws.append(Raw('plane through three points', [(P, 'p', 3), (P, 'q', 3), (P, 'r', 3)],
                      'gal::pga::plane<T> m = gal::pga::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, r); for (int i = 0; i != 4; ++i) o[i] = m[i];',
                      lambda c, v: [x.scale(SG) for x in plane3(c, v)], T=T))
        ws.append(Raw('three points lie on the plane through them', [(P, 'p', 3), (P, 'q', 3), (P, 'r', 3)],
                      'gal::pga::plane<T> m = gal::pga::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, r); o[0] = p.x * m.x + p.y * m.y + p.z * m.z + m.d; o[1] = q.x * m.x + q.y * m.y + q.z * m.z + m.d; o[2] = r.x * m.x + r.y * m.y + r.z * m.z + m.d;',
                      lambda c, v: [0, 0, 0], T=T))
        ws.append(Raw('plane through a line and a point', [(P, 'p', 3), (P, 'q', 3), (P, 'r', 3)],
                      'gal::pga::line<T> l = gal::pga::compute([](auto p, auto q) { return p & q; }, p, q); gal::pga::plane<T> m = gal::pga::compute([](auto l, auto r) { return l & r; }, l, r); for (int i = 0; i != 4; ++i) o[i] = m[i];',
                      lambda c, v: [x.scale(SG) for x in plane3(c, v)], T=T))

        def three(c, v):
            n = [[v(k, i) for i in (1, 2, 3)] for k in 'abm']
            d = [v(k, 0) for k in 'abm']
            det = dot(n[0], cross(n[1], n[2]))
            num = vadd(smul(d[0], cross(n[1], n[2])), smul(d[1], cross(n[2], n[0])), smul(d[2], cross(n[0], n[1])))
            return [x.neg().div(det) for x in num]
        PL = 'gal::pga::plane<{T}>'
        ws.append(Raw('intersection of three planes', [(PL, 'a', 4), (PL, 'b', 4), (PL, 'm', 4)],
                      'gal::vga::point<T> q = gal::pga::compute([](auto a, auto b, auto m) { return a ^ b ^ m; }, a, b, m); for (int i = 0; i != 3; ++i) o[i] = q[i];', three, T=T))
        ws.append(Raw('intersection of two planes and a third, in steps', [(PL, 'a', 4), (PL, 'b', 4), (PL, 'm', 4)],
                      'gal::pga::line<T> l = gal::pga::compute([](auto a, auto b) { return a ^ b; }, a, b); gal::vga::point<T> q = gal::pga::compute([](auto l, auto m) { return l ^ m; }, l, m); for (int i = 0; i != 3; ++i) o[i] = q[i];', three, T=T))

        def lp(c, v):
            p, d = V3(v, 'p'), vsub(V3(v, 'q'), V3(v, 'p'))
            n, w = [v('m', i) for i in (1, 2, 3)], v('m', 0)
            t = dot(n, p).add(w).neg().div(dot(n, d))
            return vadd(p, smul(t, d))
        ws.append(Raw('intersection of a line and a plane', [(P, 'p', 3), (P, 'q', 3), (PL, 'm', 4)],
                      'gal::vga::point<T> x = gal::pga::compute([](auto p, auto q, auto m) { return (p & q) ^ m; }, p, q, m); for (int i = 0; i != 3; ++i) o[i] = x[i];', lp, T=T))
        ws.append(Raw('value of a plane at a point', [(P, 'p', 3), (PL, 'm', 4)],
                      'auto const x = gal::pga::compute([](auto p, auto m) { return m & p; }, p, m); auto const y = gal::pga::compute([](auto p, auto m) { return m ^ p; }, p, m); o[0] = x.select(0); o[1] = y.select(15);',
                      lambda c, v: [dot([v('m', i) for i in (1, 2, 3)], V3(v, 'p')).add(v('m', 0)).scale(k) for k in DSIGN], T=T))
        ws.append(Raw('collinear points span no plane', [(P, 'p', 3), (P, 'q', 3)],
                      'auto const x = gal::pga::compute([](auto p, auto q) { return p & q & p; }, p, q); for (int i = 0; i != 16; ++i) o[i] = x.select(i);', lambda c, v: [0] * 16, T=T))
        ws.append(Raw('angle between planes', [(PL, 'a', 4), (PL, 'b', 4)],
                      'auto const x = gal::pga::compute([](auto a, auto b) { return a | b; }, a, b); o[0] = x.select(0);', lambda c, v: [dot([v('a', i) for i in (1, 2, 3)], [v('b', i) for i in (1, 2, 3)])], T=T))
        # every way to write a join or meet of up to four objects, through stored entities or in one computation
        def pts(names):
            return [(P, k, 3) for k in names]
        for k, e in enumerate(['p & (q & r)', '(p & q) & r', '-(q & p & r)', 'q & r & p', '(r & p) & q', '!(!p ^ !q ^ !r)', '(2 * p & q & r) / 2', '(p & q & r) + (p & q & p)', '~(~(p & q & r))']):
            ws.append(Raw('plane through three points, form %d' % k, pts('pqr'),
                          'gal::pga::plane<T> m = gal::pga::compute([](auto p, auto q, auto r) { return %s; }, p, q, r); for (int i = 0; i != 4; ++i) o[i] = m[i];' % e,
                          lambda c, v: [x.scale(SG) for x in plane3(c, v)], T=T))

        def lineof(c, v, a='p', b='q'):
            p, q = V3(v, a), V3(v, b)
            return [x.scale(JSIGN[0]) for x in vsub(q, p)] + [x.scale(JSIGN[1]) for x in cross(p, q)]
        for k, e in enumerate(['p & q', '-(q & p)', '!(!p ^ !q)', 'p & (q + (p - p))', '(p & q) + (q & q)', '(3 * (p & q)) / 3']):
            ws.append(Raw('line through two points, form %d' % k, pts('pq'),
                          'gal::pga::line<T> l = gal::pga::compute([](auto p, auto q) { return %s; }, p, q); for (int i = 0; i != 6; ++i) o[i] = l[i];' % e, lambda c, v: lineof(c, v), T=T))
        ws.append(Raw('line through a point and a direction', [(P, 'p', 3), ('gal::pga::vector<{T}>', 'q', 3)],
                      'gal::pga::line<T> l = gal::pga::compute([](auto p, auto q) { return p & q; }, p, q); for (int i = 0; i != 6; ++i) o[i] = l[i];',
                      lambda c, v: [x.scale(JSIGN[0]) for x in V3(v, 'q')] + [x.scale(JSIGN[1]) for x in cross(V3(v, 'p'), V3(v, 'q'))], T=T))

        def meetline(c, v):
            n, m = [[v(k, i) for i in (1, 2, 3)] for k in 'ab']
            d, e = v('a', 0), v('b', 0)
            return [x.scale(MSIGN[0]) for x in cross(n, m)] + [x.scale(MSIGN[1]) for x in vsub(smul(d, m), smul(e, n))]
        for k, e in enumerate(['a ^ b', '-(b ^ a)', '(a ^ b) + (a ^ a)', '(a + b) ^ b', '!(!a & !b)']):
            ws.append(Raw('line common to two planes, form %d' % k, [(PL, 'a', 4), (PL, 'b', 4)],
                          'gal::pga::line<T> l = gal::pga::compute([](auto a, auto b) { return %s; }, a, b); for (int i = 0; i != 6; ++i) o[i] = l[i];' % e, lambda c, v: meetline(c, v), T=T))
        for k, e in enumerate(['(a ^ b) ^ m', 'a ^ (b ^ m)', 'b ^ m ^ a', '2 * (a ^ b ^ m)', '(a + b) ^ b ^ m', '-(b ^ a ^ m)']):
            ws.append(Raw('intersection of three planes, form %d' % k, [(PL, 'a', 4), (PL, 'b', 4), (PL, 'm', 4)],
                          'gal::vga::point<T> q = gal::pga::compute([](auto a, auto b, auto m) { return %s; }, a, b, m); for (int i = 0; i != 3; ++i) o[i] = q[i];' % e, three, T=T))
        LN = 'gal::pga::line<{T}>'
        for k, e in enumerate(['l ^ m', 'm ^ l', '(l ^ m) / 2', '-(l ^ m)']):
            ws.append(Raw('stored line meets a plane, form %d' % k, pts('pq') + [(PL, 'm', 4)],
                          'gal::pga::line<T> l = gal::pga::compute([](auto p, auto q) { return p & q; }, p, q); gal::vga::point<T> x = gal::pga::compute([](auto l, auto m) { return %s; }, l, m); for (int i = 0; i != 3; ++i) o[i] = x[i];' % e, lp, T=T))

        def vol(c, v):
            p = [V3(v, k) for k in 'pqrs']
            return dot(vsub(p[1], p[0]), cross(vsub(p[2], p[0]), vsub(p[3], p[0])))
        for k, e in enumerate(['p & q & r & s', '(p & q) & (r & s)', 'p & (q & r & s)']):
            ws.append(Raw('signed volume of four points, form %d' % k, pts('pqrs'),
                          'auto const x = gal::pga::compute([](auto p, auto q, auto r, auto s) { return %s; }, p, q, r, s); o[0] = x.select(0);' % e, lambda c, v, k=k: [vol(c, v).scale(VSIGN[k])], T=T))
        ws.append(Raw('lines through a common point are coplanar', pts('pqr'),
                      'auto const x = gal::pga::compute([](auto p, auto q, auto r) { return (p & q) & (p & r); }, p, q, r); o[0] = x.select(0);', lambda c, v: [0], T=T))

        def dist(c, v):
            n = [v('m', i) for i in (1, 2, 3)]
            return dot(n, V3(v, 'p')).add(v('m', 0)).div(c.sqrt(dot(n, n)))
        ws.append(Raw('distance of a point from a plane', [(P, 'p', 3), (PL, 'm', 4)],
                      'auto const x = gal::pga::compute([](auto p, auto m) { return (m & p) / gal::sqrt(gal::scalar_product(m, m)); }, p, m); o[0] = x.select(0);', lambda c, v: [dist(c, v).scale(DSIGN[0])], T=T))

        def foot(c, v):
            n = [v('m', i) for i in (1, 2, 3)]
            return vsub(V3(v, 'p'), smul(dot(n, V3(v, 'p')).add(v('m', 0)).div(dot(n, n)), n))
        ws.append(Raw('point projected onto a plane', [(P, 'p', 3), (PL, 'm', 4)],
                      'gal::vga::point<T> q = gal::pga::compute([](auto p, auto m) { return (m | p) * m; }, p, m); for (int i = 0; i != 3; ++i) o[i] = q[i];', foot, T=T))

        def footl(c, v):
            p, q, r = V3(v, 'p'), V3(v, 'q'), V3(v, 'r')
            d = vsub(q, p)
            return vadd(p, smul(dot(vsub(r, p), d).div(dot(d, d)), d))
        ws.append(Raw('point projected onto a line', pts('pqr'),
                      'gal::pga::line<T> l = gal::pga::compute([](auto p, auto q) { return p & q; }, p, q); gal::vga::point<T> x = gal::pga::compute([](auto l, auto r) { return (l | r) ^ l; }, l, r); for (int i = 0; i != 3; ++i) o[i] = x[i];', footl, T=T))
        ws.append(Raw('plane through a point with the normal of another', [(P, 'p', 3), (PL, 'm', 4)],
                      'auto const x = gal::pga::compute([](auto p, auto m) { return (m | p) | p; }, p, m); o[0] = x.select(1); o[1] = x.select(2); o[2] = x.select(4); o[3] = x.select(8);',
                      lambda c, v: (lambda n: [x.scale(NSIGN) for x in [dot(n, V3(v, 'p')).neg()] + n])([v('m', i) for i in (1, 2, 3)]), T=T))
        ws.append(Raw('inner product of lines', pts('pqrs'),
                      'auto const x = gal::pga::compute([](auto p, auto q, auto r, auto s) { return (p & q) | (r & s); }, p, q, r, s); o[0] = x.select(0);',
                      lambda c, v: [dot(vsub(V3(v, 'q'), V3(v, 'p')), vsub(V3(v, 's'), V3(v, 'r'))).neg()], T=T))
        # the plane
        Q = 'gal::pga2::point<{T}>'
        for k, e in enumerate(['p & q', '-(q & p)', '!(!p ^ !q)', '(p & q) + (q & q)', '(3 * (p & q)) / 3']):
            ws.append(Raw('2D: line through two points, form %d' % k, [(Q, 'p', 2), (Q, 'q', 2)],
                          'gal::pga2::line<T> l = gal::pga2::compute([](auto p, auto q) { return %s; }, p, q); o[0] = l.d; o[1] = l.x; o[2] = l.y;' % e,
                          lambda c, v: [x.scale(L2SIGN) for x in (v('p', 0).mul(v('q', 1)).sub(v('p', 1).mul(v('q', 0))), v('p', 1).sub(v('q', 1)), v('q', 0).sub(v('p', 0)))], T=T))

        def area(c, v):
            p = [[v(k, 0), v(k, 1)] for k in 'pqr']
            a, b = vsub(p[1], p[0]), vsub(p[2], p[0])
            return a[0].mul(b[1]).sub(a[1].mul(b[0]))
        ws.append(Raw('2D: signed area of three points', [(Q, k, 2) for k in 'pqr'], 'auto const x = gal::pga2::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, r); o[0] = x.select(0);', lambda c, v: [area(c, v).scale(A2SIGN)], T=T))

        def line2(c, v):
            n, x = [v('m', 1), v('m', 2)], [v('p', 0), v('p', 1)]
            return n, x, dot(n, x).add(v('m', 0))
        L2 = [(Q, 'p', 2), ('gal::pga2::line<{T}>', 'm', 3)]
        ws.append(Raw('2D: value of a line at a point', L2, 'auto const x = gal::pga2::compute([](auto p, auto m) { return m & p; }, p, m); o[0] = x.select(0); auto const y = gal::pga2::compute([](auto p, auto m) { return m ^ p; }, p, m); o[1] = y.select(7);',
                      lambda c, v: [line2(c, v)[2]] * 2, T=T))
        ws.append(Raw('2D: point reflected in a line', L2, 'gal::pga2::point<T> q = gal::pga2::compute([](auto p, auto m) { return m * p * m; }, p, m); o[0] = q.x; o[1] = q.y;',
                      lambda c, v: (lambda n, x, s: vsub(x, smul(s.scale(2).div(dot(n, n)), n)))(*line2(c, v)), T=T))
        ws.append(Raw('2D: point projected onto a line', L2, 'gal::pga2::point<T> q = gal::pga2::compute([](auto p, auto m) { return (m | p) ^ m; }, p, m); o[0] = q.x; o[1] = q.y;',
                      lambda c, v: (lambda n, x, s: vsub(x, smul(s.div(dot(n, n)), n)))(*line2(c, v)), T=T))
        ws.append(Raw('2D: line through two points', [(Q, 'p', 2), (Q, 'q', 2)],
                      'gal::pga2::line<T> l = gal::pga2::compute([](auto p, auto q) { return p & q; }, p, q); o[0] = l.d; o[1] = l.x; o[2] = l.y; o[3] = l.x * p.x + l.y * p.y + l.d; o[4] = l.x * q.x + l.y * q.y + l.d;',
                      lambda c, v: [x.scale(L2SIGN) for x in (v('p', 0).mul(v('q', 1)).sub(v('p', 1).mul(v('q', 0))), v('p', 1).sub(v('q', 1)), v('q', 0).sub(v('p', 0)))] + [0, 0], T=T))
        L = 'gal::pga2::line<{T}>'

        def meet2(c, v):
            a, b = [[v(k, i) for i in range(3)] for k in 'ab']
            det = a[1].mul(b[2]).sub(a[2].mul(b[1]))
            x = a[2].mul(b[0]).sub(a[0].mul(b[2])).div(det)
            y = a[0].mul(b[1]).sub(a[1].mul(b[0])).div(det)
            return [x, y]
        ws.append(Raw('2D: intersection of two lines', [(L, 'a', 3), (L, 'b', 3)],
                      'gal::pga2::point<T> x = gal::pga2::compute([](auto a, auto b) { return a ^ b; }, a, b); o[0] = x.x; o[1] = x.y;', meet2, T=T))
        # conformal model
        C = 'gal::cga::point<{T}>'

        def d2(c, v):
            d = vsub(V3(v, 'p'), V3(v, 'q'))
            return dot(d, d)
        ws.append(Raw('conformal: inner product of points is minus half the squared distance', [(C, 'p', 3), (C, 'q', 3)],
                      'auto const x = gal::cga::compute([](auto p, auto q) { return p | q; }, p, q); o[0] = x.select(0); auto const y = gal::cga::compute([](auto p, auto q) { return p >> q; }, p, q); o[1] = y.select(0); auto const z = gal::cga::compute([](auto p, auto q) { return gal::scalar_product(p, q); }, p, q); o[2] = z.select(0);',
                      lambda c, v: [d2(c, v).scale(Fraction(-1, 2))] * 3, T=T))
        ws.append(Raw('conformal: a point is null', [(C, 'p', 3)],
                      'auto const x = gal::cga::compute([](auto p) { return p * p; }, p); for (int i = 0; i != 32; ++i) o[i] = x.select(i);', lambda c, v: [0] * 32, T=T))
        ws.append(Raw('conformal: a point paired with infinity', [(C, 'p', 3)],
                      'using namespace gal::cga; auto const x = gal::cga::compute([](auto p) { return p | 1_ni; }, p); o[0] = x.select(0);', lambda c, v: [-1], T=T))
        ws.append(Raw('conformal: three distances from one computation', [(C, 'p', 3), (C, 'q', 3), (C, 'r', 3)],
                      'auto const [x, y, z] = gal::cga::compute([](auto p, auto q, auto r) { return gal::tuple{p | q, q | r, r | p}; }, p, q, r); o[0] = x.select(0); o[1] = y.select(0); o[2] = z.select(0);',
                      lambda c, v: [(lambda d: dot(d, d).scale(Fraction(-1, 2)))(vsub(V3(v, a), V3(v, b))) for a, b in (('p', 'q'), ('q', 'r'), ('r', 'p'))], T=T))
        ws.append(Raw('conformal: the sum of two points measures their distance', [(C, 'p', 3), (C, 'q', 3)],
                      'auto const x = gal::cga::compute([](auto p, auto q) { return (p + q) * (p + q); }, p, q); o[0] = x.select(0); o[1] = x.select(3); o[2] = x.select(24); o[3] = x.select(17);',
                      lambda c, v: [d2(c, v).neg(), 0, 0, 0], T=T))
        ws.append(Raw('conformal: the difference of two points measures their distance', [(C, 'p', 3), (C, 'q', 3)],
                      'auto const x = gal::cga::compute([](auto p, auto q) { return (p - q) | (p - q); }, p, q); o[0] = x.select(0);', lambda c, v: [d2(c, v)], T=T))
        ws.append(Raw('conformal: a point lies on no pair with itself', [(C, 'p', 3)],
                      'auto const x = gal::cga::compute([](auto p) { return p ^ p; }, p); for (int i = 0; i != 32; ++i) o[i] = x.select(i);', lambda c, v: [0] * 32, T=T))
        ws.append(Raw('conformal: point pair squared', [(C, 'p', 3), (C, 'q', 3)],
                      'auto const x = gal::cga::compute([](auto p, auto q) { return gal::scalar_product(p ^ q, p ^ q); }, p, q); o[0] = x.select(0);', lambda c, v: [d2(c, v).mul(d2(c, v)).scale(Fraction(1, 4))], T=T))
        ws.append(Raw('conformal: translated by a translator', [(C, 'p', 3)] + [('{T}', k, 1) for k in 'abd'],
                      'using namespace gal::cga; auto const x = gal::cga::compute([](auto p, auto a, auto b, auto d) { return p % (1 - ((a * 1_e1 + b * 1_e2 + d * 1_e3) * 1_ni) / 2); }, p, a, b, d); o[0] = x.select(1); o[1] = x.select(2); o[2] = x.select(4); o[3] = x.select(8); o[4] = x.select(16);',
                      lambda c, v: (lambda q: q + [c.const(1), dot(q, q).scale(Fraction(1, 2))])(vadd(V3(v, 'p'), [v('a'), v('b'), v('d')])), T=T))
        # vector space
        V = 'gal::vga::vector<{T}>'
        for k, e in enumerate(['!(p ^ q)', '-(!(q ^ p))', '-((p ^ q) * 1_ps)', '(p ^ q) * 1_ips', '(q ^ p) * 1_ps', '!((p + q) ^ q)']):
            ws.append(Raw('vectors: cross product, form %d' % k, [(V, 'p', 3), (V, 'q', 3)], 'using namespace gal::vga; gal::vga::vector<T> x = gal::vga::compute([](auto p, auto q) { return %s; }, p, q); for (int i = 0; i != 3; ++i) o[i] = x[i];' % e, lambda c, v: cross(V3(v, 'p'), V3(v, 'q')), T=T))
        for k, e in enumerate(['p | q', 'q >> p', '(p * q + q * p) / 2', 'gal::scalar_product(p, q)', '((p + q) * (p + q) - p * p - q * q) / 2', '(p * q)[0]', '(p * q).select_grade(0)', '!(p ^ !q)']):
            ws.append(Raw('vectors: dot product, form %d' % k, [(V, 'p', 3), (V, 'q', 3)], 'auto const x = gal::vga::compute([](auto p, auto q) { return %s; }, p, q); o[0] = x.select(0); o[1] = x.select(3);' % e, lambda c, v: [dot(V3(v, 'p'), V3(v, 'q')), 0], T=T))
        for k, e in enumerate(['p ^ q ^ r', 'p ^ (q ^ r)', 'r ^ p ^ q', '(p * q * r).select_grade(3)', '(p * q * r)[7]* 1_ps', '-(q ^ p ^ r)']):
            ws.append(Raw('vectors: triple product, form %d' % k, [(V, 'p', 3), (V, 'q', 3), (V, 'r', 3)], 'using namespace gal::vga; auto const x = gal::vga::compute([](auto p, auto q, auto r) { return %s; }, p, q, r); o[0] = x.select(7);' % e, lambda c, v: [dot(V3(v, 'p'), cross(V3(v, 'q'), V3(v, 'r')))], T=T))
        ws.append(Raw('vectors: length', [(V, 'p', 3)], 'auto const x = gal::vga::compute([](auto p) { return gal::sqrt(p | p); }, p); o[0] = x.select(0);', lambda c, v: [c.sqrt(dot(V3(v, 'p'), V3(v, 'p')))], T=T))
        ws.append(Raw('vectors: normalised', [(V, 'p', 3)], 'auto q = p; q.normalize(); for (int i = 0; i != 3; ++i) o[i] = q[i]; gal::vga::vector<T> r = gal::vga::compute([](auto p) { return p / gal::sqrt(p | p); }, p); for (int i = 0; i != 3; ++i) o[3 + i] = r[i];',
                      lambda c, v: [x.div(c.sqrt(dot(V3(v, 'p'), V3(v, 'p')))) for x in V3(v, 'p')] * 2, T=T))
        ws.append(Raw('vectors: double cross product', [(V, 'p', 3), (V, 'q', 3), (V, 'r', 3)], 'gal::vga::vector<T> x = gal::vga::compute([](auto p, auto q, auto r) { return !(p ^ !(q ^ r)); }, p, q, r); for (int i = 0; i != 3; ++i) o[i] = x[i];',
                      lambda c, v: cross(V3(v, 'p'), cross(V3(v, 'q'), V3(v, 'r'))), T=T))
        ws.append(Raw('vectors: area of a parallelogram', [(V, 'p', 3), (V, 'q', 3)], 'auto const x = gal::vga::compute([](auto p, auto q) { return gal::scalar_product(p ^ q, ~(p ^ q)); }, p, q); o[0] = x.select(0);',
                      lambda c, v: [(lambda w: dot(w, w))(cross(V3(v, 'p'), V3(v, 'q')))], T=T))
        ws.append(Raw('vectors: dot product', [(V, 'p', 3), (V, 'q', 3)], 'auto const x = gal::vga::compute([](auto p, auto q) { return p | q; }, p, q); o[0] = x.select(0);', lambda c, v: [dot(V3(v, 'p'), V3(v, 'q'))], T=T))
        ws.append(Raw('vectors: cross product', [(V, 'p', 3), (V, 'q', 3)], 'gal::vga::vector<T> x = gal::vga::compute([](auto p, auto q) { return !(p ^ q); }, p, q); for (int i = 0; i != 3; ++i) o[i] = x[i];', lambda c, v: cross(V3(v, 'p'), V3(v, 'q')), T=T))
        ws.append(Raw('vectors: triple product', [(V, 'p', 3), (V, 'q', 3), (V, 'r', 3)], 'auto const x = gal::vga::compute([](auto p, auto q, auto r) { return p ^ q ^ r; }, p, q, r); o[0] = x.select(7);', lambda c, v: [dot(V3(v, 'p'), cross(V3(v, 'q'), V3(v, 'r')))], T=T))
        ws.append(Raw('vectors: geometric product is dot plus wedge', [(V, 'p', 3), (V, 'q', 3)], 'auto const x = gal::vga::compute([](auto p, auto q) { return p * q; }, p, q); auto const y = gal::vga::compute([](auto p, auto q) { return (p | q) + (p ^ q); }, p, q); for (int i = 0; i != 8; ++i) o[i] = x.select(i) - y.select(i);', lambda c, v: [0] * 8, T=T))
        ws.append(Raw('vectors: inverse', [(V, 'p', 3), (V, 'q', 3)], 'gal::vga::vector<T> x = gal::vga::compute([](auto p, auto q) { return p * q * q / gal::scalar_product(q, q); }, p, q); for (int i = 0; i != 3; ++i) o[i] = x[i];', lambda c, v: V3(v, 'p'), T=T))
    return ws


JSIGN = (-1, -1)
MSIGN = (-1, -1)
VSIGN = (-1, 1, -1)      # a & b is !(!a ^ !b), and the double dual of a grade-3 element is its negative
NSIGN = -1
A2SIGN = 1
PSIGN = -1
DSIGN = (1, 1)
L2SIGN = 1


# ------------------------------------------------------------------ scalar type
def c_precision(tier, seed):
    """Witnesses in both scalar types whose arithmetic must stay in that type."""
    from . import props as P
    rng = random.Random('pr%s' % seed)
    ws = []
    for T in TS:
        for a in ALGS:
            s, g = 'scalar', GEOM[a][0]
            for f in ('sqrt', 'sin', 'cos', 'tan'):
                ws += [W(a, [s], Un(f, A), T=T), W(a, [s, g], Un(f, A / 3) * B, T=T), W(a, [s], Un(f, Const('PI') * A), T=T), W(a, [s], 1 / Un(f, A + 1), T=T)]
            for c in ('PI', 'E'):
                ws += [W(a, [s], Const(c) * A, T=T), W(a, [g], A / Const(c), T=T), W(a, [s, g], (Const(c) * A) * B, T=T), W(a, [s], Const(c) * A + 1, T=T)]
            ws += [W(a, [s], 1 / A, T=T), W(a, [s, s], A / B, T=T), W(a, [g], A / 3, T=T), W(a, [g], 7 * A / 3, T=T), W(a, [g, s], A / (B * B * B), T=T), W(a, [s], A * A * A * A * A, T=T), W(a, [g], 1 + A, T=T)]
            for k in NAMED[a]:
                ws += [W(a, [k], A, T=T), W(a, [k, k], A * B, T=T), W(a, [k], 2 * A / 3, T=T)]
        for a, b in (('vga', (3, 5, 6)), ('pga', (3, 5, 6, 9, 10, 12)), ('pga2', (3, 5, 6))):
            ws += [W(a, [b], Un('exp', A), T=T), W(a, [b], Un('exp', A / 2), T=T)]
    pool = []
    for f in (P.c_scalar, P.c_compose, P.c_multi, P.c_sandwich, P.c_null, P.c_signature, c_pow):
        xs = [w for w in f('quick', seed) if type(w) is W]
        pool += rng.sample(xs, min(40 if tier == 'quick' else 300, len(xs)))
    import copy
    for w in pool:
        for T in TS:
            ws.append(W(w.alg, [e_key(w, i) for i in range(len(w.ins))], w.exprs if w.multi else w.exprs[0], T=T))
    ws = only_supported(ws)
    for f in (P.c_entities, P.c_convert, c_exp, c_motion, c_incidence, c_pow):
        xs = [w for w in f('quick', seed) if type(w) is Raw and (f is c_pow or not getattr(w, 'group', None))]
        if f is c_pow:
            frac = [w for w in xs if not w.key.endswith('/1')]
            ws += frac
            xs = [w for w in xs if w.key.endswith('/1')]
        ws += rng.sample(xs, min(len(xs), 150 if tier == 'quick' else 2000))
    for w in ws:
        w.one_type = True
    return ws


def e_key(w, i):
    return w.ins[i]


# ------------------------------------------------------------------ subexpressions that look alike
def collision_exprs(tier):
    """Pairs of different subexpressions that a summary of their operands cannot tell apart: equal
    sizes, one operand shared, the others at every distance from each other (including 32 apart in
    the numbering of input scalars)."""
    X = [In(i) for i in range(10)]
    ws = []
    for a, v in (('vga', 'vector'), ('pga', 'plane')):
        for i, j in itertools.combinations(range(10), 2):
            k = next(x for x in range(10) if x not in (i, j))
            l = next(x for x in range(9, -1, -1) if x not in (i, j, k))
            s = ['scalar'] * 10
            fs = [(X[i] + X[k]) * (X[j] + X[k]), (X[i] + X[k]) * X[l] + 2 * (X[j] + X[k]), [X[i] + X[k], X[j] + X[k]],
                  Un('sqrt', X[i] + X[k]) + Un('sqrt', X[j] + X[k]), (X[i] - X[k]) * (X[i] + X[k]) * (X[j] - X[k]),
                  (X[i] * X[l] + X[k]) * (X[j] * X[l] + X[k]), 1 / (X[i] + X[k]) + 1 / (X[j] + X[k])]
            vs = [(X[i] ^ X[k]) + 2 * (X[j] ^ X[k]), [X[i] ^ X[k], X[j] ^ X[k], 2 * (X[i] ^ X[k])]]
            if tier == 'quick' and a != 'vga':
                fs, vs = fs[:2], vs[:1]
            ws += [W(a, s, f) for f in fs] + [W(a, [v] * 10, f) for f in vs]

    def forms(a, ins, i, j, k, l):
        e = list(ent(a, ins[i]).rep)[0]
        P, Q = X[i] + X[k], X[j] + X[k]
        return [W(a, ins, f) for f in (
            P * Q, P * X[l] + 2 * Q, [P, Q], (X[i] - X[k]) * (X[j] - X[k]), P + 2 * (~Q), P | Q, (X[i] ^ X[k]) + 2 * (X[j] ^ X[k]),
            P.grade(1) * Q.grade(1), [X[i] ^ X[k], X[j] ^ X[k], 2 * (X[i] ^ X[k])], Un('sqrt', P[e]) - Un('sqrt', Q[e]),
            (X[i] ^ X[k] ^ X[l]) + (X[j] ^ X[k] ^ X[l]), (P + X[l]) * (Q + X[l]), P - Q, P * X[l] - Q * X[l], (X[l] * P) * (X[l] * Q))]
    f8, f16, p4 = tuple(range(8)), tuple(range(16)), (1, 2, 4, 8)
    ws += forms('vga', ['vector', 'vector'] + [f8] * 3 + ['scalar', 'scalar', 'vector'], 0, 7, 1, 2)
    ws += forms('pga', ['plane', 'plane', f16, p4, p4, 'plane'], 0, 5, 1, 3)
    ws += forms('pga', ['plane', 'plane', f16, p4, p4, 'plane'], 0, 5, 3, 1)
    ws += forms('pga2', ['line', 'line'] + [f8] * 3 + ['scalar', 'scalar', 'line'], 0, 7, 1, 2)
    return only_supported(ws)


def big_exprs(tier, seed):
    """Sizes at which a fixed capacity or a narrow counter would show."""
    rng = random.Random('bg%s' % seed)
    X = [In(i) for i in range(10)]
    ws = []

    def summ(xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r

    def prod(xs):
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r
    S = ['scalar'] * 10
    sizes = (8, 16, 17, 32, 33, 40) if tier == 'quick' else (8, 16, 17, 32, 33, 40, 64, 65, 90)
    pairs = list(itertools.combinations_with_replacement(range(10), 2))
    for n in sizes:
        for a in ('vga', 'cga') if n < 40 else ('vga',):
            ps = pairs[:]
            rng.shuffle(ps)
            ps = (ps * 3)[:n]
            ts = [rng.choice([1, 2, 3, -1]) * (X[i] * X[j]) for i, j in ps]
            ws += [W(a, S, summ(ts)), W(a, S, summ(ts) * X[0]), W(a, S, prod([X[rng.randrange(10)] for _ in range(n)]) if n <= 40 else X[0])]
            d = summ(ts)
            ws += [W(a, S, [d, X[1] * d]), W(a, S, d - d), W(a, S, d + summ(ts[::-1]))]
    # many shared subexpressions, temporaries and results
    for n in (2, 4, 8, 10):
        fs = [Un(rng.choice(['sin', 'cos', 'sqrt']), X[i] + X[(i + 1) % 10]) for i in range(n)]
        ws += [W('vga', S, summ(fs)), W('vga', S, summ(fs) * summ(fs)), W('pga', S, [x for x in fs] if n > 1 else fs[0]), W('pga', S, [f * f for f in fs] + [summ(fs)])]
        qs = [X[i] / (X[(i + 1) % 10] + 1) for i in range(n)]
        ws += [W('vga', S, summ(qs)), W('pga', S, qs), W('vga', S, prod(qs))]
    V = ['vector'] * 10
    for n in (3, 5, 8, 10):
        ws += [W('vga', V, summ(X[:n])), W('vga', V[:n], summ([X[i] * X[(i + 1) % n] for i in range(n)])), W('vga', V[:n], [X[i] ^ X[(i + 1) % n] for i in range(n)]),
               W('vga', V[:n], summ([X[i] | X[(i + 1) % n] for i in range(n)]))]
        ws += [W('pga', ['plane'] * n, summ([X[i] ^ X[(i + 1) % n] for i in range(n)])), W('pga', ['point'] * n, summ(X[:n])), W('pga', ['point'] * n, [X[i] & X[(i + 1) % n] for i in range(n)])]
    # nested functions
    x = A
    for d in range(1, 9):
        x = Un(['sin', 'cos', 'sqrt'][d % 3], x + d)
        ws += [W('vga', ['scalar'], x), W('vga', ['scalar', 'vector'], x * B)]
    x = A
    for d in range(1, 9):
        x = 1 / (x + d)
        ws.append(W('pga', ['scalar'], x))
    # products of many vectors
    for n in (3, 4, 5, 6) if tier == 'quick' else (3, 4, 5, 6, 7):
        ws += [W('vga', V[:n], prod(X[:n])), W('vga', V[:2], prod([X[i % 2] for i in range(n)]))]
    return only_supported(ws)


def twin_exprs(tier, seed, n=None):
    """Two subexpressions of one shape that differ in a single coefficient, operand, operator or
    selected component, each used several times, bare and inside larger shared subexpressions."""
    n = n or (260 if tier == 'quick' else 3000)

    def twins(rng, a, m):
        D = 1 << ALG[a].dim

        def shape(rng, v):
            """v: the choices made (list); a shape reads its choices from it"""
            it = iter(v)
            k = next(it)

            def leaf():
                x = In(next(it) % m)
                c = next(it) % 7
                return x if c < 3 else (2 * x if c == 3 else 3 * x if c == 4 else -x if c == 5 else x / 2)

            def op(o):
                return o[next(it) % len(o)]
            if k == 0:
                return Bin(op('+-'), leaf(), leaf())
            if k == 1:
                return Bin(op(['*', '^', '|']), leaf(), leaf())
            if k == 2:
                return Bin(op('+-'), Bin(op(['*', '^']), leaf(), leaf()), leaf())
            if k == 3:
                return Bin(op(['*', '^']), Bin(op('+-'), leaf(), leaf()), leaf())
            if k == 4:
                return Un(op('~!'), Bin(op('+*'), leaf(), leaf()))
            if k == 5:
                return leaf() + leaf() + leaf()
            if k == 6:
                return leaf() ^ leaf() ^ leaf()
            if k == 7:
                return leaf() + (next(it) % 4 + 1)
            return Bin(op('+*'), leaf(), leaf()).grade(next(it) % (ALG[a].dim + 1))
        k = rng.randrange(9)
        v = [k] + [rng.randrange(420) for _ in range(12)]
        i = rng.randrange(1, 7)
        w = list(v)
        w[i] = rng.choice([x for x in range(420) if x % 7 != v[i] % 7 or x % m != v[i] % m])
        if rng.random() < .35:      # the coefficients trade places
            w = list(v)
            w[2], w[4] = w[4], w[2]
            w[3], w[5] = w[5], w[3]
        return shape(rng, v), shape(rng, w)

    def make(rng):
        a = rng.choice(['vga', 'vga', 'pga', 'pga2', 'cga'])
        m = rng.choice([2, 3, 3])
        small = {'vga': ['vector', (1, 4), (0, 3), 'scalar'], 'pga': ['plane', (1, 4), (2, 12), 'scalar', (0, 5)], 'pga2': ['line', 'point', (1, 2), 'scalar'],
                 'cga': [(1, 8), (4, 16), 'scalar', (2, 8)]}[a]
        if rng.random() < .35:
            ks = [rng.choice(small)] * m
        else:
            ks = [rng.choice(small) for _ in range(m)]
        if all(is_scalar_kind(k) for k in ks) and rng.random() < .7:
            ks[0] = small[0]
        p, q = twins(rng, a, m)
        c = In(rng.randrange(m))
        r = rng.choice(['*', '*', '^', '|', '+', '-'])

        def f(x):
            return Bin(r, x, c)
        t = rng.randrange(9)
        if t == 0:
            e = f(p) + f(q) + f(p) * p + f(q) * q
        elif t == 1:
            e = f(p) + 2 * f(q) + p + 3 * q
        elif t == 2:
            e = [f(p), f(q), f(p) ^ p, f(q) ^ q]
        elif t == 3:
            e = (f(p) ^ p) - (f(q) ^ q) + p - q
        elif t == 4:
            e = f(f(p)) + f(f(q)) + f(p) - 2 * f(q) + p + q
        elif t == 5:
            e = [p, q, f(p), f(q)]
        elif t == 6:
            e = (~f(p)) + f(q) + f(p) + (~f(q)) + p
        elif t == 7:
            i = rng.randrange(1 << ALG[a].dim)
            e = f(p) * Un('sin', p[i] + 1) + f(q) * Un('sin', q[i] + 1) + p - q
        else:
            e = [f(p) + f(q), f(q) - f(p), p + q]
        return W(a, ks, e)
    return draw('tw%s' % seed, n, make)

# ------------------------------------------------------------------ pairs that differ in one hidden attribute
FUNCS = ('sin', 'cos', 'tan', 'sqrt')


def near_pairs(a):
    """(class, p, q, both scalar): two expressions whose internal forms agree but for one attribute (a factor kept inside a
    node, a selected part, an operand, an operator, a sign, the order of the operands).  Inputs: A, B vectors, S, T scalars."""
    S, T = In(2), In(3)
    D_ = ALG[a].dim
    l1, l2 = lit(a, '_e1'), lit(a, '_e2')
    out = []

    def f(c, p, q, sc=False):
        out.append((c, p, q, sc))
    for n in FUNCS:
        def F(x, n=n):
            return Un(n, x)
        f('fun', F(S), F(2 * S), True)
        f('fun', F(S / 2), F(S / 3), True)
        f('fun', F(2 * S), F(S / 2), True)
        f('fun', F(-S), F(S), True)
        f('fun', F(S), F(T), True)
        f('fun', F(S + T), F(S - T), True)
        f('fun', F(2 * (S + T)), F(3 * (S + T)), True)
        f('fun', F(S + T), F(2 * (S + T)), True)
        f('fun', F(S * T), F(2 * S * T), True)
        f('fun', F(S * T), F(S * T / 3), True)
        f('fun', F(S / T), F(T / S), True)
        f('fun', F(1 / S), F(2 / S), True)
        f('fun', F(S + 1), F(S + 2), True)
        f('fun', F(Un('cos', S)), F(Un('cos', 2 * S)), True)
        f('fun', F(S * Const('PI')), F(S * Const('E')), True)
        f('fun', F(S), Un(FUNCS[(FUNCS.index(n) + 1) % 4], S), True)
        f('fun', F(A[1] + 1), F(A[2] + 1), True)
        f('fun', F(A[1]), F(2 * A[1]), True)
    f('div', A / S, A / (2 * S))
    f('div', A / S, (2 * A) / S)
    f('div', A / S, A / T)
    f('div', A / S, B / S)
    f('div', A / (S + T), A / (2 * (S + T)))
    f('div', A / (S + T), A / (S + 2 * T))
    f('div', (A + B) / S, (A + 2 * B) / S)
    f('div', (A + B) / S, (A - B) / S)
    f('div', (A * B) / S, (B * A) / S)
    f('div', (A / S) / T, (A / T) / T)
    f('div', 1 / S, 1 / (3 * S), True)
    f('div', 2 / S, 3 / S, True)
    f('div', S / T, T / S, True)
    f('div', S / T, S / (2 * T), True)
    f('div', (S + T) / S, (S + T) / T, True)
    f('div', 1 / (S + T), 2 / (S + T), True)
    f('div', 1 / (S * T), 1 / (2 * S * T), True)
    ab = A * B
    f('sel', ab[0], ab[3], True)
    f('sel', ab[0], (B * A)[0], True)
    f('sel', ab[3], (B * A)[3], True)
    f('sel', A[1], A[2], True)
    f('sel', A[1], B[1], True)
    f('sel', (A + B)[1], (A - B)[1], True)
    f('sel', ab.grade(0), ab.grade(2))
    f('sel', ab.grade(2), (B * A).grade(2))
    f('sel', (A + S).grade(0), (A + S).grade(1))
    f('sel', SP(A, B), SP(A, A), True)
    f('sel', SP(A + B, A), SP(A - B, A), True)
    f('sum', A + B, A - B)
    f('sum', A + 2 * B, A + 3 * B)
    f('sum', 2 * A + B, A + 2 * B)
    f('sum', A + S, A + T)
    f('sum', A + 1, A + 2)
    f('sum', A + 1, 1 - A)
    f('sum', S + T, S - T, True)
    f('sum', S + 1, S - 1, True)
    f('sum', A + B + S, A - B + S)
    f('sum', 2 * (A + B) + S, A + B + S)
    f('sum', A / 2 + B / 3, A / 3 + B / 2)
    f('op', ab, B * A)
    f('op', A ^ B, B ^ A)
    f('op', ab, A ^ B)
    f('op', ab, A | B)
    f('op', A | B, A >> B)
    f('op', ab, ~ab)
    f('op', A, A.dual())
    f('op', ab, ab.dual())
    f('op', ~ab, ab.dual())
    f('op', A * (A + B), A * (A + 2 * B))
    f('op', ab * A, A * ab)
    f('op', A * (B * A), (B * A) * A)
    f('op', A ^ B ^ l1, A ^ l1 ^ B)
    f('op', A ^ B ^ l1, A ^ B ^ l2)
    f('op', A % B, B % A)
    f('op', A % B, A % (A + B))
    f('op', A & B, B & A)
    f('op', A & (A ^ B), B & (A ^ B))
    f('op', S * A, T * A)
    f('op', S * S * A, S * T * A)
    f('lit', A * l1, A * l2)
    f('lit', A + l1, A + l2)
    f('lit', A + l1, A + 2 * l1)
    f('lit', A ^ l1, A ^ (3 * l1))
    f('lit', l1 * A, A * l1)
    f('lit', Const('PI') * A, Const('E') * A)
    f('lit', Const('PI') * S, Const('E') * S, True)
    f('lit', Const('PI') * S + T, (2 * Const('PI')) * S + T, True)
    f('lit', S / Const('PI'), S / Const('E'), True)
    return out


def near_contexts():
    S = In(2)
    c = [('sum', lambda p, q: p + q), ('sum', lambda p, q: p - q), ('sum', lambda p, q: q - p), ('sum', lambda p, q: 2 * p + 3 * q), ('sum', lambda p, q: (A + p) + (B + q)),
         ('sum', lambda p, q: (A + p) - (B + q)), ('sum', lambda p, q: (A + p) + q), ('sum', lambda p, q: p + (A + q)), ('sum', lambda p, q: (p + A) - (q + A)), ('sum', lambda p, q: q + p + q),
         ('sum', lambda p, q: (p + q) + (p - q)), ('sum', lambda p, q: (2 * p + A) - (q + 3 * A)), ('sum', lambda p, q: (p + B) / 2 + (q - B)), ('sum', lambda p, q: (p + 1) + (q + 1)),
         ('prod', lambda p, q: p * q), ('prod', lambda p, q: p * A + q * A), ('prod', lambda p, q: A * p - A * q), ('prod', lambda p, q: (p + q) * (p - q)), ('prod', lambda p, q: p * p + q * q),
         ('prod', lambda p, q: (p * B) * (q * B)), ('prod', lambda p, q: p * B + q), ('prod', lambda p, q: (A + p) * (A + q)),
         ('ext', lambda p, q: p ^ q), ('ext', lambda p, q: (p ^ A) + (q ^ A)), ('ext', lambda p, q: (p ^ A) ^ (q ^ B)), ('ext', lambda p, q: (A ^ p) - (A ^ q)), ('ext', lambda p, q: (p >> A) + (q >> A)),
         ('un', lambda p, q: ~p + ~q), ('un', lambda p, q: p.dual() + q.dual()), ('un', lambda p, q: ~(p + q)), ('un', lambda p, q: -p + (~q)), ('un', lambda p, q: (p + q).dual() + q.dual()),
         ('un', lambda p, q: p.grade(1) + q.grade(0)), ('un', lambda p, q: (p + A)[1] + (q + A)[1]),
         ('multi', lambda p, q: [p, q]), ('multi', lambda p, q: [p + A, q + A, p]), ('multi', lambda p, q: [q * A, p * A]), ('multi', lambda p, q: [p + q, p - q, q, p]),
         ('div', lambda p, q: p / S + q / S), ('div', lambda p, q: (p + A) / S - (q + A) / S), ('div', lambda p, q: p / S - q / (2 * S))]
    k = [('scal', lambda p, q: Un('sin', p) + Un('sin', q)), ('scal', lambda p, q: Un('cos', p) * Un('cos', q)), ('scal', lambda p, q: Un('sqrt', p) - Un('sqrt', q)), ('scal', lambda p, q: A / p + A / q),
         ('scal', lambda p, q: 1 / p - 1 / q), ('scal', lambda p, q: Un('sin', p + q) + Un('sin', p - q)), ('scal', lambda p, q: A * Un('cos', p) + B * Un('cos', 2 * q)), ('scal', lambda p, q: p / q + q / p),
         ('scal', lambda p, q: [Un('sin', p), Un('sin', q)]), ('scal', lambda p, q: (A + Un('sin', p)) + (B + Un('sin', q)))]
    return c, k


def near_twins(tier, seed, pairs=None, ctxs=None, keep=1.0, algs=ALGS):
    rng = random.Random('nt%s%s%s' % (seed, pairs, ctxs))
    g0 = {'vga': 'vector', 'pga': 'plane', 'pga2': 'line', 'cga': (1, 8)}
    C, K = near_contexts()
    out = []
    NP = {a: near_pairs(a) for a in algs}
    for i in range(len(NP[algs[0]])):
        for t, f in C + K:
            a = rng.choice(algs)
            c, p, q, sc = NP[a][i]
            if pairs and c not in pairs or ctxs and t not in ctxs or t == 'scal' and not sc:
                continue
            if tier == 'quick' and rng.random() > keep:
                continue
            if rng.random() < .3:
                p, q = q, p
            k = rng.choice([g0[a], g0[a], (1, 2), (2, 4)])
            out.append(W(a, [k, k, 'scalar', 'scalar'], f(p, q)))
    return only_supported(out)


# ------------------------------------------------------------------ generated geometry
def geo_kinds(rng, a, mover=False):
    if mover:
        return {'vga': ['rotor', 'vector', (0, 3, 5, 6)], 'pga': ['rotor', 'translator', 'plane', 'motor', (0, 3), (0, 9, 10)],
                'pga2': ['line', (0, 3), (0, 3, 5, 6), 'point'], 'cga': [(1, 16), (1, 2), (0, 17), 'point']}[a]
    return {'vga': ['vector', (3, 5, 6), (1, 4), (3,)], 'pga': ['plane', 'point', 'vector', 'line', 'vga.point@pga', (1, 4), (3, 12), (7, 14)],
            'pga2': ['line', 'point', 'vector', (1, 4), (3, 6)], 'cga': ['point', (1, 8), (2, 4), (8, 16), (16,), (7, 25)]}[a]


def geo_operand(rng, a, xs, n=2):
    """A linear or nested combination, as a user writes a blend, a midpoint, an intermediate join or meet."""
    x = rng.choice(xs)
    y = rng.choice(xs)
    l = lit(a, rng.choice(list(LITS[a])), rng.choice([1, 2]))
    forms = [x, x, x + y, x - y, 2 * x, x / 2, (x + y) / 2, -x, 2 * x - 3 * y, x + l, l - x, x & y, x ^ y, x.dual(), ~x, l]
    return rng.choice(forms)


def geo_incidence(tier, seed):
    rng = random.Random('gi%s' % seed)
    ws = []
    for a in ALGS:
        for _ in range(90 if tier == 'quick' else 900):
            ks = [rng.choice(geo_kinds(rng, a)) for _ in range(rng.choice([2, 3, 3, 4]))]
            if a == 'cga':
                ks = ks[:3]
            xs = [In(i) for i in range(len(ks))]
            f = lambda: geo_operand(rng, a, xs)
            o = rng.choice(['&', '&', '&', '^', '^', '|', '>>'])
            p = rng.choice(['&', '^', '|'])
            x = rng.choice([lambda: Bin(o, f(), f()), lambda: Bin(o, f(), f()), lambda: Bin(p, Bin(o, f(), f()), rng.choice(xs)), lambda: Bin(p, rng.choice(xs), Bin(o, f(), f())),
                            lambda: Bin(o, f(), f()).dual(), lambda: Bin(o, f(), f()) + Bin(o, rng.choice(xs), rng.choice(xs)), lambda: [Bin(o, f(), f()), Bin(p, f(), rng.choice(xs))]])()
            ws.append(W(a, ks, x, T='double' if rng.random() < .7 else 'float'))
    return only_supported(ws)


def geo_motion(tier, seed):
    rng = random.Random('gm%s' % seed)
    ws = []
    for a in ALGS:
        for _ in range(50 if tier == 'quick' else 500):
            ks = [rng.choice(geo_kinds(rng, a)), rng.choice(geo_kinds(rng, a, True)), rng.choice(geo_kinds(rng, a, True)), 'scalar']
            X, M, N, S = A, B, In(2), In(3)
            l = lit(a, rng.choice(list(LITS[a])), rng.choice([1, 2]))
            m = rng.choice([M, M, M * N, N * M, ~M, 2 * M, M / 2, M + N, M + l, 1 + M, 1 - l, l, M * l, -M, M * S, (M + N) / 2])
            x = rng.choice([X, X, 2 * X, X + l, -X, X / 3, X * S, X.dual(), l])
            ws.append(W(a, ks, rng.choice([lambda: x % m, lambda: x % m, lambda: m * x * ~m, lambda: (x % M) % N, lambda: ~m * x * m, lambda: x % (M % N), lambda: [x % m, X], lambda: x % m - x])(),
                        T='double' if rng.random() < .7 else 'float'))
    return only_supported(ws)


# ------------------------------------------------------------------ entity types declared by the user
def user_types(a):
    """-> scalar-valued types, other types: polynomials, fractions, powers, constants, shared and unused stored numbers."""
    al = alg_of(a)
    F = Fraction
    e = [1 << i for i in range(al.dim)]
    sc = [UEnt(a, 'sum', 2, {0: [(1, [0]), (1, [1])]}), UEnt(a, 'half', 1, {0: [(F(1, 2), [0])]}), UEnt(a, 'prod', 2, {0: [(1, [0, 1])]}),
          UEnt(a, 'sq', 1, {0: [(1, [0, 0])]}), UEnt(a, 'neg', 2, {0: [(-3, [1])]}), UEnt(a, 'aff', 1, {0: [(2, []), (F(-1, 3), [0])]}),
          UEnt(a, 'poly', 3, {0: [(F(1, 2), [1]), (-1, [0, 2]), (3, [0, 0, 1])]})]
    ot = [UEnt(a, 'shift', 2, {e[0]: [(1, [0]), (1, [])], e[1]: [(F(-1, 2), [0, 1])]}), UEnt(a, 'unit', 0, {e[0]: [(1, [])], e[-1]: [(F(1, 2), [])]}),
          UEnt(a, 'mixed', 3, {0: [(2, [])], e[1]: [(1, [2]), (-1, [2, 2])], 3: [(1, [0, 1]), (1, [0, 0])], al.full: [(F(3, 2), [1])]}),
          UEnt(a, 'same', 2, {e[0]: [(1, [1])], e[1]: [(1, [1])], 3: [(-1, [1])]}), UEnt(a, 'par', 2, {e[0]: [(1, [0])], e[1]: [(1, [0, 0])], e[-1]: [(1, [1])] if al.dim > 2 else [(1, [0, 0])]})]
    return sc, ot


def user_scalars(tier, seed):
    """Functions of and division by scalars of a user-declared type, bare and in every context."""
    rng = random.Random('us%s' % seed)
    ws = []
    S, V, R = A, B, Cc

    def fn(x):
        return Un(rng.choice(['sin', 'cos', 'sqrt', 'tan']), x)
    forms = [lambda: V / S, lambda: fn(S), lambda: fn(2 * S), lambda: fn(S) * V, lambda: 1 / S, lambda: S / S, lambda: fn(S) + S, lambda: fn(S) * fn(S), lambda: fn(S) + fn(S),
             lambda: V / S + V / (S + 1), lambda: fn(S) / S, lambda: (V / S) ^ (V / S), lambda: [V / S, fn(S)], lambda: [fn(S), S, V / S], lambda: Const('PI') / S, lambda: S / Const('E'),
             lambda: S / 3, lambda: (V * S) / S, lambda: fn(fn(S) + S), lambda: V / S / S, lambda: V / (S * S), lambda: fn(S / R) + fn(R / S), lambda: fn(S) * fn(R) + S / R,
             lambda: S * V + V / S, lambda: ~(V / S) + fn(S) * (V / S), lambda: fn(-S) - fn(S), lambda: R / S + S / R + R / S, lambda: (V / S)[1] * fn(S), lambda: 2 / (3 * S) + V, lambda: S * S + fn(S)]
    for a in ('vga', 'pga', 'cga', 'm_1_1_1'):
        sc, _ = user_types(a)
        g = blades(a, 1)
        for s in sc:
            for f in forms:
                if tier == 'quick' and rng.random() > .35 and not (a == 'vga' and s.name == 'user.sum'):
                    continue
                ws.append(W(a, [s, g, rng.choice(sc + ['scalar'])], f()))
            ws.append(W(a, [s, g, s], fn(A) + fn(Cc) + A / Cc))
    return only_supported(ws)


def user_entities(tier, seed):
    """Inputs of user-declared types among the shipped ones, in every operation."""
    rng = random.Random('ue%s' % seed)
    ws = []
    for a in ('vga', 'pga', 'pga2', 'cga', 'm_1_1_1', 'm_2_2_0'):
        sc, ot = user_types(a)
        g = blades(a, 1)
        for u in sc + ot:
            ws += [W(a, [u], A), W(a, [u], A, T='float'), W(a, [u], A * A), W(a, [u, u], A * B), W(a, ['scalar', u, g], B - Cc), W(a, [g, u, 'scalar'], [Cc, A, B]), W(a, [u], ~A + A.dual())]
        for _ in range(25 if tier == 'quick' else 250):
            ks = [rng.choice(sc + ot + [g, 'scalar', ()]) for _ in range(rng.choice([2, 3, 4]))]
            xs = [In(i) for i in range(len(ks))]
            p, q, r = (rng.choice(xs) for _ in range(3))
            o = rng.choice(['*', '*', '^', '|', '>>', '&', '%'])
            x = rng.choice([lambda: Bin(o, p, q), lambda: Bin(o, p, q) + r, lambda: p - 2 * q + r, lambda: Bin(o, p + q, r), lambda: [Bin(o, p, q), r], lambda: Bin(o, p, q)[rng.randrange(alg_of(a).full + 1)], lambda: (p / 2 + ~q).dual(),
                            lambda: Bin(o, p, q) - Bin(o, p, q) / 2 + Bin('*', r, r), lambda: (p + q).grade(rng.randrange(3)), lambda: SP(p, q) * r])()
            ws.append(W(a, ks, x))
    # a type of one model that enters another
    ws += [W('pga', [UEnt('pga', 'guest', 2, {7: [(1, [1])], 14: [(1, []), (Fraction(1, 2), [0])]}, foreign='gal::vga::vga_algebra'), 'plane'], x)
           for x in (A, A * B, A & B, B % A, [B, A], A + B, A[14])]
    return only_supported(ws)
