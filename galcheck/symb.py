"""Compile-time multivectors (gal::mv): polynomials in the inputs per basis blade.

An obligation is a constant expression that builds polynomials, applies one operation of the library and lists the
result; the list is read from the IR and compared with polynomial arithmetic on dictionaries."""
import random
from fractions import Fraction
from .ga import ALG, alg_of, grade, gp_blade, ep_blade, lc_blade, ip_blade, dual_blade
from .values import Tab

PRE = '''
template <class M, size_t N> constexpr void list(M const& m, std::array<long long, N>& r, size_t& j) {
  for (auto t = m.cbegin(); t != m.cend(); ++t) { r[j++] = 1; r[j++] = t->element; r[j++] = t->count;
    for (auto q = t.cbegin(); q != t.cend(); ++q) { r[j++] = 2; r[j++] = q->q.num; r[j++] = q->q.den; r[j++] = q->degree.num; r[j++] = q->degree.den; r[j++] = q->count;
      for (auto i = q.cbegin(); i != q.cend(); ++i) { r[j++] = 3; r[j++] = i->id; r[j++] = i->degree.num; r[j++] = i->degree.den; } } }
  r[j++] = 4; r[j++] = m.size.term; r[j++] = m.size.mon; r[j++] = m.size.ind; }
template <class A> constexpr auto zero_mv() { return gal::mv<A, 0, 0, 0>{}; }
'''


def cppalg(a):
    al = alg_of(a)
    return 'gal::%s::%s_algebra' % (a, a) if not al.custom else 'gal::algebra<gal::metric<%d, %d, %d>>' % al.custom


def rat(q):
    return 'gal::rat{%d, %d}' % (q.numerator, q.denominator)


def mono_cpp(a, e, m, q):
    deg = sum((d for _, d in m), Fraction(0))
    return 'gal::mv<%s, %d, 1, 1>{gal::mv_size{%d, 1, 1}, {%s}, {gal::mon{%s, %s, %d, 0}}, {gal::term{1, 0, %d}}}' % (
        cppalg(a), len(m), len(m), ', '.join('gal::ind{%d, %s}' % (i, rat(d)) for i, d in m), rat(q), rat(deg), len(m), e)


def cpp(a, x):
    """An expression building the polynomial multivector by adding its monomials."""
    ms = [mono_cpp(a, e, m, q) for e in x for m, q in x[e].items()]
    if not ms:
        return 'zero_mv<%s>()' % cppalg(a)
    r = ms[0]
    for y in ms[1:]:
        r = 'gal::detail::sum(%s, %s)' % (r, y)
    return r


# polynomial arithmetic: {blade: {((id, degree), ...): coefficient}}
def norm(x):
    out = {}
    for e, p in x.items():
        p = {m: q for m, q in p.items() if q}
        if p:
            out[e] = p
    return out


def add(x, y):
    out = {e: dict(p) for e, p in x.items()}
    for e, p in y.items():
        o = out.setdefault(e, {})
        for m, q in p.items():
            o[m] = o.get(m, 0) + q
    return norm(out)


def mul1(m, n):
    d = dict(m)
    for i, k in n:
        d[i] = d.get(i, 0) + k
    return tuple(sorted((i, k) for i, k in d.items() if k))


def prod(table, sig, x, y):
    out = {}
    for a, p in x.items():
        for b, r in y.items():
            e, s = table(sig, a, b)
            if s:
                o = out.setdefault(e, {})
                for m, q in p.items():
                    for n, t in r.items():
                        k = mul1(m, n)
                        o[k] = o.get(k, 0) + s * q * t
    return norm(out)


def mapq(x, f):
    return norm({e: {m: q * f(e) for m, q in p.items()} for e, p in x.items()})


def move(x, f):
    """f(e) -> [(element, factor)]"""
    out = {}
    for e, p in x.items():
        for d, s in f(e):
            out = add(out, {d: {m: q * s for m, q in p.items()}})
    return out


def decode(got):
    """-> (polynomial or None, complaint)"""
    it = iter(got)
    out, last, nt, nm, ni = {}, -1, 0, 0, 0
    cur = None
    k = next(it)
    left = 0
    while True:
        if k == 1:
            if left:
                return None, 'a term lists fewer monomials than it has'
            e, left = next(it), next(it)
            nt += 1
            if e <= last:
                return None, 'components out of order or repeated (%d after %d)' % (e, last)
            last = e
            if left == 0:
                return None, 'component %d has no monomial' % e
            cur = out.setdefault(e, {})
            k = next(it)
        elif k == 2:
            num, den, dn, dd, c = (next(it) for _ in range(5))
            nm += 1
            left -= 1
            ids = []
            k = next(it)
            while k == 3:
                i, n, d = next(it), next(it), next(it)
                ni += 1
                if d == 0 or n == 0:
                    return None, 'indeterminate %d with degree %d/%d' % (i, n, d)
                if ids and ids[-1][0] >= i:
                    return None, 'indeterminates out of order'
                ids.append((i, Fraction(n, d)))
                k = next(it)
            if c != len(ids):
                return None, 'monomial of wrong length'
            if den == 0 or dd == 0 or num == 0:
                return None, 'monomial with coefficient %d/%d and degree %d/%d' % (num, den, dn, dd)
            if Fraction(dn, dd) != sum((d for _, d in ids), Fraction(0)):
                return None, 'degree %d/%d does not match the indeterminates %s' % (dn, dd, ids)
            m = tuple(ids)
            if m in cur:
                return None, 'monomial %s of component %d is not collected' % (m, last)
            cur[m] = Fraction(num, den)
        elif k == 4:
            if left:
                return None, 'a term lists fewer monomials than it has'
            st, sm, si = next(it), next(it), next(it)
            if (st, sm, si) != (nt, nm, ni):
                return None, 'recorded size %s differs from the contents %s' % ((st, sm, si), (nt, nm, ni))
            return out, None
        else:
            return None, 'malformed listing (%d)' % k


def show(x):
    return ' + '.join('%s %s e%d' % (q, ' '.join('x%d^%s' % z for z in m), e) for e in sorted(x) for m, q in sorted(x[e].items())) or '0'


def ob(key, body, want, group, slack=60):
    size = sum(3 + sum(6 + 4 * len(m) for m in p) for p in want.values()) * 2 + slack

    def check(got):
        r, why = decode(got)
        if why:
            yield why
        elif r != want:
            yield 'is %s; expected %s' % (show(r)[:400], show(want)[:400])
    t = Tab(key, '[] { std::array<long long, %d> r{}; size_t j = 0; constexpr auto z = [] { %s }(); list(z, r, j); return r; }()' % (size, body), size, check, pre=PRE, internal=True)
    t.group = group
    return t


def poly(rng, n, ids, frac=.15, neg=.2, maxdeg=3):
    p = {}
    for _ in range(n):
        m = {}
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
            d = Fraction(rng.randrange(1, maxdeg + 1))
            if rng.random() < neg:
                d = -d
            if rng.random() < frac:
                d = d / 2
            m[rng.choice(ids)] = d
        p[tuple(sorted(m.items()))] = Fraction(rng.choice([1, 1, 1, 2, 3, -1, -1, -2, 5]), rng.choice([1, 1, 1, 2, 3]))
    return p


def rand(rng, a, nt=None, nm=None, ids=None):
    D = 1 << alg_of(a).dim
    nt = nt if nt is not None else rng.choice([0, 1, 1, 2, 3, 4])
    ids = ids or [0, 1, 2, 3, 7, 12]
    es = sorted(rng.sample(range(D), min(D, nt)))
    return norm({e: poly(rng, nm or rng.choice([1, 1, 2, 3]), ids) for e in es})


ALGS = ['vga', 'pga', 'pga2', 'm_5_0_0', 'm_2_1_0', 'm_1_1_2', 'm_3_3_0', 'm_0_4_0']
OPS = {'geometric': gp_blade, 'exterior': ep_blade, 'contract': lc_blade, 'symmetric_inner': ip_blade}


def build(tier, seed):
    rng = random.Random('sy%s' % seed)
    m = 1 if tier == 'quick' else 6
    ws = []

    def two(a, x, y):
        return 'constexpr auto x = %s; constexpr auto y = %s; ' % (cpp(a, x), cpp(a, y))

    for a in ALGS:
        al = alg_of(a)
        D = 1 << al.dim
        G = cppalg(a)
        for _ in range(14 * m):
            x = rand(rng, a)
            y = rng.choice([lambda: rand(rng, a), lambda: rand(rng, a), lambda: mapq(x, lambda e: -1), lambda: add(mapq(x, lambda e: -1), rand(rng, a)), lambda: mapq(x, lambda e: Fraction(2, 3)),
                            lambda: {e: dict(list(p.items())[:1]) for e, p in mapq(x, lambda e: -1).items()}])()
            s = two(a, x, y)
            k = '%s: %s, %s' % (a, show(x)[:80], show(y)[:80])
            ws.append(ob('sum in ' + k, s + 'return gal::detail::sum(x, y);', add(x, y), 'sum'))
            ws.append(ob('double sum in ' + k, s + 'constexpr auto z = gal::detail::sum(x, y); return gal::detail::sum(z, x);', add(add(x, y), x), 'sum'))
        for _ in range(12 * m):
            x, y = rand(rng, a), rand(rng, a)
            s = two(a, x, y)
            k = '%s: %s, %s' % (a, show(x)[:80], show(y)[:80])
            for o, t in OPS.items():
                if rng.random() < .7:
                    ws.append(ob('%s product in %s' % (o, k), s + 'return gal::detail::product(typename %s::%s{}, x, y);' % (G, o), prod(t, al.sig, x, y), 'product'))
            o = rng.choice(list(OPS))
            w = prod(OPS[o], al.sig, add(x, y), x)
            ws.append(ob('%s product of a sum in %s' % (o, k), s + 'constexpr auto z = gal::detail::sum(x, y); return gal::detail::product(typename %s::%s{}, z, x);' % (G, o), w, 'product'))
        for _ in range(6 * m):
            x = rand(rng, a, rng.choice([1, 2, 3, 5]))
            s = 'constexpr auto x = %s; ' % cpp(a, x)
            k = '%s: %s' % (a, show(x)[:120])
            q = Fraction(rng.choice([2, -1, -3, 5, 1]), rng.choice([1, 2, 3]))
            ws.append(ob('scaled %s in %s' % (q, k), s + 'return gal::detail::scale(%s, x);' % rat(q), mapq(x, lambda e: q), 'scale'))
            ws.append(ob('scaled in place %s in %s' % (q, k), s + 'auto z = x; z.scale(%s); return z;' % rat(q), mapq(x, lambda e: q), 'scale'))
            ws.append(ob('negated in ' + k, s + 'return gal::detail::negate(x);', mapq(x, lambda e: -1), 'negate'))
            ws.append(ob('shifted by %s in %s' % (q, k), s + 'return gal::detail::shift(%s, x);' % rat(q), add(x, {0: {(): q}}), 'shift'))
            ws.append(ob('reversed in ' + k, s + 'return gal::detail::reverse(x);', mapq(x, lambda e: -1 if grade(e) * (grade(e) - 1) // 2 % 2 else 1), 'reverse'))
            ws.append(ob('dual in ' + k, s + 'return gal::detail::poincare_dual(x);', move(x, lambda e: [dual_blade(al.dim, e)]), 'dual'))
            g = rng.randrange(al.dim + 1)
            ws.append(ob('grade %d in %s' % (g, k), s + 'return x.select_grade(%d);' % g, {e: p for e, p in x.items() if grade(e) == g}, 'select'))
            for e in {rng.randrange(D), rng.choice(list(x) or [0])}:
                ws.append(ob('component %d in %s' % (e, k), s + 'return gal::detail::component(x, %d);' % e, {0: x[e]} if e in x else {}, 'component'))
                ws.append(ob('indexed %d in %s' % (e, k), s + 'return x[%d];' % e, {0: x[e]} if e in x else {}, 'component'))
            es = sorted(rng.sample(range(D), rng.choice([1, 2, min(4, D)])) + rng.sample(list(x), min(len(x), 1)))
            es = sorted(set(es))
            ws.append(ob('extract %s in %s' % (es, k), s + 'return gal::detail::extract(x, std::array<gal::elem_t, %d>{%s});' % (len(es), ', '.join(map(str, es))), {e: p for e, p in x.items() if e in es}, 'extract'))
            nt, nm, ni = len(x), sum(len(p) for p in x.values()), sum(len(z) for p in x.values() for z in p)
            c = [rng.choice([0, 0, 1, 3]) for _ in range(3)]
            ws.append(ob('resized by %s in %s' % (c, k), s + 'return x.template resize<%d, %d, %d>();' % (ni + c[0], nm + c[1], nt + c[2]), x, 'resize'))
            ws.append(ob('reference in ' + k, s + 'return x.create_ref(20);', {e: {((20 + i, Fraction(1)),): Fraction(1)} for i, e in enumerate(sorted(x))}, 'reference'))
            d = poly(rng, 1, [0, 1, 2, 3], maxdeg=2)
            (dm, dq), = d.items()
            inv = {tuple((i, -z) for i, z in dm): q / dq}
            ws.append(ob('divided by %s in %s' % (show({0: d}), k), s + 'constexpr auto y = %s; return gal::detail::divide(x, y, %s);' % (cpp(a, {0: d}), rat(q)), prod(gp_blade, al.sig, x, {0: inv}), 'divide'))
            e, n, dd = rng.randrange(D), rng.choice([1, 2, -3]), rng.choice([1, 2])
            ws.append(ob('basis element %d times %d/%d of %s' % (e, n, dd, a), 'return gal::e<%s, %d, %d, %d>;' % (G, e, n, dd), {e: {(): Fraction(n, dd)}}, 'basis element'))
            # dense form
            mm, mi = max([len(p) for p in x.values()], default=0), max([len(z) for p in x.values() for z in p], default=0)
            t = Tab('extent in ' + k, '[] { constexpr auto z = [] { %s return x; }(); constexpr auto e = z.extent(); return std::array<long long, 3>{e.ind, e.mon, e.term}; }()' % s, 3, [mi, mm, nt], pre=PRE, internal=True)
            t.group = 'extent'
            ws.append(t)
            if nt:
                lst = ('for (size_t i = 0; i != %d; ++i) { auto const& t = y.data[i]; r[j++] = 1; r[j++] = t.first.element; r[j++] = t.first.count; for (size_t k = 0; k != t.first.count; ++k) { auto const& q = t.second[k]; '
                       'r[j++] = 2; r[j++] = q.first.q.num; r[j++] = q.first.q.den; r[j++] = q.first.degree.num; r[j++] = q.first.degree.den; r[j++] = q.first.count; for (size_t l = 0; l != q.first.count; ++l) { r[j++] = 3; r[j++] = q.second[l].id; r[j++] = q.second[l].degree.num; r[j++] = q.second[l].degree.den; } } } '
                       'r[j++] = 4; r[j++] = %d; r[j++] = %d; r[j++] = %d;' % (nt, nt, nm, ni))
                t = ob('dense form in ' + k, s + 'return x.template regularize<%d, %d, %d>();' % (max(mi, 1), mm, nt), x, 'dense form')
                t.init = t.init.replace('constexpr auto z =', 'constexpr auto y =').replace('list(z, r, j);', lst)
                ws.append(t)
    # conformal model: change of basis of polynomials
    h = Fraction(1, 2)
    P, N = 8, 16

    def nat(e):
        r = e & ~(P | N)
        if (e & P) and (e & N) or not e & (P | N):
            return [(e, 1)]
        return [(r | P, h), (r | N, h)] if e & P else [(r | N, 1), (r | P, -1)]

    def null(e):
        r = e & ~(P | N)
        if (e & P) and (e & N) or not e & (P | N):
            return [(e, 1)]
        return [(r | P, 1), (r | N, -h)] if e & P else [(r | P, 1), (r | N, h)]
    for i in range(60 * m):
        x = rand(rng, 'cga', rng.choice([1, 2, 3, 4, 6]), ids=[0, 1, 2])
        s = 'constexpr auto x = %s; ' % cpp('cga', x)
        k = show(x)[:160]
        ws.append(ob('natural basis of ' + k, s + 'return gal::detail::to_natural_basis(x);', move(x, nat), 'natural basis'))
        ws.append(ob('null basis of ' + k, s + 'return gal::detail::to_null_basis(x);', move(x, null), 'null basis'))
        ws.append(ob('there and back of ' + k, s + 'constexpr auto y = gal::detail::to_natural_basis(x); return gal::detail::to_null_basis(y);', x, 'round trip'))
    seen, out = set(), []
    for w in ws:
        if w.wid not in seen:
            seen.add(w.wid)
            out.append(w)
    return out
