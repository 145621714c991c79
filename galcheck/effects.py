"""Effect analysis: reachability over the unoptimised IR of every instantiation a witness pulls in.

Rule: from an entry point (a public operation on inputs) no reachable function, and no constant it
refers to, mentions a mutable global, a lazily initialised static, thread-local or volatile storage,
an atomic, inline assembly, or an external function other than the mathematical library and the
compiler's memory intrinsics."""
import random
import re
from .values import W, Raw
from . import compilew as C
from .expr import In, Un, Int, Bin, Env
from .ga import alg_of
from .corpus import ALGS
from .props import A, B, Cc, FULL, NAMED, GEOM, only_supported, blades

NAME = re.compile(r'@("[^"]+"|[\w.$\-]+)')
MATH = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'exp2', 'log', 'log2', 'pow', 'fabs', 'hypot', 'fmod', 'cbrt', 'floor',
        'ceil', 'fmin', 'fmax', 'copysign', 'sinh', 'cosh', 'tanh', 'abs', 'sincos', 'fma'}
MATH |= {m + 'f' for m in MATH} | {m + 'l' for m in MATH}
MEM = {'memcpy', 'memmove', 'memset', 'memcmp'}
# reached only on paths that do not return
ABORT = re.compile(r'^(__assert_fail|__assert|abort|_ZSt9terminatev|_ZSt21__glibcxx_assert_failPKciS0_S0_|_ZSt\d+__throw_\w+)$')


class Eff:
    """Effect obligation for the entry point of a value witness."""

    def __init__(self, w):
        self.w = w
        self.wid = w.wid
        self.text = 'effects of ' + w.text
        self.T = w.T
        self.group = getattr(w, 'group', None)

    def cpp(self):
        return self.w.cpp()

    def human(self):
        return self.w.human()

    def judge(self, mod):
        if self.wid not in mod.functions:
            raise C.BrokenAnalysis('entry %s vanished from IR' % self.wid)
        seen, todo, diffs = set(), [(self.wid, None)], []
        nfn = nins = nglob = 0
        ext = {}
        while todo:
            n, via = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in mod.functions:
                nfn += 1
                for bl in mod.functions[n].blocks.values():
                    for l in bl:
                        nins += 1
                        if ' = ' in l:
                            op = l.split(' = ', 1)[1].split(' ', 1)[0]
                        else:
                            op = l.split(' ', 1)[0]
                        if op in ('atomicrmw', 'cmpxchg', 'fence') or re.match(r'(.* = )?(load|store) (atomic|volatile)', l):
                            diffs.append('%s performs "%s"' % (short(n), l[:80]))
                        if ' asm ' in l and 'call' in l:
                            diffs.append('%s contains inline assembly' % short(n))
                        for m in NAME.findall(l):
                            todo.append((m.strip('"'), n))
            elif n in mod.globals:
                nglob += 1
                g = mod.globals[n]
                if not mod.is_const_global(n) or 'thread_local' in g.split('=')[0][:60]:
                    diffs.append('%s uses mutable global or static state %s' % (short(via), short(n)))
                for m in NAME.findall(g):
                    todo.append((m.strip('"'), n))
            elif n.startswith('llvm.'):
                continue
            elif n in mod.declares:
                ext[n] = 1
                if n not in MATH and n not in MEM and not ABORT.match(n):
                    diffs.append('%s calls %s, which is not a mathematical function' % (short(via), short(n)))
        return dict(diffs=diffs, types=[], ncmp=nfn + nglob, instrs=nins, fptypes=[], calls=ext, events=[])


def short(n):
    import subprocess
    n = n or '?'
    try:
        d = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, timeout=5).stdout.decode().strip()
    except Exception:
        d = n
    return d if len(d) < 160 else d[:100] + ' ... ' + d[-50:]


def entries(tier, seed):
    """Entry points covering every operator, function, entity and conversion."""
    from . import props as P, props2 as P2
    rng = random.Random('ef%s' % seed)
    ws = []
    for a in ALGS:
        ks = [k for k in NAMED[a]]
        for k in ks:
            ws += [W(a, [k], A), W(a, [k], ~A), W(a, [k], Un('!', A)), W(a, [k, k], A * B), W(a, [k], [A, ~A])]
        for op in '*^&|>%+-':
            k, l = rng.choice(GEOM[a]), rng.choice(GEOM[a])
            ws.append(W(a, [k, l], Bin('>>' if op == '>' else op, A, B)))
        ws += [W(a, ['scalar'], Un(f, A)) for f in ('sqrt', 'sin', 'cos', 'tan')]
        ws += [W(a, ['scalar', GEOM[a][0]], B / A), W(a, ['scalar'], 1 / (A + 2)), W(a, [GEOM[a][0]], 2 * A / 3)]
    pool = []
    for f in (P.c_entities, P.c_convert, P.c_literals, P.c_select, P.c_compose, P.c_multi, P.c_null, P.c_signature, P.c_zero, P2.c_exp, P2.c_pow, P2.c_motion, P2.c_storage):
        xs = [w for w in f('quick', seed) if isinstance(w, (W, Raw))]
        k = {'quick': 25, 'thorough': 150}.get(tier, 25)
        pool += rng.sample(xs, min(k, len(xs)))
    # constructors, normalisation, logarithm always
    pool += [w for w in P.c_entities('quick', seed) if isinstance(w, Raw)] + [w for w in P2.c_exp('quick', seed) if isinstance(w, Raw)]
    return only_supported(ws) + pool


def c_effects(tier, seed):
    seen = {}
    for w in entries(tier, seed):
        seen.setdefault(w.wid, w)
    return [Eff(w) for w in seen.values()]


class Alias(Raw):
    """The same object passed for several inputs; optionally the result assigned over it."""

    def __init__(self, alg, kind, n, expr, T, inplace=None):
        from .expr import ent
        e = ent(alg, kind)
        ty = e.cpp
        names = 'ab'[:n] if n <= 2 else 'abc'
        lam = '[](%s) { return %s; }' % (', '.join('auto ' + x for x in names), expr.cpp())
        call = 'gal::%s::compute(%s, %s)' % (alg, lam, ', '.join(['x'] * len(names)))
        d = 1 << alg_of(alg).dim
        using = 'using namespace gal; using namespace gal::%s; ' % alg
        if inplace:
            body = using + '%s x = y; x = %s; for (int i = 0; i != %d; ++i) o[i] = x[i];' % (ty.replace('{T}', 'T'), call, e.n)
        else:
            body = using + 'auto const& x = y; auto const r = %s; for (int i = 0; i != %d; ++i) o[i] = r.select(gal::elem_t(i));' % (call, d)

        def expect(c, v):
            ins = [e.mv(c, alg_of(alg), 'y')] * len(names)
            r = Env(c, alg_of(alg), ins).ev(expr).out_basis()
            if inplace:
                return [r.t.get(b, c.const(0)).scale(s) for s, b in inplace]
            return [r.t.get(i, c.const(0)) for i in range(d)]
        Raw.__init__(self, '%s %s: %s%s' % (alg, kind, lam, ', assigned over the input' if inplace else ', one object for every input'), [(ty, 'y', e.n)], body, expect, T=T)


def c_alias(tier, seed):
    ws = []
    for T in ('double', 'float'):
        for a in ALGS:
            for k in NAMED[a]:
                for x in (A * B, A + B, A - B, A ^ B, B % A, 2 * A - B):
                    ws.append(Alias(a, k, 2, x, T))
                ws.append(Alias(a, k, 3, A + B - 2 * Cc, T))
        for a, k, els in (('vga', 'vector', [(1, 1), (1, 2), (1, 4)]), ('pga', 'plane', [(1, 1), (1, 2), (1, 4), (1, 8)]), ('pga2', 'line', [(1, 1), (1, 2), (1, 4)]),
                          ('pga', 'motor', [(1, e) for e in (0, 3, 5, 6, 9, 10, 12, 15)])):
            for x in (A + B, 2 * A - 3 * B, -A, ~A, A * B * A) + ((A * B,) if k == 'motor' else ()):
                ws.append(Alias(a, k, 2, x, T, els))
    return ws
