"""Deciding step for value witnesses: compile -> IR -> value numbering -> compare with the
reference model, component by component."""
import os
import re
import resource
import signal
import time
import hashlib
import traceback
import multiprocessing
from concurrent.futures import ProcessPoolExecutor
from .sym import Ctx, Value, TooBig
from .ir import Module, Analysis, Unsupported, NeverReturns, UNDEF, Gamma
from fractions import Fraction
from .ga import alg_of, MV
from .expr import ent, Env, X, In, Int, Lit, Bin, Un
from . import compilew as C

NAMES = 'abcdefghijklmnpqsuvwxyz'
SIZE = {'double': 8, 'float': 4}


class W:
    """One value witness: compute(lambda, inputs...) for one algebra."""

    def __init__(self, alg, ins, expr, T='double', wid=None, note='', strict=False):
        self.alg = alg
        self.ins = [ent(alg, k) for k in ins]
        self.exprs = list(expr) if isinstance(expr, (list, tuple)) else [expr]
        self.multi = isinstance(expr, (list, tuple))
        self.T = T
        self.note = note
        self.strict = strict
        sig = '%s|%s|%s|%s' % (alg, T, ','.join(e.name for e in self.ins), '; '.join(x.cpp() for x in self.exprs))
        if self.multi and len(self.exprs) == 1:
            sig += ' (tuple)'
        self.text = sig
        self.wid = wid or 'w' + hashlib.sha1(sig.encode()).hexdigest()[:12]

    def lambda_text(self):
        ps = ', '.join('auto ' + NAMES[i] for i in range(len(self.ins)))
        if self.multi:
            body = 'gal::make_tuple(%s)' % ', '.join(x.cpp() for x in self.exprs)
        else:
            body = self.exprs[0].cpp()
        return '[](%s) { return %s; }' % (ps, body)

    def call(self):
        m = alg_of(self.alg).custom
        return 'gal::detail::compute<gal::algebra<gal::metric<%d, %d, %d>>>' % m if m else 'gal::%s::compute' % self.alg

    def cpp(self):
        args = ''.join(', %s const& %s' % (e.cpp.format(T=self.T), NAMES[i]) for i, e in enumerate(self.ins))
        names = ''.join(', ' + NAMES[i] for i in range(len(self.ins)))
        using = '' if alg_of(self.alg).custom else 'using namespace gal::%s; ' % self.alg
        using += ''.join(sorted({getattr(e, 'pre', '') for e in self.ins}))
        return ('namespace N_%s { using namespace gal; %sextern "C" void %s(%s* __restrict o, unsigned char* __restrict t%s) {\n'
                '  auto const r = %s(%s%s);\n  wit::putall<std::decay_t<decltype(r)>>::go(o, t, r);\n} }\n'
                % (self.wid, using, self.wid, self.T, args, self.call(), self.lambda_text(), names))

    def human(self):
        return '%s(%s) over (%s) [%s]' % (
            self.call(), self.lambda_text(), ', '.join(e.name for e in self.ins), self.T)

    def judge(self, mod):
        """-> dict(diffs=[...], stats)"""
        fn = mod.functions.get(self.wid)
        if fn is None:
            raise C.BrokenAnalysis('witness %s vanished from IR' % self.wid)
        ctx = Ctx()
        sc = SIZE[self.T]
        names = {0: 'OUT', 1: 'TYPE'}
        for i, e in enumerate(self.ins):
            names[2 + i] = NAMES[i]
            names['arg:%s:size' % NAMES[i]] = e.n * sc
        an = Analysis(mod, fn, ctx, names, scalar=sc)
        an.run()
        D = 1 << alg_of(self.alg).dim
        ref = reference(self, ctx)
        diffs = effects(an, ('arg:OUT', 'arg:TYPE'), self.T)
        types = []
        ncmp = 0
        for slot, r in enumerate(ref):
            tb = slot * (D + 2)
            cell = an.mem.get(('arg:TYPE', tb))
            n = cell[1] if cell else None
            if n is None:
                diffs.append('result %d has no type descriptor' % slot)
                continue
            n &= 0xff
            if an.mem[('arg:TYPE', tb + 1)][1] != 1:
                diffs.append('result %d does not have the scalar type of the inputs' % slot)
            els = [an.mem[('arg:TYPE', tb + 2 + i)][1] & 0xff for i in range(n)]
            types.append(els)
            if any(x >= y for x, y in zip(els, els[1:])):
                diffs.append('components of result %d are not listed in increasing order without repetition: %s' % (slot, els))
            # a component that is zero for every input must not be part of the result's type when
            # it cancels as a polynomial (no functions, no divisions)
            for e in els:
                if self.strict and e not in r.t and self.polynomial():
                    diffs.append('component e%d of result %d is identically zero but present in the result' % (e, slot))
            for e in range(D):
                cell = an.mem.get(('arg:OUT', (slot * D + e) * sc))
                v = cell[1] if cell else None
                want = r.t.get(e, ctx.const(0))
                ncmp += 1
                d = mismatch(v, want)
                if d:
                    diffs.append('component e%s of result %d %s' % (e, slot, d))
        diffs += precision(self, an)
        return dict(diffs=diffs, types=types, ncmp=ncmp, instrs=an.ncount, fptypes=sorted(an.fptypes),
                    calls=dict(an.calls), events=an.events)

    def polynomial(self):
        return all(is_poly(x) for x in self.exprs)


def is_poly(x):
    if isinstance(x, (In, Int, Lit)):
        return True
    if isinstance(x, Bin):
        if x.op == '/':
            return isinstance(x.b, Int) and is_poly(x.a)
        return is_poly(x.a) and is_poly(x.b)
    if isinstance(x, Un):
        return x.op in '-~!' and is_poly(x.a)
    return False


def mismatch(v, want):
    if v is None or v is UNDEF:
        return 'is unspecified (undef); expected %s' % want
    if isinstance(v, Gamma):
        if not mismatch(v.a, want) and not mismatch(v.b, want):
            return None
        return 'is conditional: %s; expected %s' % (v, want)
    if isinstance(v, int):
        return None if want.is_const() and want.cval() == v else 'is %s; expected %s' % (v, want)
    if not v.equals(want):
        return 'is %s; expected %s' % (v, want)


def effects(an, outs, T=None):
    diffs = []
    if T == 'double':
        # a number that passes through a narrower type is not the number any more
        lossy = sorted({d for k, d in an.events if k == 'fptrunc' and re.search(r'to (?:<\d+ x )?(?:float|half)', d)})
        diffs += ['digits of a double are lost: %s' % d for d in lossy]
    for (ob, off), (ty, v) in an.mem.items():
        if ob.startswith('arg:') and ob not in outs:
            diffs.append('input %s is modified' % ob[4:])
    for k, d in an.events:
        if k in ('global-write', 'global-read', 'oob', 'null'):
            diffs.append('%s: %s' % (k, d))
    return diffs


def precision(w, an):
    """All arithmetic in the scalar type of the inputs (only for witnesses that ask for it)."""
    if not getattr(w, 'one_type', False):
        return []
    bad = sorted(t for t in an.fptypes if not re.match(r'^(?:<\d+ x )?%s>?$' % w.T, t))
    return ['arithmetic on %s inputs is carried out in %s' % (w.T, ', '.join(bad))] if bad else []


class Raw:
    """Function witness: a C++ body over public API that writes scalars to o[...], with the value
    each of them must have.  params: [(c++ type with {T}, name, number of scalars)]."""

    def __init__(self, key, params, body, expect, T='double', pre=''):
        self.params, self.body, self.expect, self.T, self.pre = params, body, expect, T, pre
        self.text = '%s|%s' % (key, T)
        self.wid = 'r' + hashlib.sha1((self.text + body).encode()).hexdigest()[:12]
        self.key = key

    def cpp(self):
        args = ''.join(', %s const& %s' % (t.format(T=self.T), n) for t, n, _ in self.params)
        return 'namespace N_%s { %s using T = %s; extern "C" void %s(%s* __restrict o%s) {\n  %s\n} }\n' % (
            self.wid, self.pre, self.T, self.wid, self.T, args, self.body)

    def human(self):
        return '%s [%s]: { %s }' % (self.key, self.T, self.body.strip())

    def judge(self, mod):
        fn = mod.functions.get(self.wid)
        if fn is None:
            raise C.BrokenAnalysis('witness %s vanished from IR' % self.wid)
        ctx = Ctx()
        sc = SIZE[self.T]
        names = {0: 'OUT'}
        for i, (t, n, k) in enumerate(self.params):
            names[1 + i] = n
            names['arg:%s:size' % n] = k * sc
        an = Analysis(mod, fn, ctx, names, scalar=sc)
        an.run()
        diffs = effects(an, ('arg:OUT',), self.T)
        exp = self.expect(ctx, lambda n, i=0: ctx.var('in', n, i))
        if not isinstance(exp, dict):
            exp = dict(enumerate(exp))
        for i, want in exp.items():
            cell = an.mem.get(('arg:OUT', i * sc))
            v = cell[1] if cell else None
            if callable(want):
                d = want(v)
            else:
                if isinstance(want, (int, Fraction)):
                    want = ctx.const(want)
                d = mismatch(v, want)
            if d:
                diffs.append('output %d %s' % (i, d))
        diffs += precision(self, an)
        return dict(diffs=diffs, types=[], ncmp=len(exp), instrs=an.ncount, fptypes=sorted(an.fptypes),
                    calls=dict(an.calls), events=an.events)


class Tab:
    """Compile-time table witness: a constant expression whose value the compiler folds into a
    constant array; decode(list of integers) -> list of disagreements."""

    def __init__(self, key, init, n, check, pre='', internal=False):
        self.key, self.init, self.n, self.check, self.pre = key, init, n, check, pre
        self.text = key
        self.internal = internal
        self.wid = 't' + hashlib.sha1((key + init + pre).encode()).hexdigest()[:12]

    def cpp(self):
        return ('namespace N_%s { %s\n constexpr std::array<long long, %d> v = %s; }\n'
                'extern "C" { extern const std::array<long long, %d> %s; const std::array<long long, %d> %s = N_%s::v; }\n'
                % (self.wid, self.pre, self.n, self.init, self.n, self.wid, self.n, self.wid, self.wid))

    def human(self):
        return '%s: %s' % (self.key, self.init if len(self.init) < 300 else self.init[:300] + '...')

    def judge(self, mod):
        if self.wid not in mod.globals:
            raise C.BrokenAnalysis('table %s vanished from IR' % self.wid)
        got = mod.const_ints(self.wid, self.n)
        exp = self.check
        if callable(exp):
            diffs = list(exp(got))
        else:
            diffs = ['entry %d is %d; expected %d' % (i, g, w) for i, (g, w) in enumerate(zip(got, exp)) if g != w]
            if len(exp) != len(got):
                raise C.BrokenAnalysis('table %s has %d entries' % (self.key, len(got)))
        return dict(diffs=diffs, types=[], ncmp=self.n, instrs=0, fptypes=[], calls={}, events=[])


def reference(w, ctx):
    alg = alg_of(w.alg)
    ins = [e.mv(ctx, alg, NAMES[i]) for i, e in enumerate(w.ins)]
    env = Env(ctx, alg, ins)
    return [env.ev(x).out_basis() for x in w.exprs]


def clean_diag(err):
    lines = [l for l in err.split('\n') if 'error:' in l]
    return '; '.join(lines[:3])[:600]


_BATCHES = []
DEADLINE = [None]     # absolute time after which no further batch is started (loaded machines)


class Exhausted(Exception):
    pass


class Allowance:
    """Processor time and memory one witness may take; beyond it the witness is undecided."""
    SECONDS, BYTES, used = 60, 4 << 30, 0

    @staticmethod
    def expire(*_):
        Allowance.used += 1
        raise Exhausted('time')

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, Allowance.expire)
        signal.setitimer(signal.ITIMER_VIRTUAL, Allowance.SECONDS if Allowance.used < 2 else Allowance.SECONDS / 6)
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (Allowance.BYTES, self.old[1]))

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        resource.setrlimit(resource.RLIMIT_AS, self.old)


def process_batch(args):
    d, bi, tag, extra = args
    batch = _BATCHES[bi]
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        return ('ok', [(w.wid, dict(status='unexplored', diffs=[])) for w in batch])
    work = C.Work.__new__(C.Work)
    work.dir = d
    work.pch = os.path.join(d, 'wit.hpp')
    out = []

    def attempt(ws, name):
        src = '\n'.join(w.cpp() for w in ws)
        return C.compile_ir(work, name, src, extra)

    def go(ws, name):
        try:
            ok, t = attempt(ws, name)
        except C.Resource as e:
            if len(ws) > 1 and len(ws) == len(batch):
                # weed out the programs that are simply rejected
                rest = []
                for w in ws:
                    t = C.second_opinion(work, name, w.cpp())
                    if t:
                        out.append((w.wid, dict(status='nocompile', diffs=['does not compile: ' + clean_diag(t)], diag=t[:4000])))
                    else:
                        rest.append(w)
                if not rest:
                    return
                if len(rest) < len(ws):
                    return go(rest, name + 'r')
            if len(ws) == 1:
                t = C.second_opinion(work, name, ws[0].cpp()) if len(batch) == 1 else None
                if t:
                    out.append((ws[0].wid, dict(status='nocompile', diffs=['does not compile: ' + clean_diag(t)], diag=t[:4000])))
                    return
                out.append((ws[0].wid, dict(status='undecided', diffs=[], why='resources: %s' % e)))
                return
            ok = False
        if ok:
            mod = Module(t)
            for w in ws:
                out.append((w.wid, finish(w, mod)))
        elif len(ws) == 1:
            out.append((ws[0].wid, dict(status='nocompile', diffs=['does not compile: ' + clean_diag(t)], diag=t[:4000])))
        else:
            h = len(ws) // 2
            go(ws[:h], name + 'a')
            go(ws[h:], name + 'b')

    def finish(w, mod):
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            return dict(status='unexplored', diffs=[])
        Analysis.last = None
        try:
            with Allowance():
                r = w.judge(mod)
            r['status'] = 'diff' if r['diffs'] else 'ok'
            return r
        except (Unsupported, TooBig, MemoryError, Exhausted) as e:
            # what was seen before the analysis gave up still counts: an input that is stored to
            an = Analysis.last
            bad = sorted(an.written - {'arg:OUT', 'arg:TYPE'}) if an else []
            if bad:
                return dict(status='diff', diffs=['input %s is modified' % x[4:] for x in bad])
            return dict(status='undecided', diffs=[], why='%s: %s' % (type(e).__name__, e))
        except NeverReturns as e:
            return dict(status='diff', diffs=['the computation aborts or is undefined whatever the input: %s' % e])
        except ZeroDivisionError as e:
            return dict(status='undecided', diffs=[], why='reference divides by zero')
        except C.BrokenAnalysis:
            raise
        except Exception:
            return dict(status='undecided', diffs=[], why='internal: ' + traceback.format_exc()[-300:])
    try:
        go(batch, tag)
    except C.BrokenAnalysis as e:
        return ('broken', str(e))
    except Exception as e:
        return ('broken', traceback.format_exc())
    return ('ok', out)


def decide(work, witnesses, batch=12, extra=()):
    """Analyse all witnesses in parallel; returns [(W, result)]."""
    seen = {}
    for w in witnesses:
        seen.setdefault(w.wid, w)
    ws = list(seen.values())
    # interleave so that heavy neighbours spread over batches
    nb = max(1, (len(ws) + batch - 1) // batch)
    global _BATCHES
    _BATCHES = [b for b in (ws[i::nb] for i in range(nb)) if b]
    jobs = [(work.dir, i, 'b%d_%s' % (i, os.getpid()), tuple(extra)) for i in range(len(_BATCHES))]
    res = []
    # workers are forked, so they see _BATCHES as it is now
    with ProcessPoolExecutor(C.JOBS, mp_context=multiprocessing.get_context('fork')) as ex:
        for st, r in ex.map(process_batch, jobs):
            if st == 'broken':
                raise C.BrokenAnalysis(r)
            res.extend((seen[k], x) for k, x in r)
    return res
