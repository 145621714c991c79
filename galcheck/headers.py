"""Header hygiene: every public header stands alone, in any order, in any number of translation units.

Rule: the IR of a translation unit that consists only of includes defines no function or variable with
strong external linkage (such a definition would be a duplicate symbol in a second translation unit) and
has no dynamic initialiser."""
import itertools
import os
import random
import re
from . import compilew as C

STRONG_FN = re.compile(r'^define (?!.*\b(?:internal|private|linkonce_odr|linkonce|weak_odr|weak|available_externally)\b)[^@]*@("[^"]+"|[\w.$\-]+)')
STRONG_VAR = re.compile(r'^@("[^"]+"|[\w.$\-]+) = (?!(?:private|internal|linkonce_odr|linkonce|weak_odr|weak|available_externally|external|appending)\b)')


class Hdr:
    def __init__(self, hs):
        self.hs = tuple(hs)
        self.text = 'include ' + ' then '.join(hs)
        self.wid = 'h_' + '_'.join(h.replace('.', '_') for h in hs)

    def human(self):
        return '; '.join('#include <gal/%s>' % h for h in self.hs)


def public_headers():
    d = os.path.join(C.REPO, 'public', 'gal')
    return sorted(f for f in os.listdir(d) if f.endswith('.hpp'))


def analyse(args):
    work, w = args
    src = ''.join('#include <gal/%s>\n' % h for h in w.hs)
    name = w.wid
    cpp, ll = work.path(name + '.cpp'), work.path(name + '.ll')
    with open(cpp, 'w') as f:
        f.write(src)
    rc, _, err = C.run([C.CXX] + C.BASEFLAGS + ['-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', cpp, '-o', ll])
    if rc != 0:
        errs = [l for l in err.split('\n') if 'error:' in l]
        return w, dict(status='diff', diffs=['does not compile: ' + re.sub(r'^.*/public/', '', (errs or [err])[0])[:200]], ncmp=1, instrs=0)
    diffs, n = [], 0
    with open(ll) as f:
        for line in f:
            n += 1
            m = STRONG_FN.match(line)
            if m:
                diffs.append('defines %s, a duplicate symbol when included in two translation units' % dem(m.group(1)))
            m = STRONG_VAR.match(line)
            if m and not m.group(1).startswith('llvm.'):
                diffs.append('defines variable %s, a duplicate symbol when included in two translation units' % dem(m.group(1)))
            if line.startswith('@llvm.global_ctors'):
                diffs.append('has a dynamic initialiser')
    os.unlink(ll)
    return w, dict(status='diff' if diffs else 'ok', diffs=diffs, ncmp=1, instrs=n)


def dem(n):
    from .effects import short
    return short(n.strip('"'))


def run(work, tier, seed):
    hs = public_headers()
    if not hs:
        raise C.BrokenAnalysis('no public headers')
    rng = random.Random('hd%s' % seed)
    base = C.pmap(analyse, [(work, Hdr([h])) for h in hs])
    good = [w.hs[0] for w, r in base if r['status'] == 'ok']
    pairs = list(itertools.permutations(good, 2))
    if tier == 'quick':
        pairs = [p for p in pairs if all(re.match(r'.?(ga2?|vga|pga2?|cga)\.hpp', h) for h in p)] + rng.sample(pairs, min(20, len(pairs)))
    more = [Hdr(p) for p in dict.fromkeys(pairs)]
    for _ in range(4):
        p = list(good)
        rng.shuffle(p)
        more.append(Hdr(p))
    return base + C.pmap(analyse, [(work, w) for w in more])
