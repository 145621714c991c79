#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTRING]

Decides one property of the library from the current sources under /repo (see DESIGN.md).
Exit 0: no violation.  Exit 1: VIOLATION line.  Exit 2: the analysis itself is broken."""
import argparse
import json
import os
import re
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')

from galcheck import compilew as C                 # noqa: E402
from galcheck.registry import BYID                 # noqa: E402
from galcheck.values import decide, W, Raw, Tab, DEADLINE    # noqa: E402

KNOWN = os.path.join(ROOT, 'known-findings.txt')


def known(prop):
    """Lines 'known: property=<id> key=<witness text> :: <what fails>'."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'^known: property=(\S+) key=(.*?) :: (.*)$', l.rstrip('\n'))
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def group_of(w):
    g = getattr(w, 'group', None)
    if g:
        return g
    if isinstance(w, W) and w.call().startswith('gal::detail::'):
        return 'user-defined signatures'
    return None


def failed_evaluation(r):
    """The name exists, but constant evaluation went wrong (out of bounds, overflow, no end)."""
    d = r.get('diag', '')
    return 'constant expression' in d and not re.search('non-constexpr|undefined function|no member named|undeclared|no matching|no type named|no template named|candidate', d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', default=None, help='restrict to obligations whose text contains this')
    a = ap.parse_args()
    p = BYID[a.property]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    DEADLINE[0] = t0 + float(os.environ.get('GALCHECK_BUDGET') or (600 if tier == 'quick' else 7200))
    work = C.Work()
    try:
        if p.runner and p.id in ('C28', 'C29'):
            res = p.runner(work, tier, seed)
        else:
            C.make_pch(work)
            if p.runner:
                res = p.runner(work, tier, seed)
            else:
                ws = p.build(tier, seed)
                if a.only:
                    ws = [w for w in ws if a.only in w.text]
                res = decide(work, ws, batch=p.batch, extra=p.extra)
    except C.BrokenAnalysis as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (p.id, str(e)[:3000]))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s' % p.id)
        return 2
    finally:
        work.close()
    return report(p, tier, seed, res, time.time() - t0)


def report(p, tier, seed, res, wall):
    # internal names that no longer exist: the whole group is out of reach, not a violation
    groups = {}
    late = sum(1 for _, r in res if r['status'] == 'unexplored')
    res = [(w, r) for w, r in res if r['status'] != 'unexplored']
    for w, r in res:
        g = group_of(w)
        if g:
            groups.setdefault(g, []).append(r['status'] == 'nocompile' and not failed_evaluation(r))
    gone = {g for g, xs in groups.items() if all(xs)}
    skipped = [w for w, r in res if group_of(w) in gone]
    res = [(w, r) for w, r in res if group_of(w) not in gone]
    bad = [(w, r) for w, r in res if r['status'] in ('diff', 'nocompile')]
    und = [(w, r) for w, r in res if r['status'] == 'undecided']
    ok = [(w, r) for w, r in res if r['status'] == 'ok']
    kn = known(p.id)
    listed = [(w, r) for w, r in bad if w.text in kn]
    bad = [(w, r) for w, r in bad if w.text not in kn]
    bad.sort(key=lambda x: (len(x[0].text), x[0].text))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    names = lambda xs: [x[0].human()[:300] for x in xs]
    step = max(1, len(ok) // 6)
    cov = dict(
        programs=len(res), disagreements_checked=sum(r.get('ncmp', 0) for _, r in res), samples=names(ok[::step][:6]),
        decided=len(ok) + len(bad) + len(listed), undecided=len(und), undecided_samples=[dict(program=w.human()[:200], why=r.get('why', '')[:200]) for w, r in und[:5]],
        instructions_analysed=sum(r.get('instrs', 0) for _, r in res), skipped_groups=sorted(gone), skipped_programs=len(skipped), not_reached_in_time=late)
    if p.level == 'other':
        cov = dict(explanation=EXPL[p.id], obligations=len(res), functions_and_objects_reached=cov['disagreements_checked'],
                   instructions_or_lines_analysed=cov['instructions_analysed'], samples=cov['samples'], undecided=len(und), skipped_groups=sorted(gone))
    ev = dict(property=p.id, tier=tier, seed=seed, level=p.level, coverage=cov, wall_s=round(wall, 2), violations=len(bad),
              assumptions=['clang 18 translates the sources faithfully and its scalar optimisations preserve exact-arithmetic meaning',
                           'numbers are treated as exact: rounding, overflow and NaN propagation are out of scope'])
    rp = os.path.join(ROOT, 'evidence', p.id + '.replay.txt')
    with open(os.path.join(ROOT, 'evidence', p.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('property %s (%s): %d programs analysed, %d agree, %d disagree, %d known, %d undecided, %d skipped, %.1f s'
          % (p.id, tier, len(res), len(ok), len(bad), len(listed), len(und), len(skipped), wall))
    if late:
        print('note: %d programs not reached within the time allowance' % late)
    for g in sorted(gone):
        print('note: internal name group "%s" no longer exists; %d obligations skipped' % (g, sum(1 for w in skipped if group_of(w) == g)))
    for w, r in listed:
        print('KNOWN-FINDING: property=%s %s' % (p.id, kn[w.text]))
    if bad:
        with open(rp, 'w') as f:
            f.write('property %s: %s\nrerun: python3 %s %s --tier %s --only "<text>"\n\n' % (p.id, p.title, os.path.join(ROOT, 'check.py'), p.id, tier))
            for w, r in bad:
                f.write('## %s\n%s\n' % (w.text, w.human()))
                for d in r['diffs'][:20]:
                    f.write('   %s\n' % d[:1500])
                if r.get('diag'):
                    f.write('   compiler:\n%s\n' % r['diag'][:2000])
                if hasattr(w, 'cpp'):
                    f.write('   witness:\n%s\n' % w.cpp()[:3000])
        print('  decided by the code at: %s' % ', '.join('%s (%s)' % (m['where'], m['name']) for m in p.record()['anchors']['mechanism']))
        for w, r in bad[:5]:
            print('  %s\n      %s' % (w.human()[:400], (r['diffs'] or ['?'])[0][:500]))
        print('VIOLATION property=%s replay=%s' % (p.id, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if not ok and skipped and not und:
        print('note: nothing left to decide')
        return 0
    if not ok:
        print('ANALYSIS-BROKEN property=%s: nothing was decided' % p.id)
        return 2
    if len(und) > 0.2 * len(res):
        print('ANALYSIS-BROKEN property=%s: %d of %d programs undecided, e.g. %s: %s' % (p.id, len(und), len(res), und[0][0].human()[:200], und[0][1].get('why')))
        return 2
    return 0


EXPL = {
    'C23': 'For every entry point (one per public operation, entity, constructor and conversion, plus generated expressions) the unoptimised IR of all instantiated functions and '
           'constants reachable from it is searched for mutable globals, lazily initialised or thread-local data, atomics, volatile accesses, inline assembly and external calls other than '
           'mathematical functions; programs with aliased inputs are decided by value dataflow.',
    'C28': 'Every public header alone, ordered pairs and random permutations are compiled to IR as include-only units; strong external definitions, dynamic initialisers and errors are violations.',
}

if __name__ == '__main__':
    sys.exit(main())
