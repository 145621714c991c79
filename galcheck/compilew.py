"""Witness translation units: emission, compilation to LLVM IR, parallel driver."""
import os
import re
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GAL_REPO', '/repo')
CXX = 'clang++'
BASEFLAGS = ['-std=c++17', '-I', REPO + '/public', '-w', '-fno-exceptions', '-fno-rtti',
             '-fconstexpr-steps=200000000', '-fconstexpr-depth=4096', '-ftemplate-depth=4096',
             '-fbracket-depth=4096', '-fno-crash-diagnostics']
IRFLAGS = ['-O2', '-mllvm', '-inline-threshold=1000000', '-fno-slp-vectorize', '-fno-vectorize', '-fno-math-errno', '-ffp-contract=off',
           '-mllvm', '-unroll-threshold=100000', '-mllvm', '-unroll-max-upperbound=256',
           '-mllvm', '-unroll-max-iteration-count-to-analyze=256', '-S', '-emit-llvm']
JOBS = int(os.environ.get('GALCHECK_JOBS', str(os.cpu_count() or 4)))

HEADERS = ['algebra.hpp', 'algorithm.hpp', 'crc.hpp', 'dfa.hpp', 'engine.hpp', 'entity.hpp', 'expr.hpp',
           'geometric_algebra.hpp', 'null_algebra.hpp', 'numeric.hpp', 'stack.hpp', 'tuple.hpp',
           'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp']


MEM = 3500 << 20


class BrokenAnalysis(Exception):
    pass


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='galcheck_')
        self.pch = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.dir, n)


PRELUDE = r'''
#include <tuple>
namespace wit {
template <class R> struct put;
template <class A, class T, gal::elem_t... E> struct put<gal::entity<A, T, E...>> {
  template <class O> static inline __attribute__((always_inline)) void go(O* o, unsigned char* t, gal::entity<A, T, E...> const& r, int slot) {
    constexpr int D = 1 << A::metric_t::dimension;
    go2(o + slot * D, r, std::make_index_sequence<D>{});
    t[slot * (D + 2)] = sizeof...(E);
    t[slot * (D + 2) + 1] = std::is_same_v<T, O> ? 1 : 0;
    int i = 0;
    ((t[slot * (D + 2) + 2 + i++] = (unsigned char)E), ...);
  }
  template <class O, size_t... I> static inline __attribute__((always_inline)) void go2(O* o, gal::entity<A, T, E...> const& r, std::index_sequence<I...>) {
    ((o[I] = r.select(gal::elem_t(I))), ...);
  }
};
template <class R> struct putall {
  template <class O> static inline __attribute__((always_inline)) void go(O* o, unsigned char* t, R const& r) { put<R>::go(o, t, r, 0); }
};
template <class... R> struct putall<std::tuple<R...>> {
  template <class O> static inline __attribute__((always_inline)) void go(O* o, unsigned char* t, std::tuple<R...> const& r) { go2(o, t, r, std::make_index_sequence<sizeof...(R)>{}); }
  template <class O, size_t... I> static inline __attribute__((always_inline)) void go2(O* o, unsigned char* t, std::tuple<R...> const& r, std::index_sequence<I...>) {
    (put<R>::go(o, t, std::get<I>(r), I), ...);
  }
};
}
'''


def header_text():
    inc = ''.join('#if __has_include(<gal/%s>)\n#include <gal/%s>\n#endif\n' % (h, h) for h in HEADERS)
    return '#include <array>\n#include <cmath>\n#include <tuple>\n#include <utility>\n' + inc + PRELUDE


class Resource(Exception):
    """The compiler ran out of its time or memory allowance on a witness."""


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, timeout=300):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=_limit)
    except subprocess.TimeoutExpired:
        raise Resource('timeout')
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def make_pch(work, more=''):
    h = work.path('wit.hpp')
    with open(h, 'w') as f:
        f.write(header_text() + more)
    rc, _, err = run([CXX] + BASEFLAGS + ['-O2', '-fno-math-errno', '-ffp-contract=off', '-x', 'c++-header', h, '-o', h + '.pch'])
    if rc != 0:
        raise BrokenAnalysis('the public headers do not compile:\n' + err[:3000])
    work.pch = h


def compile_ir(work, name, src, extra=()):
    """-> (ok, irtext or diagnostics)"""
    cpp = work.path(name + '.cpp')
    ll = work.path(name + '.ll')
    with open(cpp, 'w') as f:
        f.write(src)
    rc, _, err = run([CXX] + BASEFLAGS + IRFLAGS + list(extra) + ['-include-pch', work.pch + '.pch', cpp, '-o', ll])
    if rc != 0:
        if rc < 0 or 'out of memory' in err or 'bad_alloc' in err or 'PLEASE submit a bug report' in err:
            raise Resource('compiler ended with %d: %s' % (rc, err[-200:]))
        if 'error:' not in err:
            raise BrokenAnalysis('compiler failed (%d): %s' % (rc, err[-500:]))
        return False, err
    with open(ll) as f:
        t = f.read()
    os.unlink(ll)
    return True, t


def second_opinion(work, name, src):
    """A program on which the compiler runs out of resources, put to the other compiler: its diagnostics if it rejects
    the program for a reason that is not a limit of its own, else None."""
    cpp = work.path(name + '_g.cpp')
    with open(cpp, 'w') as f:
        f.write('#include "%s"\n%s' % (work.path('wit.hpp'), src))
    try:
        rc, _, err = run(['g++', '-std=c++17', '-I', REPO + '/public', '-w', '-fno-exceptions', '-fno-rtti', '-fsyntax-only', '-fmax-errors=1',
                          '-ftemplate-depth=4096', '-fconstexpr-depth=4096', '-fconstexpr-ops-limit=2147483647', '-fconstexpr-loop-limit=2147483647', cpp], timeout=120)
    except Resource:
        return None
    finally:
        os.unlink(cpp)
    why = [l for l in err.split('\n') if ' error: ' in l]
    if rc == 1 and why and not re.search(r'out of memory|internal compiler error|exceeds maximum|limit', ' '.join(why)):
        return '\n'.join(why)
    return None


def pmap(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))
