"""Text conversion: the printed form as a value of the dataflow domain.

The standard stream and string classes are replaced, at the point where gal/format.hpp is included, by classes that
represent a text as the polynomial  sum item_i * X^(n-1-i)  over the symbol X: a character contributes its code, a
printed number x contributes 1000 + Y * x.  Appending is  v * X + item.  The polynomial determines the sequence of
characters and numbers, so the IR dataflow decides the printed text for every value of the components."""
import random
from .values import Raw, decide
from . import compilew as C
from .expr import ent
from .ga import alg_of
from .props import ALGS, FULL, NAMED, blades, sparse, full

STUB = r'''
#include <algorithm>
#include <array>
#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <numeric>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
extern "C" double galwit_X, galwit_Y, galwit_Z;
namespace std {
#define GALT inline __attribute__((always_inline))
struct galtext_base {
  double v = 0, w = 1;
  GALT void item(double x) { v = v * galwit_X + x; w = w * galwit_X; }
  GALT void text(double tv, double tw) { v = v * tw + tv; w = w * tw; }
  GALT void ch(char c) { item((double) (int) c); }
  GALT void str_(char const* s) { for (size_t i = 0, n = __builtin_strlen(s); i != n; ++i) ch(s[i]); }
  GALT void num(double x) { item(1000 + galwit_Y * x); }
  GALT void integer(long long x) { if (x < 0) { ch('-'); x = -x; } long long p = 1; while (x / p > 9) p *= 10; for (; p != 0; p /= 10) ch('0' + (x / p) % 10); }
};
struct galtext_string : galtext_base {
  GALT galtext_string() {}
  GALT galtext_string(char const* s) { str_(s); }
  GALT galtext_string(size_t n, char c) { for (size_t i = 0; i != n; ++i) ch(c); }
  GALT galtext_string& operator+=(galtext_string const& o) { text(o.v, o.w); return *this; }
  GALT galtext_string& operator+=(char c) { ch(c); return *this; }
  GALT galtext_string& operator+=(char const* s) { str_(s); return *this; }
  GALT galtext_string& append(galtext_string const& o) { text(o.v, o.w); return *this; }
  GALT galtext_string& append(char const* s) { str_(s); return *this; }
  GALT galtext_string& append(size_t n, char c) { for (size_t i = 0; i != n; ++i) ch(c); return *this; }
  GALT void push_back(char c) { ch(c); }
  GALT void reserve(size_t) {}
};
GALT galtext_string operator+(galtext_string a, galtext_string const& b) { a += b; return a; }
GALT galtext_string operator+(galtext_string a, char const* b) { a += b; return a; }
GALT galtext_string operator+(galtext_string a, char b) { a += b; return a; }
GALT galtext_string operator+(char const* a, galtext_string const& b) { galtext_string r(a); r += b; return r; }
GALT galtext_string operator+(char a, galtext_string const& b) { galtext_string r(1, a); r += b; return r; }
struct galtext_ostream : galtext_base {
  GALT galtext_ostream& operator<<(char c) { ch(c); return *this; }
  GALT galtext_ostream& operator<<(signed char c) { ch((char) c); return *this; }
  GALT galtext_ostream& operator<<(unsigned char c) { ch((char) c); return *this; }
  GALT galtext_ostream& operator<<(char const* s) { str_(s); return *this; }
  GALT galtext_ostream& operator<<(galtext_string const& s) { text(s.v, s.w); return *this; }
  GALT galtext_ostream& operator<<(bool x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(short x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(unsigned short x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(int x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(unsigned x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(long x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(unsigned long x) { integer((long long) x); return *this; }
  GALT galtext_ostream& operator<<(long long x) { integer(x); return *this; }
  GALT galtext_ostream& operator<<(float x) { num(x); return *this; }
  GALT galtext_ostream& operator<<(double x) { num(x); return *this; }
  GALT galtext_ostream& put(char c) { ch(c); return *this; }
  GALT galtext_ostream& write(char const* s, long n) { for (long i = 0; i != n; ++i) ch(s[i]); return *this; }
};
struct galtext_stream : galtext_ostream {
  GALT galtext_stream() {}
  GALT galtext_stream(galtext_string const& s) { text(s.v, s.w); }
  GALT galtext_string str() const { galtext_string r; r.v = v; r.w = w; return r; }
};
#define GALT_TS(T) GALT galtext_string galtext_ts(T x) { galtext_string r; r.integer(x); return r; }
GALT_TS(int) GALT_TS(long) GALT_TS(long long) GALT_TS(unsigned) GALT_TS(unsigned long)
// a number formatted by std::to_string differs from one formatted by a stream
GALT galtext_string galtext_ts(float x) { galtext_string r; r.item(1000 + galwit_Z * x); return r; }
GALT galtext_string galtext_ts(double x) { galtext_string r; r.item(1000 + galwit_Z * x); return r; }
}
#define string galtext_string
#define stringstream galtext_stream
#define ostringstream galtext_stream
#define ostream galtext_ostream
#include <gal/format.hpp>
namespace std { template <class X> GALT galtext_string to_string(X x) { return galtext_ts(x); } }
'''


def expected(c, v, els):
    X, Y = c.var('global', 'galwit_X', 0), c.var('global', 'galwit_Y', 0)
    items = []
    if not els:
        items = [c.const(ord('0'))]
    for i, e in enumerate(els):
        items.append(c.const(1000).add(Y.mul(v('a', i))))
        s = ''
        if e:
            s = 'e' + ''.join(str(j) for j in range(8) if e >> j & 1)
        if i + 1 != len(els):
            s += ' + '
        items += [c.const(ord(ch)) for ch in s]
    r = c.const(0)
    for x in items:
        r = r.mul(X).add(x)
    w = c.const(1)
    for _ in items:
        w = w.mul(X)
    return [r, w]


def c_text(tier, seed):
    rng = random.Random('tx%s' % seed)
    ws = []

    def add(alg, els, T):
        e = ent(alg, els)
        w = Raw('text of %s %s' % (alg, e.name[:60]), [(e.cpp, 'a', max(1, len(els)))], 'auto const s = gal::to_string(a); o[0] = s.v; o[1] = s.w;',
                lambda c, v, els=els: expected(c, v, els), T=T)
        w.group = 'text conversion through standard streams'
        ws.append(w)
    for a in ALGS:
        for T in ('double', 'float'):
            add(a, (), T)
            for g in range(alg_of(a).dim + 1):
                add(a, blades(a, g), T)
        for e in FULL[a]:
            add(a, (e,), 'double')
        add(a, FULL[a], 'double')
        add(a, FULL[a], 'float')
        for _ in range(12 if tier == 'quick' else 60):
            add(a, sparse(rng, a, rng.randrange(1, 7)), rng.choice(['double', 'float']))
    for s in ('m_1_0_0', 'm_2_0_0', 'm_6_0_0', 'm_7_0_0', 'm_8_0_0', 'm_3_3_2'):
        for _ in range(8 if tier == 'quick' else 40):
            n = 1 << alg_of(s).dim
            add(s, sparse(rng, s, min(n, rng.randrange(1, 5))), 'double')
        add(s, ((1 << alg_of(s).dim) - 1,), 'double')
        for k in (9, 15, 16, 17, 18, 24, 31, 32, 33, 40, 64, 65, 128, 200, 256):
            if k <= 1 << alg_of(s).dim:
                add(s, sparse(rng, s, k), 'double')
    return ws


def run(work, tier, seed):
    try:
        C.make_pch(work, STUB)
    except C.BrokenAnalysis as e:
        # either the header is broken (reported by C28) or it uses facilities the text model does not have
        print('note: gal/format.hpp cannot be analysed with the text model: %s' % str(e)[:300])
        return [(w, dict(status='nocompile', diffs=['text model'])) for w in c_text(tier, seed)]
    return decide(work, c_text(tier, seed))
