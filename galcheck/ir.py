"""Parser for the LLVM IR subset clang emits for witnesses, and the forward dataflow
pass (value numbering in the algebraic domain of sym.py) over it."""
import re
import struct
from fractions import Fraction
from .sym import Value, decode_const, TooBig


class Unsupported(Exception):
    """The analysis cannot decide this function (not a verdict about the code)."""


class NeverReturns(Exception):
    """No path of the function reaches a return."""


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # [(type, name)]
        self.blocks = {}      # label -> [line]
        self.order = []
        self.rettype = None
        self.attrs = ''


DEF_RE = re.compile(r'^define (.*?)@("?[\w.$\-]+"?)\((.*)\)([^()]*?)\{')


def split_top(s):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.functions = {}
        self.globals = {}      # name -> (isconst, type+init text)
        self.types = {}
        self.declares = set()
        self.parse(text)

    def parse(self, text):
        cur = None
        lab = None
        for line in text.split('\n'):
            if cur is None:
                if line.startswith('define '):
                    m = DEF_RE.match(line)
                    if not m:
                        raise Unsupported('cannot parse: ' + line[:200])
                    f = Function(m.group(2).strip('"'))
                    f.rettype = m.group(1)
                    f.attrs = m.group(4)
                    for p in split_top(m.group(3)):
                        t = p.split(' ')[0]
                        nm = p.split(' ')[-1]
                        f.params.append((t, nm, p))
                    cur = f
                    lab = None
                elif line.startswith('@'):
                    m = re.match(r'^@("?[^ ]+"?) = (.*)$', line)
                    self.globals[m.group(1).strip('"')] = m.group(2)
                elif line.startswith('%'):
                    m = re.match(r'^(%[^ ]+) = type (.*)$', line)
                    if m:
                        self.types[m.group(1)] = m.group(2)
                elif line.startswith('declare '):
                    m = re.search(r'@("?[\w.$\-]+"?)\(', line)
                    if m:
                        self.declares.add(m.group(1).strip('"'))
                continue
            if line.startswith('}'):
                self.functions[cur.name] = cur
                cur = None
                continue
            s = line.split(' ;')[0].rstrip() if not ('"' in line) else line.rstrip()
            if not s.strip():
                continue
            m = re.match(r'^([\w.$\-]+|"[^"]+"):', s)
            if m and not s.startswith(' '):
                lab = m.group(1).strip('"')
                cur.blocks[lab] = []
                cur.order.append(lab)
                continue
            if lab is None:
                # implicit entry label = number of params
                lab = str(len(cur.params))
                cur.blocks[lab] = []
                cur.order.append(lab)
            cur.blocks[lab].append(s.strip())

    # ------------------------------------------------------------ types
    def sizeof(self, t):
        t = t.strip()
        if t == 'double' or t == 'i64' or t == 'ptr':
            return 8
        if t == 'float' or t == 'i32':
            return 4
        if t == 'i16':
            return 2
        if t in ('i8', 'i1'):
            return 1
        if t == 'i128' or t == 'x86_fp80':
            return 16
        if t.startswith('%'):
            return self.sizeof(self.types[t])
        if t.startswith('['):
            m = re.match(r'^\[(\d+) x (.*)\]$', t)
            return int(m.group(1)) * self.sizeof(m.group(2))
        if t.startswith('<{'):
            return sum(self.sizeof(x) for x in split_top(t[2:-2].strip()))
        if t.startswith('<'):
            m = re.match(r'^<(\d+) x (.*)>$', t)
            return int(m.group(1)) * self.sizeof(m.group(2))
        if t.startswith('{'):
            return self.struct_layout(t)[1]
        raise Unsupported('type ' + t)

    def alignof(self, t):
        t = t.strip()
        if t.startswith('%'):
            return self.alignof(self.types[t])
        if t.startswith('['):
            return self.alignof(re.match(r'^\[(\d+) x (.*)\]$', t).group(2))
        if t.startswith('<{'):
            return 1
        if t.startswith('{'):
            return max([self.alignof(x) for x in split_top(t[1:-1].strip())] or [1])
        return self.sizeof(t)

    def struct_layout(self, t):
        if t.startswith('%'):
            return self.struct_layout(self.types[t])
        packed = t.startswith('<{')
        inner = t[2:-2] if packed else t[1:-1]
        offs = []
        o = 0
        al = 1
        for x in split_top(inner.strip()):
            a = 1 if packed else self.alignof(x)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append((o, x))
            o += self.sizeof(x)
        o = (o + al - 1) // al * al
        return offs, o

    # ------------------------------------------------- constant initialisers
    def const_bytes(self, name):
        """Initialiser of a constant global as python bytes (integers only) or None."""
        g = self.globals[name]
        m = re.match(r'^(?:[\w()"]+ )*?(constant|global) (.*)$', g)
        rest = m.group(2)
        ty, rest = read_type(rest)
        return self.init_cells(ty, rest)

    def const_ints(self, name, n):
        """The n 64-bit integers of a constant table."""
        out = [0] * n
        if not self.is_const_global(name):
            raise Unsupported('table %s is not a constant' % name)
        for off, ty, lit in self.const_bytes(name):
            if ty == 'zero':
                continue
            if ty == 'undef' or ty != 'i64' or off % 8:
                raise Unsupported('table cell %s %s' % (ty, lit))
            out[off // 8] = int(lit)
        return out

    def is_const_global(self, name):
        g = self.globals[name]
        return re.match(r'^(?:[\w()"]+ )*?constant ', g) is not None

    def init_cells(self, ty, s, base=0):
        """-> (list of (offset, type, literal text))"""
        s = s.strip()
        out = []
        self._init(ty, s, base, out)
        return out

    def _init(self, ty, s, base, out):
        s = s.strip()
        # strip trailing ", align N" etc. at top level
        parts = split_top(s)
        s = parts[0]
        if s == 'zeroinitializer':
            out.append((base, 'zero', self.sizeof(ty)))
            return
        if s in ('undef', 'poison'):
            out.append((base, 'undef', self.sizeof(ty)))
            return
        rt = ty
        while rt.startswith('%'):
            rt = self.types[rt]
        if rt.startswith('['):
            m = re.match(r'^\[(\d+) x (.*)\]$', rt)
            et = m.group(2)
            if s.startswith('c"'):
                b = parse_cstr(s[1:])
                for i, x in enumerate(b):
                    out.append((base + i, 'i8', str(x)))
                return
            es = self.sizeof(et)
            for i, x in enumerate(split_top(s[1:-1])):
                t2, r2 = read_type(x)
                self._init(t2, r2, base + i * es, out)
            return
        if rt.startswith('{') or rt.startswith('<{'):
            inner = s[2:-2] if s.startswith('<{') else s[1:-1]
            offs, _ = self.struct_layout(rt)
            for (o, _), x in zip(offs, split_top(inner.strip())):
                t2, r2 = read_type(x)
                self._init(t2, r2, base + o, out)
            return
        if rt.startswith('<'):
            m = re.match(r'^<(\d+) x (.*)>$', rt)
            et = m.group(2)
            es = self.sizeof(et)
            for i, x in enumerate(split_top(s[1:-1])):
                t2, r2 = read_type(x)
                self._init(t2, r2, base + i * es, out)
            return
        out.append((base, rt, s))


def parse_cstr(s):
    assert s[0] == '"'
    s = s[1:s.rindex('"')]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def read_type(s):
    s = s.strip()
    if s[0] in '[{<':
        depth = 0
        for i, ch in enumerate(s):
            if ch in '[{<':
                depth += 1
            elif ch in ']}>':
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r'^([^\s,]+)\s*(.*)$', s, re.S)
    return m.group(1), m.group(2)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


class Undef:
    def __repr__(self):
        return 'undef'

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7


UNDEF = Undef()


class Cond:
    """Abstract truth value: comparison of two values (op, a, b), or boolean tree."""
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __eq__(self, o):
        return isinstance(o, Cond) and self.kind == o.kind and len(self.args) == len(o.args) \
            and all(veq(x, y) for x, y in zip(self.args, o.args))

    def __hash__(self):
        return hash(self.kind)

    def key(self):
        return (self.kind,) + tuple(a.key() if hasattr(a, 'key') else a for a in self.args)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join(map(str, self.args)))


class Gamma:
    """Gated value: condition ? a : b (gated single assignment)."""
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Gamma) and self.cond == o.cond and veq(self.a, o.a) and veq(self.b, o.b)

    def __hash__(self):
        return 11

    def __repr__(self):
        return '(%s ? %s : %s)' % (self.cond, self.a, self.b)


def veq(a, b):
    if isinstance(a, Value) and isinstance(b, Value):
        return a.equals(b)
    return a == b


FLAGS = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact',
         'inbounds', 'volatile', 'tail', 'notail', 'musttail', 'noundef', 'nonnull', 'disjoint',
         'nneg', 'samesign', 'noalias', 'atomic', 'readonly', 'signext', 'zeroext', 'nocapture', 'writeonly'}

PURE_MATH1 = {'sqrt', 'sin', 'cos', 'tan', 'fabs', 'exp', 'log', 'atan', 'asin', 'acos', 'abs'}
PURE_MATH2 = {'pow', 'atan2', 'fmod', 'hypot'}


def norm_callee(c):
    c = c.strip('"')
    m = re.match(r'^llvm\.([a-z0-9_]+)\.(f64|f32)$', c)
    if m:
        return m.group(1)
    if c in PURE_MATH1 or c in PURE_MATH2 or c == 'fma':
        return c
    if c.endswith('f') and (c[:-1] in PURE_MATH1 or c[:-1] in PURE_MATH2 or c == 'fmaf'):
        return c[:-1]
    return None


class Analysis:
    """One forward pass over one function."""

    def __init__(self, mod, fn, ctx, argnames=None, scalar=8):
        self.mod = mod
        self.fn = fn
        self.ctx = ctx
        self.argnames = argnames or {}
        self.scalar = scalar
        self.events = []        # rule violations noticed while analysing
        self.ncount = 0
        self.calls = {}
        self.fptypes = set()
        self.blocks = {}
        self.written = set()    # argument objects stored to on some path
        Analysis.last = self

    # ------------------------------------------------------------- operands
    def fpconst(self, tok, ty):
        bits = 52 if ty == 'double' else 23
        if tok.startswith('0x'):
            h = tok[2:]
            if h[0] in 'KLMHR':
                raise Unsupported('fp constant ' + tok)
            x = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
        else:
            x = float(tok)
        return decode_const(self.ctx, x, bits)

    def val(self, tok, ty, env):
        tok = tok.strip()
        if tok.startswith('%'):
            if tok not in env:
                raise Unsupported('use before def ' + tok)
            return env[tok]
        if tok in ('undef', 'poison'):
            return UNDEF
        if ty in ('double', 'float'):
            return self.fpconst(tok, ty)
        if ty == 'ptr':
            if tok == 'null':
                return Ptr('null', 0)
            if tok.startswith('@'):
                return Ptr(tok, 0)
            m = re.match(r'^getelementptr (?:inbounds )?(?:nuw )?\((.*)\)$', tok)
            if m:
                parts = split_top(m.group(1))
                base = self.val(parts[1].split(' ', 1)[1], 'ptr', env)
                return self.gep(parts[0], base, parts[2:], env)
            raise Unsupported('ptr const ' + tok)
        if re.match(r'^i\d+$', ty):
            if tok == 'true':
                return 1
            if tok == 'false':
                return 0
            return int(tok)
        if tok == 'zeroinitializer':
            m = re.match(r'^<(\d+) x (.*)>$', ty)
            if m:
                z = self.ctx.const(0) if m.group(2) in ('double', 'float') else 0
                return [z] * int(m.group(1))
            return ('zeroagg', ty)
        m = re.match(r'^<(\d+) x (.*)>$', ty)
        if m and tok.startswith('<'):
            out = []
            for x in split_top(tok[1:-1]):
                t2, r2 = read_type(x)
                out.append(self.val(r2, t2, env))
            return out
        raise Unsupported('operand %s %s' % (ty, tok))

    def gep(self, ty, base, idxs, env):
        if not isinstance(base, Ptr):
            raise Unsupported('gep of %r' % (base,))
        off = base.off
        first = True
        for ix in idxs:
            it, tok = read_type(ix)
            v = self.val(tok, it, env)
            if not isinstance(v, int):
                raise Unsupported('variable gep index')
            if first:
                off += v * self.mod.sizeof(ty)
                first = False
            else:
                rt = ty
                while rt.startswith('%'):
                    rt = self.mod.types[rt]
                if rt.startswith('{') or rt.startswith('<{'):
                    offs, _ = self.mod.struct_layout(rt)
                    off += offs[v][0]
                    ty = offs[v][1]
                else:
                    m = re.match(r'^[\[<](\d+) x (.*)[\]>]$', rt)
                    off += v * self.mod.sizeof(m.group(2))
                    ty = m.group(2)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------- memory
    def load(self, p, ty, mem):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        m = re.match(r'^<(\d+) x (.*)>$', ty)
        if m:
            es = self.mod.sizeof(m.group(2))
            return [self.load(Ptr(p.obj, p.off + i * es), m.group(2), mem) for i in range(int(m.group(1)))]
        cell = mem.get((p.obj, p.off))
        if cell is not None:
            cty, v = cell
            if self.mod.sizeof(cty) == self.mod.sizeof(ty):
                if cty != ty and isinstance(v, int) and ty in ('double', 'float'):
                    return self.bits_to_fp(v, ty)
                return v
            if not (ty in ('i64', 'i128', 'ptr') and self.mod.sizeof(cty) < self.mod.sizeof(ty)):
                raise Unsupported('load size mismatch at %r' % (p,))
        if ty in ('i64', 'i128', 'ptr'):
            # copy of aggregate data through an integer register
            sz = self.mod.sizeof(ty)
            cells = [(o, mem[(p.obj, p.off + o)]) for o in range(sz) if (p.obj, p.off + o) in mem]
            if cells:
                return ('multi', tuple((o, c) for o, c in cells))
        if p.obj.startswith('arg:') and self.scalar == 4 and ty in ('i64', 'i128') and p.off % 4 == 0:
            # several single-precision input scalars copied through one integer register
            return ('multi', tuple((o, ('float', self.load(Ptr(p.obj, p.off + o), 'float', mem))) for o in range(0, self.mod.sizeof(ty), 4)))
        if p.obj.startswith('arg:') and self.scalar == 8 and ty == 'i128' and p.off % 8 == 0:
            return ('multi', tuple((o, ('double', self.load(Ptr(p.obj, p.off + o), 'double', mem))) for o in range(0, 16, 8)))
        if p.obj.startswith('arg:'):
            fty = ty
            if (ty, self.scalar) in (('i32', 4), ('i64', 8)):
                fty = 'float' if self.scalar == 4 else 'double'     # scalar copied through an integer register
            return self.ctx.var('in', p.obj[4:], self.argcell(p, fty))
        if p.obj.startswith('@'):
            nm = p.obj[1:].strip('"')
            if nm in self.mod.globals and self.mod.is_const_global(nm):
                for o, t, lit in self.mod.const_bytes(nm):
                    if t == 'zero':
                        if o <= p.off < o + lit:
                            return self.ctx.const(0) if ty in ('double', 'float') else 0
                    elif t == 'undef':
                        continue
                    elif o == p.off and self.mod.sizeof(t) == self.mod.sizeof(ty):
                        return self.val(lit, t, {})
                raise Unsupported('load of constant %r as %s' % (p, ty))
            if not nm.startswith('galwit_'):     # symbols of the analysis itself
                self.events.append(('global-read', 'reads mutable global %s' % nm))
            return self.ctx.var('global', nm, p.off)
        if p.obj == 'null':
            self.events.append(('null', 'load through a null pointer'))
            return UNDEF
        for (o, off), (cty, v) in mem.items():
            if o == p.obj and off < p.off < off + self.mod.sizeof(cty):
                raise Unsupported('partial load at %r' % (p,))
        return UNDEF

    def bits_to_fp(self, v, ty):
        if ty == 'double':
            x = struct.unpack('>d', struct.pack('>Q', v & (2**64 - 1)))[0]
            return decode_const(self.ctx, x, 52)
        x = struct.unpack('>f', struct.pack('>I', v & (2**32 - 1)))[0]
        return decode_const(self.ctx, x, 23)

    def argcell(self, p, ty):
        if p.off < 0:
            self.events.append(('oob', 'reads before the start of %s' % p.obj))
        lim = self.argnames.get(p.obj + ':size')
        if lim is not None and p.off + self.mod.sizeof(ty) > lim:
            self.events.append(('oob', 'reads offset %d past the end of %s' % (p.off, p.obj)))
        sz = self.mod.sizeof(ty)
        if p.off % sz:
            return 'b%d' % p.off
        return p.off // sz if ty in ('double', 'float') else '%s@%d' % (ty, p.off)

    def store(self, p, ty, v, mem):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        m = re.match(r'^<(\d+) x (.*)>$', ty)
        if m:
            es = self.mod.sizeof(m.group(2))
            for i in range(int(m.group(1))):
                vi = UNDEF if v is UNDEF else v[i]
                self.store(Ptr(p.obj, p.off + i * es), m.group(2), vi, mem)
            return
        if isinstance(v, tuple) and v and v[0] == 'multi':
            for o, c in v[1]:
                mem[(p.obj, p.off + o)] = c
            return
        sz = self.mod.sizeof(ty)
        for k in [k for k in mem if k[0] == p.obj and p.off < k[1] < p.off + sz]:
            del mem[k]
        mem[(p.obj, p.off)] = (ty, v)

    # ------------------------------------------------------------- run
    def run(self):
        fn = self.fn
        env = {}
        mem = {}
        for i, (t, nm, full) in enumerate(fn.params):
            an = self.argnames.get(i, 'a%d' % i)
            if t == 'ptr':
                env[nm] = Ptr('arg:' + an, 0)
            elif t in ('double', 'float'):
                env[nm] = self.ctx.var('in', an, 0)
            else:
                env[nm] = self.ctx.var('in', an, t)
        # CFG
        succ = {}
        for lab, ins in fn.blocks.items():
            t = ins[-1]
            # a switch spans several lines; join
            tt = ' '.join(ins)
            succ[lab] = re.findall(r'label %("[^"]+"|[\w.$\-]+)', self.terminator(ins))
        # paths that end in a call that does not return (a failed assertion) have no result to judge
        alive = {l for l, ins in fn.blocks.items() if re.match(r'^ret\b', self.terminator(ins))}
        while True:
            more = {l for l in fn.blocks if l not in alive and any(s.strip('"') in alive for s in succ[l])}
            if not more:
                break
            alive |= more
        if fn.order[0] not in alive:
            raise NeverReturns('%s does not return for any input' % fn.name)
        succ = {l: [s for s in ss if s.strip('"') in alive] for l, ss in succ.items()}
        order = self.topo(succ)
        preds = {l: [] for l in fn.blocks}
        for l in order:
            for s in succ[l]:
                preds[s.strip('"')].append(l)
        entry = fn.order[0]
        self.idom = None
        state = {}     # label -> (mem at exit)
        self.env = env
        self.brcond = {}
        result = None
        rets = []
        for lab in order:
            if lab == entry:
                m = mem
            else:
                ps = [p for p in preds[lab] if p in state]
                if not ps:
                    continue
                m = self.join_mem(lab, ps, state, preds, succ)
            m = dict(m)
            out = self.block(lab, fn.blocks[lab], env, m, preds, succ, state)
            state[lab] = m
            if out is not None and out[0] == 'ret':
                rets.append((lab, out[1], m))
        if len(rets) != 1:
            raise Unsupported('%d returns' % len(rets))
        self.retval = rets[0][1]
        self.mem = rets[0][2]
        return self

    def terminator(self, ins):
        # terminators that span lines: switch [ ... ]
        for i in range(len(ins) - 1, -1, -1):
            if re.match(r'^(br|ret|switch|unreachable|invoke)\b', ins[i]):
                return ' '.join(ins[i:])
        return ins[-1]

    def topo(self, succ):
        entry = self.fn.order[0]
        order = []
        mark = {}

        def dfs(l):
            stack = [(l, iter(succ[l]))]
            mark[l] = 1
            while stack:
                n, it = stack[-1]
                adv = False
                for s in it:
                    s = s.strip('"')
                    if mark.get(s) == 1:
                        raise Unsupported('loop in %s' % self.fn.name)
                    if s not in mark:
                        mark[s] = 1
                        stack.append((s, iter(succ[s])))
                        adv = True
                        break
                if not adv:
                    mark[n] = 2
                    order.append(n)
                    stack.pop()
        dfs(entry)
        order.reverse()
        return order

    # gating: find the branch that separates two predecessor edges of a join
    def gate(self, lab, preds, succ):
        """-> list of (pred, cond-path) is avoided; only 2-predecessor joins whose edges
        come from the two arms of one conditional branch are gated."""
        ps = preds[lab]
        if len(ps) != 2:
            return None

        def chain(p, to):
            # edges backwards until a conditional branch
            path = [(p, to)]
            seen = 0
            while seen < 50:
                seen += 1
                b, t = path[-1]
                if b in self.brcond:
                    c, tl, fl = self.brcond[b]
                    yield (b, t)
                if len(preds[b]) == 1:
                    path.append((preds[b][0], b))
                elif b == self.fn.order[0]:
                    return
                else:
                    # step over an inner diamond: use its dominator
                    d = self.dom_of(b, preds)
                    if d is None:
                        return
                    path.append((d, None))
        a = list(chain(ps[0], lab))
        b = list(chain(ps[1], lab))
        for (x, tx) in a:
            for (y, ty) in b:
                if x == y and tx is not None and ty is not None and tx != ty:
                    c, tl, fl = self.brcond[x]
                    return c, (tx == tl), ps
        return None

    def dom_of(self, b, preds):
        # nearest common ancestor through single-pred chains, bounded
        sets = []
        for p in preds[b]:
            s = [p]
            while len(preds[s[-1]]) == 1:
                s.append(preds[s[-1]][0])
            sets.append(s)
        for x in sets[0]:
            if all(x in s for s in sets[1:]):
                return x
        return None

    def select_val(self, c, a, b):
        if veq(a, b):
            return a
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, Undef) and not isinstance(b, Undef):
            return Gamma(c, a, b)
        return Gamma(c, a, b)

    def join_mem(self, lab, ps, state, preds, succ):
        if len(ps) == 1:
            return state[ps[0]]
        base = state[ps[0]]
        same = {}
        keys = set()
        for p in ps:
            keys |= set(state[p])
        g = None
        for k in keys:
            vals = [state[p].get(k) for p in ps]
            if all(v is not None and v[0] == vals[0][0] and veq(v[1], vals[0][1]) for v in vals if vals[0] is not None) and vals[0] is not None:
                same[k] = vals[0]
            else:
                if g is None:
                    g = self.gate(lab, preds, succ)
                if g is None:
                    raise Unsupported('ungated memory join')
                c, first_true, gps = g
                x, y = state[gps[0]].get(k), state[gps[1]].get(k)
                ty = (x or y)[0]
                xv = x[1] if x else UNDEF
                yv = y[1] if y else UNDEF
                same[k] = (ty, self.gated(c, xv if first_true else yv, yv if first_true else xv))
        return same

    def gated(self, c, a, b):
        if veq(a, b):
            return a
        if isinstance(c, int):
            return a if c else b
        # the compiler's expansion of pow(x, 1/2): x == -inf ? inf : fabs(sqrt(x))
        if isinstance(c, Cond) and c.kind.endswith('oeq') and str(c.args[1]) == 'fpconst(-inf)' and str(a) == 'fpconst(inf)' \
                and isinstance(b, Value) and isinstance(c.args[0], Value) and b.equals(self.ctx.sqrt(c.args[0])):
            return b
        return Gamma(c, a, b)

    # ------------------------------------------------------------- block
    def block(self, lab, ins, env, mem, preds, succ, state):
        ctx = self.ctx
        i = 0
        while i < len(ins):
            line = ins[i]
            i += 1
            # join multi-line switch
            if line.startswith('switch') and ']' not in line:
                while ']' not in line:
                    line += ' ' + ins[i]
                    i += 1
            self.ncount += 1
            dest = None
            body = line
            m = re.match(r'^(%[\w.$\-]+|%"[^"]+") = (.*)$', line)
            if m:
                dest, body = m.group(1), m.group(2)
            body = re.sub(r', ![\w.]+ ![\w.]+', '', body)
            body = re.sub(r' #\d+\b', '', body)
            op, rest = (body.split(' ', 1) + [''])[:2]
            toks = rest
            # strip flags
            while True:
                w = toks.split(' ', 1)
                if w[0] in FLAGS and len(w) > 1:
                    toks = w[1]
                else:
                    break
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                ty, r = read_type(toks)
                a, b = split_top(r)[:2]
                self.fptypes.add(ty)
                x, y = self.val(a, ty, env), self.val(b, ty, env)
                env[dest] = self.lift2(op, x, y)
            elif op == 'fneg':
                ty, r = read_type(toks)
                x = self.val(r, ty, env)
                env[dest] = self.lift1(x, lambda v: v.neg())
            elif op == 'load':
                ps = split_top(toks)
                ty = ps[0]
                p = self.val(ps[1].split(' ', 1)[1], 'ptr', env)
                env[dest] = self.load(p, ty, mem)
            elif op == 'store':
                ps = split_top(toks)
                ty, tok = read_type(ps[0])
                if ty in ('{', ):
                    raise Unsupported('aggregate store')
                v = self.val(tok, ty, env)
                p = self.val(ps[1].split(' ', 1)[1], 'ptr', env)
                if isinstance(p, Ptr) and p.obj.startswith('@'):
                    self.events.append(('global-write', 'writes global %s' % p.obj))
                if isinstance(p, Ptr) and p.obj.startswith('arg:'):
                    self.written.add(p.obj)
                self.store(p, ty, v, mem)
            elif op == 'getelementptr':
                ps = split_top(toks)
                base = self.val(ps[1].split(' ', 1)[1], 'ptr', env)
                env[dest] = self.gep(ps[0], base, ps[2:], env)
            elif op == 'alloca':
                env[dest] = Ptr('stack:%s' % dest, 0)
            elif op in ('call', 'tail', 'musttail', 'notail'):
                self.call(dest, body, env, mem)
            elif op == 'fcmp' or op == 'icmp':
                w = toks.split(' ', 1)
                ty, r = read_type(w[1])
                a, b = split_top(r)[:2]
                env[dest] = self.cmp(op, w[0], self.val(a, ty, env), self.val(b, ty, env))
            elif op == 'select':
                ps = split_top(toks)
                vs = []
                for x in ps:
                    while x.split(' ', 1)[0] in FLAGS:
                        x = x.split(' ', 1)[1]
                    t, r = read_type(x)
                    vs.append(self.val(r, t, env))
                c, a, b = vs
                if isinstance(c, int):
                    env[dest] = a if c else b
                else:
                    env[dest] = self.gated(c, a, b)
            elif op == 'phi':
                ty, r = read_type(toks)
                alts = []
                for x in split_top(r):
                    x = x.strip()
                    assert x[0] == '['
                    v, l = split_top(x[1:-1])
                    l = l.strip()[1:].strip('"')
                    if l not in state:
                        continue
                    alts.append((l, self.val(v, ty, env)))
                first = alts[0][1]
                if all(veq(v, first) for _, v in alts[1:]):
                    env[dest] = first
                else:
                    g = self.gate(lab, preds, succ)
                    if g is None:
                        raise Unsupported('ungated phi in %s' % self.fn.name)
                    c, ft, ps2 = g
                    d = dict(alts)
                    x, y = d[ps2[0]], d[ps2[1]]
                    env[dest] = self.gated(c, x if ft else y, y if ft else x)
            elif op == 'br':
                m = re.match(r'^i1 (\S+), label %("[^"]+"|\S+), label %("[^"]+"|\S+)$', toks)
                if m:
                    c = self.val(m.group(1), 'i1', env)
                    self.brcond[lab] = (c, m.group(2).strip('"'), m.group(3).strip('"'))
                return None
            elif op == 'ret':
                ty, r = read_type(toks)
                return ('ret', None if ty == 'void' else self.val(r, ty, env))
            elif op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                ty, r = read_type(toks)
                a, b = split_top(r)[:2]
                x, y = self.val(a, ty, env), self.val(b, ty, env)
                env[dest] = self.intop(op, ty, x, y)
            elif op in ('fpext', 'fptrunc'):
                self.fptypes |= set(re.findall(r'\b(?:float|double|half|x86_fp80|fp128)\b', toks))
                m = re.match(r'^(\S+) (\S+) to (\S+)$', toks)
                x = self.val(m.group(2), m.group(1), env)
                self.events.append((op, '%s from %s to %s' % (op, m.group(1), m.group(3)))) if not (isinstance(x, Value) and x.is_const()) else None
                env[dest] = x
            elif op in ('sitofp', 'uitofp'):
                m = re.match(r'^(\S+) (\S+) to (\S+)$', toks)
                x = self.val(m.group(2), m.group(1), env)
                if isinstance(x, int):
                    env[dest] = ctx.const(x)
                elif isinstance(x, Value):
                    env[dest] = x
                else:
                    raise Unsupported(op)
            elif op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                m = re.match(r'^(.+) (\S+) to (.+)$', toks)
                if op == 'freeze':
                    ty, r = read_type(toks)
                    env[dest] = self.val(r, ty, env)
                elif op == 'bitcast':
                    x = self.val(m.group(2), m.group(1), env)
                    if isinstance(x, int) and m.group(3) in ('double', 'float'):
                        x = self.bits_to_fp(x, m.group(3))
                    env[dest] = x
                else:
                    x = self.val(m.group(2), m.group(1), env)
                    if isinstance(x, int) and op == 'trunc':
                        x &= (1 << int(m.group(3)[1:])) - 1
                    if isinstance(x, tuple) and x and x[0] == 'multi':
                        if op == 'trunc':
                            c = dict(x[1]).get(0)
                            if c is None or self.mod.sizeof(c[0]) * 8 != int(m.group(3)[1:]):
                                raise Unsupported('trunc of several scalars')
                            x = c[1]
                        elif op not in ('ptrtoint', 'inttoptr'):
                            raise Unsupported(op + ' of several scalars')
                    elif not isinstance(x, (int, Cond)):
                        # a scalar travelling through the pointer half of a union keeps its bits
                        if op == 'trunc' or (op in ('ptrtoint', 'inttoptr') and not isinstance(x, Value)):
                            raise Unsupported(op + ' of ' + repr(x)[:60])
                    env[dest] = x
            elif op == 'extractvalue':
                ps = split_top(toks)
                ty, r = read_type(ps[0])
                v = self.val(r, ty, env)
                for ix in ps[1:]:
                    if v is UNDEF:
                        break
                    v = v.get(int(ix), UNDEF) if isinstance(v, dict) else UNDEF
                env[dest] = v
            elif op == 'insertvalue':
                ps = split_top(toks)
                ty, r = read_type(ps[0])
                v = self.val(r, ty, env)
                v = dict(v) if isinstance(v, dict) else {}
                t2, r2 = read_type(ps[1])
                e = self.val(r2, t2, env)
                if len(ps) != 3:
                    raise Unsupported('nested insertvalue')
                v[int(ps[2])] = e
                env[dest] = v
            elif op == 'extractelement':
                ps = split_top(toks)
                ty, r = read_type(ps[0])
                v = self.val(r, ty, env)
                ix = self.val(read_type(ps[1])[1], 'i64', env)
                env[dest] = UNDEF if v is UNDEF else v[ix]
            elif op == 'insertelement':
                ps = split_top(toks)
                ty, r = read_type(ps[0])
                v = self.val(r, ty, env)
                n = int(re.match(r'^<(\d+)', ty).group(1))
                v = [UNDEF] * n if v is UNDEF else list(v)
                t2, r2 = read_type(ps[1])
                ix = self.val(read_type(ps[2])[1], 'i64', env)
                v[ix] = self.val(r2, t2, env)
                env[dest] = v
            elif op == 'shufflevector':
                ps = split_top(toks)
                t1, r1 = read_type(ps[0])
                t2, r2 = read_type(ps[1])
                n = int(re.match(r'^<(\d+)', t1).group(1))
                a = self.val(r1, t1, env)
                b = self.val(r2, t2, env)
                a = [UNDEF] * n if a is UNDEF else a
                b = [UNDEF] * n if b is UNDEF else b
                tm, rm = read_type(ps[2])
                mask = self.val(rm, tm, env)
                nm = int(re.match(r'^<(\d+)', tm).group(1))
                if mask is UNDEF:
                    mask = [UNDEF] * nm
                ab = list(a) + list(b)
                env[dest] = [UNDEF if k is UNDEF else ab[k] for k in mask]
            elif op == 'unreachable':
                return None
            elif op == 'switch':
                raise Unsupported('switch')
            else:
                raise Unsupported('instruction ' + line[:80])
        return None

    def lift1(self, x, f):
        if isinstance(x, list):
            return [self.lift1(v, f) for v in x]
        if x is UNDEF:
            return UNDEF
        if isinstance(x, Gamma):
            return Gamma(x.cond, self.lift1(x.a, f), self.lift1(x.b, f))
        if not isinstance(x, Value):
            raise Unsupported('fp op on %r' % (x,))
        return f(x)

    def lift2(self, op, x, y):
        if isinstance(x, list) or isinstance(y, list):
            return [self.lift2(op, a, b) for a, b in zip(x, y)]
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Gamma):
            ya, yb = (y.a, y.b) if isinstance(y, Gamma) and y.cond == x.cond else (y, y)
            a, b = self.lift2(op, x.a, ya), self.lift2(op, x.b, yb)
            return a if veq(a, b) else Gamma(x.cond, a, b)
        if isinstance(y, Gamma):
            return Gamma(y.cond, self.lift2(op, x, y.a), self.lift2(op, x, y.b))
        if not isinstance(x, Value) or not isinstance(y, Value):
            raise Unsupported('fp op on %r %r' % (x, y))
        if op == 'fadd':
            return x.add(y)
        if op == 'fsub':
            return x.sub(y)
        if op == 'fmul':
            return x.mul(y)
        if op == 'fdiv':
            if not y.num:
                return self.ctx.fun('divzero', x)
            return x.div(y)
        raise Unsupported(op)

    def cmp(self, kind, pred, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y,
                        'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pred])
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if pred in ('eq', 'ne'):
                if x.obj == y.obj:
                    eq = x.off == y.off
                elif x.obj != y.obj and not (x.obj.startswith('arg:') and y.obj.startswith('arg:')):
                    eq = False
                else:
                    return Cond('ptr' + pred, x, y)
                return int(eq if pred == 'eq' else not eq)
        return Cond(pred, x, y)

    def intop(self, op, ty, x, y):
        bits = int(ty[1:]) if re.match(r'^i\d+$', ty) else None
        if isinstance(x, int) and isinstance(y, int) and bits:
            mk = (1 << bits) - 1
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y,
                 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'lshr': lambda: (x & mk) >> y, 'ashr': lambda: x >> y}.get(op)
            if r:
                return r()
        if bits == 1 and op in ('and', 'or', 'xor'):
            if op == 'xor' and y == 1 and isinstance(x, Cond):
                return Cond('not', x)
            return Cond(op, x, y)
        raise Unsupported('integer %s on %r %r' % (op, x, y))

    def call(self, dest, body, env, mem):
        m = re.search(r'@("[^"]+"|[\w.$\-]+)\((.*)\)\s*$', body.rstrip())
        if not m:
            raise Unsupported('indirect call: ' + body[:80])
        callee = m.group(1).strip('"')
        args = []
        for a in split_top(m.group(2)):
            t, r = read_type(a)
            # drop parameter attributes
            r = re.sub(r'\b(noundef|nonnull|nocapture|readonly|writeonly|immarg|returned|signext|zeroext)\b ?', '', r)
            r = re.sub(r'(align \d+ |dereferenceable(_or_null)?\(\d+\) |captures\(\w+\) |align\(\d+\) )', '', r)
            if t == 'metadata':
                continue
            args.append((t, r.strip()))
        self.calls[callee] = self.calls.get(callee, 0) + 1
        if callee.startswith('llvm.lifetime') or callee.startswith('llvm.dbg') or callee.startswith('llvm.assume') \
                or callee.startswith('llvm.experimental.noalias') or callee.startswith('llvm.invariant'):
            return
        if callee.startswith('llvm.memcpy') or callee.startswith('llvm.memmove'):
            d = self.val(args[0][1], 'ptr', env)
            s = self.val(args[1][1], 'ptr', env)
            n = self.val(args[2][1], 'i64', env)
            if not isinstance(n, int) or not isinstance(d, Ptr) or not isinstance(s, Ptr):
                raise Unsupported('memcpy')
            if d.obj.startswith('@'):
                self.events.append(('global-write', 'writes global %s' % d.obj))
            if d.obj.startswith('arg:'):
                self.written.add(d.obj)
            self.memcpy(d, s, n, mem)
            return
        if callee.startswith('llvm.memset'):
            d = self.val(args[0][1], 'ptr', env)
            v = self.val(args[1][1], 'i8', env)
            n = self.val(args[2][1], 'i64', env)
            if v != 0 or not isinstance(n, int):
                raise Unsupported('memset')
            for k in [k for k in mem if k[0] == d.obj and d.off <= k[1] < d.off + n]:
                del mem[k]
            sc = self.scalar
            for o in range(0, n, sc):
                mem[(d.obj, d.off + o)] = ('double' if sc == 8 else 'float', self.ctx.const(0))
            return
        f = norm_callee(callee)
        if f is None and callee.startswith('llvm.fmuladd') or callee.startswith('llvm.fma'):
            f = 'fma'
        if f is None:
            m2 = re.match(r'^llvm\.(minnum|maxnum|copysign|powi)\.', callee)
            if m2:
                vs = [self.val(r, t, env) for t, r in args]
                if m2.group(1) == 'powi' and isinstance(vs[1], int):
                    env[dest] = vs[0].ipow(vs[1])
                    return
                env[dest] = self.ctx.fun(m2.group(1), *vs)
                return
            if callee in self.mod.functions:
                raise Unsupported('call to non-inlined %s' % callee)
            self.events.append(('call', 'calls %s' % callee))
            raise Unsupported('call to %s' % callee)
        vs = [self.val(r, t, env) for t, r in args]
        for t, _ in args:
            self.fptypes.add(t)
        env[dest] = self.apply(f, vs)

    def apply(self, f, vs):
        for k, v in enumerate(vs):
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Gamma):
                w = list(vs)
                w[k] = v.a
                a = self.apply(f, w)
                w[k] = v.b
                return Gamma(v.cond, a, self.apply(f, w))
        if not all(isinstance(v, Value) for v in vs):
            raise Unsupported('call %s of %r' % (f, vs))
        ctx = self.ctx
        if f == 'sqrt':
            return ctx.sqrt(vs[0])
        if f in ('sin', 'cos', 'tan'):
            return ctx.trig(f, vs[0])
        if f == 'fma':
            return vs[0].mul(vs[1]).add(vs[2])
        if f == 'pow' and vs[1].is_const():
            return ctx.pow(vs[0], vs[1].cval())
        if f == 'abs':
            f = 'fabs'
        if f == 'fabs' and vs[0].equals(ctx.const(0)):
            return vs[0]
        if f == 'fabs' and not vs[0].den and len(vs[0].num) == 1:
            (m, k), = vs[0].num.items()
            if k > 0 and all(ctx.atoms[i][0] == 'sqrt' for i, _ in m):
                return vs[0]
        return ctx.fun(f, *vs)

    def memcpy(self, d, s, n, mem):
        cells = []
        if s.obj.startswith('arg:') :
            sc = self.scalar
            o = 0
            while o < n:
                c = mem.get((s.obj, s.off + o))
                if c is None:
                    ty = 'double' if sc == 8 else 'float'
                    c = (ty, self.load(Ptr(s.obj, s.off + o), ty, mem))
                cells.append((o, c))
                o += self.mod.sizeof(c[0])
        elif s.obj.startswith('@'):
            nm = s.obj[1:].strip('"')
            if not self.mod.is_const_global(nm):
                raise Unsupported('memcpy from global')
            for o, t, lit in self.mod.const_bytes(nm):
                if t == 'zero':
                    for k in range(0, lit, self.scalar):
                        if s.off <= o + k < s.off + n:
                            cells.append((o + k - s.off, ('double' if self.scalar == 8 else 'float', self.ctx.const(0))))
                elif t != 'undef' and s.off <= o < s.off + n:
                    cells.append((o - s.off, (t, self.val(lit, t, {}))))
        else:
            for (ob, off), c in list(mem.items()):
                if ob == s.obj and s.off <= off < s.off + n:
                    cells.append((off - s.off, c))
        for k in [k for k in mem if k[0] == d.obj and d.off <= k[1] < d.off + n]:
            del mem[k]
        for o, c in cells:
            mem[(d.obj, d.off + o)] = c
