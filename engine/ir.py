"""Symbolic interpreter for the LLVM IR of the compiled kernels.  Doubles are symbolic exact
reals (or halves of a symbolic complex number), integers and pointers are concrete."""
import os
import re
import struct
from fractions import Fraction
import subprocess
import sys
import numpy as np
from . import expr as E
from . import symnp as S
from .expr import EngineGap

HERE = os.path.dirname(os.path.abspath(__file__))
VPY = '/opt/venv/bin/python'


class OutOfBounds(Exception):
    pass


# ----------------------------------------------------------------------------- compiling
def repo():
    from .loader import REPO
    return REPO


def _run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise EngineGap(f'{cmd[0]} failed: {p.stderr[-2000:]}')
    return p.stdout


def compile_ir(scratch):
    """Cython -> C -> LLVM IR and C++ -> LLVM IR, from the current source."""
    ext = os.path.join(repo(), 'geoana', 'kernels', '_extensions')
    inc = _run([VPY, '-c', "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"]).split()
    out = {}
    c = os.path.join(scratch, 'prism.c')
    _run([VPY, '-m', 'cython', '-3', os.path.join(ext, 'potential_field_prism.pyx'), '-o', c])
    ll = os.path.join(scratch, 'prism.ll')
    common = ['-O1', '-S', '-emit-llvm', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-unroll-loops']
    _run(['clang', *common, '-DNPY_NO_DEPRECATED_API=NPY_1_22_API_VERSION', *['-I' + i for i in inc], '-I' + ext, c, '-o', ll])
    out['prism'] = ll
    ll = os.path.join(scratch, 'rte.ll')
    _run(['clang++', *common, '-fno-exceptions', '-I' + os.path.join(HERE, 'cxx_shim'), '-I' + ext,
          os.path.join(ext, '_rTE.cpp'), '-o', ll])
    out['rte'] = ll
    return out


# ------------------------------------------------------------------------------- parsing
class Ty:
    pass


def split_top(s, sep=','):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def read_type(s):
    """(type string, rest) from the front of s."""
    s = s.lstrip()
    if s[0] in '{[<':
        pair = {'{': '}', '[': ']', '<': '>'}[s[0]]
        d = 0
        for i, ch in enumerate(s):
            if ch == s[0]:
                d += 1
            elif ch == pair:
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].lstrip()
    if s.startswith('%"'):
        j = s.index('"', 2)
        return s[:j + 1], s[j + 1:].lstrip()
    m = re.match(r'%?[\w.$-]+', s)
    return m.group(0), s[m.end():].lstrip()


ATTR = re.compile(r'^(?:noundef|nonnull|nocapture|readonly|writeonly|readnone|noalias|immarg|signext|zeroext|returned|nofree|inreg|'
                  r'align \d+|dereferenceable(?:_or_null)?\(\d+\)|range\([^)]*\)|sret\([^)]*\)|byval\([^)]*\))\s+')


def strip_attrs(s):
    s = s.lstrip()
    while True:
        m = ATTR.match(s)
        if not m:
            return s
        s = s[m.end():]


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}
        self.entry = None


class Module:
    def __init__(self, path):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        with open(path) as f:
            lines = f.read().split('\n')
        cur, blk = None, None
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if cur is None:
                m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
                    continue
                if ln.startswith('@'):
                    m = re.match(r'(@(?:"[^"]+"|[\w.$-]+)) = (.*)$', ln)
                    if m:
                        self.globals[m.group(1)] = m.group(2)
                    continue
                if ln.startswith('define'):
                    m = re.search(r'@("[^"]+"|[\w.$-]+)\(', ln)
                    name = m.group(1).strip('"')
                    j, d = m.end() - 1, 0
                    for k in range(j, len(ln)):
                        if ln[k] == '(':
                            d += 1
                        elif ln[k] == ')':
                            d -= 1
                            if d == 0:
                                break
                    params = []
                    for p in split_top(ln[j + 1:k]):
                        if p == '...':
                            continue
                        t, r = read_type(p)
                        r = strip_attrs(r + ' ').strip()
                        params.append((t, r if r.startswith('%') else None))
                    n = 0
                    ps = []
                    for t, r in params:
                        if r is None:
                            r = f'%{n}'
                        if re.fullmatch(r'%\d+', r):
                            n = int(r[1:]) + 1
                        ps.append((t, r))
                    head = ln[:m.start()].split()
                    cur = Func(name, ps, None)
                    blk = f'%{n}'
                    cur.entry = blk
                    cur.blocks[blk] = []
                    first = True
                continue
            if ln.startswith('}'):
                self.funcs[cur.name] = cur
                cur = None
                continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', ln)
            if m:
                blk = '%' + m.group(1)
                if not cur.blocks[cur.entry] and len(cur.blocks) == 1:
                    cur.blocks = {}
                    cur.entry = blk
                cur.blocks[blk] = []
                continue
            t = ln.strip()
            if not t or t.startswith(';'):
                continue
            if t.startswith('switch') and not t.rstrip().endswith(']'):
                while not t.rstrip().endswith(']'):
                    t += ' ' + lines[i].strip()
                    i += 1
            t = re.sub(r',? ![\w.]+ ![\w.]+', '', t)
            t = re.sub(r',? !dbg .*$', '', t)
            cur.blocks[blk].append(t)

    # sizes ------------------------------------------------------------------------------
    def size(self, t):
        if t == 'double' or t == 'ptr' or t == 'i64':
            return 8
        if t == 'float' or t == 'i32':
            return 4
        if t in ('i8', 'i1'):
            return 1
        if t == 'i16':
            return 2
        if t in self.types:
            return self.size(self.types[t])
        if t[0] == '{':
            return sum(s for s in self._layout(t)[1]) if False else self._layout(t)[0]
        if t[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', t)
            return int(m.group(1)) * self.size(m.group(2))
        raise EngineGap(f'size of IR type {t}')

    def align(self, t):
        if t in self.types:
            return self.align(self.types[t])
        if t[0] == '{':
            return max([self.align(x) for x in split_top(t[1:-1])] or [1])
        if t[0] == '[':
            return self.align(re.match(r'\[(\d+) x (.*)\]$', t).group(2))
        return self.size(t)

    def _layout(self, t):
        off, offs = 0, []
        for x in split_top(t[1:-1]):
            a = self.align(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        a = self.align(t)
        return (off + a - 1) // a * a, offs

    def field(self, t, i):
        """(offset, type) of element i of aggregate t."""
        if t in self.types:
            return self.field(self.types[t], i)
        if t[0] == '{':
            return self._layout(t)[1][i], split_top(t[1:-1])[i]
        if t[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', t)
            return i * self.size(m.group(2)), m.group(2)
        raise EngineGap(f'field of {t}')


# ------------------------------------------------------------------------------ machine
class CPart:
    """real (0) or imaginary (1) half of a symbolic complex number."""
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k


def real_of(v):
    if isinstance(v, CPart):
        return E.sreal(v.c) if v.k == 0 else E.simag(v.c)
    return v


def join(a, b):
    if isinstance(a, CPart) and isinstance(b, CPart) and a.c is b.c and a.k == 0 and b.k == 1:
        return a.c
    a, b = real_of(a), real_of(b)
    if E.cval(b) == 0:
        return E.as_kind(a, 'c')
    return E.as_kind(E.add2(a, E.mul2(b, E.I())), 'c')


def halves(c):
    if not isinstance(c, E.Sym):
        c = E.const(c)
    c = E.as_kind(c, 'c')
    return [CPart(c, 0), CPart(c, 1)]


class Obj:
    def __init__(self, size):
        self.size = size
        self.cells = {}


MATH = {'sqrt': E.ssqrt, 'log': E.slog, 'exp': E.sexp, 'atan': E.satan, 'sin': E.ssin, 'cos': E.scos, 'tanh': E.stanh,
        'sinh': E.ssinh, 'cosh': E.scosh, 'fabs': E.sabs, 'asin': E.sasin, 'acos': E.sacos, 'erf': E.serf, 'asinh': E.sasinh}
CX1 = {'neg': lambda a: E.mul2(E.const(-1), a), 'sqrt': E.ssqrt, 'exp': E.sexp, 'log': E.slog, 'tanh': E.stanh, 'sinh': E.ssinh,
       'cosh': E.scosh, 'sin': E.ssin, 'cos': E.scos, 'conj': E.sconj}
CX2 = {'add': E.add2, 'sub': E.sub2, 'mul': E.mul2, 'div': E.div2}
MAXSTEPS = 400000


def known_const(v):
    """double constants of the compiled code: multiples of pi (to the last bits) mean pi; the
    literal 4e-7 pi means the vacuum permeability of scipy.constants (they differ by 1.3e-10)."""
    if v and v == v and abs(v) != float('inf') and v != int(v):
        import math
        import scipy.constants as sc
        for unit, tol, sym in ((math.pi, 2e-15, E.PI()), (1 / math.pi, 2e-15, E.pow_(E.PI(), -1)), (sc.mu_0, 1e-9, E.const(sc.mu_0)),
                               (math.pi * sc.mu_0, 1e-9, E.mul2(E.PI(), E.const(sc.mu_0)))):
            for q in (1, 2, 3, 4, 6, 8):
                p = round(v / unit * q)
                if p and abs(p) <= 24 and abs(v / unit * q / p - 1) < tol:
                    return E.mul2(E.const(Fraction(p, q)), sym)
    return E.const(v)


class Machine:
    def __init__(self, mod):
        self.mod = mod
        self.steps = 0

    # values
    def val(self, env, t, s):
        s = s.strip()
        if s.startswith('%'):
            return env[s]
        if t == 'double' or t == 'float':
            if s.startswith('0x'):
                return known_const(struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0])
            if s in ('undef', 'poison'):
                return E.fun('opaque:undef')
            return known_const(float(s))
        if t == 'ptr':
            if s == 'null':
                return (None, 0)
            if s in ('undef', 'poison'):
                return (None, -1)
            if s.startswith('@'):
                return (s, 0)
            raise EngineGap(f'IR pointer constant {s}')
        if s in ('true', 'false'):
            return int(s == 'true')
        if s in ('undef', 'poison', 'zeroinitializer'):
            if t[0] in '{[' or t in self.mod.types:
                return self.zero(t)
            return 0
        if re.fullmatch(r'-?\d+', s):
            return int(s) & self.mask(t)
        raise EngineGap(f'IR constant {t} {s}')

    def zero(self, t):
        if t in self.mod.types:
            return self.zero(self.mod.types[t])
        if t[0] == '{':
            return [self.zero(x) for x in split_top(t[1:-1])]
        if t[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', t)
            return [self.zero(m.group(2)) for _ in range(int(m.group(1)))]
        if t in ('double', 'float'):
            return E.const(0.0)
        if t == 'ptr':
            return (None, 0)
        return 0

    def mask(self, t):
        return (1 << int(t[1:])) - 1

    def signed(self, t, v):
        n = int(t[1:])
        return v - (1 << n) if v >> (n - 1) else v

    def call(self, name, args):
        f = self.mod.funcs.get(name)
        if f is None:
            return self.extern(name, args)
        env = {p: a for (_, p), a in zip(f.params, args)}
        blk, prev = f.entry, None
        while True:
            code = f.blocks[blk]
            # phis first, simultaneously
            new, k = {}, 0
            for ins in code:
                m = re.match(r'(%[\w.$-]+) = phi (.*)$', ins)
                if not m:
                    break
                k += 1
                t, rest = read_type(re.sub(r'^(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) ', '', m.group(2)))
                for pair in split_top(rest):
                    v, b = split_top(pair.strip()[1:-1])
                    if b.strip() == prev:
                        new[m.group(1)] = self.val(env, t, v)
                        break
                else:
                    raise EngineGap('phi without predecessor')
            env.update(new)
            for ins in code[k:]:
                self.steps += 1
                if self.steps > MAXSTEPS:
                    raise EngineGap('IR step limit')
                r = self.step(env, ins)
                if r is not None:
                    if r[0] == 'ret':
                        return r[1]
                    prev, blk = blk, r[1]
                    break

    def truth(self, v):
        if isinstance(v, S.LB):
            return bool(v)
        return bool(v)

    def step(self, env, ins):
        dst = None
        m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', ins)
        if m:
            dst, ins = m.group(1), m.group(2)
        op, _, rest = ins.partition(' ')
        if op == 'br':
            if rest.startswith('label'):
                return ('br', rest[5:].strip())
            c, a, b = split_top(rest)[:3]
            v = self.val(env, 'i1', c[2:].strip())
            return ('br', (a if self.truth(v) else b).replace('label', '').strip())
        if op == 'ret':
            if rest.strip() == 'void':
                return ('ret', None)
            t, v = read_type(rest)
            return ('ret', self.val(env, t, v))
        if op == 'switch':
            m = re.match(r'(i\d+) ([^,]+), label (%\S+) \[(.*)\]', rest)
            v = self.val(env, m.group(1), m.group(2))
            for t, c, l in re.findall(r'(i\d+) (-?\d+), label (%[\w.$-]+)', m.group(4)):
                if int(c) & self.mask(t) == v:
                    return ('br', l)
            return ('br', m.group(3))
        if op == 'unreachable':
            raise OutOfBounds('unreachable executed')
        if op in ('tail', 'musttail', 'notail'):
            op, _, rest = rest.partition(' ')
        env_v = self.compute(env, op, rest)
        if dst is not None:
            env[dst] = env_v
        return None

    FLAGS = re.compile(r'^(?:nuw|nsw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|inbounds|volatile|disjoint|nneg|nusw|samesign)\s+')

    def flags(self, s):
        while True:
            m = self.FLAGS.match(s)
            if not m:
                return s
            s = s[m.end():]

    def compute(self, env, op, rest):
        rest = self.flags(rest)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            t, r = read_type(rest)
            a, b = [real_of(self.val(env, t, x)) for x in split_top(r)]
            return {'fadd': E.add2, 'fsub': E.sub2, 'fmul': E.mul2, 'fdiv': E.div2}[op](a, b)
        if op == 'fneg':
            t, r = read_type(rest)
            return E.mul2(E.const(-1), real_of(self.val(env, t, r)))
        if op == 'fcmp':
            pred, r = rest.split(' ', 1)
            t, r = read_type(self.flags(r))
            a, b = [real_of(self.val(env, t, x)) for x in split_top(r)]
            return self.fcmp(pred, a, b)
        if op == 'icmp':
            pred, r = rest.split(' ', 1)
            t, r = read_type(self.flags(r))
            a, b = [self.val(env, t, x) for x in split_top(r)]
            if t == 'ptr':
                if pred in ('eq', 'ne'):
                    return int((a == b) == (pred == 'eq'))
                if a[0] != b[0]:
                    raise EngineGap('pointer order')
                a, b = a[1], b[1]
                t = 'i64'
            if pred[0] == 's':
                a, b = self.signed(t, a), self.signed(t, b)
                pred = 'u' + pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}[pred])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            t, r = read_type(rest)
            a, b = [self.val(env, t, x) for x in split_top(r)]
            if isinstance(a, S.LB) or isinstance(b, S.LB):
                if t != 'i1' or op not in ('and', 'or', 'xor'):
                    raise EngineGap(f'{op} on a symbolic condition')
                a, b = [x if isinstance(x, S.LB) else bool(x) for x in (a, b)]
                return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
            mk = self.mask(t)
            if op in ('sdiv', 'srem', 'ashr'):
                sa, sb = self.signed(t, a), self.signed(t, b)
                if op == 'ashr':
                    return (sa >> b) & mk
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == 'sdiv' else sa - q * sb) & mk
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                    'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'udiv': lambda: a // b,
                    'urem': lambda: a % b}[op]() & mk
        if op == 'select':
            c, a, b = split_top(rest)
            tc, vc = read_type(c)
            cond = self.val(env, tc, vc)
            ta, va = read_type(a)
            tb, vb = read_type(b)
            x, y = self.val(env, ta, va), self.val(env, tb, vb)
            if isinstance(cond, S.LB) and ta == 'i1':
                # select c, a, false  ==  c && a
                if y == 0 and not isinstance(y, S.LB):
                    return cond & (x if isinstance(x, S.LB) else bool(x))
                if not isinstance(x, S.LB) and x == 1:
                    return cond | (y if isinstance(y, S.LB) else bool(y))
            return x if self.truth(cond) else y
        if op == 'getelementptr':
            parts = split_top(rest)
            t = parts[0]
            _, p = read_type(parts[1])
            obj, off = self.val(env, 'ptr', p)
            for n, ix in enumerate(parts[2:]):
                it, iv = read_type(ix)
                i = self.signed(it, self.val(env, it, iv))
                if n == 0:
                    off += i * self.mod.size(t)
                else:
                    o, t = self.mod.field(t, i)
                    off += o
            return (obj, off)
        if op == 'load':
            parts = split_top(rest)
            _, p = read_type(parts[1])
            return self.load(parts[0], self.val(env, 'ptr', p))
        if op == 'store':
            parts = split_top(rest)
            t, v = read_type(parts[0])
            _, p = read_type(parts[1])
            return self.store(t, self.val(env, t, v), self.val(env, 'ptr', p))
        if op == 'alloca':
            parts = split_top(rest)
            n = 1
            if len(parts) > 1 and not parts[1].startswith('align'):
                it, iv = read_type(parts[1])
                n = self.val(env, it, iv)
            return (Obj(n * self.mod.size(parts[0])), 0)
        if op == 'extractvalue':
            parts = split_top(rest)
            t, v = read_type(parts[0])
            x = self.val(env, t, v)
            for i in parts[1:]:
                x = x[int(i)]
            return x
        if op == 'insertvalue':
            parts = split_top(rest)
            t, v = read_type(parts[0])
            et, ev = read_type(parts[1])
            x = list(self.val(env, t, v))
            if len(parts) > 3:
                raise EngineGap('nested insertvalue')
            x[int(parts[2])] = self.val(env, et, ev)
            return x
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            t, r = read_type(rest)
            v, _, t2 = r.partition(' to ')
            x = self.val(env, t, v)
            if isinstance(x, S.LB):
                if op == 'freeze':
                    return x
                x = int(bool(x))
            if op == 'sext':
                return self.signed(t, x) & self.mask(t2.strip())
            if op == 'trunc':
                return x & self.mask(t2.strip())
            if op == 'bitcast' and t != t2.strip():
                raise EngineGap('bitcast')
            return x
        if op in ('sitofp', 'uitofp'):
            t, r = read_type(rest)
            v = r.partition(' to ')[0]
            x = self.val(env, t, v)
            if isinstance(x, S.LB):
                x = int(bool(x))
            return E.const(float(self.signed(t, x) if op == 'sitofp' else x))
        if op in ('call', 'invoke'):
            rest = re.sub(r'^(?:(?:fastcc|ccc|nnan|ninf|nsz|arcp|contract|afn|reassoc|fast)\s+)*', '', rest)
            rest = strip_attrs(rest)
            m = re.search(r'@("[^"]+"|[\w.$-]+)\(', rest)
            if not m:
                raise EngineGap('indirect call')
            name = m.group(1).strip('"')
            d = 0
            for k in range(m.end() - 1, len(rest)):
                if rest[k] == '(':
                    d += 1
                elif rest[k] == ')':
                    d -= 1
                    if d == 0:
                        break
            args = []
            for p in split_top(rest[m.end():k]):
                t, v = read_type(p)
                if t == 'metadata':
                    continue
                args.append(self.val(env, t, strip_attrs(v)))
            return self.call(name, args)
        if op == 'fence':
            return None
        raise EngineGap(f'IR instruction {op}')

    def fcmp(self, pred, a, b):
        isn = a.op == 'nan' or b.op == 'nan'
        if pred == 'uno':
            return int(isn)
        if pred == 'ord':
            return int(not isn)
        if pred in ('true', 'false'):
            return int(pred == 'true')
        if isn:
            return int(pred[0] == 'u')
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b,
             'le': lambda: a <= b}[pred[1:]]()
        return r if isinstance(r, S.LB) else int(bool(r))

    # memory
    def at(self, p, n):
        obj, off = p
        if not isinstance(obj, Obj):
            raise OutOfBounds(f'access through {"a null pointer" if obj is None else obj}')
        if off < 0 or off + n > obj.size:
            raise OutOfBounds(f'access of {n} bytes at offset {off} of an object of {obj.size} bytes')
        return obj, off

    def load(self, t, p):
        if t in self.mod.types or t[0] in '{[':
            n = len(split_top(self.mod.types.get(t, t)[1:-1])) if t[0] != '[' else int(re.match(r'\[(\d+)', t).group(1))
            return [self.load(self.mod.field(t, i)[1], (p[0], p[1] + self.mod.field(t, i)[0])) for i in range(n)]
        obj, off = self.at(p, self.mod.size(t))
        v = obj.cells.get(off)
        if v is None:
            if t in ('double',):
                return E.fun('opaque:uninit')
            raise EngineGap('read of uninitialised memory')
        if v[0] == 'zero':
            return self.zero(t)
        if (v[0] == 'double') != (t == 'double') or (v[0] != t):
            raise EngineGap(f'load {t} of a stored {v[0]}')
        return v[1]

    def store(self, t, v, p):
        if t in self.mod.types or t[0] in '{[':
            for i, x in enumerate(v):
                o, et = self.mod.field(t, i)
                self.store(et, x, (p[0], p[1] + o))
            return None
        obj, off = self.at(p, self.mod.size(t))
        obj.cells[off] = (t, v)
        return None

    def extern(self, name, args):
        if name in MATH:
            return MATH[name](real_of(args[0]))
        m = re.match(r'llvm\.(\w+)\.f64', name)
        if m and m.group(1) in MATH:
            return MATH[m.group(1)](real_of(args[0]))
        if m and m.group(1) in ('fmuladd', 'fma'):
            a, b, c = map(real_of, args)
            return E.add2(E.mul2(a, b), c)
        if name in ('fma',):
            a, b, c = map(real_of, args)
            return E.add2(E.mul2(a, b), c)
        if name == 'pow' or (m and m.group(1) in ('pow', 'powi')):
            b = args[1]
            return E.pow2(real_of(args[0]), E.const(b) if isinstance(b, int) else real_of(b))
        if name == 'hypot':
            return E.shypot(*map(real_of, args))
        if name == 'atan2':
            return E.satan2(*map(real_of, args))
        if name == 'log1p':
            return E.slog(E.add2(E.const(1.0), real_of(args[0])))
        if name == 'ldexp' or (m and m.group(1) == 'ldexp'):
            n = self.signed('i32', args[1])
            return E.mul2(real_of(args[0]), E.const(2.0 ** n))
        if (m and m.group(1) in ('maxnum', 'minnum')) or name in ('fmax', 'fmin'):
            a, b = map(real_of, args)
            mx = 'max' in name
            return a if bool(a >= b) == mx else b
        if name.startswith('__cx_'):
            f = name[5:]
            if f in CX2:
                return halves(CX2[f](join(args[0], args[1]), join(args[2], args[3])))
            if f in CX1:
                return halves(CX1[f](join(args[0], args[1])))
            if f == 'abs':
                return E.sabs(join(args[0], args[1]))
        if name in ('_Znwm', 'malloc', '_Znam'):
            return (Obj(args[0]), 0)
        if name in ('_ZdlPv', '_ZdlPvm', 'free', '_ZdaPv'):
            return None
        if name.startswith('llvm.memset'):
            (obj, off), v, n = args[0], args[1], args[2]
            if n == 0:
                return None
            if v != 0:
                raise EngineGap('memset to a non-zero byte')
            self.at(args[0], n)
            for k in range(n):
                obj.cells[off + k] = ('zero', 0)
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            (do, dof), (so, sof), n = args[0], args[1], args[2]
            if n == 0:
                return args[0]
            self.at(args[0], n)
            self.at(args[1], n)
            cp = {k: so.cells.get(sof + k) for k in range(n)}
            for k, v in cp.items():
                if v is None:
                    do.cells.pop(dof + k, None)
                else:
                    do.cells[dof + k] = v
            return args[0]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.dbg') \
                or name.startswith('llvm.experimental.noalias'):
            return None
        m2 = re.match(r'llvm\.(umax|umin|smax|smin)\.(i\d+)', name)
        if m2:
            a, b = args
            k = (lambda x: self.signed(m2.group(2), x)) if m2.group(1)[0] == 's' else (lambda x: x)
            return (max if 'max' in name else min)(a, b, key=k)
        raise EngineGap(f'external function {name}')


# ------------------------------------------------------- python-facing symbolic modules
PATHS = {}          # filled by prepare()
_MODS = {}


def prepare(scratch):
    PATHS.update(compile_ir(scratch))


def module(kind):
    if kind not in _MODS:
        if kind not in PATHS:
            import tempfile
            prepare(tempfile.mkdtemp(prefix='geoana_ir_', dir=os.environ.get('TMPDIR', '/tmp')))
        _MODS[kind] = Module(PATHS[kind])
    return _MODS[kind]


PRISM = ('prism_f', 'prism_fz', 'prism_fzz', 'prism_fzx', 'prism_fzy', 'prism_fzzz', 'prism_fxxy', 'prism_fxxz', 'prism_fxyz')


def _prism(short):
    mod = module('prism')
    full = [n for n in mod.funcs if n.endswith('_' + short) and '__pyx_f_' in n]
    if len(full) != 1:
        full = [n for n in full if re.search(r'potential_field_prism_' + short + '$', n)]
    if len(full) != 1:
        raise EngineGap(f'kernel {short} not found in the IR: {full}')
    name = full[0]

    def f(x, y, z):
        return Machine(mod).call(name, [E.as_kind(E.const(v), 'f') for v in (x, y, z)])
    g = S._elementwise(f, 'f')
    g.__name__ = short
    return g


def prism_module(types):
    m = types.ModuleType('geoana.kernels._extensions.potential_field_prism')

    def ga(name):
        if name in PRISM:
            g = _prism(name)
            setattr(m, name, g)
            return g
        raise AttributeError(name)
    m.__getattr__ = ga
    return m


# --- rTE.pyx: the Cython wrapper, transliterated to Python line by line ------------------
def pyx_to_python(src):
    """Cython source of rTE.pyx -> Python source.  Only declarations are rewritten."""
    out = []
    lines = src.split('\n')
    i = 0
    ctype = r'(?:const\s+)?[A-Za-z_][\w.]*(?:\[[^\]]*\])?(?:\s*\*)*'

    def decl(s):
        """one C declaration -> python assignment(s) or pass"""
        s = s.strip()
        if not s or s.startswith('#'):
            return s
        m = re.match(r'(' + ctype + r')\s+(\**\s*[A-Za-z_]\w*\s*=.*)$', s)
        if m and '=' in s:
            rhs = m.group(2).lstrip('* ')
            return expr(rhs)
        m = re.match(ctype + r'\s+[\w\s,*]+$', s)
        if m:
            return 'pass'
        raise EngineGap(f'cannot read the Cython declaration {s!r}')

    def expr(s):
        s = re.sub(r'<[^<>]*\*?\s*>\s*(?=&|[A-Za-z_])', '', s)
        s = re.sub(r'&\s*([A-Za-z_]\w*)\s*\[([^\]]*)\]', r'__addr(\1, (\2,))', s)
        s = re.sub(r'\bNULL\b', 'None', s)
        return s
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if st.startswith(('cimport ', 'from libc', 'ctypedef ')) or re.match(r'from \S+ cimport', st):
            i += 1
            continue
        if st.startswith('cdef extern'):
            i += 1
            while i < len(lines) and (not lines[i].strip() or lines[i].startswith((' ', '\t'))):
                i += 1
            continue
        if re.match(r'cdef\s*:\s*(#.*)?$', st):
            i += 1
            while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > len(ind)):
                t = lines[i]
                i += 1
                if t.strip():
                    while t.count('(') + t.count('[') > t.count(')') + t.count(']'):
                        t += ' ' + lines[i].strip()
                        i += 1
                    out.append(ind + decl(t))
            continue
        if st.startswith('cdef ') and not st.rstrip().endswith(':'):
            t = st[5:]
            while t.count('(') + t.count('[') > t.count(')') + t.count(']'):
                i += 1
                t += ' ' + lines[i].strip()
            out.append(ind + decl(t))
            i += 1
            continue
        if st.startswith(('cdef ', 'cpdef ')):
            m = re.match(r'(?:cdef|cpdef)\s+(?:inline\s+)?.*?([A-Za-z_]\w*)\((.*)\)[^()]*:\s*$', st)
            if not m:
                raise EngineGap(f'cannot read the Cython function {st!r}')
            ps = []
            for p in split_top(m.group(2)):
                a, eq, dflt = p.partition('=')
                ps.append(a.strip().split()[-1].lstrip('*') + (eq + dflt if eq else ''))
            out.append(f'{ind}def {m.group(1)}({", ".join(ps)}):')
            i += 1
            continue
        if re.match(r'with\s+(nogil|gil)\s*:', st):
            out.append(ind + 'if True:')
            i += 1
            continue
        if st.startswith('@cython.'):
            i += 1
            continue
        out.append(expr(ln) if not st.startswith(('#', '"""')) else ln)
        i += 1
    return '\n'.join(out)


class Addr:
    def __init__(self, arr, off):
        self.arr, self.off = arr, off


class View:
    """typed memoryview over a symbolic array."""


def addr(a, ix):
    a = a if isinstance(a, np.ndarray) else S.mk(a)
    raw = S.rawarr(a)
    for n, (i, d) in enumerate(zip(ix, raw.shape)):
        if not -d <= int(i) < d:
            raise IndexError('Out of bounds on buffer access (axis %d)' % n)
    if any(int(i) != 0 for i in ix):
        raise EngineGap('address of an inner element')
    return a


def to_mem(a, cplx):
    """buffer in memory order, as the C code sees it through a pointer to element 0."""
    if a is None:
        return (None, 0), None
    raw = S.rawarr(a)
    if not (raw.flags['C_CONTIGUOUS'] or raw.flags['F_CONTIGUOUS']):
        raise EngineGap('non-contiguous buffer passed to C')
    flat = raw.ravel(order='K')
    n = 16 if cplx else 8
    o = Obj(n * flat.size)
    for k, v in enumerate(flat):
        if v is None:
            continue
        v = v if isinstance(v, E.Sym) else E.const(v)
        if cplx:
            re_, im_ = halves(v)
            o.cells[16 * k] = ('double', re_)
            o.cells[16 * k + 8] = ('double', im_)
        else:
            o.cells[8 * k] = ('double', E.as_kind(v, 'f'))
    return (o, 0), raw


def from_mem(p, raw, cplx):
    o = p[0]
    order = raw.ravel(order='K')
    vals = []
    for k in range(order.size):
        if cplx:
            c = [o.cells.get(16 * k), o.cells.get(16 * k + 8)]
            if None in c:
                vals.append(E.as_kind(E.fun('opaque:uninit'), 'c'))
                continue
            c = [E.const(0.0) if x[0] == 'zero' else x[1] for x in c]
            vals.append(join(*c))
        else:
            vals.append(real_of(o.cells[8 * k][1]))
    # write back in memory order
    idx = np.arange(raw.size).reshape(raw.shape, order='F' if raw.flags['F_CONTIGUOUS'] and not raw.flags['C_CONTIGUOUS'] else 'C')
    for ix in np.ndindex(raw.shape):
        raw[ix] = vals[idx[ix]]


def c_function(suffix, n_out):
    def f(*args):
        mod = module('rte')
        names = [n for n in mod.funcs if re.search(r'funcs\d+' + suffix + r'E', n)]
        if len(names) != 1:
            raise EngineGap(f'function {suffix} not found in the IR: {names}')
        fn = mod.funcs[names[0]]
        sig = re.search(r'funcs\d+' + suffix + r'E(.*)$', names[0]).group(1)
        cargs, outs = [], []
        for k, a in enumerate(args):
            if a is None or isinstance(a, np.ndarray):
                cplx = True
                if a is not None and getattr(a, '_k', 'f') != 'c':
                    cplx = False
                p, raw = to_mem(a, cplx)
                cargs.append(p)
                if raw is not None and k < n_out:
                    outs.append((p, raw, cplx))
            else:
                cargs.append(int(a) & ((1 << 64) - 1))
        if len(cargs) != len(fn.params):
            raise EngineGap('C signature changed')
        Machine(mod).call(names[0], cargs)
        for p, raw, cplx in outs:
            from_mem(p, raw, cplx)
    return f


def rte_module(world, types):
    import ast
    path = os.path.join(repo(), 'geoana', 'kernels', '_extensions', 'rTE.pyx')
    with open(path) as f:
        src = pyx_to_python(f.read())
    from .loader import _Lit
    m = types.ModuleType('geoana.kernels._extensions.rTE')
    m.__dict__['__builtins__'] = world.builtins
    m.__package__ = 'geoana.kernels._extensions'
    m.__dict__.update(__addr=addr, rTE=c_function('rTE', 1), rTEgrad=c_function('rTEgrad', 3))
    try:
        tree = ast.parse(src, path)
    except SyntaxError as e:
        raise EngineGap(f'rTE.pyx could not be read: {e}')
    tree = ast.fix_missing_locations(_Lit().visit(tree))
    exec(compile(tree, path, 'exec'), m.__dict__)
    world.files.add(path)
    world.files.add(os.path.join(os.path.dirname(path), '_rTE.cpp'))
    return m
