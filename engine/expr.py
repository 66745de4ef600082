"""Symbolic scalars: a hash-consed expression DAG with sympy-like light automatic
simplification (linear combinations and products are collected).  Values are exact
reals / complex numbers.  Comparisons fork the current symbolic path."""
from fractions import Fraction
import math
import numpy as np

F0, F1 = Fraction(0), Fraction(1)


GAPS = []


class EngineGap(Exception):
    """The engine cannot model something the code did.  Logged on construction, because
    the code under test contains bare excepts."""

    def __init__(self, *a):
        super().__init__(*a)
        GAPS.append(a)


# ----------------------------------------------------------------------------- context
class _Ctx:
    explorer = None      # current path explorer (decides comparisons)
    n_nodes = 0


CTX = _Ctx()
_TABLE = {}
KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def kmax(ks):
    return max(ks, key=KORD.__getitem__)


class Sym:
    __slots__ = ('op', 'args', 'data', 'kind', 'id', '_h', '__weakref__')
    __array_priority__ = 1000.0

    # -- construction -----------------------------------------------------------
    def __reduce__(self):
        raise EngineGap('pickling Sym')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)

    # -- arithmetic -------------------------------------------------------------
    def __add__(self, o):
        return _bin(self, o, np.add, add2)

    def __radd__(self, o):
        return _bin(o, self, np.add, add2)

    def __sub__(self, o):
        return _bin(self, o, np.subtract, sub2)

    def __rsub__(self, o):
        return _bin(o, self, np.subtract, sub2)

    def __mul__(self, o):
        return _bin(self, o, np.multiply, mul2)

    def __rmul__(self, o):
        return _bin(o, self, np.multiply, mul2)

    def __truediv__(self, o):
        return _bin(self, o, np.true_divide, div2)

    def __rtruediv__(self, o):
        return _bin(o, self, np.true_divide, div2)

    def __floordiv__(self, o):
        return _bin(self, o, np.floor_divide, floordiv2)

    def __rfloordiv__(self, o):
        return _bin(o, self, np.floor_divide, floordiv2)

    def __mod__(self, o):
        return _bin(self, o, np.mod, mod2)

    def __rmod__(self, o):
        return _bin(o, self, np.mod, mod2)

    def __pow__(self, o):
        return _bin(self, o, np.power, pow2)

    def __rpow__(self, o):
        return _bin(o, self, np.power, pow2)

    def __neg__(self):
        return mul2(const(-1), self, kind=self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    # -- comparison: forks ------------------------------------------------------
    def __lt__(self, o):
        return _cmp(self, o, np.less, 'lt')

    def __le__(self, o):
        return _cmp(self, o, np.less_equal, 'le')

    def __gt__(self, o):
        return _cmp(self, o, np.greater, 'gt')

    def __ge__(self, o):
        return _cmp(self, o, np.greater_equal, 'ge')

    def __eq__(self, o):
        return _cmp(self, o, np.equal, 'eq')

    def __ne__(self, o):
        return _cmp(self, o, np.not_equal, 'ne')

    def __bool__(self):
        return not bool(decide('eq', self, const(0)))

    def __float__(self):
        v = cval(self)
        if v is None:
            if self.op == 'inf':
                return math.inf * self.data
            if self.op == 'nan':
                return math.nan
            raise EngineGap('float() of a symbolic value')
        return float(v)

    def __int__(self):
        v = cval(self)
        if v is None:
            raise EngineGap('int() of a symbolic value')
        return int(v)

    def __index__(self):
        v = cval(self)
        if v is None or v.denominator != 1 or self.kind != 'i':
            raise TypeError('only integer scalars can be used as an index')
        return int(v)

    def __complex__(self):
        v = cval(self)
        if v is not None:
            return complex(float(v))
        raise EngineGap('complex() of a symbolic value')

    def __round__(self, n=None):
        raise EngineGap('round() of a symbolic value')

    def __format__(self, spec):
        return repr(self)

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")

    # -- numpy scalar look-alike -------------------------------------------------
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return {'i': np.dtype(int), 'f': np.dtype(float), 'c': np.dtype(complex)}[self.kind]

    @property
    def real(self):
        return sreal(self)

    @property
    def imag(self):
        return simag(self)

    def conj(self):
        return sconj(self)

    conjugate = conj

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def astype(self, dtype, **k):
        from . import symnp
        return symnp.cast_scalar(self, symnp.dkind(dtype))

    def _arr(self):
        from . import symnp
        return symnp.mk(self)

    def __getitem__(self, ix):
        return self._arr()[ix]

    def __getattr__(self, name):
        # array methods of numpy scalars: reshape, squeeze, sum, ...
        if name in ('reshape', 'squeeze', 'sum', 'flatten', 'ravel', 'repeat', 'max', 'min',
                    'mean', 'prod', 'any', 'all', 'transpose', 'dot', 'flat', 'round', 'clip'):
            return getattr(self._arr(), name)
        # numpy calls these on object-array elements
        if name in _METHS:
            f = _METHS[name]
            return lambda *a: f(self, *a)
        raise AttributeError(name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp
        return symnp.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.array_function(func, args, kwargs)


def _mk(op, args=(), data=None, kind='f'):
    key = (op, tuple(a.id for a in args), data, kind)
    n = _TABLE.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op, n.args, n.data, n.kind = op, args, data, kind
        n.id = CTX.n_nodes
        CTX.n_nodes += 1
        n._h = hash(('sym', n.id))
        _TABLE[key] = n
    return n


def reset():
    _TABLE.clear()


# ------------------------------------------------------------------------------ consts
_CONSTCACHE = {}


def float_to_fraction(x):
    """Exact-real reading of a float constant: nearest simple rational / decimal that
    rounds to exactly this float, otherwise the binary value itself."""
    fr = _CONSTCACHE.get(x)
    if fr is not None:
        return fr
    if x == int(x) and abs(x) < 2 ** 53:
        fr = Fraction(int(x))
    else:
        f = Fraction(x)
        g = f.limit_denominator(2000)
        if g != 0 and float(g) == x:
            fr = g
        else:
            d = Fraction(repr(float(x)))
            fr = d if len(repr(float(x)).replace('-', '').replace('.', '').split('e')[0].strip('0')) <= 12 else f
    _CONSTCACHE[x] = fr
    return fr


SHORTCUT = False        # and/or of comparisons: look for an operand the path settles before splitting
LAZY_MAX = False        # np.max of symbolic values stays one node (used only inside comparisons)


def pi_multiple(x):
    """Recognise a float as q*pi^e (q a simple rational); returns (q, e) or None."""
    for e in (1, -1, 2, -2, Fraction(1, 2), Fraction(-1, 2)):
        v = x / math.pi ** float(e)
        if v == 0 or abs(v) > 1e12 or abs(v) < 1e-12:
            continue
        g = Fraction(v).limit_denominator(64)
        for cand in (g, Fraction(v * 1e7).limit_denominator(64) / 10 ** 7):
            if cand != 0:
                w = float(cand) * math.pi ** float(e)
                if abs(w - x) <= 2.5e-16 * abs(x) * 2:
                    return cand, e
    return None


def const(v, kind=None):
    if isinstance(v, Sym):
        return v
    if isinstance(v, Fraction):
        return _mk('const', (), v, kind or 'f')
    if isinstance(v, (bool, np.bool_)):
        return _mk('const', (), Fraction(int(v)), kind or 'i')
    if isinstance(v, (int, np.integer)):
        return _mk('const', (), Fraction(int(v)), kind or 'i')
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v:
            return nan()
        if v in (math.inf, -math.inf):
            return _mk('inf', (), 1 if v > 0 else -1, 'f')
        fr = float_to_fraction(v)
        if fr.denominator > 10 ** 6 or fr.numerator > 10 ** 12:
            pm = pi_multiple(v)
            if pm is not None:
                return mul2(_mk('const', (), pm[0], 'f'), pow_(PI(), Fraction(pm[1])))
        return _mk('const', (), fr, kind or 'f')
    if isinstance(v, (complex, np.complexfloating)):
        re, im = const(float(v.real)), const(float(v.imag))
        return as_kind(add2(re, mul2(im, I())), 'c')
    raise EngineGap(f'cannot lift {type(v)} to a symbolic scalar')


def as_kind(n, kind):
    """Same value with the kind tag changed (promotion only relabels)."""
    if n.kind == kind:
        return n
    if n.op in ('const', 'var', 'add', 'mul', 'pow', 'pi', 'fun', 'nan', 'inf', 'I'):
        return _mk(n.op, n.args, n.data, kind)
    return _mk(n.op, n.args, n.data, kind)


def PI():
    return _mk('pi', (), None, 'f')


def I():
    return _mk('I', (), None, 'c')


def nan():
    return _mk('nan', (), None, 'f')


def var(name, kind='f'):
    return _mk('var', (), name, kind)


def fun(name, *args, kind='f'):
    return _mk('fun', tuple(args), name, kind)


def cval(n):
    return n.data if n.op == 'const' else None


def is_nan(n):
    return n.op == 'nan'


def strip(n):
    """Kind-insensitive identity key for term collection."""
    return n


# -------------------------------------------------------------------------- arithmetic
def _scalar(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (int, float, complex, np.number, np.bool_, Fraction)):
        return const(o)
    return None


def _bin(a, b, ufunc, f):
    x, y = _scalar(a), _scalar(b)
    if x is None or y is None:
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            from . import symnp
            return symnp.array_ufunc(ufunc, '__call__', (a, b), {})
        return NotImplemented
    return f(x, y)


def _cmp(a, b, ufunc, rel):
    x, y = _scalar(a), _scalar(b)
    if x is None or y is None:
        if isinstance(b, (np.ndarray, list, tuple)):
            from . import symnp
            return symnp.array_ufunc(ufunc, '__call__', (a, b), {})
        if rel == 'eq':
            return False
        if rel == 'ne':
            return True
        return NotImplemented
    if LAZY is not None and x.kind != 'c' and y.kind != 'c' and CTX.explorer is not None and cval(sub2(x, y)) is None \
            and x.op not in ('nan', 'inf') and y.op not in ('nan', 'inf'):
        return LAZY(rel, x, y)
    return decide(rel, x, y)


LAZY = None


def decide(rel, x, y):
    if rel == 'gt':
        rel, x, y = 'lt', y, x
    elif rel == 'ge':
        rel, x, y = 'le', y, x
    if is_nan(x) or is_nan(y):
        return np.bool_(rel == 'ne')
    if x.op == 'inf' or y.op == 'inf':
        xv = x.data * math.inf if x.op == 'inf' else 0.0
        yv = y.data * math.inf if y.op == 'inf' else 0.0
        return np.bool_({'lt': xv < yv, 'le': xv <= yv, 'eq': xv == yv, 'ne': xv != yv}[rel])
    neg = False
    if rel == 'ne':
        rel, neg = 'eq', True
    d = sub2(x, y)
    if x.kind == 'c' or y.kind == 'c':
        if rel != 'eq':
            raise TypeError('ordering of complex numbers')
        re, im = sreal(d), simag(d)
        r = bool(_decide0('eq', re)) and bool(_decide0('eq', im))
    else:
        r = _decide0(rel, d)
    return np.bool_(bool(r) != neg)


def forced(rel, x, y):
    """truth of x rel y where the path settles it (never splits), else None."""
    ex = CTX.explorer
    if ex is None or x.kind == 'c' or y.kind == 'c':
        return None
    ex.probing += 1
    try:
        return bool(decide(rel, x, y))
    except Unsettled:
        return None
    finally:
        ex.probing -= 1


class Unsettled(Exception):
    pass


def _decide0(rel, d):
    """Truth of  d rel 0."""
    v = cval(d)
    if v is not None:
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[rel]
    if is_nan(d):
        return False
    if CTX.explorer is None:
        raise EngineGap('comparison of symbolic values outside of an exploration')
    return CTX.explorer.decide(rel, d)


# Add nodes: data = ((node_id coefs...)) ; we keep args=(terms...), data=(const, (coefs...))
def _add_parts(n):
    """n as (const, {node: coef})."""
    if n.op == 'const':
        return n.data, {}
    if n.op == 'add':
        c, cs = n.data
        return c, dict(zip(n.args, cs))
    if n.op == 'mul':
        c, es = n.data
        if c != 1:
            base = _mkmul(F1, dict(zip(n.args, es)), n.kind)
            if base.op == 'add':
                c0, d = _add_parts(base)
                return c0 * c, {k: v * c for k, v in d.items()}
            return F0, {_retag(base): c}
    return F0, {_retag(n): F1}


def _retag(n):
    """Natural kind inside collected terms: the dtype tag only matters at the top."""
    if n.op in ('var', 'const', 'pi'):
        return as_kind(n, 'f')
    if n.op in ('add', 'mul'):
        k = 'c' if any(a.kind == 'c' for a in n.args) else 'f'
        return as_kind(n, k)
    return n


def _mkadd(c, d, kind):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return _mk('const', (), c, kind)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return as_kind(k, kind)
        return mul2(_mk('const', (), v, kind), k, kind=kind)
    ks = sorted(d, key=lambda n: n.id)
    return _mk('add', tuple(ks), (c, tuple(d[k] for k in ks)), kind)


def add2(a, b, kind=None):
    kind = kind or kmax((a.kind, b.kind))
    if is_nan(a) or is_nan(b):
        return nan()
    if a.op == 'inf' or b.op == 'inf':
        if a.op == 'inf' and b.op == 'inf':
            return a if a.data == b.data else nan()
        return a if a.op == 'inf' else b
    ca, da = _add_parts(a)
    cb, db = _add_parts(b)
    if len(db) > len(da):
        da, db = db, da
    out = dict(da)
    for k, v in db.items():
        out[k] = out.get(k, F0) + v
    return _mkadd(ca + cb, out, kind)


def sub2(a, b, kind=None):
    kind = kind or kmax((a.kind, b.kind))
    return add2(a, mul2(const(-1), b, kind=kind), kind=kind)


def addn(terms, kind='f'):
    c, out = F0, {}
    for t in terms:
        if t.op in ('nan', 'inf'):
            r = terms[0]
            for u in terms[1:]:
                r = add2(r, u)
            return r
        ct, dt = _add_parts(t)
        c += ct
        for k, v in dt.items():
            out[k] = out.get(k, F0) + v
        kind = kmax((kind, t.kind))
    return _mkadd(c, out, kind)


def _mul_parts(n):
    """n as (coef, {base: exponent})."""
    if n.op == 'const':
        return n.data, {}
    if n.op == 'mul':
        c, es = n.data
        return c, dict(zip(n.args, es))
    return F1, {_retag(n): 1}


def _mkmul(c, d, kind):
    if c == 0:
        return _mk('const', (), F0, kind)
    # I powers, sqrt squares
    out = {}
    again = []
    for k, e in d.items():
        if e == 0:
            continue
        if k.op == 'I':
            e = int(e) % 4
            if e >= 2:
                c = -c
                e -= 2
            if e:
                out[k] = e
            continue
        if k.op == 'fun' and k.data == 'sqrt' and e in (2, -2):
            again.append((k.args[0], e // 2))
            continue
        if k.op == 'fun' and k.data == 'abs' and e == 2 and k.args[0].kind != 'c':
            again.append((k.args[0], e))
            continue
        out[k] = e
    if again:
        r = _mkmul(c, out, kind)
        for k, e in again:
            r = mul2(r, pow_(k, e), kind=kind)
        return r
    if not out:
        return _mk('const', (), c, kind)
    if c == 1 and len(out) == 1:
        (k, e), = out.items()
        if e == 1:
            return as_kind(k, kind)
    ks = sorted(out, key=lambda n: n.id)
    return _mk('mul', tuple(ks), (c, tuple(out[k] for k in ks)), kind)


def mul2(a, b, kind=None):
    kind = kind or kmax((a.kind, b.kind))
    if is_nan(a) or is_nan(b):
        return nan()
    if a.op == 'inf' or b.op == 'inf':
        x, y = (a, b) if a.op == 'inf' else (b, a)
        if y.op == 'inf':
            return _mk('inf', (), x.data * y.data, 'f')
        v = cval(y)
        if v is None:
            v = 1 if bool(decide('lt', const(0), y)) else (-1 if bool(decide('lt', y, const(0))) else 0)
        if v == 0:
            return nan()
        return _mk('inf', (), x.data * (1 if v > 0 else -1), 'f')
    ca, da = _mul_parts(a)
    cb, db = _mul_parts(b)
    out = dict(da)
    for k, v in db.items():
        out[k] = out.get(k, 0) + v
    return _mkmul(ca * cb, out, kind)


def div2(a, b):
    kind = kmax((a.kind, b.kind, 'f'))
    if is_nan(a) or is_nan(b):
        return nan()
    if b.op == 'inf':
        return nan() if a.op == 'inf' else _mk('const', (), F0, kind)
    if cval(b) == 0:
        if cval(a) == 0:
            return nan()
        s = 1
        if a.kind != 'c':
            s = 1 if bool(decide('lt', const(0), a)) else (-1 if bool(decide('lt', a, const(0))) else 0)
        return nan() if s == 0 else _mk('inf', (), s, 'f')
    if CTX.explorer is not None:
        CTX.explorer.note_div(b)
    return mul2(a, pow_(b, -1), kind=kind)


def pow_(b, e):
    """b**e for integer e (or fractional e on positive symbols such as pi)."""
    kind = b.kind
    if is_nan(b):
        return b
    if e == 0:
        return _mk('const', (), F1, kind)
    if e == 1:
        return b
    v = cval(b)
    if v is not None:
        if isinstance(e, int) or e.denominator == 1:
            if v == 0 and e < 0:
                return _mk('inf', (), 1, 'f')
            return _mk('const', (), v ** int(e), kind if e > 0 else kmax((kind, 'f')))
    if b.op == 'inf':
        return _mk('inf', (), 1 if e % 2 == 0 else b.data, 'f') if e > 0 else _mk('const', (), F0, 'f')
    c, d = _mul_parts(b)
    if e < 0:
        kind = kmax((kind, 'f'))
    if c == 0 and e < 0:
        return _mk('inf', (), 1, 'f')
    return _mkmul(c ** int(e) if c != 1 else F1, {k: x * e for k, x in d.items()}, kind)


def pow2(a, b):
    kind = kmax((a.kind, b.kind))
    e = cval(b)
    if e is None:
        if cval(a) is not None and cval(a) > 0:
            return sexp(mul2(b, slog(a)))
        raise EngineGap('power with a symbolic exponent')
    if e.denominator == 1:
        if e < 0 and a.kind == 'i' and b.kind == 'i':
            raise ValueError('Integers to negative integer powers are not allowed.')
        if e < 0:
            return as_kind_up(div2(const(1), pow_(a, -int(e))), kind)
        return as_kind_up(pow_(a, int(e)), kind)
    if e.denominator == 2:
        r = ssqrt(a)
        k = int(e * 2)
        if k < 0:
            return div2(const(1), pow_(r, -k))
        return as_kind_up(pow_(r, k), kind)
    ea = cval(a)
    # general rational power of a positive real
    return fun('rpow', a, _mk('const', (), e, 'f'), kind=kmax((kind, 'f')))


def as_kind_up(n, kind):
    return n if KORD[n.kind] >= KORD[kind] else as_kind(n, kind)


def floordiv2(a, b):
    va, vb = cval(a), cval(b)
    if va is not None and vb:
        return const(Fraction(va // vb), kind=kmax((a.kind, b.kind)))
    raise EngineGap('floor division of symbolic values')


def mod2(a, b):
    va, vb = cval(a), cval(b)
    if va is not None and vb:
        return const(Fraction(va % vb), kind=kmax((a.kind, b.kind)))
    return fun('mod', a, b, kind=kmax((a.kind, b.kind)))


# --------------------------------------------------------------------------- functions
def _isqrt_frac(v):
    if v < 0:
        return None
    a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Fraction(a, b)
    return None


def ssqrt(a):
    if is_nan(a) or a.op == 'inf':
        return a
    v = cval(a)
    if v is not None:
        r = _isqrt_frac(v)
        if r is not None:
            return const(r, kind=kmax((a.kind, 'f')))
        if v < 0:
            if a.kind != 'c':
                return nan()
            return mul2(I(), ssqrt(const(-v, kind='f')))
    if a.op == 'mul' and a.data[0] != 1 and a.kind != 'c':
        r = _isqrt_frac(a.data[0])
        if r is not None:
            return mul2(const(r), fun('sqrt', _mkmul(F1, dict(zip(a.args, a.data[1])), a.kind), kind='f'))
    return fun('sqrt', as_kind(a, 'f') if a.kind == 'i' else a, kind=kmax((a.kind, 'f')))


def sabs(a):
    if is_nan(a):
        return a
    if a.op == 'inf':
        return _mk('inf', (), 1, 'f')
    v = cval(a)
    if v is not None:
        return const(abs(v), kind=a.kind)
    if a.kind == 'c':
        re, im = sreal(a), simag(a)
        if cval(im) == 0:
            return sabs(re)
        return ssqrt(add2(pow_(re, 2), pow_(im, 2)))
    if a.op == 'fun' and a.data in ('sqrt', 'exp', 'abs'):
        return a
    if a.op == 'mul' and a.data[0] < 0:
        return sabs(mul2(const(-1), a, kind=a.kind))
    return fun('abs', a, kind=a.kind)


def sexp(a):
    if is_nan(a):
        return a
    if a.op == 'inf':
        return a if a.data > 0 else const(0.0)
    if cval(a) == 0:
        return const(1.0, kind=kmax((a.kind, 'f')))
    return fun('exp', a, kind=kmax((a.kind, 'f')))


def slog(a):
    if is_nan(a):
        return a
    v = cval(a)
    if v is not None:
        if v == 1:
            return const(0.0)
        if v == 0:
            return _mk('inf', (), -1, 'f')
        if v < 0 and a.kind != 'c':
            return nan()
    return fun('log', a, kind=kmax((a.kind, 'f')))


def _odd(name):
    def f(a):
        if is_nan(a):
            return a
        if cval(a) == 0:
            return const(0.0, kind=kmax((a.kind, 'f')))
        if (a.op == 'mul' or a.op == 'const') and (a.data[0] if a.op == 'mul' else a.data) < 0:
            return mul2(const(-1), f(mul2(const(-1), a, kind=a.kind)))
        return fun(name, a, kind=kmax((a.kind, 'f')))
    return f


ssin, satan, serf, stanh, ssinh, sasin, stan, sasinh = (
    _odd(n) for n in ('sin', 'atan', 'erf', 'tanh', 'sinh', 'asin', 'tan', 'asinh'))


def satan(a, _f=_odd('atan')):
    if a.op == 'inf':
        return mul2(const(Fraction(a.data, 2)), PI())
    v = cval(a)
    if v in (1, -1):
        return mul2(const(Fraction(v, 4)), PI())
    return _f(a)


def serf(a, _f=_odd('erf')):
    if a.op == 'inf':
        return const(float(a.data))
    return _f(a)


def satanh(a):
    return mul2(const(Fraction(1, 2)), slog(div2(add2(const(1), a), sub2(const(1), a))))


def _even(name, at0=1):
    def f(a):
        if is_nan(a):
            return a
        if cval(a) == 0:
            return const(float(at0), kind=kmax((a.kind, 'f')))
        if a.op == 'mul' and a.data[0] < 0:
            a = mul2(const(-1), a, kind=a.kind)
        return fun(name, a, kind=kmax((a.kind, 'f')))
    return f


scos, scosh = _even('cos'), _even('cosh')


def _pi_part(a):
    """a = rest + q*pi  ->  (rest, q)."""
    if a.op == 'mul' and any(t.op == 'pi' for t in a.args):
        ad = [t for t, e in zip(a.args, a.data[1]) if t.op == 'add' and e == 1]
        if len(ad) == 1:
            k = div2(a, ad[0])
            c, parts = _add_parts(ad[0])
            a = addn([mul2(k, const(Fraction(c)))] + [mul2(mul2(k, const(Fraction(v))), t) for t, v in parts.items()])
    c, parts = _add_parts(a)
    q = Fraction(0)
    rest = []
    for t, k in parts.items():
        if t.op == 'pi':
            q += Fraction(k)
        elif t.op == 'mul' and len(t.args) == 1 and t.args[0].op == 'pi' and t.data[1][0] == 1:
            q += Fraction(k) * t.data[0]
        else:
            rest.append(mul2(const(Fraction(k)), t))
    if not q:
        return a, q
    return addn([const(Fraction(c))] + rest), q


_SIN12 = {0: (0, 1), 1: None, 2: (Fraction(1, 2), 1), 3: (Fraction(1, 2), 2), 4: (Fraction(1, 2), 3), 6: (1, 1)}


def _exact_sin(q):
    """sin(q*pi) for q a multiple of 1/4 or 1/6, else None."""
    q = q % 2
    sgn = 1
    if q >= 1:
        q, sgn = q - 1, -1
    if q > Fraction(1, 2):
        q = 1 - q
    k = q * 12
    if k.denominator != 1 or _SIN12.get(int(k)) is None:
        return None
    c, r = _SIN12[int(k)]
    return mul2(const(Fraction(c) * sgn), ssqrt(const(Fraction(r))), kind='f') if c else const(0.0)


def _half_angle(a):
    """a = k*atan(t), k = 1, 2  ->  (sin a, cos a), else None."""
    k = 1
    if a.op == 'mul' and len(a.args) == 1 and a.data[1][0] == 1 and a.data[0] in (2, -2, -1):
        k, a = int(a.data[0]), a.args[0]
    if a.op == 'fun' and a.data == 'atan' and a.kind != 'c':
        t = a.args[0]
        w = add2(const(1), pow_(t, 2))
        if abs(k) == 2:
            return div2(mul2(const(k), t), w), div2(sub2(const(1), pow_(t, 2)), w)
        r = ssqrt(w)
        return div2(mul2(const(k), t), r), div2(const(1), r)
    return None


def ssin(a, _f=ssin):
    ha = _half_angle(a)
    if ha is not None:
        return ha[0]
    if a.kind == 'c' or a.op not in ('pi', 'mul', 'add'):
        return _f(a)
    rest, q = _pi_part(a)
    if not q:
        return _f(a) if rest is a else ssin(rest)
    if cval(rest) == 0:
        r = _exact_sin(q)
        return _f(a) if r is None else r
    if (q * 2).denominator != 1:
        return _f(a)
    k = int(q * 2) % 4
    r = (ssin, scos)[k % 2](rest)
    return mul2(const(-1), r) if k >= 2 else r


scos0 = scos


def scos(a):
    ha = _half_angle(a)
    if ha is not None:
        return ha[1]
    if a.kind == 'c' or a.op not in ('pi', 'mul', 'add'):
        return scos0(a)
    rest, q = _pi_part(a)
    if not q:
        return scos0(a) if rest is a else scos(rest)
    if cval(rest) == 0:
        r = _exact_sin(q + Fraction(1, 2))
        return scos0(a) if r is None else r
    if (q * 2).denominator != 1:
        return scos0(a)
    return ssin(addn([rest, mul2(const(q + Fraction(1, 2)), PI())]))


def sacos(a):
    v = cval(a)
    if v == 1:
        return const(0.0)
    if v == 0:
        return mul2(const(Fraction(1, 2)), PI())
    if v == -1:
        return PI()
    return fun('acos', a, kind='f')


def satan2(y, x):
    """arctan2; the origin is a separate path (numpy returns 0 there)."""
    if is_nan(x) or is_nan(y):
        return nan()
    vy, vx = cval(y), cval(x)
    if vy == 0:
        if bool(decide('le', const(0), x)):
            return const(0.0)           # numpy: arctan2(+0, x>=0) = 0
        return PI()
    if bool(decide('eq', add2(pow_(x, 2), pow_(y, 2)), const(0))):
        return const(0.0)
    if vx == 0:
        s = Fraction(1, 2) if bool(decide('lt', const(0), y)) else Fraction(-1, 2)
        return mul2(const(s), PI())
    return fun('atan2', as_kind(y, 'f'), as_kind(x, 'f'), kind='f')


def shypot(a, b):
    return ssqrt(add2(pow_(a, 2), pow_(b, 2)))


def sconj(n, memo=None):
    if n.kind != 'c' and n.op != 'I':
        return n
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == 'I':
        r = mul2(const(-1), n)
    elif n.op == 'var':
        r = n
    elif n.op == 'add':
        c, cs = n.data
        r = addn([const(c)] + [mul2(const(k), sconj(a, memo)) for a, k in zip(n.args, cs)], kind='c')
    elif n.op == 'mul':
        c, es = n.data
        r = const(c, kind='c')
        for a, e in zip(n.args, es):
            r = mul2(r, pow_(sconj(a, memo), e))
    elif n.op == 'fun':
        if n.data == 'conj':
            r = n.args[0]
        elif n.data == 'cx':
            r = sub2(n.args[0], mul2(I(), n.args[1]))
        elif n.data in ('sqrt', 'exp', 'sin', 'cos', 'tanh', 'sinh', 'cosh', 'log', 'erf', 'iv', 'kv'):
            r = fun(n.data, *[sconj(a, memo) for a in n.args], kind='c')
        else:
            raise EngineGap(f'conjugate of {n.data}')
    else:
        r = n
    memo[n.id] = r
    return r


def is_real_tree(n, memo=None):
    """Syntactically real (variables are always real)."""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is None:
        if n.op == 'I' or (n.op == 'fun' and n.kind == 'c' and n.data in ('sqrt', 'log', 'rpow', 'cx')):
            r = False
        else:
            r = all(is_real_tree(a, memo) for a in n.args)
        memo[n.id] = r
    return r


def sreal(n):
    if n.kind != 'c':
        return n
    if n.op == 'fun' and n.data == 'cx':
        return n.args[0]
    if is_real_tree(n):
        return retag_real(n)
    if n.op == 'add':
        c, cs = n.data
        return addn([const(c)] + [mul2(const(k), sreal(a)) for a, k in zip(n.args, cs)], kind='f')
    r = mul2(const(Fraction(1, 2)), add2(n, sconj(n)))
    return as_kind(r, 'f')


def simag(n):
    if n.kind != 'c':
        return const(0.0)
    if n.op == 'fun' and n.data == 'cx':
        return n.args[1]
    if is_real_tree(n):
        return const(0.0)
    if n.op == 'add':
        c, cs = n.data
        return addn([mul2(const(k), simag(a)) for a, k in zip(n.args, cs)], kind='f')
    if n.op == 'mul' and n.args[0].op == 'I' or (n.op == 'mul' and any(a.op == 'I' for a in n.args)):
        c, es = n.data
        rest = {a: e for a, e in zip(n.args, es) if a.op != 'I'}
        m = _mkmul(c, rest, 'c')
        if is_real_tree(m):
            return retag_real(m)
    r = mul2(mul2(const(Fraction(-1, 2)), I()), sub2(n, sconj(n)))
    return as_kind(r, 'f')


def retag_real(n):
    return as_kind(n, 'f')


def ssign(a):
    v = cval(a)
    if v is not None:
        return const(float((v > 0) - (v < 0)))
    if bool(decide('eq', a, const(0))):
        return const(0.0)
    return const(1.0) if bool(decide('lt', const(0), a)) else const(-1.0)


def sarg(z):
    return satan2(simag(z), sreal(z))


def sfun1(name):
    return lambda a: fun(name, a, kind=kmax((a.kind, 'f')))


_METHS = {
    'sqrt': ssqrt, 'exp': sexp, 'log': slog, 'sin': ssin, 'cos': scos, 'tan': lambda a: div2(ssin(a), scos(a)),
    'arctan': satan, 'arctan2': lambda a, b: satan2(a, const(b)), 'tanh': stanh, 'sinh': ssinh,
    'cosh': scosh, 'arcsin': sasin, 'arccos': sacos, 'square': lambda a: pow_(a, 2),
    'hypot': lambda a, b: shypot(a, const(b)), 'arcsinh': sasinh, 'arctanh': satanh,
    'log10': lambda a: div2(slog(a), slog(const(10))), 'log2': lambda a: div2(slog(a), slog(const(2))),
    'log1p': lambda a: slog(add2(const(1), a)), 'expm1': lambda a: sub2(sexp(a), const(1)),
    'exp2': lambda a: sexp(mul2(a, slog(const(2)))),
    'deg2rad': lambda a: mul2(a, mul2(const(Fraction(1, 180)), PI())),
    'radians': lambda a: mul2(a, mul2(const(Fraction(1, 180)), PI())),
    'rad2deg': lambda a: div2(mul2(a, const(180)), PI()),
    'degrees': lambda a: div2(mul2(a, const(180)), PI()),
    'cbrt': lambda a: fun('rpow', a, const(Fraction(1, 3)), kind='f'),
    'fabs': sabs,
}


# ------------------------------------------------------------------------ traversal
def topo(roots):
    seen, order = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return order


def variables(roots):
    return sorted({n.data for n in topo(roots) if n.op == 'var'})


def show(n, depth=6):
    if n.op == 'const':
        return str(n.data)
    if n.op in ('pi', 'I', 'nan'):
        return n.op
    if n.op == 'inf':
        return 'inf' if n.data > 0 else '-inf'
    if n.op == 'var':
        return n.data
    if depth == 0:
        return '…'
    if n.op == 'add':
        c, cs = n.data
        s = ' + '.join((f'{k}*' if k != 1 else '') + show(a, depth - 1) for a, k in zip(n.args, cs))
        return f'({s}{" + " + str(c) if c else ""})'
    if n.op == 'mul':
        c, es = n.data
        s = '*'.join(show(a, depth - 1) + (f'^{e}' if e != 1 else '') for a, e in zip(n.args, es))
        return f'{c}*{s}' if c != 1 else s
    return f'{n.data}({", ".join(show(a, depth - 1) for a in n.args)})'


# ---------------------------------------------------------------------- differentiation
def diff(n, x, memo=None):
    """d n / d x for a variable node x."""
    if memo is None:
        memo = {}
    for m in topo([n]):
        if m.id in memo:
            continue
        memo[m.id] = _diff1(m, x, memo)
    return memo[n.id]


ZERO = lambda: const(0.0)


def _diff1(n, x, memo):
    if n.op == 'var':
        return const(1.0) if n.data == x.data else const(0.0)
    if n.op in ('const', 'pi', 'I'):
        return const(0.0)
    if n.op in ('nan', 'inf'):
        return nan()
    if n.op == 'add':
        c, cs = n.data
        return addn([const(0.0)] + [mul2(const(k), memo[a.id]) for a, k in zip(n.args, cs)], kind=n.kind)
    if n.op == 'mul':
        c, es = n.data
        terms = []
        for i, (a, e) in enumerate(zip(n.args, es)):
            da = memo[a.id]
            if cval(da) == 0:
                continue
            d = dict(zip(n.args, es))
            d[a] = e - 1
            terms.append(mul2(_mkmul(c * Fraction(e), d, n.kind), da))
        return addn([const(0.0)] + terms, kind=n.kind)
    # functions
    da = [memo[a.id] for a in n.args]
    if all(cval(d) == 0 for d in da):
        return const(0.0)
    f, a = n.data, n.args
    u = a[0]
    if f == 'sqrt':
        return div2(da[0], mul2(const(2), n))
    if f == 'exp':
        return mul2(n, da[0])
    if f == 'log':
        return div2(da[0], u)
    if f == 'sin':
        return mul2(scos(u), da[0])
    if f == 'cos':
        return mul2(mul2(const(-1), ssin(u)), da[0])
    if f == 'tan':
        return mul2(add2(const(1), pow_(n, 2)), da[0])
    if f == 'atan':
        return div2(da[0], add2(const(1), pow_(u, 2)))
    if f == 'atan2':
        y, xx = a
        return div2(sub2(mul2(xx, da[0]), mul2(y, da[1])), add2(pow_(xx, 2), pow_(y, 2)))
    if f == 'tanh':
        return mul2(sub2(const(1), pow_(n, 2)), da[0])
    if f == 'sinh':
        return mul2(scosh(u), da[0])
    if f == 'cosh':
        return mul2(ssinh(u), da[0])
    if f == 'asin':
        return div2(da[0], ssqrt(sub2(const(1), pow_(u, 2))))
    if f == 'acos':
        return mul2(const(-1), div2(da[0], ssqrt(sub2(const(1), pow_(u, 2)))))
    if f == 'asinh':
        return div2(da[0], ssqrt(add2(const(1), pow_(u, 2))))
    if f == 'erf':
        c = div2(const(2), ssqrt(PI()))
        return mul2(mul2(c, sexp(mul2(const(-1), pow_(u, 2)))), da[0])
    if f == 'abs':
        return mul2(div2(u, n), da[0])
    if f == 'ellipk':
        # d/dm K = (E - (1-m)K) / (2 m (1-m))
        om = sub2(const(1), u)
        num = sub2(fun('ellipe', u), mul2(om, n))
        return mul2(div2(num, mul2(const(2), mul2(u, om))), da[0])
    if f == 'ellipe':
        return mul2(div2(sub2(n, fun('ellipk', u)), mul2(const(2), u)), da[0])
    if f == 'iv':
        v, z = a
        # I_v' = (I_{v-1}+I_{v+1})/2
        d = mul2(const(Fraction(1, 2)), add2(siv(sub2(v, const(1)), z), siv(add2(v, const(1)), z)))
        return mul2(d, da[1])
    if f == 'kv':
        v, z = a
        d = mul2(const(Fraction(-1, 2)), add2(skv(sub2(v, const(1)), z), skv(add2(v, const(1)), z)))
        return mul2(d, da[1])
    if f == 'rpow':
        return mul2(mul2(a[1], div2(n, u)), da[0])
    if f == 'cx':
        return add2(da[0], mul2(I(), da[1]))
    if f == 'conj':
        raise EngineGap('derivative of conj')
    raise EngineGap(f'derivative of {f}')


def siv(v, z):
    """modified Bessel I_v; integer orders are reduced to orders 0 and 1 by recurrence."""
    k = cval(v)
    if k is not None and k.denominator == 1:
        k = abs(int(k))
        if k >= 2:
            # I_{k} = I_{k-2} - 2(k-1)/z I_{k-1}
            return sub2(siv(const(k - 2), z), mul2(div2(const(2 * (k - 1)), z), siv(const(k - 1), z)))
        v = const(Fraction(k))
        if cval(z) == 0:
            return const(1.0 if k == 0 else 0.0)
    return fun('iv', as_kind(v, 'f'), z, kind=kmax((z.kind, 'f')))


def skv(v, z):
    k = cval(v)
    if k is not None and k.denominator == 1:
        k = abs(int(k))
        if k >= 2:
            return add2(skv(const(k - 2), z), mul2(div2(const(2 * (k - 1)), z), skv(const(k - 1), z)))
        v = const(Fraction(k))
    return fun('kv', as_kind(v, 'f'), z, kind=kmax((z.kind, 'f')))


# ----------------------------------------------------------------- numeric evaluation
def evaluate(roots, env, dps=50):
    """mpmath evaluation of nodes at env (name -> number)."""
    import mpmath as mp
    with mp.workdps(dps):
        return _evaluate(roots, env, mp, {})


def _mpq(v, mp):
    if isinstance(v, Fraction):
        return mp.mpf(v.numerator) / v.denominator
    return mp.mpmathify(v)


def _evaluate(roots, env, mp, memo):
    for n in topo(roots):
        if n.id in memo:
            continue
        A = [memo[a.id] for a in n.args]
        if n.op == 'const':
            r = _mpq(n.data, mp)
        elif n.op == 'pi':
            r = +mp.pi
        elif n.op == 'I':
            r = mp.mpc(0, 1)
        elif n.op == 'var':
            r = _mpq(env[n.data], mp)
        elif n.op == 'nan':
            r = mp.nan
        elif n.op == 'inf':
            r = mp.inf * n.data
        elif n.op == 'add':
            c, cs = n.data
            r = _mpq(c, mp)
            for a, k in zip(A, cs):
                r = r + a * k.numerator / k.denominator
        elif n.op == 'mul':
            c, es = n.data
            r = _mpq(c, mp)
            for a, e in zip(A, es):
                if a == 0 and e < 0:
                    r = mp.nan
                    break
                if isinstance(e, Fraction) and e.denominator != 1:
                    r = r * mp.power(a, _mpq(e, mp))
                else:
                    r = r * a ** int(e)
        else:
            try:
                r = _evalfun(n.data, A, mp)
            except (ZeroDivisionError, ValueError):
                r = mp.nan
        if n.kind != 'c' and isinstance(r, mp.mpc):
            # real by construction; numerically tiny imaginary parts only
            if abs(r.imag) <= mp.mpf(10) ** (-mp.mp.dps // 2) * (1 + abs(r.real)):
                r = r.real
        memo[n.id] = r
    return [memo[r.id] for r in roots]


def _evalfun(f, A, mp):
    u = A[0]
    if f == 'sqrt':
        return mp.sqrt(u)
    if f == 'exp':
        return mp.exp(u)
    if f == 'log':
        return mp.log(u)
    if f in ('sin', 'cos', 'tan', 'atan', 'tanh', 'sinh', 'cosh', 'asin', 'acos', 'erf', 'ellipk', 'ellipe', 'asinh'):
        return getattr(mp, f)(u)
    if f == 'atan2':
        return mp.atan2(A[0], A[1])
    if f == 'abs':
        return abs(u)
    if f == 'max':
        return max(A)
    if f == 'cx':
        return mp.mpc(A[0], A[1])
    if f == 'conj':
        return mp.conj(u)
    if f == 'iv':
        return mp.besseli(A[0], A[1])
    if f == 'kv':
        return mp.besselk(A[0], A[1])
    if f == 'rpow':
        return mp.power(A[0], A[1])
    if f == 'mod':
        return A[0] - A[1] * mp.floor(A[0] / A[1])
    if f.startswith('opaque:'):
        # uninterpreted function of its arguments: any fixed smooth generic function will do
        h = sum(ord(c) * (i + 1) for i, c in enumerate(f))
        s = mp.mpf(h % 97) / 31 + 1
        for i, a in enumerate(A):
            s = s + mp.sin(a * (mp.mpf(7) / 5 + mp.mpf(i) / 3) + mp.mpf(h % 13) / 7)
        return s
    raise EngineGap(f'numeric evaluation of {f}')


# ------------------------------------------------------------------------ substitution
def substitute(node, env, memo=None):
    """node with variables replaced (env: name -> Sym), re-simplified."""
    if memo is None:
        memo = {}
    for n in topo([node]):
        if n.id in memo:
            continue
        if n.op == 'var':
            r = env.get(n.data, n)
        elif not n.args:
            r = n
        else:
            A = [memo[a.id] for a in n.args]
            if all(x is y for x, y in zip(A, n.args)):
                r = n
            elif n.op == 'add':
                c, cs = n.data
                r = addn([const(c)] + [mul2(const(k), a) for a, k in zip(A, cs)], kind=n.kind)
            elif n.op == 'mul':
                c, es = n.data
                r = const(c)
                for a, e in zip(A, es):
                    r = mul2(r, pow_(a, e))
                r = as_kind(r, n.kind) if r.op not in ('nan', 'inf') else r
            else:
                f = {'sqrt': ssqrt, 'exp': sexp, 'log': slog, 'sin': ssin, 'cos': scos, 'atan': satan, 'tanh': stanh,
                     'sinh': ssinh, 'cosh': scosh, 'asin': sasin, 'acos': sacos, 'erf': serf, 'abs': sabs}.get(n.data)
                r = f(A[0]) if f else _mk('fun', tuple(A), n.data, n.kind)
        memo[n.id] = r
    return memo[node.id]


def solve_linear(d):
    """(name, expression) when  d == 0  can be solved for a variable with a constant
    coefficient, else None."""
    if d.op == 'var':
        return d.data, const(0.0)
    if d.op == 'mul' and len(d.args) == 1 and d.args[0].op == 'var':
        return d.args[0].data, const(0.0)
    if d.op != 'add':
        return None
    c, cs = d.data
    for a, k in zip(d.args, cs):
        if a.op == 'var' and a.data not in variables([x for x in d.args if x is not a]):
            rest = addn([const(c)] + [mul2(const(q), x) for x, q in zip(d.args, cs) if x is not a])
            return a.data, mul2(const(-1 / k), rest)
    return None
