"""numpy look-alike for symbolic execution: an ndarray subclass of Sym objects plus shim
modules standing in for numpy / scipy.special / math / ... inside the code under test."""
import builtins
import math as _math
import types
import numpy as np
from fractions import Fraction
from . import expr as E
from .expr import Sym, EngineGap

_DT = {'i': np.dtype(np.int64), 'f': np.dtype(np.float64), 'c': np.dtype(np.complex128),
       'b': np.dtype(bool)}


def dkind(dtype):
    """kind letter of a dtype-like; None when unspecified; 'O' for other."""
    if dtype is None:
        return None
    if isinstance(dtype, type) and getattr(dtype, '_sym_kind', None):
        return dtype._sym_kind
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        raise
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(k, 'O')


class SymCastError(TypeError):
    pass


class SA(np.ndarray):
    """ndarray of Sym (object storage) with an emulated dtype kind."""
    _k = 'f'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'f')

    # dtype look-alike
    @property
    def dtype(self):
        return _DT[self._k]

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def raw(self):
        return np.ndarray.view(self, np.ndarray)

    def view(self, *a, **k):
        if a and dkind_safe(a[0]) not in (None, self._k):
            raise EngineGap('view with another dtype')
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return self
        return super().view()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)

    def __setitem__(self, ix, val):
        v, k = lift(val)
        if E.KORD[k] > E.KORD[self._k]:
            if self._k == 'i' and k in 'fc':
                v = _map(lambda s: trunc_to_int(s), v)
            elif self._k == 'f' and k == 'c':
                if isinstance(v, Sym) or v.ndim == 0:
                    raise TypeError('float() argument must be a string or a real number, not complex')
                v = _map(E.sreal, v)    # numpy: ComplexWarning, imaginary part discarded
        ix = unwrap_ix(ix)
        if isinstance(v, Sym):
            v0 = np.empty((), dtype=object)
            v0[()] = cast_scalar(v, self._k)
        else:
            v0 = _castarr(np.asarray(rawarr(v)), self._k)
        if not isinstance(v0, np.ndarray) or (v0.ndim == 0 and not isinstance(self.raw[ix], np.ndarray)):
            # numpy would store the 0-d array itself as the element
            v0 = v0[()] if isinstance(v0, np.ndarray) else v0
        self.raw[ix] = v0

    def __getitem__(self, ix):
        r = self.raw[unwrap_ix(ix)]
        return wrap(r, self._k)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(self.shape[0]))

    def __bool__(self):
        if self.size == 1:
            return bool(self.raw.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        raise EngineGap('C-level float() of a symbolic array')

    def astype(self, dtype, *a, **kw):
        k = dkind(dtype)
        if k == 'O':
            raise EngineGap('astype object')
        if k == 'b':
            return np.array([bool(x) for x in self.raw.ravel()], dtype=bool).reshape(self.shape)
        if kw.get('copy', True) is False and k == self._k:
            return self
        return wrap(_castarr(self.raw.copy(), k), k, scalar=False)

    @property
    def real(self):
        if self._k != 'c':
            return self
        return wrap(_map(E.sreal, self.raw), 'f', scalar=False)

    @real.setter
    def real(self, val):
        if self._k != 'c':
            self[...] = val
        else:
            im = self.imag
            self[...] = val + im * E.I()

    @property
    def imag(self):
        if self._k != 'c':
            return zeros_(self.shape, 'f')
        return wrap(_map(E.simag, self.raw), 'f', scalar=False)

    @imag.setter
    def imag(self, val):
        re = self.real
        self[...] = re + val * E.I()

    def conj(self):
        return wrap(_map(E.sconj, self.raw), self._k, scalar=False)

    conjugate = conj

    def copy(self, order='C'):
        return wrap(self.raw.copy(order), self._k, scalar=False)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        if a:
            return self.raw.item(*a)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.raw.reshape(-1)[0]

    def tolist(self):
        return self.raw.tolist()

    def dot(self, o):
        return OV['dot'](self, o)

    def __matmul__(self, o):
        return OV['matmul'](self, o)

    def __rmatmul__(self, o):
        return OV['matmul'](o, self)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return OV['sum'](self, axis=axis, keepdims=keepdims, out=out, **kw)

    def prod(self, axis=None, **kw):
        return wrap(np.multiply.reduce(self.raw, axis=axis, **kw), self._k)

    def mean(self, axis=None, keepdims=False, **kw):
        return OV['mean'](self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, **kw):
        return wrap(np.cumsum(self.raw, axis=axis), self._k)

    def max(self, axis=None, **kw):
        return OV['max'](self, axis=axis, **kw)

    def min(self, axis=None, **kw):
        return OV['min'](self, axis=axis, **kw)

    def any(self, *a, **k):
        return boolarr(self).any(*a, **k)

    def all(self, *a, **k):
        return boolarr(self).all(*a, **k)

    def nonzero(self):
        return boolarr(self).nonzero()

    def round(self, *a, **k):
        raise EngineGap('round')

    def clip(self, lo=None, hi=None, **k):
        return OV['clip'](self, lo, hi)

    def take(self, idx, axis=None, **k):
        return wrap(self.raw.take(idx, axis=axis), self._k)

    def repeat(self, n, axis=None):
        return wrap(np.repeat(self.raw, n, axis=axis), self._k)

    def argmin(self, *a, **k):
        return OV['argmin'](self, *a, **k)

    def argmax(self, *a, **k):
        return OV['argmax'](self, *a, **k)

    def argsort(self, *a, **k):
        return OV['argsort'](self, *a, **k)

    def sort(self, axis=-1, **k):
        self[...] = OV['sort'](self, axis=axis)

    def searchsorted(self, v, **k):
        return OV['searchsorted'](self, v, **k)

    def var(self, *a, **k):
        return OV['var'](self, *a, **k)

    def std(self, *a, **k):
        return OV['std'](self, *a, **k)

    def ptp(self, *a, **k):
        return OV['ptp'](self, *a, **k)

    def squeeze(self, axis=None):
        r = np.ndarray.squeeze(self.raw, axis=axis) if axis is not None else np.ndarray.squeeze(self.raw)
        return wrap(r, self._k, scalar=False)

    def trace(self, *a, **k):
        return OV['trace'](self, *a, **k)

    def __repr__(self):
        return f'<array of shape {self.shape}>'      # only ever part of a message

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __contains__(self, x):
        return any(bool(E.decide('eq', v, E.const(x))) for v in self.raw.ravel())

    def __reduce__(self):
        raise EngineGap('pickling arrays')


class _Not:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def ev(self):
        return not _lbev(self.a)


class _Bin:
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def ev(self):
        if E.SHORTCUT and self.op in ('and', 'or'):
            # an operand that settles the result on its own spares a split on the other one
            stop = self.op == 'or'
            if _forced(self.a) is stop or _forced(self.b) is stop:
                return stop
        x = _lbev(self.a)
        if self.op == 'and':
            return x and _lbev(self.b)
        if self.op == 'or':
            return x or _lbev(self.b)
        return x != _lbev(self.b)


class _Rel:
    __slots__ = ('rel', 'a', 'b')

    def __init__(self, rel, a, b):
        self.rel, self.a, self.b = rel, a, b

    def ev(self):
        return bool(E.decide(self.rel, self.a, self.b))


def _forced(x):
    """truth of x if the path settles it, else None; never splits."""
    if isinstance(x, _Rel):
        return E.forced(x.rel, x.a, x.b)
    if isinstance(x, _Not):
        r = _forced(x.a)
        return None if r is None else not r
    if isinstance(x, _Bin):
        a, b = _forced(x.a), _forced(x.b)
        if x.op == 'and':
            return False if a is False or b is False else (True if a and b else None)
        if x.op == 'or':
            return True if a or b else (False if a is False and b is False else None)
        return None if a is None or b is None else a != b
    return bool(x)


def _lbev(x):
    return x.ev() if isinstance(x, (_Rel, _Not, _Bin)) else bool(x)


class LB:
    """Array of undecided comparisons: decided (short-circuiting & and |) at first use, so
    that conditions which cannot matter do not split paths."""
    __array_priority__ = 200

    def __init__(self, nodes):
        self.nodes = nodes
        self.arr = None

    def force(self):
        if self.arr is None:
            out = np.empty(self.nodes.shape, dtype=bool)
            for ix in np.ndindex(self.nodes.shape):
                out[ix] = _lbev(self.nodes[ix])
            self.arr = out
        return self.arr

    def __array__(self, dtype=None, copy=None):
        a = self.force()
        return a if dtype is None else a.astype(dtype)

    @staticmethod
    def cells(x):
        if isinstance(x, LB):
            return x.arr.astype(object) if x.arr is not None else x.nodes
        if isinstance(x, (bool, np.bool_)):
            return np.array(bool(x), dtype=object)
        if isinstance(x, np.ndarray) and not isinstance(x, SA) and x.dtype == bool:
            return x.astype(object)
        return None

    def _bin(self, op, other, swap=False):
        c = LB.cells(other)
        if c is None:
            o = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[op]
            return o(other, self.force()) if swap else o(self.force(), other)
        a, b = np.broadcast_arrays(LB.cells(self), c)
        if swap:
            a, b = b, a
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            out[ix] = _Bin(op, a[ix], b[ix])
        return LB(out)

    def __and__(self, o):
        return self._bin('and', o)

    def __or__(self, o):
        return self._bin('or', o)

    def __xor__(self, o):
        return self._bin('xor', o)

    def __rand__(self, o):
        return self._bin('and', o, True)

    def __ror__(self, o):
        return self._bin('or', o, True)

    def __rxor__(self, o):
        return self._bin('xor', o, True)

    def __invert__(self):
        c = LB.cells(self)
        out = np.empty(c.shape, dtype=object)
        for ix in np.ndindex(c.shape):
            out[ix] = _Not(c[ix])
        return LB(out)

    def __array_ufunc__(self, uf, method, *inp, **kw):
        if method == '__call__' and not kw:
            nm = uf.__name__
            if nm in ('logical_and', 'bitwise_and', 'logical_or', 'bitwise_or') and all(LB.cells(x) is not None for x in inp):
                a = inp[0] if isinstance(inp[0], LB) else LB(LB.cells(inp[0]))
                return a._bin('and' if 'and' in nm else 'or', inp[1])
            if nm in ('logical_not', 'invert'):
                return ~self
        inp = [x.force() if isinstance(x, LB) else x for x in inp]
        if 'where' in kw and isinstance(kw['where'], LB):
            kw['where'] = kw['where'].force()
        if any(isinstance(x, (SA, Sym)) for x in inp):
            return array_ufunc(uf, method, tuple(inp), kw)
        return getattr(uf, method)(*inp, **kw)

    def __array_function__(self, func, types, args, kwargs):
        def f(x):
            if isinstance(x, LB):
                return x.force()
            if isinstance(x, (list, tuple)):
                return type(x)(f(y) for y in x)
            return x
        return func(*f(tuple(args)), **{k: f(v) for k, v in kwargs.items()})

    def any(self, axis=None, **k):
        if axis is None and not k and self.arr is None:
            return np.bool_(any(_lbev(x) for x in self.nodes.ravel()))
        return self.force().any(axis=axis, **k)

    def all(self, axis=None, **k):
        if axis is None and not k and self.arr is None:
            return np.bool_(all(_lbev(x) for x in self.nodes.ravel()))
        return self.force().all(axis=axis, **k)

    def __bool__(self):
        return bool(self.force())

    def __len__(self):
        return len(self.nodes)

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, ix):
        ix = unwrap_ix(ix)
        if self.arr is not None:
            return self.arr[ix]
        r = self.nodes[ix]
        return LB(r) if isinstance(r, np.ndarray) else np.bool_(_lbev(r))

    def __setitem__(self, ix, v):
        self.force()[unwrap_ix(ix)] = v

    @property
    def shape(self):
        return self.nodes.shape

    @property
    def ndim(self):
        return self.nodes.ndim

    @property
    def size(self):
        return self.nodes.size

    @property
    def dtype(self):
        return np.dtype(bool)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.force(), name)


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'neg', 'pow'):
    def _mk(nm):
        def f(self, *o):
            return getattr(self.force(), nm)(*[x.force() if isinstance(x, LB) else x for x in o])
        return f
    setattr(LB, f'__{_n}__', _mk(f'__{_n}__'))


def _lazy(rel, x, y):
    c = np.empty((), dtype=object)
    c[()] = _Rel(rel, x, y)
    return LB(c)


E.LAZY = _lazy


def dkind_safe(d):
    try:
        return dkind(d)
    except TypeError:
        return None


def unwrap_ix(ix):
    if isinstance(ix, tuple):
        return tuple(unwrap_ix(i) for i in ix)
    if isinstance(ix, LB):
        return ix.force()
    if isinstance(ix, SA):
        if ix._k == 'i':
            return np.array([int(x) for x in ix.raw.ravel()], dtype=int).reshape(ix.shape)
        if ix.size == 0:
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(ix, Sym):
        return ix.__index__()
    return ix


def boolarr(a):
    if isinstance(a, LB):
        return a.force()
    a = rawarr(a)
    if a.dtype == bool:
        return a
    return np.array([bool(x != 0) if isinstance(x, Sym) else bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)


def trunc_to_int(s):
    v = E.cval(s)
    if v is not None:
        return E.const(Fraction(int(v)), kind='i')
    if s.kind == 'i':
        return s
    # C-like truncation of a symbolic real: opaque integer-valued function
    return E.fun('trunc', s, kind='i')


def cast_scalar(s, k):
    if k is None or s.kind == k:
        return s
    if k == 'b':
        return bool(s)
    if E.KORD[k] >= E.KORD[s.kind]:
        return E.as_kind(s, k)
    if s.kind == 'c':
        s = E.sreal(s)
    if k == 'i':
        return trunc_to_int(s)
    return E.as_kind(s, k)


def _map(f, a):
    if isinstance(a, Sym):
        return f(a)
    a = rawarr(a)
    out = np.empty(a.shape, dtype=object)
    fl, fo = a.ravel(), out.reshape(-1)
    for i in range(fl.size):
        fo[i] = f(fl[i])
    return out


def _castarr(a, k):
    """object/numeric ndarray -> object ndarray of Sym tagged k (elementwise promotion)."""
    return _map(lambda s: cast_scalar(s if isinstance(s, Sym) else E.const(s), k), a)


def rawarr(a):
    if isinstance(a, SA):
        return a.raw
    if isinstance(a, LB):
        return a.force()
    if isinstance(a, Sym):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, np.ndarray):
        return a
    return np.asarray(a)


def wrap(r, k, scalar=True):
    """object ndarray or element -> SA / Sym."""
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            return r
        s = np.ndarray.view(r, SA)
        s._k = k
        return s
    return r


def zeros_(shape, k, val=0):
    r = np.empty(shape, dtype=object)
    r.fill(E.as_kind(E.const(val), k) if E.KORD[k] >= 0 else val)
    return wrap(r, k, scalar=False)


def mk(a, k=None):
    """nested sequence / array / scalar -> SA."""
    v, k0 = lift(a)
    k = k or k0
    return wrap(_castarr(rawarr(v), k), k, scalar=False)


def lift(a):
    """anything numeric -> (Sym | object/numeric ndarray, kind)."""
    if isinstance(a, Sym):
        return a, a.kind
    if isinstance(a, LB):
        return a.force(), 'b'
    if isinstance(a, SA):
        return a.raw, a._k
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            ks = [lift(x)[1] for x in a.ravel()]
            return a, (E.kmax(ks) if ks else 'f')
        k = {'u': 'i'}.get(a.dtype.kind, a.dtype.kind)
        if k not in E.KORD:
            raise EngineGap(f'array of dtype {a.dtype}')
        return a, k
    if isinstance(a, (bool, np.bool_)):
        return a, 'b'
    if isinstance(a, (int, np.integer)):
        return E.const(a), 'i'
    if isinstance(a, (float, np.floating)):
        return E.const(a), 'f'
    if isinstance(a, (complex, np.complexfloating)):
        return E.const(a), 'c'
    if isinstance(a, Fraction):
        return E.const(a), 'f'
    if isinstance(a, (list, tuple)):
        if len(a) == 0:
            return np.empty((0,), dtype=object), 'f'
        parts = [lift(x) for x in a]
        k = E.kmax([p[1] for p in parts])
        if all(isinstance(p[0], (bool, np.bool_)) for p in parts):
            return np.array([p[0] for p in parts]), 'b'
        arrs = [rawarr(E.const(p[0]) if not isinstance(p[0], (Sym, np.ndarray)) else p[0]) for p in parts]
        shp = arrs[0].shape
        if any(x.shape != shp for x in arrs):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = np.empty((len(arrs),) + shp, dtype=object)
        for i, x in enumerate(arrs):
            y = _castarr(x, k) if k != 'b' else x
            out[i] = y[()] if shp == () else y
        if k == 'b':
            return out.astype(bool), 'b'
        return out, k
    if isinstance(a, range):
        return np.array(list(a)), 'i'
    if hasattr(a, '__iter__') and not isinstance(a, (str, bytes, dict, set)):
        return lift(list(a))
    raise TypeError(f"float() argument must be a string or a real number, not '{type(a).__name__}'")


# ------------------------------------------------------------------------------ ufuncs
def _elem(x):
    return x if isinstance(x, Sym) else E.const(x)


_UF = {
    'add': E.add2, 'subtract': E.sub2, 'multiply': E.mul2, 'true_divide': E.div2, 'divide': E.div2,
    'power': E.pow2, 'float_power': lambda a, b: E.as_kind_up(E.pow2(E.as_kind_up(a, 'f'), b), 'f'),
    'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': E.sabs, 'fabs': E.sabs, 'sqrt': E.ssqrt, 'exp': E.sexp, 'log': E.slog, 'sin': E.ssin,
    'cos': E.scos, 'tan': lambda a: E.div2(E.ssin(a), E.scos(a)), 'arctan': E.satan,
    'arctan2': E.satan2, 'tanh': E.stanh, 'sinh': E.ssinh, 'cosh': E.scosh, 'arcsin': E.sasin,
    'arccos': E.sacos, 'square': lambda a: E.pow_(a, 2), 'reciprocal': lambda a: E.div2(E.const(1.0), a),
    'hypot': E.shypot, 'conjugate': E.sconj, 'sign': E.ssign,
    'maximum': lambda a, b: a if bool(E.decide('ge', a, b)) else b,
    'minimum': lambda a, b: a if bool(E.decide('le', a, b)) else b,
    'fmax': lambda a, b: a if bool(E.decide('ge', a, b)) else b,
    'fmin': lambda a, b: a if bool(E.decide('le', a, b)) else b,
    'floor_divide': E.floordiv2, 'remainder': E.mod2,
}
for _n, _f in E._METHS.items():
    _UF.setdefault(_n, _f)
_UFB = {'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne'}


def res_kind(ufunc, kinds):
    name = ufunc.__name__
    if name in ('absolute',):
        return 'f' if kinds[0] == 'c' else kinds[0]
    if name == 'reciprocal' or name in ('hypot', 'arctan2', 'true_divide', 'divide', 'float_power'):
        return E.kmax(kinds + ['f']) if name != 'reciprocal' else kinds[0]
    if name in ('add', 'subtract', 'multiply', 'power', 'negative', 'positive', 'square', 'maximum', 'minimum',
                'fmax', 'fmin', 'conjugate', 'floor_divide', 'remainder', 'sign'):
        k = E.kmax(kinds)
        return 'i' if k == 'b' else k
    return E.kmax(kinds + ['f'])


def call_ufunc(ufunc, inputs, where=None):
    name = ufunc.__name__
    lifted = []
    for x in inputs:
        v, k = lift(x)
        lifted.append((v, k))
    kinds = [k for _, k in lifted]
    arrs = [rawarr(v) for v, _ in lifted]
    allscalar = all(a.ndim == 0 and not isinstance(x, np.ndarray) for a, x in zip(arrs, inputs))
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = bs[0].shape
    flats = [b.ravel() for b in bs]
    n = flats[0].size
    mask = None
    if where is not None and where is not True:
        mask = np.broadcast_to(where.force() if isinstance(where, LB) else np.asarray(where), shape).ravel()
    if name in _UFB:
        rel = _UFB[name]
        if mask is None and shape != ():
            out = np.empty(n, dtype=object)
            for i in range(n):
                out[i] = _Rel(rel, _elem(flats[0][i]), _elem(flats[1][i]))
            return LB(out.reshape(shape)), 'b'
        out = np.empty(n, dtype=bool)
        for i in range(n):
            if mask is None or mask[i]:
                out[i] = bool(E.decide(rel, _elem(flats[0][i]), _elem(flats[1][i])))
        out = out.reshape(shape)
        return (np.bool_(out[()]) if shape == () else out), 'b'
    if name in ('isnan', 'isinf', 'isfinite'):
        f = {'isnan': lambda s: s.op == 'nan', 'isinf': lambda s: s.op == 'inf',
             'isfinite': lambda s: s.op not in ('nan', 'inf')}[name]
        out = np.array([f(_elem(x)) for x in flats[0]], dtype=bool).reshape(shape)
        return (np.bool_(out[()]) if shape == () else out), 'b'
    if name in ('logical_and', 'logical_or', 'logical_not', 'logical_xor'):
        return ufunc(*[boolarr(b) for b in bs]), 'b'
    if name in ('bitwise_and', 'bitwise_or', 'invert', 'bitwise_xor'):
        raise TypeError(f"ufunc '{name}' not supported for the input types")
    if name == 'matmul':
        return OV['matmul'](*inputs), None
    f = _UF.get(name)
    if f is None:
        raise EngineGap(f'ufunc {name}')
    k = res_kind(ufunc, kinds)
    out = np.empty(n, dtype=object)
    for i in range(n):
        if mask is None or mask[i]:
            out[i] = cast_up(f(*[_elem(fl[i]) for fl in flats]), k)
        else:
            out[i] = None
    out = out.reshape(shape)
    if shape == ():
        return out[()], k
    return wrap(out, k, scalar=False), k


def cast_up(s, k):
    if s.kind == k:
        return s
    return E.as_kind(s, k)


def array_ufunc(ufunc, method, inputs, kwargs):
    if not isinstance(ufunc, np.ufunc):
        raise EngineGap(f'ufunc {ufunc}')
    mod = getattr(ufunc, '__name__', '')
    kwargs = dict(kwargs)
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    dt = kwargs.pop('dtype', None)
    if method == '__call__':
        axis = kwargs.pop('axis', None)
        if kwargs:
            raise EngineGap(f'ufunc kwargs {list(kwargs)}')
        r, k = call_ufunc(ufunc, inputs, where)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            return store_out(o, r, k, ufunc, where)
        if where is not None and where is not True:
            if isinstance(r, SA):
                for ix in np.ndindex(r.shape):
                    if r.raw[ix] is None:
                        r.raw[ix] = E.nan()      # numpy leaves garbage
        if dt is not None and dkind(dt) != 'b' and isinstance(r, (SA, Sym)):
            r = r.astype(dt)
        return r
    if method == 'reduce':
        a = inputs[0]
        axis = kwargs.pop('axis', 0)
        keepdims = kwargs.pop('keepdims', False)
        kwargs.pop('initial', None)
        r = reduce_(ufunc, a, axis, keepdims)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            return store_out(o, r, None, ufunc, None)
        return r
    if method == 'outer':
        a, b = mk(inputs[0]), mk(inputs[1])
        return array_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == 'accumulate':
        a = inputs[0]
        axis = kwargs.pop('axis', 0)
        if ufunc.__name__ in ('add', 'multiply'):
            return wrap(getattr(np, ufunc.__name__).accumulate(rawarr(a), axis=axis), lift(a)[1])
    raise EngineGap(f'ufunc method {ufunc.__name__}.{method}')


def store_out(o, r, k, ufunc, where):
    if not isinstance(o, SA):
        if isinstance(o, np.ndarray) and o.dtype == bool:
            o[...] = r
            return o
        if isinstance(o, np.ndarray) and o.dtype.kind in 'iu':
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', np.dtype('f8'), o.dtype, 0)
        raise EngineGap('ufunc output into a non-symbolic array')
    if k is not None and E.KORD[k] > E.KORD[o._k]:
        raise TypeError(f"Cannot cast ufunc '{ufunc.__name__}' output from {_DT[k]} to {o.dtype} with casting rule 'same_kind'")
    rr = rawarr(r)
    if np.broadcast_shapes(rr.shape, o.shape) != o.shape:
        raise ValueError(f'non-broadcastable output operand with shape {o.shape} doesn\'t match the broadcast shape {rr.shape}')
    rr = np.broadcast_to(rr, o.shape)
    oraw = o.raw
    for ix in np.ndindex(o.shape):
        v = rr[ix]
        if v is not None:
            oraw[ix] = cast_scalar(v, o._k)
    return o


def reduce_(ufunc, a, axis, keepdims):
    name = ufunc.__name__
    if name in ('logical_and', 'logical_or'):
        return ufunc.reduce(boolarr(a), axis=axis, keepdims=keepdims)
    v, k = lift(a)
    arr = rawarr(v)
    if isinstance(axis, list):
        axis = tuple(axis)
    if name == 'add':
        return OV['sum'](a, axis=axis, keepdims=keepdims)
    k = 'i' if k == 'b' else k
    if name in ('multiply',):
        return wrap(np.multiply.reduce(_castarr(arr, k), axis=axis, keepdims=keepdims), k)
    if name in ('maximum', 'minimum'):
        return wrap(getattr(np, name).reduce(_castarr(arr, k), axis=axis, keepdims=keepdims), k)
    raise EngineGap(f'{name}.reduce')


# ------------------------------------------------------------------- numpy functions
OV = {}


def ov(*names):
    def deco(f):
        for n in names:
            OV[n] = f
        return f
    return deco


def _axis_sum(arr, axis, k, keepdims):
    nd = arr.ndim
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(np.core.numeric.normalize_axis_tuple(axis, nd)) if False else tuple(a % nd for a in axis)
    else:
        if not (-nd <= axis < nd):
            raise np.exceptions.AxisError(axis, nd)
        axes = (axis % nd,)
    rest = [i for i in range(nd) if i not in axes]
    t = np.transpose(arr, rest + list(axes))
    shp = tuple(arr.shape[i] for i in rest)
    t = t.reshape(shp + (-1,)) if arr.size else t.reshape(shp + (int(np.prod([arr.shape[i] for i in axes])),))
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(shp):
        out[ix] = cast_up(E.addn([E.as_kind(E.const(0), k)] + [_elem(x) for x in t[ix]], kind=k), k)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else arr.shape[i] for i in range(nd)))
    if out.shape == ():
        return out[()]
    return wrap(out, k, scalar=False)


@ov('sum', 'nansum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    if where is not None and where is not True:
        a = OV['where'](where, a, 0)
    v, k = lift(a)
    arr = rawarr(v)
    if k == 'b' or (arr.dtype != object and k in 'ib'):
        r = np.sum(arr, axis=axis, keepdims=keepdims)
    else:
        r = _axis_sum(arr, axis, k, keepdims)
    if initial is not None:
        r = r + initial
    if out is not None:
        out[...] = r
        return out
    return r


@ov('mean', 'average')
def _mean(a, axis=None, keepdims=False, weights=None, **kw):
    s = mk(a)
    if weights is not None:
        raise EngineGap('weighted average')
    r = _sum(s, axis=axis, keepdims=keepdims)
    n = s.size if axis is None else s.shape[axis]
    return r / n


@ov('prod')
def _prod(a, axis=None, **kw):
    v, k = lift(a)
    if rawarr(v).dtype != object:
        return np.prod(rawarr(v), axis=axis, **kw)
    return wrap(np.multiply.reduce(rawarr(v), axis=axis), k)


@ov('max', 'amax')
def _amax(a, axis=None, keepdims=False, **kw):
    s = mk(a)
    return wrap(_redcmp(s.raw, axis, 'ge', keepdims), s._k)


@ov('min', 'amin')
def _amin(a, axis=None, keepdims=False, **kw):
    s = mk(a)
    return wrap(_redcmp(s.raw, axis, 'le', keepdims), s._k)


def _redcmp(arr, axis, rel, keepdims=False):
    if axis is None:
        fl = arr.ravel()
        if fl.size == 0:
            raise ValueError('zero-size array to reduction operation which has no identity')
        if E.LAZY_MAX and rel == 'ge' and any(E.cval(x) is None for x in fl):
            return E.fun('max', *[E.const(x) for x in fl], kind='f')
        r = fl[0]
        for x in fl[1:]:
            r = r if bool(E.decide(rel, r, x)) else x
        return r
    t = np.moveaxis(arr, axis, -1)
    out = np.empty(t.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = _redcmp(t[ix], None, rel)
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.shape else out[()]


def _iscomplex(k):
    return k == 'c'


@ov('linalg.norm')
def _norm(x, ord=None, axis=None, keepdims=False):
    v, k = lift(x)
    arr = rawarr(v)
    if ord not in (None, 2, 'fro'):
        raise EngineGap(f'norm ord={ord}')
    if ord == 2 and axis is None and arr.ndim != 1:
        raise EngineGap('matrix 2-norm')
    if axis is None:
        axis = tuple(range(arr.ndim))
    if k == 'c':
        sq = _map(lambda s: E.add2(E.pow_(E.sreal(_elem(s)), 2), E.pow_(E.simag(_elem(s)), 2)), arr)
    else:
        sq = _map(lambda s: E.as_kind(E.pow_(_elem(s), 2), 'f'), arr)
    if sq.ndim == 0:
        sq = sq.reshape(1)
        axis = 0
    s = _axis_sum(sq, axis, 'f', keepdims)
    if isinstance(s, Sym):
        return E.ssqrt(s)
    return wrap(_map(E.ssqrt, s.raw), 'f', scalar=False)


@ov('linalg.vector_norm')
def _vnorm(x, axis=None, keepdims=False, ord=2):
    return _norm(x, None if ord == 2 else ord, axis, keepdims)


def _matmul_raw(a, b):
    """numpy matmul semantics on object arrays with exact sums."""
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    a2, b2 = a, b
    if a.ndim == 1:
        a2 = a[None, :]
    if b.ndim == 1:
        b2 = b[:, None]
    if a2.shape[-1] != b2.shape[-2]:
        raise ValueError(f'matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature '
                         f'(n?,k),(k,m?)->(n?,m?) (size {b2.shape[-2]} is different from {a2.shape[-1]})')
    bshape = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
    a2 = np.broadcast_to(a2, bshape + a2.shape[-2:])
    b2 = np.broadcast_to(b2, bshape + b2.shape[-2:])
    out = np.empty(bshape + (a2.shape[-2], b2.shape[-1]), dtype=object)
    for ix in np.ndindex(bshape):
        for i in range(a2.shape[-2]):
            for j in range(b2.shape[-1]):
                out[ix + (i, j)] = E.addn([E.const(0)] + [E.mul2(_elem(a2[ix + (i, q)]), _elem(b2[ix + (q, j)]))
                                                         for q in range(a2.shape[-1])], kind='i')
    if a.ndim == 1:
        out = out[..., 0, :]
    if b.ndim == 1:
        out = out[..., 0]
    return out


def _finish(out, k):
    if isinstance(out, np.ndarray) and out.shape == ():
        return cast_up(out[()], k)
    if isinstance(out, Sym):
        return cast_up(out, k)
    return wrap(_map(lambda s: cast_up(s, k), out), k, scalar=False)


@ov('matmul')
def _matmul(a, b, out=None, **kw):
    (va, ka), (vb, kb) = lift(a), lift(b)
    r = _finish(_matmul_raw(rawarr(va), rawarr(vb)), E.kmax([ka, kb, 'i']))
    if out is not None:
        out[...] = r
        return out
    return r


@ov('dot')
def _dot(a, b, out=None):
    (va, ka), (vb, kb) = lift(a), lift(b)
    A, B = rawarr(va), rawarr(vb)
    k = E.kmax([ka, kb, 'i'])
    if A.ndim == 0 or B.ndim == 0:
        return mk(a) * mk(b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else a * b
    if B.ndim <= 2:
        sa = A.reshape(-1, A.shape[-1]) if A.ndim > 1 else A
        try:
            r = _matmul_raw(sa, B)
        except ValueError:
            raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
        shp = A.shape[:-1] + ((B.shape[1],) if B.ndim == 2 else ())
        r = r.reshape(shp) if isinstance(r, np.ndarray) else r
    else:
        raise EngineGap('dot with >2-d second operand')
    r = _finish(r, k)
    if out is not None:
        out[...] = r
        return out
    return r


@ov('vdot', 'inner')
def _inner(a, b):
    a, b = mk(a), mk(b)
    if b.ndim > 1:
        return _dot(a, b.T)
    return _dot(a, b)


@ov('vecdot', 'linalg.vecdot')
def _vecdot(a, b, axis=-1):
    return _sum(mk(a).conj() * mk(b) if lift(a)[1] == 'c' else mk(a) * mk(b), axis=axis)


@ov('outer', 'linalg.outer')
def _outer(a, b):
    a, b = mk(a).ravel(), mk(b).ravel()
    return a[:, None] * b[None, :]


@ov('cross', 'linalg.cross')
def _cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = np.moveaxis(mk(a).raw, axisa, -1), np.moveaxis(mk(b).raw, axisb, -1)
    k = E.kmax([lift(a)[1], lift(b)[1]])
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    a, b = wrap(a, k, False), wrap(b, k, False)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    r = _stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], axis=-1)
    return wrap(np.moveaxis(r.raw, -1, axisc), k, False)


@ov('einsum')
def _einsum(spec, *ops, **kw):
    lifted = [lift(o) for o in ops]
    k = E.kmax([x[1] for x in lifted])
    arrs = [rawarr(x[0]) for x in lifted]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        letters = sorted({c for c in ins if c.isalpha() and ins.count(c) == 1})
        outs = ('...' if '...' in ins else '') + ''.join(letters)
    ins = ins.split(',')
    # replace the ellipsis by fresh letters (broadcast)
    if any('...' in s for s in ins):
        nd = max(a.ndim - len(s.replace('...', '')) for s, a in zip(ins, arrs) if '...' in s)
        fresh = [chr(0x391 + i) for i in range(nd)]
        new = []
        for s, a in zip(ins, arrs):
            if '...' in s:
                m = a.ndim - len(s.replace('...', ''))
                new.append(s.replace('...', ''.join(fresh[nd - m:])))
            else:
                new.append(s)
        ins = new
        outs = outs.replace('...', ''.join(fresh))
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError('einstein sum subscripts string does not match operand dims')
        for c, n in zip(s, a.shape):
            if dims.get(c, n) != n and dims.get(c, 1) != 1 and n != 1:
                raise ValueError('einsum dimension mismatch')
            dims[c] = max(dims.get(c, 1), n) if n != 0 else 0
    summed = [c for c in dims if c not in outs]
    out = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for oix in np.ndindex(out.shape):
        env = dict(zip(outs, oix))
        terms = [E.const(0)]
        for six in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, six))
            t = None
            for s, a in zip(ins, arrs):
                x = _elem(a[tuple(env[c] if n != 1 else 0 for c, n in zip(s, a.shape))])
                t = x if t is None else E.mul2(t, x)
            terms.append(t)
        out[oix] = E.addn(terms, kind='i')
    return _finish(out, k)


@ov('tensordot')
def _tensordot(a, b, axes=2):
    a, b = mk(a), mk(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    aa, bb = [[x] if isinstance(x, int) else list(x) for x in axes]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(110 + i) for i in range(b.ndim)]
    for x, y in zip(aa, bb):
        lb[y % b.ndim] = la[x % a.ndim]
    outs = [c for i, c in enumerate(la) if i not in [x % a.ndim for x in aa]] + \
           [c for i, c in enumerate(lb) if i not in [y % b.ndim for y in bb]]
    return _einsum(f"{''.join(la)},{''.join(lb)}->{''.join(outs)}", a, b)


@ov('trace', 'linalg.trace')
def _trace(a, *args, axis1=0, axis2=1, **kw):
    a = mk(a)
    return _sum(wrap(np.diagonal(a.raw, 0, axis1, axis2).copy(), a._k, False), axis=-1)


def _is_numeric_seq(x):
    return True


@ov('asarray', 'array', 'asanyarray', 'ascontiguousarray', 'asfarray')
def _array(a, dtype=None, copy=None, order=None, ndmin=0, subok=True, like=None, _asarray=False, device=None):
    k = dkind(dtype)
    if isinstance(a, SA) and (k is None or k == a._k):
        r = a
        if not _asarray and copy is not False:
            r = a.copy()
    elif k == 'O' or isinstance(a, (str, bytes)):
        if k in ('f', 'c', 'i') and isinstance(a, str):
            float(a)
        r = np.array(a, dtype=np.dtype(dtype) if dtype is not None else None)
        if r.dtype.kind in 'fc':
            r = mk(r)
        return r
    else:
        try:
            v, k0 = lift(a)
        except TypeError:
            if k is not None:
                # a float conversion numpy would refuse (or parse)
                r = np.array(a, dtype=_DT[k])
                return mk(r)
            r = np.array(a)
            if r.dtype == object and any(isinstance(x, (Sym, SA)) for x in r.ravel()):
                raise EngineGap('mixed object array')
            return r
        k1 = k or k0
        if k1 == 'b':
            r = np.array(boolarr(v))
        elif k is None and rawarr(v).dtype != object and k0 in 'ib':
            r = np.array(rawarr(v))
        elif k == 'i' and rawarr(v).dtype != object:
            r = np.array(rawarr(v)).astype(int)
        else:
            if k is not None and E.KORD[k0] > E.KORD[k]:
                if k0 == 'c' and k == 'f' and not isinstance(a, np.ndarray):
                    raise TypeError("float() argument must be a string or a real number, not 'complex'")
            src = rawarr(v)
            r = wrap(_castarr(src, k1), k1, scalar=False)
            if k0 == 'i' and src.dtype == object and k is None and all(E.cval(x) is not None for x in r.raw.ravel()):
                r = np.array([int(E.cval(x)) for x in r.raw.ravel()], dtype=int).reshape(r.shape)
    while ndmin and r.ndim < ndmin:
        r = r[None]
    return _ordered(r, order)


def _asarray(a, dtype=None, order=None, copy=None, **kw):
    if order in ('F', 'C'):
        return _ordered(_asarray(a, dtype=dtype, copy=copy), order)
    if copy:
        return _array(a, dtype=dtype)
    if not isinstance(a, SA) and isinstance(a, np.ndarray) and a.dtype.kind in 'fc' and dkind(dtype) in (None, a.dtype.kind):
        raise EngineGap('plain float array reached asarray')
    if isinstance(a, np.ndarray) and not isinstance(a, SA) and a.dtype != object and \
            (dtype is None or dkind(dtype) == {'u': 'i'}.get(a.dtype.kind, a.dtype.kind)):
        return a
    return _array(a, dtype=dtype, _asarray=True)


OV['asarray'] = OV['asanyarray'] = _asarray
OV['ascontiguousarray'] = lambda a, dtype=None, **k: _asarray(a, dtype=dtype, order='C')


def _creation(val):
    def f(shape, dtype=float, order='C', **kw):
        k = dkind(dtype) if dtype is not None else 'f'
        if k in 'bO':
            return np.full(shape, val if val is not None else 0, dtype=np.dtype(dtype))
        if k == 'i':
            return np.full(shape, val if val is not None else 0, dtype=int)
        if isinstance(shape, SA):
            shape = tuple(int(x) for x in shape.raw)
        if val is None:
            r = np.empty(shape, dtype=object)
            r.fill(E.nan())        # uninitialised memory is poison
            return wrap(np.asfortranarray(r) if order == 'F' else r, k, scalar=False)
        r = zeros_(shape, k, val)
        return wrap(np.asfortranarray(r.raw), k, scalar=False) if order == 'F' and isinstance(r, SA) else r
    return f


OV['zeros'], OV['ones'], OV['empty'] = _creation(0), _creation(1), _creation(None)


def _ordered(r, order):
    if order in ('F', 'C') and isinstance(r, SA):
        raw = np.asfortranarray(r.raw) if order == 'F' else np.ascontiguousarray(r.raw)
        return r if raw is r.raw or raw.base is r.raw else wrap(raw.reshape(r.shape, order=order) if raw.shape != r.shape else raw, r._k, scalar=False)
    return r


@ov('asfortranarray')
def _asfortran(a, dtype=None, **kw):
    return _ordered(_asarray(a, dtype=dtype), 'F')


@ov('require')
def _require(a, dtype=None, requirements=None, **kw):
    req = [requirements] if isinstance(requirements, str) else list(requirements or [])
    r = _asarray(a, dtype=dtype)
    for q in req:
        if q in ('F', 'F_CONTIGUOUS', 'FORTRAN'):
            r = _ordered(r, 'F')
        elif q in ('C', 'C_CONTIGUOUS', 'CONTIGUOUS'):
            r = _ordered(r, 'C')
        elif q in ('O', 'OWNDATA', 'E', 'ENSUREARRAY', 'W', 'WRITEABLE', 'A', 'ALIGNED'):
            pass
        else:
            raise EngineGap(f'np.require {q}')
    return r


def _like(val):
    base = _creation(val)

    def f(a, dtype=None, shape=None, **kw):
        v, k0 = lift(a)
        k = dkind(dtype) or k0
        return base(rawarr(v).shape if shape is None else shape, dtype=_DT[k])
    return f


OV['zeros_like'], OV['ones_like'], OV['empty_like'] = _like(0), _like(1), _like(None)


@ov('full')
def _full(shape, fill, dtype=None, **kw):
    v, k0 = lift(fill)
    k = dkind(dtype) or k0
    r = _creation(0)(shape, dtype=_DT[k])
    r[...] = fill
    return r


@ov('full_like')
def _full_like(a, fill, dtype=None, shape=None, **kw):
    v, k0 = lift(a)
    return _full(rawarr(v).shape if shape is None else shape, fill, dtype=_DT[dkind(dtype) or k0])


@ov('eye', 'identity')
def _eye(n, m=None, k=0, dtype=float, **kw):
    return mk(np.eye(n, m, k), dkind(dtype) or 'f')


@ov('diag')
def _diag(a, k=0):
    a = mk(a)
    if a.ndim == 2:
        return wrap(np.diagonal(a.raw, k).copy(), a._k, False)
    n = a.shape[0] + abs(k)
    out = zeros_((n, n), a._k)
    for i in range(a.shape[0]):
        out[i + max(0, -k), i + max(0, k)] = a[i]
    return out


def _listof(seq):
    items = list(seq)
    lifted = [lift(x) for x in items]
    k = E.kmax([x[1] for x in lifted])
    arrs = [rawarr(E.const(v) if isinstance(v, (bool, np.bool_)) and k != 'b' else v) for v, _ in lifted]
    if all(a.dtype != object for a in arrs) and k in 'ib':
        return arrs, None
    return [_castarr(a, k) for a in arrs], k


def _seqfun(real):
    def f(seq, *a, dtype=None, out=None, **kw):
        if isinstance(seq, (SA, np.ndarray)):
            seq = list(seq)
        arrs, k = _listof(seq)
        r = real(arrs, *a, **kw)
        r = r if k is None else wrap(r, k, scalar=False)
        if dtype is not None:
            r = _array(r, dtype=dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


for _nm in ('stack', 'concatenate', 'hstack', 'vstack', 'column_stack', 'dstack', 'concat', 'block'):
    if hasattr(np, _nm):
        OV[_nm] = _seqfun(getattr(np, _nm))
_stack = OV['stack']


@ov('append')
def _append(a, b, axis=None):
    if axis is None:
        a, b = mk(a).ravel(), mk(b).ravel()
        axis = 0
    return OV['concatenate']([a, b], axis=axis)


@ov('where')
def _where(c, *xy):
    if isinstance(c, (SA, LB)):
        c = boolarr(c)
    if not xy:
        return np.where(c)
    (a, ka), (b, kb) = lift(xy[0]), lift(xy[1])
    k = E.kmax([ka, kb])
    if k == 'b':
        return np.where(c, a, b)
    r = np.where(c, _castarr(rawarr(a), k), _castarr(rawarr(b), k))
    return wrap(r, k, scalar=False)


@ov('select')
def _select(conds, choices, default=0):
    r = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = _where(c, v, r)
    return r


@ov('piecewise')
def _piecewise(x, condlist, funclist, *args, **kw):
    x = mk(x)
    out = OV['zeros_like'](x)
    condlist = [np.asarray(c) for c in condlist]
    if len(funclist) == len(condlist) + 1:
        condlist.append(~np.any(condlist, axis=0))
    for c, f in zip(condlist, funclist):
        out[c] = f(x[c], *args, **kw) if callable(f) else f
    return out


@ov('clip')
def _clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.get('min', lo) if lo is None else lo
    hi = kw.get('max', hi) if hi is None else hi
    r = a
    if lo is not None:
        r = array_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = array_ufunc(np.minimum, '__call__', (r, hi), {})
    return r


def isclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = mk(a), mk(b)
    d = array_ufunc(np.absolute, '__call__', (a - b,), {})
    t = E.const(atol) + E.const(rtol) * array_ufunc(np.absolute, '__call__', (b,), {})
    return d <= t


OV['isclose'] = isclose_
OV['allclose'] = lambda a, b, **k: bool(np.all(isclose_(a, b, **k)))


@ov('array_equal')
def _array_equal(a, b, **k):
    a, b = mk(a), mk(b)
    return a.shape == b.shape and bool(np.all(a == b))


OV['all'] = lambda a, axis=None, **k: a.all(axis=axis, **k) if isinstance(a, LB) else np.all(boolarr(a) if not isinstance(a, (bool, np.bool_)) else a, axis=axis, **k)
OV['any'] = lambda a, axis=None, **k: a.any(axis=axis, **k) if isinstance(a, LB) else np.any(boolarr(a) if not isinstance(a, (bool, np.bool_)) else a, axis=axis, **k)
OV['isscalar'] = lambda x: isinstance(x, Sym) or np.isscalar(x)
OV['real'] = lambda a: a.real if isinstance(a, (SA, Sym)) else mk(a).real
OV['imag'] = lambda a: a.imag if isinstance(a, (SA, Sym)) else mk(a).imag
OV['angle'] = lambda a, deg=False: wrap(_map(E.sarg, mk(a)), 'f') if isinstance(a, np.ndarray) else E.sarg(E.const(a))
OV['iscomplexobj'] = lambda a: lift(a)[1] == 'c'
OV['isrealobj'] = lambda a: lift(a)[1] != 'c'
OV['nan_to_num'] = lambda a, nan=0.0, **k: _where(array_ufunc(np.isnan, '__call__', (mk(a),), {}), nan, a)
OV['shape'] = lambda a: rawarr(lift(a)[0]).shape
OV['ndim'] = lambda a: rawarr(lift(a)[0]).ndim
OV['size'] = lambda a, axis=None: rawarr(lift(a)[0]).size if axis is None else rawarr(lift(a)[0]).shape[axis]
OV['copy'] = lambda a, **k: _array(a)
OV['copyto'] = lambda dst, src, where=True, **k: _copyto(dst, src, where)
OV['result_type'] = lambda *a: np.result_type(*[_DT[lift(x)[1]] if isinstance(x, (SA, Sym)) else
                                               (np.float64 if x is SFloat else np.complex128 if x is SComplex else x) for x in a])
OV['promote_types'] = lambda a, b: np.promote_types(_DT[dkind(a)], _DT[dkind(b)])
OV['issubdtype'] = lambda a, b: np.issubdtype(np.float64 if a is SFloat else np.complex128 if a is SComplex else a,
                                            np.float64 if b is SFloat else np.complex128 if b is SComplex else b)
OV['dtype'] = lambda d, **k: _DT[dkind(d)] if dkind_safe(d) in _DT else np.dtype(d)


def _copyto(dst, src, where=True):
    if where is True:
        dst[...] = src
    else:
        where = np.broadcast_to(where, dst.shape)
        s = np.broadcast_to(rawarr(mk(src)), dst.shape)
        dst[where] = wrap(s[where], lift(src)[1], False)


@ov('linspace')
def _linspace(a, b, num=50, endpoint=True, **kw):
    a, b = E.const(a), E.const(b)
    num = int(num)
    den = (num - 1 if endpoint else num)
    return mk([a + (b - a) * Fraction(i, den) if den else a for i in range(num)], 'f')


@ov('logspace')
def _logspace(a, b, num=50, base=10.0, **kw):
    return mk([E.pow2(E.const(base), x) for x in _linspace(a, b, num)], 'f')


@ov('arange')
def _arange(*a, dtype=None, **kw):
    if all(isinstance(x, (int, np.integer)) for x in a):
        r = np.arange(*a)
        return r if dkind(dtype) in (None, 'i') else mk(r, dkind(dtype))
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    f = [E.cval(E.const(x)) for x in (start, stop, step)]
    if any(x is None for x in f):
        raise EngineGap('arange with symbolic bounds')
    n = -((f[0] - f[1]) // f[2])
    return mk([f[0] + i * f[2] for i in range(max(0, int(n)))], 'f')


@ov('kron')
def _kron(a, b):
    a, b = mk(a), mk(b)
    return wrap(np.kron(a.raw, b.raw), E.kmax([a._k, b._k]), False)


@ov('gradient', 'fft')
def _gap(*a, **k):
    raise EngineGap('numpy function outside the engine')


def _less(a, b):
    return bool(E.decide('lt', _elem(a), _elem(b)))


def _order(xs):
    """stable order of a short list; every comparison splits the path unless it is settled."""
    out = []
    for i, x in enumerate(xs):
        j = len(out)
        while j > 0 and _less(x, xs[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


def _rows(a, axis, f, k):
    a = mk(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    t = np.moveaxis(a.raw, axis, -1)
    vals = {ix: f(list(t[ix])) for ix in np.ndindex(t.shape[:-1])}
    first = next(iter(vals.values()), [])
    if isinstance(first, list):
        out = np.empty(t.shape[:-1] + (len(first),), dtype=object if k is None else int)
        for ix, v in vals.items():
            for j, x in enumerate(v):
                out[ix + (j,)] = x
        out = np.moveaxis(out, -1, axis)
    else:
        out = np.empty(t.shape[:-1], dtype=object if k is None else int)
        for ix, v in vals.items():
            out[ix] = v
        if out.shape == ():
            return out[()]
    return wrap(out, a._k, False) if k is None else out


@ov('sort')
def _sort(a, axis=-1, **kw):
    if _concrete_int(a):
        return np.sort(a, axis=axis)
    return _rows(a, axis, lambda xs: [xs[i] for i in _order(xs)], None)


@ov('argsort')
def _argsort(a, axis=-1, **kw):
    if _concrete_int(a):
        return np.argsort(a, axis=axis, kind='stable')
    return _rows(a, axis, _order, 'i')


def _arg(pick):
    def f(a, axis=None, keepdims=False, **kw):
        if _concrete_int(a) or isinstance(a, LB):
            return getattr(np, pick)(rawarr(a), axis=axis, keepdims=keepdims)

        def g(xs):
            b = 0
            for i in range(1, len(xs)):
                if _less(xs[b], xs[i]) if pick == 'argmax' else _less(xs[i], xs[b]):
                    b = i
            return b
        r = _rows(a, axis, g, 'i')
        if keepdims:
            r = np.expand_dims(r, axis) if axis is not None else np.reshape(r, (1,) * mk(a).ndim)
        return r
    return f


OV['argmax'], OV['argmin'] = _arg('argmax'), _arg('argmin')


@ov('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    if _concrete_int(a) and _concrete_int(v):
        return np.searchsorted(a, v, side=side, sorter=sorter)
    xs = list(mk(a).raw)
    if sorter is not None:
        xs = [xs[i] for i in sorter]
    vs = rawarr(lift(v)[0])
    out = np.empty(vs.shape, dtype=int)
    for ix in np.ndindex(vs.shape):
        n = 0
        for x in xs:
            if not (_less(x, vs[ix]) if side == 'left' else not _less(vs[ix], x)):
                break
            n += 1
        out[ix] = n
    return out[()] if out.shape == () else out


@ov('unique')
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if _concrete_int(a):
        return np.unique(a, return_index, return_inverse, return_counts, axis)
    if axis is not None:
        raise EngineGap('unique along an axis')
    a = mk(a)
    xs = list(a.raw.ravel())
    od = _order(xs)
    groups = []
    for i in od:
        if groups and bool(E.decide('eq', _elem(xs[groups[-1][0]]), _elem(xs[i]))):
            groups[-1].append(i)
        else:
            groups.append([i])
    r = np.empty(len(groups), dtype=object)
    for j, g in enumerate(groups):
        r[j] = xs[g[0]]
    out = [wrap(r, a._k, False)]
    if return_index:
        out.append(np.array([min(g) for g in groups], dtype=int))
    if return_inverse:
        inv = np.empty(len(xs), dtype=int)
        for j, g in enumerate(groups):
            inv[g] = j
        out.append(inv.reshape(a.shape))
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


@ov('interp')
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineGap('periodic interp')
    xp, fp = mk(xp), mk(fp)
    v, k = lift(x)
    xs = rawarr(v)
    n = len(xp)
    out = np.empty(xs.shape, dtype=object)
    for ix in np.ndindex(xs.shape):
        t = _elem(xs[ix])
        if _less(t, xp.raw[0]):
            r = fp.raw[0] if left is None else E.const(left)
        elif _less(xp.raw[n - 1], t):
            r = fp.raw[n - 1] if right is None else E.const(right)
        else:
            r = fp.raw[n - 1]
            for i in range(n - 1):
                if _less(t, xp.raw[i + 1]):
                    a, b = _elem(xp.raw[i]), _elem(xp.raw[i + 1])
                    fa, fb = _elem(fp.raw[i]), _elem(fp.raw[i + 1])
                    r = fa + (fb - fa) * (t - a) / (b - a)
                    break
        out[ix] = cast_up(_elem(r), E.kmax([fp._k, 'f']))
    return out[()] if out.shape == () else wrap(out, E.kmax([fp._k, 'f']), False)


@ov('trapz', 'trapezoid')
def _trapezoid(y, x=None, dx=1, axis=-1):
    y = mk(y)
    t = wrap(np.moveaxis(y.raw, axis, -1), y._k, False)
    if x is None:
        d = dx
    else:
        x = mk(x)
        d = _npdiff(x) if x.ndim == 1 else wrap(np.moveaxis(_npdiff(x, axis=axis).raw, axis, -1), x._k, False)
    return OV['sum'](d * (t[..., 1:] + t[..., :-1]) / 2, axis=-1)


@ov('var')
def _var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = mk(a)
    m = OV['mean'](a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    d = OV['abs'](a - m) if 'abs' in OV else np.abs(a - m)
    return OV['sum'](d * d, axis=axis, keepdims=keepdims) / (n - ddof)


@ov('std')
def _std(a, **kw):
    return np.sqrt(mk(OV['var'](a, **kw)))[()]


@ov('median')
def _median(a, axis=None, **kw):
    def g(xs):
        o = _order(xs)
        n = len(o)
        return xs[o[n // 2]] if n % 2 else E.div2(E.add2(_elem(xs[o[n // 2 - 1]]), _elem(xs[o[n // 2]])), E.const(2))
    return _rows(mk(a, 'f') if lift(a)[1] in 'ib' else a, axis, g, None)


OV['nanmax'] = lambda a, *p, **k: OV['max'](a, *p, **k)
OV['nanmin'] = lambda a, *p, **k: OV['min'](a, *p, **k)
OV['ptp'] = lambda a, axis=None, **k: OV['max'](a, axis=axis) - OV['min'](a, axis=axis)
OV['nonzero'] = lambda a: np.nonzero(boolarr(mk(a) if isinstance(a, (list, tuple)) else a))
OV['flatnonzero'] = lambda a: np.flatnonzero(boolarr(mk(a) if isinstance(a, (list, tuple)) else a))
OV['argwhere'] = lambda a: np.argwhere(boolarr(mk(a) if isinstance(a, (list, tuple)) else a))
OV['count_nonzero'] = lambda a, axis=None, **k: np.count_nonzero(boolarr(mk(a) if isinstance(a, (list, tuple)) else a), axis=axis, **k)
OV['isreal'] = lambda a: OV['imag'](a) == 0
OV['iscomplex'] = lambda a: OV['imag'](a) != 0


@ov('polyval')
def _polyval(p, x):
    r = 0
    for c in (p if isinstance(p, (list, tuple)) else mk(p)):
        r = r * x + c
    return r


@ov('putmask')
def _putmask(a, mask, values):
    v = mk(values).reshape(-1)
    m = np.broadcast_to(boolarr(mask), a.shape)
    for n, ix in enumerate(np.ndindex(a.shape)):
        if m[ix]:
            a[ix] = v[n % v.size]


@ov('place')
def _place(arr, mask, vals):
    v = mk(vals).reshape(-1)
    n = 0
    m = boolarr(mask)
    for ix in np.ndindex(arr.shape):
        if m[ix]:
            arr[ix] = v[n % v.size]
            n += 1


@ov('put')
def _put(a, ind, v, **kw):
    vs = mk(v).reshape(-1)
    for n, i in enumerate(np.ravel(ind)):
        a[np.unravel_index(int(i) % a.size, a.shape)] = vs[n % vs.size]


@ov('fill_diagonal')
def _fill_diagonal(a, val, **kw):
    v = mk(val).reshape(-1)
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v[i % v.size]


@ov('apply_along_axis')
def _apply_along_axis(f, axis, arr, *args, **kw):
    a = mk(arr)
    t = wrap(np.moveaxis(a.raw, axis, -1), a._k, False)
    vals = [f(t[ix], *args, **kw) for ix in np.ndindex(t.shape[:-1])]
    r = mk(vals)
    tail = r.shape[1:]
    r = r.reshape(t.shape[:-1] + tail)
    for _ in tail[1:]:
        raise EngineGap('apply_along_axis with matrices')
    return wrap(np.moveaxis(r.raw, -1, axis), r._k, False) if tail else r


OV['fromiter'] = lambda it, dtype=None, **k: OV['array'](list(it), dtype=dtype)
OV['ediff1d'] = lambda a, **k: _npdiff(mk(a).reshape(-1)) if not k else _gap()
OV['asarray_chkfinite'] = lambda a, **k: OV['asarray'](a, **k)
OV['frompyfunc'] = lambda f, nin, nout: OV['vectorize'](f)


@ov('diff')
def _npdiff(a, n=1, axis=-1):
    a = mk(a)
    for _ in range(n):
        t = np.moveaxis(a.raw, axis, -1)
        t = wrap(t, a._k, False)
        a = wrap(np.moveaxis((t[..., 1:] - t[..., :-1]).raw, -1, axis), a._k, False)
    return a


@ov('linalg.det')
def _det(a):
    a = mk(a)
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if a.shape == (3, 3):
        return _dot(a[0], _cross(a[1], a[2]))
    raise EngineGap('det')


@ov('linalg.inv')
def _inv(a):
    a = mk(a)
    d = _det(a)
    if a.shape == (2, 2):
        return mk([[a[1, 1] / d, -a[0, 1] / d], [-a[1, 0] / d, a[0, 0] / d]])
    c = [_cross(a[1], a[2]), _cross(a[2], a[0]), _cross(a[0], a[1])]
    return _stack(c, axis=1) / d


@ov('linalg.solve')
def _solve(a, b):
    return _matmul(_inv(a), b)


@ov('cumsum')
def _cumsum(a, axis=None, **kw):
    a = mk(a)
    return wrap(np.cumsum(a.raw, axis=axis), a._k, False)


@ov('cumprod')
def _cumprod(a, axis=None, **kw):
    a = mk(a)
    return wrap(np.cumprod(a.raw, axis=axis), a._k, False)


@ov('sinc')
def _sinc(x):
    raise EngineGap('sinc')


@ov('sign')
def _sgn(x):
    return array_ufunc(np.sign, '__call__', (x,), {})


@ov('errstate')
def _errstate(**k):
    return np.errstate(**k)


@ov('vectorize')
def _vectorize(f, **kw):
    def g(*args):
        arrs = [rawarr(lift(a)[0]) for a in args]
        bs = np.broadcast_arrays(*arrs)
        vals = [f(*[_elem(b[ix]) for b in bs]) for ix in np.ndindex(bs[0].shape)]
        if bs[0].shape == ():
            return vals[0]
        return mk(vals).reshape(bs[0].shape)
    return g


# generic structural functions: run the real one on raw object arrays
_STRUCT = {'reshape', 'squeeze', 'ravel', 'transpose', 'moveaxis', 'swapaxes', 'rollaxis', 'expand_dims', 'broadcast_to',
           'atleast_1d', 'atleast_2d', 'atleast_3d', 'repeat', 'tile', 'flip', 'fliplr', 'flipud', 'roll', 'take',
           'broadcast_arrays', 'meshgrid', 'split', 'array_split', 'hsplit', 'vsplit', 'delete', 'insert', 'diagonal', 'triu',
           'tril', 'rot90', 'compress', 'extract', 'take_along_axis', 'permute_dims', 'matrix_transpose', 'resize'}


def nested(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from nested(y)
        else:
            yield y


def _structural(real):
    def f(*args, **kw):
        ks = []

        def cv(x):
            if isinstance(x, (SA, Sym)):
                ks.append(lift(x)[1])
                return rawarr(x)
            if isinstance(x, (list, tuple)) and any(isinstance(y, (SA, Sym)) for y in nested(x)):
                return cv(mk(x))
            if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
                return cv(mk(x))
            return x
        args = [cv(a) for a in args]
        kw = {k: cv(v) for k, v in kw.items()}
        if not ks:
            # plain python numbers (e.g. atleast_1d([0., 1.]))
            return lift_result(real(*args, **kw))
        r = real(*args, **kw)
        k = E.kmax(ks)

        def back(r):
            if isinstance(r, np.ndarray):
                return mk(r, k) if r.dtype.kind in 'fc' else (wrap(r, k, False) if r.dtype == object else r)
            if isinstance(r, list):
                return [back(x) for x in r]
            if isinstance(r, tuple):
                return tuple(back(x) for x in r)
            return r
        return back(r)
    return f


def lift_result(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SA):
        if r.dtype.kind in 'fc':
            return mk(r)
        if r.dtype == object and r.size and all(isinstance(x, Sym) for x in r.ravel()):
            return wrap(r, lift(r)[1], False)
        return r
    if isinstance(r, (float, np.floating)) and not isinstance(r, bool):
        return E.const(float(r))
    if isinstance(r, (complex, np.complexfloating)):
        return E.const(complex(r))
    if isinstance(r, tuple):
        return tuple(lift_result(x) for x in r)
    if isinstance(r, list):
        return [lift_result(x) for x in r]
    return r


for _nm in _STRUCT:
    if hasattr(np, _nm):
        OV.setdefault(_nm, _structural(getattr(np, _nm)))


def _funcname(func):
    m = getattr(func, '__module__', '') or ''
    n = getattr(func, '__name__', str(func))
    if m.startswith('numpy.linalg'):
        return 'linalg.' + n
    return n


def array_function(func, args, kwargs):
    n = _funcname(func)
    f = OV.get(n)
    if f is None:
        raise EngineGap(f'numpy function {n}')
    return f(*args, **kwargs)


# ------------------------------------------------------------------------- shim modules
class _RClass:
    def __init__(self, axis2d):
        self.c = axis2d

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for x in key:
            if isinstance(x, slice):
                if isinstance(x.step, complex):
                    parts.append(_linspace(x.start, x.stop, int(abs(x.step))))
                elif isinstance(x.step, Sym) and x.step.kind == 'c':
                    parts.append(_linspace(x.start, x.stop, int(E.cval(E.simag(x.step)))))
                else:
                    parts.append(_arange(x.start if x.start is not None else 0, x.stop,
                                         x.step if x.step is not None else 1))
            elif isinstance(x, str):
                raise EngineGap('r_ with a string directive')
            else:
                parts.append(x)
        arrs, k = _listof(parts)
        if self.c:
            arrs = [a.reshape(-1, 1) if a.ndim <= 1 else a for a in arrs]
            r = np.concatenate(arrs, axis=-1)
        else:
            arrs = [np.atleast_1d(a) for a in arrs]
            r = np.concatenate(arrs, axis=0)
        return r if k is None else wrap(r, k, scalar=False)


class _NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)


class _Ndarray(metaclass=_NdarrayMeta):
    def __new__(cls, shape, dtype=float, **kw):
        return OV['empty'](shape, dtype)


class ShimUfunc:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kw):
        n = self.uf.nin
        ins, rest = args[:n], args[n:]
        if rest:
            kw['out'] = rest[0]
        if self.uf.__name__ == 'matmul':
            return OV['matmul'](*ins, **kw)
        if all(_concrete_int(x) for x in ins) and self.uf.__name__ not in _FLOATY and 'out' not in kw:
            r = self.uf(*ins, **kw)
            return lift_result(r)
        return array_ufunc(self.uf, '__call__', ins, kw)

    def reduce(self, a, *args, **kw):
        if args:
            kw['axis'] = args[0]
        if _concrete_int(a):
            return self.uf.reduce(a, **kw)
        return array_ufunc(self.uf, 'reduce', (a,), kw)

    def outer(self, a, b, **kw):
        return array_ufunc(self.uf, 'outer', (a, b), kw)

    def accumulate(self, a, axis=0, **kw):
        return array_ufunc(self.uf, 'accumulate', (a,), {'axis': axis})

    def __getattr__(self, n):
        return getattr(self.uf, n)


_FLOATY = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arctan2', 'tanh', 'sinh', 'cosh', 'arcsin', 'arccos',
           'true_divide', 'divide', 'hypot', 'log10', 'log2', 'log1p', 'expm1', 'deg2rad', 'rad2deg', 'radians', 'degrees',
           'cbrt', 'exp2', 'fabs', 'float_power', 'arcsinh', 'arctanh', 'reciprocal'}


def _concrete_int(x):
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return True
    if isinstance(x, np.ndarray) and not isinstance(x, SA) and x.dtype.kind in 'iub':
        return True
    if isinstance(x, (list, tuple)):
        return all(_concrete_int(y) for y in x)
    return False


def make_linalg():
    m = types.ModuleType('numpy.linalg')

    def ga(name):
        f = OV.get('linalg.' + name)
        if f is not None:
            return f
        if hasattr(np.linalg, name):
            def g(*a, **k):
                raise EngineGap(f'numpy.linalg.{name}')
            x = getattr(np.linalg, name)
            if isinstance(x, type):
                return x
            return g
        raise AttributeError(name)
    m.__getattr__ = ga
    return m


LINALG = make_linalg()
_CLASSES = {}


def np_getattr(name):
    if name == 'pi':
        return E.PI()
    if name == 'e':
        return E.sexp(E.const(1.0))
    if name in ('inf', 'Inf', 'infty'):
        return E.const(_math.inf)
    if name in ('nan', 'NaN'):
        return E.nan()
    if name == 'newaxis':
        return None
    if name == 'r_':
        return _RClass(False)
    if name == 'c_':
        return _RClass(True)
    if name == 's_' or name == 'index_exp':
        return getattr(np, name)
    if name == 'linalg':
        return LINALG
    if name == 'ndarray':
        return _Ndarray
    if name in ('float64', 'float32', 'floating', 'double', 'float_', 'float16', 'longdouble'):
        return SFloat if name != 'floating' else SFloatAbs
    if name in ('complex128', 'complex64', 'cdouble', 'complexfloating'):
        return SComplex
    if name in ('number', 'inexact'):
        return SNumber
    f = OV.get(name)
    if f is not None:
        return f
    real = getattr(np, name)
    if isinstance(real, np.ufunc):
        return ShimUfunc(real)
    if isinstance(real, type) or isinstance(real, types.ModuleType):
        return real
    if callable(real):
        def g(*a, **k):
            if any(isinstance(x, (SA, Sym)) for x in list(a) + list(k.values())):
                raise EngineGap(f'numpy function {name}')
            return lift_result(real(*a, **k))
        g.__name__ = name
        return g
    return real


def make_numpy():
    m = types.ModuleType('numpy')
    m.__getattr__ = np_getattr
    m.__path__ = []
    m.linalg = LINALG
    m.__version__ = np.__version__
    return m


# python-level scalar types ------------------------------------------------------------
class _SFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.kind == 'f')

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_SFloatMeta):
    _sym_kind = 'f'
    __name__ = 'float'

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            if x.kind == 'c':
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return E.as_kind(x, 'f')
        if isinstance(x, SA):
            if x.ndim != 0 and x.size == 1:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return SFloat(x.raw.reshape(-1)[0])
        return E.const(float(x))

    fromhex = float.fromhex


class _SFloatAbsMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.floating) or (isinstance(x, Sym) and x.kind == 'f')


class SFloatAbs(metaclass=_SFloatAbsMeta):
    _sym_kind = 'f'


class _SNumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.number, Sym))


class SNumber(metaclass=_SNumMeta):
    pass


class _SComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, complex) or (isinstance(x, Sym) and x.kind == 'c')

    def __eq__(cls, o):
        return o is cls or o is complex

    def __hash__(cls):
        return hash(complex)


class SComplex(metaclass=_SComplexMeta):
    _sym_kind = 'c'

    def __new__(cls, re=0.0, im=None):
        if isinstance(re, SA):
            re = re.item()
        if im is None:
            if isinstance(re, Sym):
                return E.as_kind(re, 'c')
            return E.as_kind(E.const(complex(re)), 'c')
        return E.as_kind(E.add2(E.const(re), E.mul2(E.const(im), E.I())), 'c')


class _SIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or False

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_SIntMeta):
    _sym_kind = 'i'

    def __new__(cls, x=0, *a):
        if isinstance(x, (Sym, SA)):
            s = x if isinstance(x, Sym) else x.item()
            v = E.cval(s)
            if v is None:
                if s.kind == 'i':
                    return s
                raise EngineGap('int() of a symbolic value')
            return int(v)
        return int(x, *a)


def make_math():
    m = types.ModuleType('math')
    fn = {'sqrt': E.ssqrt, 'exp': E.sexp, 'log': E.slog, 'sin': E.ssin, 'cos': E.scos, 'tan': _UF['tan'], 'atan': E.satan,
          'tanh': E.stanh, 'sinh': E.ssinh, 'cosh': E.scosh, 'asin': E.sasin, 'acos': E.sacos, 'erf': E.serf, 'fabs': E.sabs,
          'log10': E._METHS['log10'], 'radians': E._METHS['radians'], 'degrees': E._METHS['degrees'],
          'erfc': lambda a: E.const(1.0) - E.serf(a)}

    def ga(name):
        if name == 'pi':
            return E.PI()
        if name == 'inf':
            return E.const(_math.inf)
        if name == 'nan':
            return E.nan()
        if name in fn:
            return lambda x, *a: fn[name](SFloat(x))
        if name == 'atan2':
            return lambda y, x: E.satan2(SFloat(y), SFloat(x))
        if name == 'hypot':
            return lambda *a: E.ssqrt(E.addn([E.pow_(SFloat(x), 2) for x in a]))
        if name == 'pow':
            return lambda a, b: E.pow2(SFloat(a), E.const(b))
        if name in ('isnan', 'isinf', 'isfinite'):
            return lambda x: bool(array_ufunc(getattr(np, name), '__call__', (E.const(x),), {}))
        if name in ('isclose',):
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(isclose_(a, b, rel_tol, abs_tol))
        if name in ('fsum', 'prod'):
            return (lambda s: E.addn([E.const(x) for x in s])) if name == 'fsum' else (lambda s: _prod(mk(list(s))))
        real = getattr(_math, name)

        def g(*a):
            if any(isinstance(x, (SA, Sym)) for x in a):
                if all(E.cval(E.const(x)) is not None for x in a):
                    a = [float(E.cval(E.const(x))) for x in a]
                else:
                    raise EngineGap(f'math.{name}')
            return real(*a)
        return g if callable(real) else real
    m.__getattr__ = ga
    return m


def _elementwise(f, kindf=None):
    def g(*args, **kw):
        arrs = [rawarr(lift(a)[0]) for a in args]
        ks = [lift(a)[1] for a in args]
        k = E.kmax(ks + ['f']) if kindf is None else kindf
        bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
        out = np.empty(bs[0].shape, dtype=object)
        for ix in np.ndindex(bs[0].shape):
            out[ix] = cast_up(f(*[_elem(b[ix]) for b in bs]), k)
        if out.shape == ():
            return out[()]
        return wrap(out, k, False)
    return g


def s_ellipk(m):
    if E.cval(m) == 0:
        return E.mul2(E.const(Fraction(1, 2)), E.PI())
    return E.fun('ellipk', m, kind='f')


def s_ellipe(m):
    if E.cval(m) == 0:
        return E.mul2(E.const(Fraction(1, 2)), E.PI())
    if E.cval(m) == 1:
        return E.const(1.0)
    return E.fun('ellipe', m, kind='f')


def s_ive(v, z):
    # ive(v, z) = iv(v, z) * exp(-|Re z|)
    return E.mul2(E.siv(v, z), E.sexp(E.mul2(E.const(-1), E.sabs(E.sreal(z)))))


SPECIAL_FN = {
    'erf': lambda z: E.serf(z), 'erfc': lambda z: E.sub2(E.const(1.0), E.serf(z)),
    'erfcx': lambda z: E.mul2(E.sexp(E.pow_(z, 2)), E.sub2(E.const(1.0), E.serf(z))),
    'ellipk': s_ellipk, 'ellipe': s_ellipe, 'ellipkm1': lambda p: s_ellipk(E.sub2(E.const(1.0), p)),
    'iv': E.siv, 'ive': s_ive, 'kv': E.skv, 'i0': lambda z: E.siv(E.const(0), z), 'i1': lambda z: E.siv(E.const(1), z),
    'k0': lambda z: E.skv(E.const(0), z), 'k1': lambda z: E.skv(E.const(1), z),
    'i0e': lambda z: s_ive(E.const(0), z), 'i1e': lambda z: s_ive(E.const(1), z),
    'expm1': _UF['expm1'], 'log1p': _UF['log1p'],
    'xlogy': lambda x, y: E.const(0.0) if bool(E.decide('eq', x, E.const(0))) else E.mul2(x, E.slog(y)),
    'kve': lambda v, z: E.mul2(E.skv(v, z), E.sexp(z)),
}


def make_special():
    m = types.ModuleType('scipy.special')

    def ga(name):
        f = SPECIAL_FN.get(name)
        if f is None:
            import scipy.special as sp
            getattr(sp, name)

            def gap(*a, **k):
                raise EngineGap(f'scipy.special.{name}')
            return gap
        return _elementwise(f)
    m.__getattr__ = ga
    return m


def make_constants():
    m = types.ModuleType('scipy.constants')
    m.__path__ = []

    def ga(name):
        import scipy.constants as sc
        v = getattr(sc, name)
        if name == 'pi':
            return E.PI()
        return E.const(v) if isinstance(v, float) else v
    m.__getattr__ = ga
    return m


# scipy Rotation -------------------------------------------------------------------------
class SymRotation:
    """Model of scipy.spatial.transform.Rotation: a 3x3 matrix (stack not modelled)."""

    def __init__(self, mat):
        self.m = mat

    @classmethod
    def from_quat(cls, q, *, scalar_first=False, canonical=False):
        q = mk(q, 'f')
        if q.shape != (4,):
            raise EngineGap('stack of rotations')
        if scalar_first:
            w, x, y, z = list(q)
        else:
            x, y, z, w = list(q)
        n = x * x + y * y + z * z + w * w
        if bool(n == 0):
            raise ValueError('Found zero norm quaternions in `quat`.')
        r = [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n],
             [2 * (x * y + z * w) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * w) / n],
             [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, 1 - 2 * (x * x + y * y) / n]]
        return cls(mk(r, 'f'))

    @classmethod
    def from_matrix(cls, m, **kw):
        return cls(mk(m, 'f'))

    @classmethod
    def identity(cls, *a):
        return cls(_eye(3))

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        v = mk(v, 'f')
        t = _norm(v)
        if bool(t == 0):
            return cls(_eye(3))
        if degrees:
            ang = E._METHS['radians'](t)
        else:
            ang = t
        u = v / t
        c, s = E.scos(ang), E.ssin(ang)
        K = mk([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]], 'f')
        return cls(_eye(3) + s * K + (1 - c) * (K @ K))

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        angles = [angles] if isinstance(angles, (Sym, float, int)) else list(angles)
        m = _eye(3)
        for ax, a in zip(seq, angles):
            a = E.const(a)
            if degrees:
                a = E._METHS['radians'](a)
            v = zeros_((3,), 'f')
            c, s = E.scos(a), E.ssin(a)
            i = 'xyz'.index(ax.lower())
            j, k = (i + 1) % 3, (i + 2) % 3
            r = _eye(3)
            r[j, j] = c
            r[k, k] = c
            r[j, k] = -s
            r[k, j] = s
            m = (r @ m) if seq.islower() else (m @ r)
        return cls(m)

    def as_matrix(self):
        return self.m.copy()

    def inv(self):
        return SymRotation(self.m.T)

    def apply(self, v, inverse=False):
        m = self.m.T if inverse else self.m
        v = mk(v, 'f')
        if v.ndim > 2 or v.shape[-1] != 3:
            raise ValueError(f'Expected input of shape (3,) or (P, 3), got {v.shape}.')
        return _einsum('ij,...j->...i', m, v)

    def __mul__(self, o):
        return SymRotation(self.m @ o.m)

    def __matmul__(self, o):
        return self.apply(o)

    def as_quat(self, *a, **k):
        raise EngineGap('as_quat')


def make_transform():
    m = types.ModuleType('scipy.spatial.transform')
    m.Rotation = SymRotation
    return m
