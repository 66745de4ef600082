"""Case API shared by symbolic mode (python3-vt, solver) and real mode (replay on the
unpatched package).  This file must import without z3."""
import math
import numpy as np

CASES = {}
ASSUMPTIONS = [
    'exact real/complex arithmetic instead of IEEE doubles (round-off, overflow and underflow are outside the claim)',
    'decimal literals are read as the decimal numbers they denote',
    'numpy/scipy primitives are replaced by symbolic models of their documented meaning (engine/symnp.py), validated against the real '
    'package on solver-found inputs every run',
]


class Case:
    def __init__(self, prop, name, body, laws, tier, encodes, bounds, opts):
        self.prop, self.name, self.body, self.laws = prop, name, body, laws
        self.tier, self.encodes, self.bounds, self.opts = tier, encodes, bounds, opts

    @property
    def cid(self):
        return f'{self.prop}/{self.name}'


def case(prop, name, laws=None, tier='quick', encodes=(), bounds='', **opts):
    def deco(body):
        c = Case(prop, name, body, laws, tier, list(encodes), bounds, opts)
        assert c.cid not in CASES, c.cid
        CASES[c.cid] = c
        return body
    return deco


def laws_of(cid):
    def deco(f):
        CASES[cid].laws = f
        return f
    return deco


class Skip(Exception):
    """The concrete input does not satisfy the case's assumptions."""


def flat(x):
    """leaves of nested arrays / lists as a flat python list."""
    if isinstance(x, np.ndarray):
        return list(np.ndarray.view(x, np.ndarray).reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flat(y))
        return out
    return [x]


class U(np.ndarray):
    """finite-difference value with an error estimate that survives linear arithmetic."""
    def __new__(cls, v, err):
        o = np.asarray(v).view(cls)
        o.err = np.broadcast_to(np.asarray(err, dtype=float), o.shape)
        return o

    def __array_finalize__(self, o):
        if not hasattr(self, 'err'):
            self.err = None

    def __getitem__(self, i):
        return U(self.view(np.ndarray)[i], self.err[i] if self.err is not None else 0.0)

    def __array_ufunc__(self, uf, method, *inp, **kw):
        plain = [x.view(np.ndarray) if isinstance(x, U) else x for x in inp]
        if kw.get('out'):
            kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, U) else x for x in kw['out'])
        r = getattr(uf, method)(*plain, **kw)
        if method != '__call__':
            return r
        es = [(x.err if x.err is not None else 0.0) if isinstance(x, U) else 0.0 for x in inp]
        if uf in (np.add, np.subtract):
            return U(r, es[0] + es[1])
        if uf in (np.negative, np.positive, np.conjugate):
            return U(r, es[0])
        if uf is np.multiply:
            return U(r, es[0] * np.abs(plain[1]) + es[1] * np.abs(plain[0]))
        if uf is np.true_divide:
            return U(r, es[0] / np.abs(plain[1]) + es[1] * np.abs(np.asarray(plain[0]) / np.asarray(plain[1]) ** 2))
        return r


def err_of(x):
    if isinstance(x, U):
        return x.err if x.err is not None else 0.0
    if isinstance(x, (list, tuple)) and any(isinstance(y, U) for y in flat1(x)):
        return np.array([err_of(y) for y in x])
    return 0.0


def flat1(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from flat1(y)
        else:
            yield y


class RealH:
    """Replay mode: plain floats, the real package, finite differences."""
    symbolic = False

    def __init__(self, case, values, importer, opts=None):
        self.case, self.values, self.importer = case, dict(values), importer
        self.np = np
        self.store = {}
        self.fails = []
        self.checked = 0
        self._dcache = {}
        self.in_deriv = False

    # -- inputs
    def real(self, name, lo=None, hi=None):
        v = float(self.values.get(name, 0.5))
        return v

    def pos(self, name):
        return float(self.values.get(name, 1.0))

    nonneg = pos

    def vec(self, name, n=3):
        return np.array([self.real(f'{name}{i}') for i in range(n)])

    def use_filter(self, *f):
        import sys
        import libdlf.hankel as hk
        f = tuple(np.array(x, dtype=float) for x in f)
        orig = getattr(hk, '_geoana_orig', None) or {n: v for n, v in vars(hk).items() if callable(v)}
        hk._geoana_orig = orig
        g = lambda *a, **k: f
        ids = {id(v) for v in orig.values()}
        g._geoana_filter = True
        for n in orig:
            setattr(hk, n, g)
        for name, m in list(sys.modules.items()):
            if name.startswith('geoana') and m is not None:
                for k, v in list(vars(m).items()):
                    if id(v) in ids or getattr(v, '_geoana_filter', False):
                        setattr(m, k, g)

    def use_utm(self, f):
        import utm
        utm.to_latlon = f

    def cplx(self, name):
        return complex(self.pos(name), self.real(name + 'i'))

    def posvec(self, name, n=3):
        return np.array([self.pos(f'{name}{i}') for i in range(n)])

    def const(self, v):
        from fractions import Fraction
        if isinstance(v, Fraction):
            return float(v)
        return v

    @property
    def pi(self):
        return math.pi

    def mod(self, name):
        return self.importer(name)

    def assume(self, rel, a, b):
        if self.in_deriv:
            return
        ok = {'lt': a < b, 'le': a <= b, 'ne': a != b, 'eq': a == b, 'gt': a > b, 'ge': a >= b}[rel]
        if not ok:
            raise Skip(f'assumption {rel} fails: {a} {b}')

    def symint(self, name, lo, hi):
        return int(self.values.get(name, lo))

    # -- quantities
    def put(self, name, val):
        self.store[name] = val
        return val

    def q(self, name):
        return self.store[name]

    def d(self, name, var):
        key = (name, var)
        if key in self._dcache:
            return self._dcache[key]
        v0 = float(self.values.get(var, 0.5))
        step = self.case.opts.get('fd', 1e-3) * max(abs(v0), self.case.opts.get('fdmin', 0.05))

        def run(v):
            vals = dict(self.values)
            vals[var] = v
            h = RealH(self.case, vals, self.importer)
            h.in_deriv = True
            self.case.body(h)
            return h.store
        # smaller steps only where the first one straddles something that is not smooth
        for s in (step, step / 30, step / 900):
            runs = [run(v0 + k * s) for k in (-2, -1, -0.5, 0.5, 1, 2)]
            for n in runs[0]:
                try:
                    a, b, b2, c2, c, e = [np.asarray(r[n]) for r in runs]
                    if not (np.issubdtype(a.dtype, np.number)):
                        continue
                    d1 = (a - 8 * b + 8 * c - e) / (12 * s)
                    d2 = (b - 8 * b2 + 8 * c2 - c) / (6 * s)
                    m = np.max(np.abs(b)) if b.size else 0
                    err = np.abs(d1 - d2) + 1e-13 * m / s
                    old = self._dcache.get((n, var))
                    if s == step or old is not None and np.nanmax(err) < 0.01 * np.nanmax(old.err):
                        self._dcache[(n, var)] = U(d2, err)
                except Exception:
                    pass
            u = self._dcache[key]
            try:
                if np.nanmax(u.err) <= 1e-3 * np.nanmax(np.abs(u.view(np.ndarray))):
                    break
            except Exception:
                break
        return self._dcache[key]

    # -- obligations
    def eq(self, label, a, b, scale=(), rtol=None):
        if self.in_deriv:
            return
        self.checked += 1
        rtol = rtol or self.case.opts.get('rtol', 1e-5)
        err = 20 * (np.asarray(err_of(a)) + np.asarray(err_of(b)))
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError:
                self.fails.append((label, f'shapes {A.shape} {B.shape}'))
                return
        if not (A.dtype.kind in 'iufcb' and B.dtype.kind in 'iufcb'):
            if not all(x == y for x, y in zip(flat(A), flat(B))):
                self.fails.append((label, f'{A} != {B}'))
            return
        sc = np.maximum(np.abs(A), np.abs(B)).astype(float)
        for s in scale:
            sc = np.maximum(sc, np.abs(np.asarray(s)).astype(float))
        if self.case.opts.get('norm_scale', True) and sc.size:
            sc = np.maximum(sc, 1e-3 * np.nanmax(np.where(np.isfinite(sc), sc, 0.0)))
        diff = np.abs(A - B)
        bad = ~(diff <= rtol * sc + err) & np.isfinite(err)
        both_nan = np.isnan(A.astype(complex)) & np.isnan(B.astype(complex))
        same_inf = (A == B)
        bad = bad & ~both_nan & ~same_inf
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            self.fails.append((label, f'lhs={A[i]!r} rhs={B[i]!r} at index {tuple(int(k) for k in i)}'))

    def zero(self, label, terms, rtol=None):
        tot = 0
        for t in terms:
            tot = tot + t
        self.eq(label, tot, np.zeros_like(np.asarray(tot)), scale=terms, rtol=rtol)

    def true(self, label, ok, info=''):
        if self.in_deriv:
            return
        self.checked += 1
        if not bool(ok):
            self.fails.append((label, f'false {info}'))

    def le(self, label, a, b):
        if self.in_deriv:
            return
        self.checked += 1
        sc = max(abs(float(a)), abs(float(b)))
        if not float(a) <= float(b) + 1e-9 * sc:
            self.fails.append((label, f'{a!r} > {b!r}'))

    def near(self, label, a, b, tol):
        """|a - b| <= tol (tol an expression >= 0)."""
        if self.in_deriv:
            return
        self.checked += 1
        err = 20 * (float(np.max(err_of(a))) + float(np.max(err_of(b))))
        if not abs(complex(np.asarray(a)) - complex(np.asarray(b))) <= float(tol) + err + 1e-9 * abs(complex(np.asarray(a))):
            if err == err and err < 1e300:
                self.fails.append((label, f'lhs={a!r} rhs={b!r} tolerance {tol!r}'))

    def lt(self, label, a, b):
        if self.in_deriv:
            return
        self.checked += 1
        if not float(a) < float(b):
            self.fails.append((label, f'{a!r} >= {b!r}'))

    def finite(self, label, a):
        if self.in_deriv:
            return
        self.checked += 1
        A = np.array(flat(a), dtype=complex)
        if not np.all(np.isfinite(A)):
            self.fails.append((label, f'non-finite value {A.tolist()!r}'))

    def raises(self, label, exc, f, *args, **kw):
        """f must raise one of exc."""
        if self.in_deriv:
            return
        self.checked += 1
        try:
            f(*args, **kw)
        except exc:
            return
        except Exception as e:
            self.fails.append((label, f'raised {type(e).__name__}: {e}'))
            return
        self.fails.append((label, 'did not raise'))

    def branch(self, cond):
        """concrete truth of a comparison."""
        return bool(cond)

    def arr(self, x):
        return np.array(x, dtype=float)

    def intarr(self, x):
        return np.array(x, dtype=int)

    # math helpers usable in laws
    def sqrt(self, x):
        return np.sqrt(x)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def norm(self, x):
        return np.sqrt(sum(v * v for v in x))

    def fn(self, name, *a):
        import scipy.special as sp
        return {'erf': sp.erf, 'ellipk': sp.ellipk, 'ellipe': sp.ellipe, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan,
                'atan': np.arctan, 'atan2': np.arctan2, 'log': np.log, 'exp': np.exp, 'sqrt': np.sqrt, 'tanh': np.tanh,
                'iv': sp.iv, 'kv': sp.kv, 'ive': sp.ive, 'abs': np.abs, 'real': np.real, 'imag': np.imag,
                'conj': np.conj}[name](*a)

    @property
    def I(self):
        return 1j


def curl(h, name, xs, idx=()):
    """curl of the stored vector quantity `name` (last axis = components)."""
    d = [h.d(name, x) for x in xs]     # d[j][..., i] = dF_i/dx_j
    c = lambda i, j: d[j][..., i]
    return [c(2, 1) - c(1, 2), c(0, 2) - c(2, 0), c(1, 0) - c(0, 1)]


def curl_terms(h, name, xs):
    d = [h.d(name, x) for x in xs]
    c = lambda i, j: d[j][..., i]
    return [[c(2, 1), c(1, 2)], [c(0, 2), c(2, 0)], [c(1, 0), c(0, 1)]]


def div_terms(h, name, xs):
    return [h.d(name, x)[..., i] for i, x in enumerate(xs)]


def grad(h, name, xs):
    return [h.d(name, x) for x in xs]
