"""Symbolic runner: explores the paths of a case, discharges its obligations with z3 and
turns solver models into replayable inputs."""
import json
import math
import os
import random
import subprocess
import sys
import threading
import time
import traceback
from fractions import Fraction
import numpy as np
import mpmath as mp
import z3
from . import expr as E
from . import symnp as S
from . import smt
from . import parts
from .nf import NF, RF, ONE, TooBig
from .case import CASES, Skip, flat
from .loader import SymWorld

sys.setrecursionlimit(100000)


class Explorer:
    def __init__(self, domains, max_paths=200):
        self.domains = domains
        self.pending = [[]]
        self.max_paths = max_paths
        self.probing = 0
        self.probed = {}

    def start(self, prefix):
        self.prefix = prefix
        self.k = 0
        self.taken = []
        self.pc = []            # (rel, node) for this path
        self.known = {}
        self.assump = []
        self.feas = None
        self.divs = {}
        self.ndec = 0

    def note_div(self, node):
        self.divs[node.id] = node

    def _feas(self):
        if self.feas is None:
            self.feas = smt.Feas(self.domains, self.assump)
        return self.feas

    def assume(self, rel, d):
        v = E.cval(d)
        if v is not None:
            ok = {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0, 'gt': v > 0, 'ge': v >= 0}[rel]
            if not ok:
                raise Skip('assumption false')
            return
        self.assump.append((rel, d))

    def quick(self, rel, d):
        """syntactic decision for sign-definite sums (avoids solver calls)."""
        s = posness(d, self.domains)
        if s is None:
            return None
        if rel == 'lt':
            return False if s in ('>', '>=') else (True if s == '<' else None)
        if rel == 'le':
            return False if s == '>' else (True if s in ('<', '<=') else None)
        if rel == 'eq':
            return False if s in ('>', '<') else None
        return None

    def decide(self, rel, d):
        d = clear_max(d)
        key = (rel, d.id)
        if key in self.known:
            return self.known[key]
        self.ndec += 1
        r = self.quick(rel, d)
        if r is None and self.probing:
            pk = (tuple((a, n.id) for a, n in self.pc), rel, d.id)
            if pk not in self.probed:
                ft = self._feas().check(self.pc + [(rel, d)])
                ff = z3.sat if ft == z3.unsat else self._feas().check(self.pc + [(smt.NEG[rel], d)])
                self.probed[pk] = False if ft == z3.unsat else True if ff == z3.unsat else None
            r = self.probed[pk]
            if r is None:
                raise E.Unsettled
            return r
        if r is None:
            conds_t = self.pc + [(rel, d)]
            conds_f = self.pc + [(smt.NEG[rel], d)]
            if self.k < len(self.prefix):
                r, forced = self.prefix[self.k]
                self.k += 1
                self.taken.append((r, forced))
                if not forced:
                    self.pc.append((rel, d) if r else (smt.NEG[rel], d))
            else:
                ft = self._feas().check(conds_t)
                ff = z3.sat if ft == z3.unsat else self._feas().check(conds_f)
                if ft == z3.unsat:
                    r, forced = False, True
                elif ff == z3.unsat:
                    r, forced = True, True
                else:
                    r, forced = True, False
                    self.pending.append(self.taken + [(False, False)])
                    if len(self.pending) > self.max_paths:
                        raise E.EngineGap('too many paths')
                self.k += 1
                self.taken.append((r, forced))
                if not forced:
                    self.pc.append((rel, d) if r else (smt.NEG[rel], d))
        self.known[key] = r
        # propagate trivial consequences
        return r


def clear_max(d):
    """k*abs(A/m) + c  ->  k*abs(A) + c*m  for a maximum m of absolute values (m > 0 where the quotient is defined)."""
    if d.op == 'add' and len(d.args) == 1 and d.args[0].op == 'fun' and d.args[0].data == 'abs':
        a = d.args[0].args[0]
        if a.op == 'mul':
            for t, e in zip(a.args, a.data[1]):
                if e == -1 and t.op == 'fun' and t.data == 'max' and all(x.op == 'fun' and x.data == 'abs' or E.cval(x) is not None for x in t.args):
                    c, (k,) = d.data
                    return E.add2(E.mul2(E.const(k), E.sabs(E.mul2(a, t))), E.mul2(E.const(c), t))
    return d


def posness(n, dom, depth=8):
    """syntactic sign: '>', '>=', '<', '<=', None."""
    if n.op == 'const':
        return '>' if n.data > 0 else '<' if n.data < 0 else '>='
    if n.op == 'pi':
        return '>'
    if n.op == 'var':
        d = dom.get(n.data)
        if isinstance(d, tuple):
            return '>' if d[0] >= 0 else '<' if d[1] <= 0 else None
        return {'pos': '>', 'nonneg': '>='}.get(d)
    if depth == 0 or n.kind == 'c':
        return None
    if n.op == 'fun':
        if n.data == 'exp':
            return '>'
        if n.data == 'sqrt':
            s = posness(n.args[0], dom, depth - 1)
            return '>' if s == '>' else '>='
        if n.data == 'abs':
            return '>='
        return None
    if n.op == 'mul':
        c, es = n.data
        sgn = 1 if c > 0 else -1
        strict = True
        for a, e in zip(n.args, es):
            if isinstance(e, Fraction) and e.denominator != 1:
                return None
            s = posness(a, dom, depth - 1)
            if e % 2 == 0:
                if s not in ('>', '<') and e > 0:
                    strict = False
                continue
            if s is None:
                return None
            if s in ('<', '<='):
                sgn = -sgn
            if s in ('>=', '<='):
                if e < 0:
                    return None
                strict = False
        return ('>' if strict else '>=') if sgn > 0 else ('<' if strict else '<=')
    if n.op == 'add':
        c, cs = n.data
        signs = []
        if c:
            signs.append('>' if c > 0 else '<')
        for a, k in zip(n.args, cs):
            s = posness(a, dom, depth - 1)
            if s is None:
                return None
            if k < 0:
                s = {'>': '<', '>=': '<=', '<': '>', '<=': '>='}[s]
            signs.append(s)
        if all(s in ('>', '>=') for s in signs):
            return '>' if '>' in signs else '>='
        if all(s in ('<', '<=') for s in signs):
            return '<' if '<' in signs else '<='
    return None


class SymH:
    symbolic = True

    def __init__(self, case, world, explorer, domains):
        self.case, self.world, self.ex, self.domains = case, world, explorer, domains
        self.np = world.np
        self.store = {}
        self.boundary = False
        self.nskip = 0
        self.obs = []         # (label, kind, payload)
        self.seen = set()
        self.I = E.I()
        self.pi = E.PI()

    def real(self, name, lo=None, hi=None):
        self.domains[name] = 'real' if lo is None else (Fraction(lo), Fraction(hi))
        return E.var(name)

    def pos(self, name):
        self.domains[name] = 'pos'
        return E.var(name)

    def nonneg(self, name):
        self.domains[name] = 'nonneg'
        return E.var(name)

    def vec(self, name, n=3):
        return S.mk([self.real(f'{name}{i}') for i in range(n)], 'f')

    def use_filter(self, *f):
        """digital filter (abscissae, J0 weights, J1 weights) seen by the code."""
        self.world.filter = tuple(S.mk(x, 'f') for x in f)

    def use_utm(self, f):
        """stand-in for utm.to_latlon(easting, northing, zone, northern=...)."""
        self.world.utm = f

    def cplx(self, name):
        """a complex input with positive real part, kept as one symbol."""
        return E.fun('cx', self.pos(name), self.real(name + 'i'), kind='c')

    def posvec(self, name, n=3):
        return S.mk([self.pos(f'{name}{i}') for i in range(n)], 'f')

    def const(self, v):
        return E.const(v)

    def mod(self, name):
        return self.world.load(name)

    def assume(self, rel, a, b):
        self.ex.assume(rel, E.sub2(E.const(a), E.const(b)))

    def put(self, name, val):
        self.store[name] = val
        return val

    def q(self, name):
        return self.store[name]

    def d(self, name, var):
        v = self.store[name]
        x = E.var(var)
        if any(rel == 'eq' for rel, _ in self.ex.pc):
            # boundary path (an equality holds): a one-sided expression, no derivative here
            self.boundary = True
            if isinstance(v, E.Sym):
                return E.nan()
            return S.wrap(S._map(lambda n: E.nan(), v), 'f', False)
        if isinstance(v, E.Sym):
            return E.diff(v, x)
        memo = {}
        return S.wrap(S._map(lambda n: E.diff(n, x, memo), v), 'f', False)

    def eq(self, label, a, b, scale=(), rtol=None):
        A, B = S.rawarr(S.lift(a)[0]), S.rawarr(S.lift(b)[0])
        try:
            A, B = np.broadcast_arrays(A, B)
        except ValueError:
            self.obs.append((label, 'false', f'shapes {A.shape} {B.shape}'))
            return
        for ix in np.ndindex(A.shape):
            x, y = E.const(A[ix]), E.const(B[ix])
            if self.boundary and (x.op == 'nan' or y.op == 'nan'):
                self.nskip += 1
                continue
            if (label, id(x), id(y)) in self.seen:
                continue                  # the same two expressions under the same law
            self.seen.add((label, id(x), id(y)))
            self.obs.append((label + (str(list(ix)) if ix else ''), 'eq', (x, y)))

    def zero(self, label, terms, rtol=None):
        tot = terms[0]
        for t in terms[1:]:
            tot = tot + t
        self.eq(label, tot, 0)

    def true(self, label, ok, info=''):
        self.obs.append((label, 'true' if bool(ok) else 'false', info))

    def le(self, label, a, b):
        self.obs.append((label, 'le', E.sub2(E.const(a), E.const(b))))

    def lt(self, label, a, b):
        self.obs.append((label, 'lt', E.sub2(E.const(a), E.const(b))))

    def near(self, label, a, b, tol):
        self.obs.append((label, 'near', (E.const(a), E.const(b), E.const(tol))))

    def finite(self, label, a):
        for ix, x in enumerate(flat(a)):
            x = E.const(x)
            if x.op in ('nan', 'inf'):
                self.obs.append((label, 'false', f'{x.op}'))
            else:
                self.obs.append((f'{label}[{ix}]', 'finite', x))

    def raises(self, label, exc, f, *args, **kw):
        try:
            f(*args, **kw)
        except exc as e:
            if isinstance(e, E.EngineGap):
                raise
            self.obs.append((label, 'true', ''))
            return
        except E.EngineGap:
            raise
        except Exception as e:
            self.obs.append((label, 'false', f'raised {type(e).__name__}: {e}'))
            return
        self.obs.append((label, 'false', 'did not raise'))

    def branch(self, cond):
        return bool(cond)

    def arr(self, x):
        return S.mk(x, 'f')

    def intarr(self, x):
        return S.mk(x, 'i')

    def sqrt(self, x):
        return self.np.sqrt(x)

    def exp(self, x):
        return self.np.exp(x)

    def log(self, x):
        return self.np.log(x)

    def norm(self, x):
        return E.ssqrt(E.addn([E.pow_(E.const(v), 2) for v in x]))

    def fn(self, name, *a):
        sp = self.world.shims['scipy.special']
        if name in ('erf', 'ellipk', 'ellipe', 'iv', 'ive', 'kv'):
            return getattr(sp, name)(*a)
        return getattr(self.np, {'atan': 'arctan', 'atan2': 'arctan2'}.get(name, name))(*a)


# --------------------------------------------------------------------------------------
def sample_values(domains, rng):
    out = {}
    for n, d in sorted(domains.items()):
        if isinstance(d, tuple):
            t = Fraction(rng.randrange(100, 900), 1000) + Fraction(rng.randrange(1, 97), 97001)
            out[n] = d[0] + (d[1] - d[0]) * t
        else:
            v = Fraction(rng.randrange(300, 2500), 1000) + Fraction(rng.randrange(1, 97), 97001)
            if d == 'real' and rng.random() < 0.5:
                v = -v
            out[n] = v
    return out


def pc_holds(conds, env):
    try:
        vals = E.evaluate([n for _, n in conds], env, dps=40)
    except Exception:
        return False
    for (rel, _), v in zip(conds, vals):
        try:
            if isinstance(v, mp.mpc):
                return False
            if v != v:
                return False
            ok = {'lt': v < 0, 'le': v <= 0, 'eq': abs(v) < mp.mpf(10) ** -30, 'ne': v != 0, 'gt': v > 0, 'ge': v >= 0}[rel]
        except TypeError:
            return False
        if not ok:
            return False
    return True


def node_sign_oracle(conds):
    """z3-backed sign of a polynomial under assumptions and path condition."""
    def oracle(nf, q):
        ob = smt.ObSolver(nf, conds, timeout_ms=1500)
        if oracle.busy:
            return None
        oracle.busy = True
        try:
            # numeric pre-filter: only ask for the sign seen at the samples
            v = nf.pval(q, 0)
            if isinstance(v, mp.mpc) or v == 0:
                return None
            s = 1 if v > 0 else -1
            r, _ = ob.solve([('le' if s > 0 else 'ge', q)], tag='sign', want_model=False)
            if r == z3.unsat:
                return s
            r, _ = ob.solve([('ge' if s > 0 else 'le', q)], tag='sign', want_model=False)
            if r == z3.unsat:
                return -s
            return None
        finally:
            oracle.busy = False
    oracle.busy = False
    return oracle


class PathResult(dict):
    pass


LANDMARKS = tuple(Fraction(k) * Fraction('3.14159265358979') / 4 for k in range(-4, 9))


def find_inputs(conds, domains, rng, tries=10, nodes=(), pred=None, feas=None, want=1):
    """Concrete rational inputs satisfying conds (random points first, then z3 models with
    box hints).  Yields dicts."""
    found = 0
    names = sorted(domains)
    memo = tuple((r, id(n)) for r, n in conds)
    if memo in HOPELESS:
        return
    for _ in range(60):
        env = sample_values(domains, rng)
        if pc_holds(conds, env):
            yield env
            found += 1
            if found >= want:
                return
    fe = smt.Feas(domains, [], timeout_ms=5000)
    for t in range(tries):
        extra = []
        # box hints on a random subset of inputs keep the models generic
        fe2 = smt.Feas(domains, [], timeout_ms=4000)
        for n in names:
            if t < tries - 1 and rng.random() < (0.9, 0.7, 0.5, 0.3)[min(3, t // 3)]:
                v = sample_values({n: domains[n]}, rng)[n]
                x = fe2.enc.var(n)
                w = abs(v) / 20 + Fraction(1, 1000)
                extra += [x >= smt.frac(v - w), x <= smt.frac(v + w)]
            else:
                fe2.enc.var(n)
        r, m = fe2.check(conds, extra=extra, tag='model', want_model=True)
        if r != z3.sat:
            continue
        env = {}
        for n in names:
            v = smt.num2frac(m.eval(fe2.enc.var(n), model_completion=True))
            env[n] = v if v is not None else Fraction(1)
        if pc_holds(conds, env):
            yield env
            found += 1
            if found >= want:
                return
    if found:
        return
    # paths the solver's abstraction cannot give a point of: inputs of other orders of magnitude
    r2, t0 = random.Random(len(names)), time.time()
    for t in range(150):
        if time.time() - t0 > 8:
            return
        env = sample_values(domains, r2)
        for n in names:
            d = domains[n]
            if not isinstance(d, tuple):
                if r2.random() < 0.7:
                    env[n] *= Fraction(10) ** r2.randrange(-1 - t // 25, 2 + t // 25)
                elif r2.random() < 0.3:
                    # close to another input
                    m = r2.choice(names)
                    if m != n and not isinstance(domains[m], tuple) and (d == 'real' or env[m] > 0):
                        env[n] = env[m] * (1 + Fraction(r2.randrange(-999, 999), 1000 * 10 ** r2.randrange(1, 7)))
            elif r2.random() < 0.5:
                # close to an end, to zero or to a multiple of 45 degrees
                a = r2.choice([x for x in LANDMARKS + (d[0], d[1]) if d[0] <= x <= d[1]])
                v = a + Fraction(r2.randrange(-999, 999), 1000 * 10 ** r2.randrange(1, 7))
                if d[0] < v < d[1]:
                    env[n] = v
        if pc_holds(conds, env):
            yield env
            found += 1
            if found >= want:
                return
    if found:
        return
    for t in range(4):
        env = walk_in(conds, sample_values(domains, r2), domains, r2)
        if env is not None:
            yield env
            found += 1
            if found >= want:
                return
    if not found:
        HOPELESS[memo] = conds      # keeps the nodes alive, so that their ids stay theirs


HOPELESS = {}


def walk_in(conds, env, domains, rng, limit=6):
    """Walk from env into the region where conds hold: change one input at a time, keep what lowers the
    violated conditions.  Only ever used to produce inputs, which pc_holds confirms."""
    nodes, t0 = [n for _, n in conds], time.time()
    names = sorted(domains)

    def viol(e):
        try:
            vals = E.evaluate(nodes, e, dps=25)
        except Exception:
            return None
        out = []
        for (rel, _), v in zip(conds, vals):
            if isinstance(v, mp.mpc) or v != v:
                return None
            out.append({'lt': max(v, 0), 'le': max(v, 0), 'gt': max(-v, 0), 'ge': max(-v, 0), 'eq': abs(v), 'ne': mp.mpf(0 if v else 1)}[rel])
        return out
    cur = viol(env)
    if cur is None:
        return None
    unit = [max(c, mp.mpf(10) ** -30) for c in cur]
    cost = lambda v: sum(min(c / u, 10 ** 6) for c, u in zip(v, unit))     # noqa: E731
    best, k = cost(cur), 0
    while time.time() - t0 < limit and k < 400:
        k += 1
        n = rng.choice(names)
        d = domains[n]
        c = rng.random()
        if c < 0.5:
            v = env[n] * (1 + Fraction(rng.choice((-9, -5, -2, 2, 5, 9)), 10 ** rng.randrange(1, 6)))
        elif c < 0.9 or isinstance(d, tuple):
            v = env[n] * Fraction(10) ** rng.choice((-3, -1, 1, 3))
        else:
            m = rng.choice(names)
            if isinstance(domains[m], tuple):
                continue
            v = env[m]
        if isinstance(d, tuple) and not d[0] < v < d[1] or d != 'real' and not isinstance(d, tuple) and v <= 0 or abs(v) > 10 ** 12:
            continue
        e2 = dict(env)
        e2[n] = Fraction(v).limit_denominator(10 ** 18)
        w = viol(e2)
        if w is None:
            continue
        cw = cost(w)
        if cw < best:
            env, best, k = e2, cw, 0
            if best == 0 and pc_holds(conds, env):
                return env
    return None


def amplify(x, y, env, conds, domains, goal=1e-3):
    """From an input where the sides differ too little to be seen in floating point, walk along
    the path (scaling one input at a time) to one where they differ visibly, if there is one.
    Only ever used to produce inputs for replay."""
    best = reldiff(x, y, env)
    if best is None:
        return None
    names = [n for n in sorted(domains) if env.get(n, 0) != 0]
    if len(names) > 40:
        return None
    t0 = time.time()
    for _ in range(4):
        moved = False
        for n in names:
            for k in (-6, -3, -1, 1, 3, 6):
                if best > goal:
                    return env
                if time.time() - t0 > 15:
                    return env if best > 1e-6 else None
                v = env[n] * Fraction(10) ** k
                d = domains[n]
                if isinstance(d, tuple) and not d[0] < v < d[1] or not Fraction(1, 10 ** 16) < abs(v) < 10 ** 16:
                    continue
                e2 = dict(env)
                e2[n] = v
                if not pc_holds(conds, e2):
                    continue
                b2 = reldiff(x, y, e2)
                if b2 is not None and b2 > best * 2:
                    env, best, moved = e2, b2, True
        if not moved:
            break
    return env if best > 1e-7 else None


def reldiff(x, y, env):
    try:
        a, b = E.evaluate([x, y], env, dps=50)
    except Exception:
        return None
    try:
        d = abs(a - b)
        s = max(abs(a), abs(b))
        if d != d:
            return None
        if s == 0:
            return mp.mpf(0)
        if d / s > mp.mpf(10) ** -25:
            # rounding residue of a vanishing difference changes with the working precision
            a2, b2 = E.evaluate([x, y], env, dps=90)
            d2 = abs(a2 - b2)
            if not abs(d2 - d) <= d / 1000:
                return mp.mpf(0)
        return d / s
    except Exception:
        return None


def run_case(cid, seed=1, log=None, timeout_ms=20000, max_paths=200, dump=None):
    """returns dict: obligations, discharged, candidates (for replay), gaps, paths ..."""
    case = CASES[cid]
    rng = random.Random(f'{seed}/{cid}')
    res = dict(cid=cid, paths=0, obligations=0, discharged=0, trivially=0, candidates=[], gaps=[], undecided=[],
               witness=None, max_terms=0, finite=0, labels=[], inputs=0, witnesses=[], undecided_inputs=[])
    funcs = set()
    from .loader import REPO
    nrepo = len(REPO) + 1

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(REPO + '/'):
                funcs.add(co.co_filename[nrepo:] + ':' + co.co_qualname)
    smt.STATS.__init__()
    E.GAPS.clear()
    E.reset()
    domains = {}
    E.SHORTCUT = case.opts.get('shortcut', False)
    E.LAZY_MAX = case.opts.get('lazy_max', False)
    t0 = time.time()
    extra = {}
    if 'stubs' in case.opts:
        extra = case.opts['stubs'](S, E)
    world = SymWorld(extra, native=case.opts.get('native', False))
    ex = Explorer(domains, max_paths=case.opts.get('max_paths', max_paths))
    E.CTX.explorer = None
    while ex.pending:
        prefix = ex.pending.pop()
        ex.start(prefix)
        E.CTX.explorer = ex
        E.GAPS.clear()
        h = SymH(case, world, ex, domains)
        err = None
        try:
            sys.setprofile(prof)
            try:
                case.body(h)
                if case.laws is not None:
                    case.laws(h)
            finally:
                sys.setprofile(None)
        except Skip:
            E.CTX.explorer = None
            continue
        except E.EngineGap as e:
            err = ('gap', f'{e}', traceback.format_exc(limit=-4))
        except RecursionError as e:
            err = ('gap', 'recursion', '')
        except Exception as e:
            err = ('exc', f'{type(e).__name__}: {e}', traceback.format_exc(limit=-4))
        E.CTX.explorer = None
        if E.GAPS and err is None:
            err = ('gap', str(E.GAPS[0]), '')
        elif E.GAPS and err[0] == 'exc':
            err = ('gap', str(E.GAPS[0]) + ' -> ' + err[1], err[2])
        res['paths'] += 1
        res['boundary_skipped'] = res.get('boundary_skipped', 0) + h.nskip
        conds = ex.assump + ex.pc
        if err is not None:
            inputs = list(find_inputs(conds, domains, rng, want=2 if err[0] == 'exc' else 5))
            if err[0] == 'exc':
                for env in inputs:
                    res['candidates'].append(dict(label='raises', why=err[1], values=fl(env)))
                if inputs and dump is not None:
                    dump(res)
                if not inputs:
                    res['undecided'].append(('raises', err[1] + err[2]))
            else:
                res['gaps'].append((err[1], err[2], [fl(e) for e in inputs]))
            continue
        sub, smemo = {}, {}
        for rel, d in conds:
            if rel == 'eq':
                d = E.substitute(d, sub) if sub else d
                sl = E.solve_linear(d)
                if sl is not None and sl[0] not in sub:
                    sub = {k: E.substitute(v, {sl[0]: sl[1]}) for k, v in sub.items()}
                    sub[sl[0]] = sl[1]

        def sb(p):
            if isinstance(p, tuple):
                return tuple(sb(x) for x in p)
            return E.substitute(p, sub, smemo) if isinstance(p, E.Sym) else p
        # reachability witness of this path (vacuity guard)
        wit = list(find_inputs(conds, domains, rng, want=2))
        if not wit:
            fe = smt.Feas(domains, [], timeout_ms=8000)
            r = fe.check(conds, tag='reachability')
            if r == z3.unsat:
                continue      # infeasible path
            wit = []
        res['inputs'] += len(wit)
        if wit and res['witness'] is None:
            res['witness'] = fl(wit[0])
        if wit and len(res['witnesses']) < case.opts.get('witnesses', 3):
            w = probe(h, wit[0])
            if w is not None:
                res['witnesses'].append(w)
        samples = list(wit[:2])
        while len(samples) < 2:
            samples.append(sample_values(domains, rng))
        if len(samples) == 2 and samples[0] == samples[1]:
            samples[1] = sample_values(domains, rng)
        nf = NF(domains, node_sign_oracle(conds), samples, max_terms=case.opts.get('max_terms', 60000))
        if case.opts.get('no_elim'):
            nf.no_elim = True
        nf.keep_angles = case.opts.get('keep_angles', False)
        ob = smt.ObSolver(nf, conds, timeout_ms)
        pob = None
        if case.opts.get('by_parts'):
            pnf = NF(domains, node_sign_oracle(conds), samples, max_terms=case.opts.get('max_terms', 60000))
            pnf.no_elim = pnf.rationalise = pnf.atan_triples = True
            pob = smt.ObSolver(pnf, conds, timeout_ms)
        for label, kind, payload in h.obs:
            res['obligations'] += 1
            t1 = time.time()
            if sub:
                payload = sb(payload)
            try:
                if pob is not None and kind == 'eq' and payload[0] is not payload[1] and all(isinstance(q, E.Sym) for q in payload) \
                        and not any(q.op in ('nan', 'inf') for q in payload):
                    try:
                        if parts.decide(pob.nf, pob, E.sub2(*payload), z3):
                            res['discharged'] += 1
                            res['by_parts'] = res.get('by_parts', 0) + 1
                            continue
                    except (TooBig, E.EngineGap, ZeroDivisionError) as e:
                        if log:
                            log(f'   by parts failed: {e!r}')
                    st = numeric_candidates(conds, domains, rng, label, kind, payload, res, wit)
                    if st is not None:
                        raise StopIteration
                st = None
                if case.opts.get('lazy_sqrt') and kind == 'eq':
                    try:
                        lnf = NF(domains, node_sign_oracle(conds), samples, max_terms=case.opts.get('max_terms', 60000))
                        lnf.lazy_csqrt = case.opts['lazy_sqrt']
                        lnf.opaque_tanh = case.opts.get('opaque_tanh', True)
                        lob = smt.ObSolver(lnf, conds, timeout_ms)
                        st = discharge(case, lob.nf, lob, conds, domains, rng, label, kind, payload, res, samples, wit, first=True)
                    except (TooBig, E.EngineGap) as e:
                        if log:
                            log(f'   lazy roots failed: {e!r}')
                if st is None and case.opts.get('cut') and kind == 'eq':
                    cuts = factor_sums(*payload)
                    if cuts:
                        try:
                            cnf = NF(domains, node_sign_oracle(conds), samples, max_terms=case.opts.get('max_terms', 60000))
                            cnf.cuts = cuts
                            st = discharge(case, cnf, smt.ObSolver(cnf, conds, timeout_ms), conds, domains, rng, label, kind, payload, res,
                                           samples, wit, first=True)
                        except (TooBig, E.EngineGap) as e:
                            if log:
                                log(f'   cut failed: {e!r}')
                if st is None:
                    st = discharge(case, nf, ob, conds, domains, rng, label, kind, payload, res, samples, wit)
            except StopIteration:
                pass
            except TooBig as e:
                st = numeric_candidates(conds, domains, rng, label, kind, payload, res, wit) or f'too big: {e}'
            except E.EngineGap as e:
                st = numeric_candidates(conds, domains, rng, label, kind, payload, res, wit) or f'gap: {e}'
            if log and time.time() - t1 > 5:
                log(f'   slow obligation {label}: {time.time() - t1:.1f}s')
            if st == 'ok':
                res['discharged'] += 1
                if len(res['labels']) < 400:
                    res['labels'].append(label)
            elif st == 'cand':
                if dump is not None:
                    dump(res)
                if len(res['candidates']) >= 12:
                    break
            else:
                res['undecided'].append((label, st))
                if len(res['undecided_inputs']) < 4:
                    res['undecided_inputs'] += [fl(e) for e in wit[:2]]
                if len(res['undecided']) > 5:
                    break
        res['max_terms'] = max([res['max_terms']] + [len(r.n) for r in nf.memo.values()])
    st = smt.STATS
    res['queries'] = st.queries
    res['solver_s'] = round(st.time, 3)
    res['q_unsat'], res['q_sat'], res['q_unknown'] = st.unsat, st.sat, st.unknown
    res['by_tag'] = {k: [v[0], v[1], v[2], round(v[3], 3)] for k, v in st.by_tag.items()}
    res['wall_s'] = round(time.time() - t0, 2)
    res['files'] = sorted(x[nrepo:] for x in world.files)
    res['funcs'] = sorted(funcs)
    import resource
    res['rss_mb'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    return res


def probe(h, env):
    """numeric values of the stored quantities at a witness (translator validation)."""
    fenv = {k: Fraction(float(v)) for k, v in env.items()}
    nodes, index = [], {}
    for name, v in h.store.items():
        try:
            leaves = [E.const(x) for x in flat(v)]
        except Exception:
            continue
        if len(leaves) > 200:
            continue
        index[name] = (len(nodes), len(leaves))
        nodes += leaves
    store = {}
    try:
        vals = E.evaluate(nodes, fenv, dps=30) if nodes else []
    except Exception:
        vals = None
    if vals is None:
        return dict(values=fl(env), store={})
    for name, (i, n) in index.items():
        try:
            store[name] = [[float(mp.mpc(v).real), float(mp.mpc(v).imag)] for v in vals[i:i + n]]
        except Exception:
            pass
    return dict(values=fl(env), store=store)


def fl(env):
    return {k: float(v) for k, v in env.items()}


def numeric_candidates(conds, domains, rng, label, kind, payload, res, wit):
    """When the encoding is too big: look for inputs where the two sides differ (solver-found
    path inputs); only ever used to produce candidates for replay, never to pass."""
    if kind != 'eq':
        return None
    x, y = payload
    n = 0
    big, small = mp.mpf(0), None
    for env in list(wit) + list(find_inputs(conds, domains, rng, want=6)):
        d = reldiff(x, y, env)
        if d is None or d > mp.mpf(10) ** -12:
            res['candidates'].append(dict(label=label, why=f'sides differ by {mp.nstr(d, 5) if d is not None else "nan"}', values=fl(env)))
            n += 1
            if d is not None and (small is None or d > big):
                big, small = d, env
            if n >= 3:
                break
    if small is not None and big < mp.mpf(10) ** -5 and res.setdefault('amplified', 0) < 6:
        res['amplified'] += 1
        env = amplify(x, y, small, conds, domains)
        if env is not None:
            res['candidates'].append(dict(label=label, why='sides differ', values=fl(env), model=True))
    return 'cand' if n else None


def discharge(case, nf, ob, conds, domains, rng, label, kind, payload, res, samples, wit, first=False):
    if kind == 'true':
        return 'ok'
    if kind == 'false':
        n = 0
        for env in list(wit) + list(find_inputs(conds, domains, rng, want=3)):
            res['candidates'].append(dict(label=label, why=payload, values=fl(env)))
            n += 1
            if n >= 3:
                break
        return 'cand' if n else 'no input found for a failing boolean obligation'
    if kind == 'eq':
        x, y = payload
        if x is y or (x.op in ('nan',) and y.op in ('nan',)):
            # structurally identical terms: still ask the solver (trivial query)
            r, _ = ob.solve([('ne', {})], tag='identical', want_model=False)
            return 'ok' if r == z3.unsat else 'unknown'
        if x.op in ('nan', 'inf') or y.op in ('nan', 'inf'):
            n = 0
            for env in list(wit) + list(find_inputs(conds, domains, rng, want=2)):
                res['candidates'].append(dict(label=label, why='non-finite side', values=fl(env)))
                n += 1
            return 'cand' if n else 'non-finite side'
        # cheap numeric look first: a visible difference on a solver-found path input goes straight to replay
        n = 0
        for env in wit:
            d = reldiff(x, y, env)
            if d is not None and d > mp.mpf(10) ** -12:
                res['candidates'].append(dict(label=label, why=f'relative difference {mp.nstr(d, 5) if d is not None else "nan"}',
                                              values=fl(env)))
                n += 1
        if n and n == len(wit):
            for env in find_inputs(conds, domains, rng, want=2):
                d = reldiff(x, y, env)
                if d is not None and d > mp.mpf(10) ** -12:
                    res['candidates'].append(dict(label=label, why='sides differ', values=fl(env)))
            ds = [reldiff(x, y, env) for env in wit]
            if max(ds) < mp.mpf(10) ** -5 and res.setdefault('amplified', 0) < 6:
                res['amplified'] += 1
                env = amplify(x, y, wit[0], conds, domains)
                if env is not None:
                    res['candidates'].append(dict(label=label, why='sides differ', values=fl(env), model=True))
            return 'cand'
        A, B = nf.nf(x), nf.nf(y)
        A, B = RF(nf.preduce(A.n), A.d), RF(nf.preduce(B.n), B.d)
        # common denominator
        den = dict(A.d)
        for f, e in B.d.items():
            den[f] = max(den.get(f, 0), e)
        an, bn = A.n, B.n
        for f, e in den.items():
            k = e - A.d.get(f, 0)
            if k:
                an = nf.pmul(an, nf.fpoly_pow(f, k))
            k = e - B.d.get(f, 0)
            if k:
                bn = nf.pmul(bn, nf.fpoly_pow(f, k))
        an, bn = nf.preduce(an), nf.preduce(bn)
        sa, sb = smt.split_complex(nf, an), smt.split_complex(nf, bn)
        disj = []
        same = True
        for cm in set(sa) | set(sb):
            pa, pb = sa.get(cm, {}), sb.get(cm, {})
            if pa != pb:
                same = False
                disj.append(('pne', pa, pb))
            elif len(pa) <= 600:
                disj.append(('pne', pa, pb))
            else:
                disj.append(('pne', {ONE: 1}, {ONE: 1}))
        if first and not same:
            return None
        if not same:
            # drop the coefficient pairs that agree: they cannot contribute
            disj = [d for d in disj if d[1] != d[2]]
        if not disj:
            disj = [('ne', {})]
        dens = [nf.factors[f] for f in den if nf.is_real_poly(nf.factors[f])]
        dens += [{((g, 1),): 1} for g in neg_gens(nf, [A.n, B.n])]
        if not same and any(len(d[1]) + len(d[2]) > 3000 for d in disj):
            r, model = z3.unknown, None
        else:
            r, model = ob.solve(disj, dens)
        if r == z3.unsat:
            return 'ok'
        # a model (or unknown): concretise, confirm on the exact terms, hand to replay
        n = 0
        cands = []
        if model is not None:
            env = {k: model.get(k, samples[0].get(k, Fraction(1))) for k in domains}
            if pc_holds(conds, env):
                cands.append(env)
        cands += list(wit)
        seen_zero = faint = 0
        big, small = mp.mpf(0), None
        for env in cands + list(find_inputs(conds, domains, rng, want=6)):
            d = reldiff(x, y, env)
            if d is not None and d <= mp.mpf(10) ** -25:
                seen_zero += 1
                continue
            if d is not None:
                big = max(big, d)
                small = env if small is None else small
            if d is not None and d < mp.mpf(10) ** -14:
                # no difference floating point could show (rounded constants); larger ones are searched for below
                faint += 1
                continue
            res['candidates'].append(dict(label=label, why=f'relative difference {mp.nstr(d, 5) if d is not None else "nan"}',
                                          values=fl(env), model=True))
            n += 1
            if n >= 4:
                break
        if n or faint:
            if big < mp.mpf(10) ** -5 and small is not None and res.setdefault('amplified', 0) < 6:
                res['amplified'] += 1
                env = amplify(x, y, small, conds, domains)
                if env is not None:
                    res['candidates'].append(dict(label=label, why='sides differ', values=fl(env), model=True))
                    n += 1
            if n:
                return 'cand'
            return f'solver {r}, sides differ by rounding only at {faint} inputs'
        return f'solver {r}, sides agree at {seen_zero} inputs'
    if kind == 'near':
        a, b, tol = payload
        A, B = nf.nf(a), nf.nf(b)
        df = nf.add(A, B, -1)
        if not nf.preduce(df.n):
            r, _ = ob.solve([('ne', {})], tag='identical', want_model=False)
            if r == z3.unsat:
                return 'ok'
        for p, q in ((a, b), (b, a)):
            st = discharge(case, nf, ob, conds, domains, rng, label, 'le', E.sub2(E.sub2(p, q), tol), res, samples, wit)
            if st != 'ok':
                return st
        return 'ok'
    if kind in ('le', 'lt'):
        if posness(payload, domains) in (('<', '<=') if kind == 'le' else ('<',)):
            # sign-definite sum of sign-definite terms
            r, _ = ob.solve([('ne', {})], tag='identical', want_model=False)
            if r == z3.unsat:
                return 'ok'
        p = smt.cond_poly(nf, kind, payload)
        if p is None:
            return 'complex comparison'
        r, model = ob.solve([(smt.NEG[kind], p[1])])
        if r == z3.unsat:
            return 'ok'
        n = 0
        cc = conds + [(smt.NEG[kind], payload)]
        for env in find_inputs(cc, domains, rng, want=3):
            res['candidates'].append(dict(label=label, why=f'not {kind}', values=fl(env)))
            n += 1
        if n:
            return 'cand'
        return f'solver {r}'
    if kind == 'finite':
        dens = denominators(payload)
        for dn in dens:
            v = posness(dn, domains)
            if v in ('>', '<'):
                continue
            ok = False
            if E.is_real_tree(dn):
                try:
                    p = smt.cond_poly(nf, 'eq', dn)
                    if p is not None:
                        r, model = ob.solve([('eq', p[1])], tag='definedness')
                        ok = r == z3.unsat
                except (TooBig, E.EngineGap, ZeroDivisionError):
                    pass
                if not ok:
                    r = smt.Feas(domains, [], timeout_ms=8000).check(conds + [('eq', dn)], tag='definedness')
                    ok = r == z3.unsat
            if not ok:
                n = 0
                for env in find_inputs(conds + [('eq', dn)], domains, rng, want=3):
                    res['candidates'].append(dict(label=label, why=f'denominator vanishes: {E.show(dn, 4)}', values=fl(env), soft=True))
                    n += 1
                if not n:
                    return f'definedness: {E.show(dn, 4)}'
                return 'cand'
        return 'ok'
    raise AssertionError(kind)


def factor_sums(x, y):
    """complex sums used as denominators (and their cofactors): they may be given symbols of their own (sound; tried first)."""
    if not (isinstance(x, E.Sym) and isinstance(y, E.Sym)):
        return frozenset()
    out = set()
    for n in E.topo([x, y]):
        if n.op == 'mul' and any(a.op == 'add' and a.kind == 'c' and e < 0 for a, e in zip(n.args, n.data[1])):
            out |= {a.id for a in n.args if a.op == 'add' and a.kind == 'c'}
    return frozenset(out)


def denominators(node):
    out = {}
    for n in E.topo([node]):
        if n.op == 'mul':
            for a, e in zip(n.args, n.data[1]):
                if e < 0:
                    out[a.id] = a
        if n.op == 'fun' and n.data == 'log':
            out[n.args[0].id] = n.args[0]
    return list(out.values())


def neg_gens(nf, polys):
    out = set()
    for p in polys:
        for m in p:
            for g, e in m:
                if e < 0 and not nf.gens[g].cplx:
                    G = nf.gens[g]
                    if not G.positive or G.kind == 'sqrt':
                        out.add(g)
    return sorted(out)
