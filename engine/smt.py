"""z3 back end: path feasibility on the expression DAG, and obligations in polynomial
normal form.  Every verdict that decides a property goes through `Solver.check`."""
import time
from fractions import Fraction
import z3
from . import expr as E
from .nf import RF, ONE, _mulmono, norm_c


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.by_tag = {}

    def add(self, tag, res, dt):
        self.queries += 1
        self.time += dt
        if res == z3.sat:
            self.sat += 1
        elif res == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1
        t = self.by_tag.setdefault(tag, [0, 0, 0, 0.0])
        t[0 if res == z3.sat else 1 if res == z3.unsat else 2] += 1
        t[3] += dt


STATS = Stats()


def frac(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def zpow(b, n):
    r = b
    for _ in range(n - 1):
        r = r * b
    return r


class DagEnc:
    """Direct encoding of (real) DAG nodes for path feasibility."""

    def __init__(self, domains):
        self.domains = domains
        self.memo = {}
        self.ax = []
        self.trig = {}
        self.vars = {}

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name)
            self.vars[name] = v
            d = self.domains.get(name, 'real')
            if d == 'pos':
                self.ax.append(v > 0)
            elif d == 'nonneg':
                self.ax.append(v >= 0)
            elif isinstance(d, tuple):
                self.ax.append(v > frac(d[0]))
                self.ax.append(v < frac(d[1]))
        return v

    def fresh(self, n):
        return z3.Real(f'__{n.data if n.op == "fun" else n.op}_{n.id}')

    def enc(self, node):
        for n in E.topo([node]):
            if n.id not in self.memo:
                self.memo[n.id] = self._enc1(n)
        return self.memo[node.id]

    def _enc1(self, n):
        m = self.memo
        if n.op == 'const':
            return frac(n.data)
        if n.op == 'pi':
            p = z3.Real('__pi')
            self.ax.append(p > frac(Fraction(31415926535, 10 ** 10)))
            self.ax.append(p < frac(Fraction(31415926536, 10 ** 10)))
            return p
        if n.op == 'var':
            return self.var(n.data)
        if n.op == 'add':
            c, cs = n.data
            t = [m[a.id] if k == 1 else frac(k) * m[a.id] for a, k in zip(n.args, cs)]
            if c:
                t.append(frac(c))
            return z3.Sum(t) if len(t) > 1 else t[0]
        if n.op == 'mul':
            c, es = n.data
            if any(a.op == 'I' for a in n.args) or any(isinstance(e, Fraction) and e.denominator != 1 for e in es):
                v = self.fresh(n)
                return v
            num = [] if c == 1 else [frac(c)]
            den = []
            for a, e in zip(n.args, es):
                (num if e > 0 else den).extend([m[a.id]] * abs(int(e)))
            r = z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
            if den:
                dd = z3.Product(den) if len(den) > 1 else den[0]
                # q * dd = r with dd != 0 where the value is used
                q = self.fresh(n)
                self.ax.append(z3.Implies(dd != 0, q * dd == r))
                return q
            return r
        v = self.fresh(n)
        if n.op == 'fun':
            A = [m[a.id] for a in n.args]
            f = n.data
            if n.kind == 'c':
                return v
            if f == 'sqrt':
                self.ax.append(z3.Implies(A[0] >= 0, z3.And(v >= 0, v * v == A[0])))
            elif f == 'abs':
                return z3.If(A[0] >= 0, A[0], -A[0])
            elif f == 'max':
                self.ax += [v >= a for a in A] + [z3.Or([v == a for a in A])]
            elif f == 'exp':
                self.ax += [v > 0, z3.Implies(A[0] < 0, v < 1), z3.Implies(A[0] > 0, v > 1), z3.Implies(A[0] == 0, v == 1)]
            elif f in ('sin', 'cos', 'tanh', 'erf'):
                self.ax += [v >= -1, v <= 1]
                if f in ('sin', 'cos'):
                    other = self.trig.get((n.args[0].id, 'cos' if f == 'sin' else 'sin'))
                    self.trig[(n.args[0].id, f)] = v
                    if other is not None:
                        self.ax.append(v * v + other * other == 1)
                    t = n.args[0]
                    if t.op == 'fun' and t.data == 'atan2':
                        y, x = m[t.args[0].id], m[t.args[1].id]
                        rh = z3.Real(f'__rho_{t.id}')
                        self.ax += [rh >= 0, rh * rh == x * x + y * y, z3.Implies(rh > 0, v * rh == (y if f == 'sin' else x))]
                if f in ('tanh', 'erf'):
                    self.ax += [z3.Implies(A[0] > 0, v > 0), z3.Implies(A[0] < 0, v < 0), z3.Implies(A[0] == 0, v == 0)]
            elif f == 'atan':
                self.ax += [v > -2, v < 2, z3.Implies(A[0] > 0, v > 0), z3.Implies(A[0] < 0, v < 0)]
                p = z3.Real('__pi')
                self.ax += [p > frac(Fraction(31415926535, 10 ** 10)), p < frac(Fraction(31415926536, 10 ** 10)), 2 * v < p, 2 * v > -p,
                            z3.Implies(A[0] <= 1, 4 * v <= p), z3.Implies(A[0] >= -1, 4 * v >= -p)]
            elif f == 'log':
                self.ax += [z3.Implies(A[0] > 1, v > 0), z3.Implies(z3.And(A[0] > 0, A[0] < 1), v < 0)]
        return v


def rel2z3(rel, t):
    return {'lt': t < 0, 'le': t <= 0, 'eq': t == 0, 'gt': t > 0, 'ge': t >= 0, 'ne': t != 0}[rel]


NEG = {'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ge': 'lt', 'gt': 'le', 'ne': 'eq'}


class LazySample(dict):
    def __init__(self, dom, rng):
        self.dom, self.rng = dom, rng

    def __missing__(self, n):
        d = self.dom.get(n, 'real')
        if isinstance(d, tuple):
            v = d[0] + (d[1] - d[0]) * Fraction(self.rng.randrange(100, 900), 1000)
        else:
            v = Fraction(self.rng.randrange(300, 2500), 997)
            if d == 'real' and self.rng.random() < 0.5:
                v = -v
        self[n] = v
        return v


def square_up(rel, d):
    """k*sqrt(X) + c  rel  0   ->   X - (c/k)^2 rel 0 when both sides are non-negative."""
    if d.op == 'add' and len(d.args) == 1:
        c, (k,) = d.data
        a = d.args[0]
    elif d.op == 'add' and d.data[0] == 0 and len(d.args) == 2:
        # k1*A - k2*B with A, B sqrt/positive roots
        a, b = d.args
        k1, k2 = d.data[1]
        if a.op == 'fun' and b.op == 'fun' and a.data == b.data == 'sqrt' and k1 * k2 < 0 and a.kind != 'c' and b.kind != 'c':
            t = E.sub2(E.mul2(E.const(k1 * k1), a.args[0]), E.mul2(E.const(k2 * k2), b.args[0]))
            return (rel, t) if k1 > 0 else (FLIP[rel], t)
        return rel, d
    else:
        return rel, d
    if a.op == 'fun' and a.data == 'sqrt' and a.kind != 'c' and -Fraction(c) / k >= 0:
        t = E.sub2(a.args[0], E.const(Fraction(c) ** 2 / Fraction(k) ** 2))
        return (rel, t) if k > 0 else (FLIP[rel], t)
    return rel, d


FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


class Feas:
    """Feasibility of path conditions (used to prune and to obtain inputs)."""

    def __init__(self, domains, assumptions, timeout_ms=4000):
        self.enc = DagEnc(domains)
        self.assump = assumptions      # list of (rel, node)
        self.timeout = timeout_ms
        self.nf = None
        self.base = None

    def nf_check(self, conds, timeout=4000):
        """second encoding: conditions in polynomial normal form."""
        import random
        from .nf import NF, TooBig
        if self.nf is None:
            rng = random.Random(5)
            dom = self.enc.domains
            self.nf = NF(dom, None, [LazySample(dom, rng), LazySample(dom, rng)], max_terms=2000)
            self.nf.no_elim = True
        nf = self.nf
        cps = []
        for rel, node in list(self.assump) + list(conds):
            rel, node = square_up(rel, node)
            try:
                c = cond_poly(nf, rel, node)
            except (TooBig, E.EngineGap, ZeroDivisionError, KeyError, RecursionError):
                c = None
            if c is not None and len(c[1]) <= 300:
                cps.append(c)
        if not cps:
            return z3.unknown
        ob = ObSolver(nf, [], timeout)
        r, _ = ob.solve([cps[-1]], extra_conds=cps[:-1], tag='feasibility-nf', want_model=False)
        return z3.unsat if r == z3.unsat else z3.unknown

    def check(self, conds, extra=(), tag='feasibility', timeout=None, want_model=False):
        if tag == 'feasibility' and not extra and not want_model:
            if len(conds) > 1 or len(self.enc.ax) > 20:
                r = self.slice_check(conds[-1])
                if r == z3.unsat:
                    return r
            r = self.check1(conds, extra, tag, 400)
            if r != z3.unknown:
                return r
            r = self.nf_check(conds)
            if r == z3.unsat:
                return r
        return self.check1(conds, extra, tag, timeout, want_model)

    def slice_check(self, cond):
        """the last condition against the assumptions alone (no axioms of unrelated terms)."""
        if self.base is None or self.base[2] != len(self.assump):
            e = DagEnc(self.enc.domains)
            fs = [rel2z3(rel, e.enc(node)) for rel, node in self.assump]
            self.base = (e, fs, len(self.assump))
        b, fs, _ = self.base
        e = DagEnc(self.enc.domains)
        for k, v in vars(b).items():
            if isinstance(v, (dict, list)):
                setattr(e, k, type(v)(v))
        f = rel2z3(cond[0], e.enc(cond[1]))
        s = z3.Solver()
        s.set('timeout', 150)
        s.add(*e.ax)
        s.add(*fs)
        s.add(f)
        t0 = time.time()
        r = s.check()
        STATS.add('feasibility', r, time.time() - t0)
        return r

    def check1(self, conds, extra=(), tag='feasibility', timeout=None, want_model=False):
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        fs = []
        for rel, node in list(self.assump) + list(conds):
            fs.append(rel2z3(rel, self.enc.enc(node)))
        s.add(*self.enc.ax)
        s.add(*fs)
        s.add(*extra)
        t0 = time.time()
        r = s.check()
        STATS.add(tag, r, time.time() - t0)
        if want_model:
            return r, (s.model() if r == z3.sat else None)
        return r


# ------------------------------------------------------------------ polynomial encoding
class PolyEnc:
    def __init__(self, nf):
        self.nf = nf
        self.v = {}
        self.ax = []
        self.done = set()
        self.scale = {}      # gid -> lcm of exponent denominators

    def prepare(self, polys):
        """collect exponent denominators before encoding."""
        from math import lcm
        work = list(polys)
        seen = set()
        while work:
            p = work.pop()
            for m in p:
                for g, e in m:
                    L = e.denominator if isinstance(e, Fraction) else 1
                    self.scale[g] = lcm(self.scale.get(g, 1), L)
                    if g not in seen:
                        seen.add(g)
                        G = self.nf.gens[g]
                        if G.rel is not None:
                            work.append(G.rel)
                        if G.kind == 'sqrt' and G.info.get('poly'):
                            work.append(G.info['poly'])

    def gen(self, g):
        v = self.v.get(g)
        if v is not None:
            return v
        G = self.nf.gens[g]
        v = z3.Real(f'g_{G.name}')
        self.v[g] = v
        if G.kind == 'pi':
            L = self.scale.get(g, 1)
            self.ax.append(v > 1)
            if L == 1:
                self.ax += [v > frac(Fraction(31415926535, 10 ** 10)), v < frac(Fraction(31415926536, 10 ** 10))]
        elif G.kind == 'prime':
            L = self.scale.get(g, 1)
            self.ax += [v > 0, zpow(v, L) == G.info]
        elif G.positive:
            if G.kind == 'sqrt':
                self.ax.append(v >= 0)
            else:
                self.ax.append(v > 0)
        if G.kind == 'abs':
            self.ax.append(v >= 0)
        if G.kind == 'var':
            d = self.nf.domains.get(G.name, 'real')
            if d == 'nonneg':
                self.ax.append(v >= 0)
            elif d == 'pos':
                self.ax.append(v > 0)
            elif isinstance(d, tuple):
                self.ax += [v > frac(d[0]), v < frac(d[1])]
        if G.kind == 'fun' and isinstance(G.info, dict):
            if G.info['f'] in ('erf',):
                self.ax += [v >= -1, v <= 1]
            if G.info['f'] == 'atan':
                self.ax += [v > -2, v < 2]
        if G.rel is not None and not G.cplx and not any(self.nf.gens[x].cplx for m in G.rel for x, _ in m):
            if G.kind == 'sqrt':
                self.ax.append(v >= 0)
            self.ax.append(v * v == self.poly(G.rel, clear=False))
        if G.kind == 'sqrt' and G.rel is None and isinstance(G.info, dict) and 'poly' in G.info:
            # eliminated-variable root: its defining square
            if not any(self.nf.gens[x].cplx for m in G.info['poly'] for x, _ in m):
                self.ax.append(v * v == self.poly(G.info['poly'], clear=False))
        return v

    def mono(self, m):
        num, den = [], []
        for g, e in m:
            L = self.scale.get(g, 1)
            k = e * L
            k = int(k)
            (num if k > 0 else den).extend([self.gen(g)] * abs(k))
        return num, den

    def poly(self, p, clear=True):
        """z3 term for p; when clear, multiplied by a positive-power monomial to remove
        negative exponents (returned term is p * monomial)."""
        low = {}
        if clear:
            for m in p:
                for g, e in m:
                    if e < 0:
                        low[g] = min(low.get(g, 0), e)
            if low:
                shift = tuple(sorted((g, -e) for g, e in low.items()))
                p = {_mulmono(m, shift): c for m, c in p.items()}
        ts = []
        for m, c in p.items():
            num, den = self.mono(m)
            t = frac(c)
            if num:
                pr = z3.Product(num) if len(num) > 1 else num[0]
                t = pr if c == 1 else t * pr
            if den:
                t = t / (z3.Product(den) if len(den) > 1 else den[0])
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


def split_complex(nf, p):
    """{complex monomial: real poly}"""
    out = {}
    for m, c in p.items():
        cm = tuple(x for x in m if nf.gens[x[0]].cplx)
        rm = tuple(x for x in m if not nf.gens[x[0]].cplx)
        out.setdefault(cm, {})[rm] = c
    return out


def clear_mono(polys):
    """common monomial shift making all exponents non-negative in several polys."""
    low = {}
    for p in polys:
        for m in p:
            for g, e in m:
                if e < 0:
                    low[g] = min(low.get(g, 0), e)
    if not low:
        return polys
    shift = tuple(sorted((g, -e) for g, e in low.items()))
    return [{_mulmono(m, shift): c for m, c in p.items()} for p in polys]


def cond_poly(nf, rel, node):
    """condition  node rel 0  as (rel, poly) (denominators cleared), or None."""
    r = nf.nf(node)
    p = r.n
    if not nf.is_real_poly(p):
        return None
    for f, e in r.d.items():
        if not nf.is_real_poly(nf.factors[f]):
            return None
        if rel in ('lt', 'le', 'gt', 'ge'):
            if e % 2:
                p = nf.pmul(p, nf.factors[f])
    # clear negative/fractional monomial powers by an even shift
    low = {}
    for m in p:
        for g, e in m:
            if e < 0:
                low[g] = min(low.get(g, 0), e)
    if low:
        sh = []
        for g, e in sorted(low.items()):
            k = -e
            if not nf.gens[g].positive:
                k = k + (int(k) % 2)
            sh.append((g, norm_c(k)))
        p = {_mulmono(m, tuple(sh)): c for m, c in p.items()}
    return rel, p


class ObSolver:
    """Obligations under fixed path conditions in one NF context."""

    def __init__(self, nf, conds, timeout_ms=20000):
        self.nf = nf
        self.conds = conds      # list of (rel, node)
        self.timeout = timeout_ms
        self._cp = None

    def cond_polys(self):
        if self._cp is None:
            out = []
            for rel, node in self.conds:
                try:
                    c = cond_poly(self.nf, rel, node)
                except Exception:
                    c = None
                if c is not None and len(c[1]) <= 400:
                    out.append(c)
            self._cp = out
        return self._cp

    def solve(self, disj, dens=(), tag='obligation', timeout=None, want_model=True, extra_conds=()):
        """satisfiability of  conds /\\ dens != 0 /\\ OR(disj) ; disj: list of (rel, poly)
        or ('pne', A, B) meaning A != B.  First without the conditions (unsat then holds a
        fortiori)."""
        if tag == 'obligation' and (self.conds or extra_conds):
            save, self._cp = self._cp, []
            try:
                r, _ = self.solve(disj, (), 'obligation-unconditional', 2500, False)
            finally:
                self._cp = save
            if r == z3.unsat:
                return r, None
        enc = PolyEnc(self.nf)
        cps = [(r, self.nf.preduce(p)) for r, p in list(self.cond_polys()) + list(extra_conds)]
        allp = [p for _, p in cps]
        for d in disj:
            allp += [p for p in d[1:]]
        allp += list(dens)
        enc.prepare(allp)
        fs = []
        for d in disj:
            if d[0] == 'pne':
                A, B = clear_mono([d[1], d[2]])
                fs.append(enc.poly(A) != enc.poly(B))
            else:
                fs.append(rel2z3(d[0], enc.poly(d[1])))
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        s.add(z3.Or(*fs) if len(fs) != 1 else fs[0])
        for rel, p in cps:
            s.add(rel2z3(rel, enc.poly(p)))
        for p in dens:
            s.add(enc.poly(p) != 0)
        s.add(*enc.ax)
        t0 = time.time()
        r = s.check()
        STATS.add(tag, r, time.time() - t0)
        model = None
        if r == z3.sat and want_model:
            mdl = s.model()
            model = {}
            for g, v in enc.v.items():
                G = self.nf.gens[g]
                if G.kind == 'var':
                    val = mdl.eval(v, model_completion=True)
                    fr = num2frac(val)
                    L = enc.scale.get(g, 1)
                    if fr is not None:
                        model[G.name] = fr ** L
        return r, model


def num2frac(val):
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
