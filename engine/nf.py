"""Normaliser: expression DAG -> rational function N / prod f^e over algebraically reduced
generators.  Used to encode obligations as polynomial (in)equalities for the solver."""
from fractions import Fraction
from math import gcd
import mpmath as mp
from . import expr as E
from .expr import EngineGap

ONE = ()
DPS = 60
mp.mp.dps = DPS     # never round intermediate values to the default 15 digits


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Gen:
    __slots__ = ('gid', 'name', 'kind', 'positive', 'cplx', 'rel', 'vals', 'info')

    def __init__(self, gid, name, kind, positive, cplx, vals, info=None):
        self.gid, self.name, self.kind, self.positive, self.cplx = gid, name, kind, positive, cplx
        self.rel = None       # poly equal to gen**2 (exponents then stay in {0,1})
        self.vals = vals
        self.info = info

    def __repr__(self):
        return self.name


class RF:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga == gb:
            e = ea + eb
            if e:
                out.append((ga, norm_c(e)))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class TooBig(Exception):
    pass


class NF:
    """One normalisation context (one path of one harness)."""

    def __init__(self, domains, sign_oracle=None, samples=None, max_terms=60000):
        self.domains = domains            # var name -> 'pos' | 'nonneg' | 'real'
        self.sign_oracle = sign_oracle    # callable(poly, nf) -> '+','-',None ; optional
        self.gens = []
        self.by_key = {}
        self.special = set()
        self.factors = []                 # list of polys (denominator factors)
        self.fvals = []
        self.memo = {}
        self.max_terms = max_terms
        self.samples = samples            # list of 2 dicts var->Fraction
        self.evalmemo = [{} for _ in samples]
        self.abs_facts = {}
        self._sign_cache = {}
        self.I = self._gen(('I',), 'I', 'I', False, True, [mp.mpc(0, 1)] * len(samples))
        self.special.add(self.I)
        self.sides = []                   # side conditions the normaliser relied on (nodes)
        self.no_elim = False
        self.rationalise = False
        self.keep_angles = False
        self.opaque_tanh = True
        self.cuts = frozenset()      # node ids whose value gets a symbol of its own
        self.lazy_csqrt = ''      # complex roots as free symbols (their squares are not rewritten)
        self.atan_triples = False

    # ------------------------------------------------------------------ generators
    def _gen(self, key, name, kind, positive, cplx, vals, info=None):
        gid = self.by_key.get(key)
        if gid is None:
            gid = len(self.gens)
            self.gens.append(Gen(gid, name, kind, positive, cplx, vals, info))
            self.by_key[key] = gid
        return gid

    def numeric(self, node):
        with mp.workdps(DPS):
            return [E._evaluate([node], s, mp, m)[0] for s, m in zip(self.samples, self.evalmemo)]

    def pval(self, p, k):
        with mp.workdps(DPS):
            r = mp.mpf(0)
            for m, c in p.items():
                t = mp.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mp.mpf(c)
                for g, e in m:
                    v = self.gens[g].vals[k]
                    if isinstance(e, Fraction):
                        if self.gens[g].kind == 'exp' or self.gens[g].kind == 'expW':
                            t = t * mp.exp(self.gens[g].info['argvals'][k] * mp.mpf(e.numerator) / e.denominator)
                        else:
                            t = t * mp.power(v, mp.mpf(e.numerator) / e.denominator)
                    else:
                        t = t * v ** e
                r = r + t
            return r

    def rfvals(self, rf):
        with mp.workdps(DPS):
            out = []
            for k in range(len(self.samples)):
                v = self.pval(rf.n, k)
                for f, e in rf.d.items():
                    v = v / self.fvals[f][k] ** e
                out.append(v)
            return out

    # ------------------------------------------------------------------------ polys
    def padd(self, a, b, c=1):
        if len(b) > len(a) and c == 1:
            a, b = b, a
        out = dict(a)
        for m, v in b.items():
            s = out.get(m, 0) + v * c
            if s:
                out[m] = norm_c(s)
            else:
                out.pop(m, None)
        return out

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > 3_000_000:
            raise TooBig(f'{len(a)}x{len(b)}')
        out = {}
        if len(a) > len(b):
            a, b = b, a
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mulmono(m1, m2)
                s = out.get(m, 0) + c1 * c2
                if s:
                    out[m] = s
                else:
                    del out[m]
        if len(out) > self.max_terms:
            raise TooBig(str(len(out)))
        return self.preduce({m: norm_c(c) for m, c in out.items()})

    def pscale(self, p, c):
        if not c:
            return {}
        return {m: norm_c(v * c) for m, v in p.items()}

    def _bad(self, m):
        sp = self.special
        for g, e in m:
            if g in sp:
                G = self.gens[g]
                if G.kind == 'I':
                    if e > 1 or e < 0:
                        return True
                elif G.kind == 'prime':
                    if e >= 1 or e < 0:
                        return True
                elif G.kind == 'fun':
                    if e >= 1:
                        return True
                elif e > 1:
                    return True
        return False

    def preduce(self, p):
        if not any(self._bad(m) for m in p):
            return p
        work = p
        out = {}
        rounds = 0
        while work:
            rounds += 1
            if rounds > 200:
                raise TooBig('reduction does not terminate')
            nxt = {}
            for m, c in work.items():
                if not self._bad(m):
                    s = out.get(m, 0) + c
                    if s:
                        out[m] = norm_c(s)
                    else:
                        out.pop(m, None)
                    continue
                mm = []
                subs = None
                for g, e in m:
                    if g in self.special and subs is None:
                        G = self.gens[g]
                        if G.kind == 'I' and (e > 1 or e < 0):
                            e = int(e) % 4
                            if e >= 2:
                                c = -c
                                e -= 2
                            if e:
                                mm.append((g, e))
                            continue
                        if G.kind == 'prime' and (e >= 1 or e < 0):
                            k = int(e // 1)
                            c = norm_c(Fraction(c) * Fraction(G.info) ** k)
                            e = norm_c(e - k)
                            if e:
                                mm.append((g, e))
                            continue
                        if G.kind == 'fun' and e >= 1:      # linear elimination
                            if e > 1:
                                mm.append((g, e - 1))
                            subs = (G.rel, 1)
                            continue
                        if G.rel is not None and e > 1:
                            k = int(e) // 2
                            rest = e - 2 * k
                            if rest:
                                mm.append((g, rest))
                            subs = (G.rel, k)
                            continue
                    mm.append((g, e))
                mm = tuple(mm)
                if subs is None:
                    s = nxt.get(mm, 0) + c
                    if s:
                        nxt[mm] = s
                    else:
                        nxt.pop(mm, None)
                else:
                    rel, k = subs
                    q = rel
                    # one power at a time keeps intermediate sizes small
                    rest = mm if k == 1 else _mulmono(mm, ((self._gid_of_rel(rel), 2 * (k - 1)),))
                    for m2, c2 in q.items():
                        m3 = _mulmono(rest, m2)
                        s = nxt.get(m3, 0) + c * c2
                        if s:
                            nxt[m3] = s
                        else:
                            nxt.pop(m3, None)
            work = nxt
            if len(work) + len(out) > self.max_terms * 4:
                raise TooBig('reduce')
        return out

    def _gid_of_rel(self, rel):
        for g in self.special:
            if self.gens[g].rel is rel:
                return g
        raise AssertionError

    def ppow(self, p, n):
        r = {ONE: 1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # --------------------------------------------------------------------- rationals
    def const(self, c):
        c = norm_c(Fraction(c))
        return RF({ONE: c} if c else {})

    def g(self, gid, e=1):
        return RF(self.preduce({((gid, norm_c(e)),): 1}))

    def fpoly_pow(self, fid, e):
        return self.ppow(self.factors[fid], e)

    def add(self, a, b, c=1):
        if not a.n:
            return RF(self.pscale(b.n, c), dict(b.d))
        if not b.n:
            return a
        if a.d == b.d:
            n = self.padd(a.n, b.n, c)
            return RF(n, dict(a.d) if n else {})
        den = dict(a.d)
        for f, e in b.d.items():
            den[f] = max(den.get(f, 0), e)
        an, bn = a.n, b.n
        for f, e in den.items():
            k = e - a.d.get(f, 0)
            if k:
                an = self.pmul(an, self.fpoly_pow(f, k))
            k = e - b.d.get(f, 0)
            if k:
                bn = self.pmul(bn, self.fpoly_pow(f, k))
        n = self.padd(an, bn, c)
        return self.cancel(RF(n, den if n else {}))

    def mul(self, a, b):
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        an, bn = a.n, b.n
        # cancel whole-numerator factors
        n = self.pmul(an, bn)
        return self.cancel(RF(n, d if n else {}))

    def cancel(self, r):
        """cheap cancellation: numerator equal (up to a monomial) to a denominator factor,
        or exactly divisible when small."""
        if not r.d or not r.n:
            return RF(r.n, {}) if not r.n else r
        n, d = r.n, dict(r.d)
        changed = True
        while changed and d and n:
            changed = False
            for f in list(d):
                q = self.try_div(n, f)
                if q is not None:
                    n = q
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                    changed = True
        return RF(n, d)

    def try_div(self, n, fid):
        f = self.factors[fid]
        if len(f) > len(n) or len(n) > 4000:
            return None
        # numeric pre-test at a zero of nothing: quick structural test via leading terms
        return self.pdiv(n, f)

    def _lt(self, p):
        return max(p, key=self._okey)

    def _okey(self, m):
        # lex order, high gid first
        return tuple((g, e) for g, e in reversed(m))

    def pdiv(self, n, f):
        """exact division n/f in the free algebra followed by check; None when not exact.
        Generators with relations make the quotient non-unique; only exactness matters."""
        # choose main generator: the highest gid in f
        gmain = max(g for m in f for g, _ in m)
        if gmain in self.special:
            cand = [g for m in f for g, _ in m if g not in self.special]
            if not cand:
                return None
            gmain = max(cand)

        def deg(m):
            for g, e in m:
                if g == gmain:
                    return e
            return 0
        df = max(deg(m) for m in f)
        lead = {m: c for m, c in f.items() if deg(m) == df}
        if len(lead) != 1 or df == 0:
            return None
        (lm, lc), = lead.items()
        if any(g in self.special for g, _ in lm):
            return None
        inv = tuple((g, -e) for g, e in lm)
        low = min(deg(m) for m in f)
        rem = dict(n)
        q = {}
        mind = min(deg(m) for m in n)
        steps = 0
        while rem:
            dr = max(deg(m) for m in rem)
            if dr - df < mind - low or steps > 60:
                return None
            steps += 1
            top = {m: c for m, c in rem.items() if deg(m) == dr}
            t = {}
            for m, c in top.items():
                mm = _mulmono(m, inv)
                t[mm] = norm_c(Fraction(c) / lc)
            q = self.padd(q, t)
            rem = self.padd(rem, self.pmul(t, f), -1)
            if len(rem) > 3 * len(n) + 50 or any(deg(m) >= dr and 0 for m in rem):
                return None
            if rem and max(deg(m) for m in rem) >= dr:
                return None
        # negative powers of nonspecial gens are fine (Laurent)
        return q

    def content(self, p):
        """(coef, mono, primitive) with p = coef*mono*primitive."""
        ms = list(p)
        # gcd monomial
        common = None
        for m in ms:
            dm = {g: e for g, e in m}
            if common is None:
                common = dict(dm)
            else:
                for g in list(common):
                    e = dm.get(g, 0)
                    if g in dm:
                        common[g] = min(common[g], e)
                    else:
                        common[g] = min(common[g], 0)
                for g, e in dm.items():
                    if g not in common:
                        common[g] = min(0, e)
        mono = []
        for g in sorted(common):
            e = common[g]
            if not e:
                continue
            G = self.gens[g]
            if g in self.special and G.kind != 'prime':
                # keep I / related gens inside unless they divide everything
                if G.kind == 'I' or e <= 0:
                    continue
            mono.append((g, e))
        mono = tuple(mono)
        inv = tuple((g, -e) for g, e in mono)
        q = {}
        for m, c in p.items():
            q[_mulmono(m, inv)] = c
        # rational content
        num, den = 0, 1
        for c in q.values():
            c = Fraction(c)
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        co = Fraction(num, den)
        lead = max(q, key=self._okey)
        if q[lead] < 0:
            co = -co
        q = {m: norm_c(Fraction(c) / co) for m, c in q.items()}
        return co, mono, q

    def factor_id(self, q):
        key = ('F', tuple(sorted(q.items(), key=lambda t: t[0])))
        fid = self.by_key.get(key)
        if fid is None:
            vals = [self.pval(q, k) for k in range(len(self.samples))]
            fid = len(self.factors)
            self.factors.append(q)
            self.fvals.append(vals)
            self.by_key[key] = fid
        return fid

    def inv(self, a):
        if not a.n:
            raise ZeroDivisionError('normal form: division by zero')
        co, mono, q = self.content(a.n)
        num = {ONE: norm_c(1 / co)}
        # split mono into free gens (invert) and special gens
        minv = []
        r = None
        for g, e in mono:
            G = self.gens[g]
            if g in self.special and G.kind not in ('prime',):
                # g^e with e>0 in {1}: 1/g = g / rel
                k = self.mul(self.g(g, 1), self.inv(RF(G.rel)))
                for _ in range(int(e)):
                    r = k if r is None else self.mul(r, k)
            else:
                minv.append((g, norm_c(-e)))
        num = self.preduce({tuple(minv): norm_c(1 / co)})
        res = RF(num)
        if q == {ONE: 1}:
            pass
        elif len(q) == 1:
            (m, c), = q.items()
            # only special gens remain, e.g. I
            res2 = RF({ONE: norm_c(Fraction(1) / c)})
            for g, e in m:
                G = self.gens[g]
                if G.kind == 'I':
                    res2 = self.mul(res2, RF({((g, 1),): -1})) if int(e) % 2 else res2
                else:
                    for _ in range(int(e)):
                        res2 = self.mul(res2, self.mul(self.g(g, 1), self.inv(RF(G.rel))))
            res = self.mul(res, res2)
        elif self.rationalise and self._lin_root(q) is not None:
            g = self._lin_root(q)
            A, B = {}, {}
            for m, c in q.items():
                if any(x[0] == g for x in m):
                    B[tuple(x for x in m if x[0] != g)] = c
                else:
                    A[m] = c
            conj = self.padd(A, {_mulmono(m, ((g, 1),)): c for m, c in B.items()}, -1)
            nrm = self.padd(self.pmul(A, A), self.pmul(self.pmul(B, B), self.gens[g].rel), -1)
            if not nrm:
                raise EngineGap('rationalised denominator vanishes')
            res = self.mul(res, self.mul(RF(conj), self.inv(RF(nrm))))
        else:
            res = RF(res.n, {self.factor_id(q): 1})
        if r is not None:
            res = self.mul(res, r)
        for f, e in a.d.items():
            res = self.mul(res, RF(self.fpoly_pow(f, e)))
        return res

    def _lin_root(self, q):
        roots = {g for m in q for g, _ in m if g in self.special and self.gens[g].kind in ('sqrt', 'abs') and self.gens[g].rel is not None}
        if not roots or len(q) > 12:
            return None
        return max(roots)

    def pow(self, a, e):
        if isinstance(e, Fraction) and e.denominator == 1:
            e = e.numerator
        if isinstance(e, Fraction):
            if len(a.n) == 1 and not a.d:
                (m, c), = a.n.items()
                if c == 1 and all(self.gens[g].positive for g, _ in m):
                    return RF({tuple((g, norm_c(x * e)) for g, x in m): 1})
            raise EngineGap('fractional power')
        if e == 0:
            return self.const(1)
        if e < 0:
            a = self.inv(a)
            e = -e
        r = None
        b = a
        while e:
            if e & 1:
                r = b if r is None else self.mul(r, b)
            e >>= 1
            if e:
                b = self.mul(b, b)
        return r

    # ------------------------------------------------------------------- conversion
    def nf(self, node):
        memo = self.memo
        for n in E.topo([node]):
            if n.id not in memo:
                memo[n.id] = self._nf1(n)
        return memo[node.id]

    def _nf1(self, n):
        if n.id in self.cuts:
            return self.named(self._nf2(n), n)
        return self._nf2(n)

    def named(self, r, n):
        """a subexpression as a symbol of its own: equal subexpressions (up to a monomial) get the same symbol."""
        if not r.n or (len(r.n) == 1 and not r.d):
            return r
        co, mono, q = self.content(r.n)
        key = ('named', tuple(sorted(q.items())), tuple(sorted(r.d.items())))
        gid = self.by_key.get(key)
        if gid is None:
            gid = self._gen(key, f'named#{n.id}', 'named', False, True, self.rfvals(RF(q, r.d)))
            self.by_key[key] = gid
        return self.mul(RF({mono: norm_c(co)}), self.g(gid))

    def _nf2(self, n):
        memo = self.memo
        op = n.op
        if op == 'const':
            return self.const(n.data)
        if op == 'pi':
            return self.g(self._gen(('pi',), 'pi', 'pi', True, False, [mp.pi + 0] * len(self.samples)))
        if op == 'I':
            return self.g(self.I)
        if op == 'var':
            dom = self.domains.get(n.data, 'real')
            with mp.workdps(DPS):
                vals = [E._mpq(s[n.data], mp) for s in self.samples]
            return self.g(self._gen(('var', n.data), n.data, 'var', dom == 'pos', False, vals))
        if op in ('nan', 'inf'):
            raise EngineGap(f'{op} in an obligation')
        if op == 'add':
            c, cs = n.data
            # group by denominators to limit growth
            groups = {}
            for a, k in zip(n.args, cs):
                r = memo[a.id]
                key = tuple(sorted(r.d.items()))
                p = groups.get(key)
                t = self.pscale(r.n, k)
                groups[key] = t if p is None else self.padd(p, t)
            if c:
                groups[()] = self.padd(groups.get((), {}), {ONE: norm_c(c)})
            r = None
            for key in sorted(groups, key=len):
                t = RF(groups[key], dict(key)) if groups[key] else RF({})
                r = t if r is None else self.add(r, t)
            return r
        if op == 'mul':
            c, es = n.data
            r = self.const(c)
            for a, e in zip(n.args, es):
                r = self.mul(r, self.pow(memo[a.id], e if not isinstance(e, Fraction) else e))
            return r
        f = n.data
        A = [memo[a.id] for a in n.args]
        h = getattr(self, 'f_' + f, None)
        if h is not None:
            return h(n, *A)
        return self.opaque(n, f, A)

    # opaque function generator, identified numerically and confirmed exactly
    def opaque(self, n, f, A, odd=False):
        vals = self.numeric(n)
        cplx = n.kind == 'c' or any(isinstance(v, mp.mpc) and v.imag != 0 for v in vals)
        key = ('fun', f)
        for gid, args in self.by_key.setdefault(key, []):
            G = self.gens[gid]
            for sgn in ((1, -1) if odd else (1,)):
                with mp.workdps(DPS):
                    same = all(close(v, sgn * w) for v, w in zip(vals, G.vals))
                if same:
                    if all(not self.add(a, self.mul(self.const(sgn), b), -1).n for a, b in zip(A, args)):
                        return self.mul(self.const(sgn), self.g(gid))
        gid = len(self.gens)
        pos = False
        self.gens.append(Gen(gid, f'{f}#{gid}', 'fun', pos, cplx, vals, {'f': f, 'args': A, 'node': n}))
        self.by_key[key].append((gid, A))
        return self.g(gid)

    def f_erf(self, n, a):
        return self.opaque(n, 'erf', [a], odd=True)

    def f_atan(self, n, a):
        if not a.n:
            return RF({})
        # exact special angles
        if not a.d and len(a.n) == 1:
            (m, c), = a.n.items()
            v = None
            if m == ONE and abs(c) == 1:
                v = Fraction(1, 4)
            elif len(m) == 1 and self.gens[m[0][0]].kind == 'prime' and self.gens[m[0][0]].info == 3 and m[0][1] == Fraction(1, 2):
                v = Fraction(1, 3) if abs(c) == 1 else Fraction(1, 6) if abs(c) == Fraction(1, 3) else None
            if v is not None:
                return self.mul(self.const(v if c > 0 else -v), self.nf(E.PI()))
        if self.atan_triples and not any(close(v, w) or close(-v, w) for v in self.numeric(n)[:1]
                                         for w in [self.gens[g].vals[0] for g, _ in self.by_key.get(('fun', 'atan'), [])]):
            r = self.atan_triple(n, a)
            if r is not None:
                return r
        return self.opaque(n, 'atan', [a], odd=True)

    def rfsign(self, a):
        s = self.sign(a.n)
        if s not in ('+', '-'):
            return None
        s = 1 if s == '+' else -1
        for f, e in a.d.items():
            if e % 2:
                t = self.sign(self.factors[f])
                if t not in ('+', '-'):
                    return None
                s *= 1 if t == '+' else -1
        return s

    def atan_triple(self, n, a):
        """s u, s v, s w > 0 and uv + vw + wu = 1  =>  atan u + atan v + atan w = s pi/2."""
        have = self.by_key.get(('fun', 'atan'), [])
        with mp.workdps(DPS):
            val = self.numeric(n)
            s = 1 if val[0] > 0 else -1
            for i, (g1, A1) in enumerate(have):
                for g2, A2 in have[i + 1:]:
                    s1 = 1 if self.gens[g1].vals[0] * s > 0 else -1
                    s2 = 1 if self.gens[g2].vals[0] * s > 0 else -1
                    if any(abs(val[k] + s1 * self.gens[g1].vals[k] + s2 * self.gens[g2].vals[k] - s * mp.pi / 2) > mp.mpf(10) ** -38
                           for k in range(len(self.samples))):
                        continue
                    u, v = self.mul(self.const(s1), A1[0]), self.mul(self.const(s2), A2[0])
                    if any(self.rfsign(x) != s for x in (a, u, v)):
                        continue
                    t = self.add(self.add(self.mul(u, v), self.mul(v, a)), self.mul(u, a))
                    if self.add(t, self.const(1), -1).n:
                        continue
                    r = self.mul(self.const(Fraction(s, 2)), self.nf(E.PI()))
                    r = self.add(r, self.mul(self.const(s1), self.g(g1)), -1)
                    return self.add(r, self.mul(self.const(s2), self.g(g2)), -1)
        return None

    def f_asin(self, n, a):
        return self.opaque(n, 'asin', [a], odd=True)

    # sign knowledge ---------------------------------------------------------------
    def sign(self, p):
        """'+', '-' or None for the sign of a real poly under the current constraints."""
        if not p:
            return '0'
        co, mono, q = self.content(p)
        s = 1 if co > 0 else -1
        for g, e in mono:
            G = self.gens[g]
            if G.positive or G.kind == 'prime' or (isinstance(e, int) and e % 2 == 0 and not G.cplx):
                continue
            t = self._sgn_z3({((g, 1),): 1})
            if t is None:
                return None
            if e % 2:
                s *= t
        if q != {ONE: 1}:
            t = self._sgn_z3(q)
            if t is None:
                return None
            s *= t
        return '+' if s > 0 else '-'

    def _sgn_z3(self, q):
        if all(c > 0 and all(self.gens[g].positive or self.gens[g].kind == 'prime' or
                             (isinstance(e, int) and e % 2 == 0 and not self.gens[g].cplx) for g, e in m)
               for m, c in q.items()) and any(all(self.gens[g].positive or self.gens[g].kind == 'prime'
                                                  for g, _ in m) for m in q):
            return 1
        if any(self.gens[g].cplx for m in q for g, _ in m):
            return None
        if self.sign_oracle is None:
            return None
        key = tuple(sorted(q.items(), key=lambda t: t[0]))
        if key not in self._sign_cache:
            self._sign_cache[key] = self.sign_oracle(self, q)
        return self._sign_cache[key]

    def is_real_poly(self, p):
        return not any(self.gens[g].cplx for m in p for g, _ in m)

    def absrf_poly(self, q):
        """|q| as RF for a real poly q."""
        s = self.sign(q)
        if s == '+':
            return RF(q)
        if s == '-':
            return RF(self.pscale(q, -1))
        co, mono, r = self.content(q)
        out = self.const(abs(co))
        for g, e in mono:
            if self.gens[g].positive or self.gens[g].kind == 'prime' or e % 2 == 0:
                out = self.mul(out, self.g(g, e))
            else:
                out = self.mul(out, self.mul(self.absgen({((g, 1),): 1}), self.g(g, e - 1)))
        if r != {ONE: 1}:
            out = self.mul(out, self.absgen(r))
        return out

    def absgen(self, q):
        s = self._sgn_z3(q)
        if s:
            return RF(self.pscale(q, s))
        key = ('abs', tuple(sorted(q.items(), key=lambda t: t[0])))
        gid = self.by_key.get(key)
        if gid is None:
            vals = [abs(self.pval(q, k)) for k in range(len(self.samples))]
            gid = self._gen(key, f'abs#{len(self.gens)}', 'abs', False, False, vals, {'poly': q})
            self.gens[gid].rel = self.pmul(q, q)
            self.special.add(gid)
        return self.g(gid)

    def f_abs(self, n, a):
        if not self.is_real_poly(a.n):
            raise EngineGap('abs of a complex normal form')
        r = self.absrf_poly(a.n) if a.n else RF({})
        for f, e in a.d.items():
            r = self.mul(r, self.pow(self.inv(self.absrf_poly(self.factors[f])), e))
        return r

    # sqrt -------------------------------------------------------------------------
    def f_sqrt(self, n, a):
        if not a.n:
            return RF({})
        complex_arg = not self.is_real_poly(a.n) or any(not self.is_real_poly(self.factors[f]) for f in a.d)
        if complex_arg:
            return self.csqrt(n, a)
        num = a.n
        out = self.const(1)
        for f, e in a.d.items():
            k = (e + 1) // 2
            if e % 2:
                num = self.pmul(num, self.factors[f])
            out = self.mul(out, self.pow(self.inv(self.absrf_poly(self.factors[f])), k))
        return self.mul(out, self.sqrt_poly(num, n))

    def sqrt_const(self, c):
        """sqrt of a positive Fraction as RF."""
        c = Fraction(c)
        x = c.numerator * c.denominator
        sq, rest = squarefree(x)
        r = self.const(Fraction(sq, c.denominator))
        for p in primes_of(rest):
            with mp.workdps(DPS):
                v = [mp.mpf(p)] * len(self.samples)
            gid = self._gen(('prime', p), f'p{p}', 'prime', True, False, v, p)
            self.special.add(gid)
            r = self.mul(r, self.g(gid, Fraction(1, 2)))
        return r

    def sqrt_poly(self, p, n):
        co, mono, q = self.content(p)
        out = self.const(1)
        inside = []
        for g, e in mono:
            G = self.gens[g]
            if G.positive:
                out = self.mul(out, self.g(g, Fraction(e) / 2))
            elif isinstance(e, int) and e % 2 == 0:
                out = self.mul(out, self.pow(self.absrf_poly({((g, 1),): 1}), e // 2))
            else:
                k = e // 2
                if k:
                    out = self.mul(out, self.pow(self.absrf_poly({((g, 1),): 1}), k))
                inside.append((g, e - 2 * k))
        if inside or q != {ONE: 1}:
            q = {_mulmono(m, tuple(inside)): c for m, c in q.items()}
            q = self.preduce(q)
        if co < 0:
            q = self.pscale(q, -1)
        out = self.mul(out, self.sqrt_const(abs(co)))
        if q == {ONE: 1}:
            return out
        if q == {ONE: -1}:
            raise EngineGap('sqrt of a negative quantity')
        s = self.perfect_square(q)
        if s is not None:
            return self.mul(out, self.absrf_poly(s))
        return self.mul(out, self.sqrt_gen(q))

    def perfect_square(self, q):
        """try to write q = s^2 with s a short polynomial (leading-term method)."""
        if len(q) < 3 or len(q) > 60:
            return None
        if any(g in self.special and self.gens[g].kind != 'abs' for m in q for g, _ in m):
            return None
        rem = dict(q)
        s = {}
        lm = max(rem, key=self._okey2)
        c = rem[lm]
        if c <= 0:
            return None
        r = E._isqrt_frac(Fraction(c))
        if r is None or any(not isinstance(e, int) or e % 2 for _, e in lm):
            return None
        t0 = tuple((g, e // 2) for g, e in lm)
        s = {t0: norm_c(r)}
        rem = self.padd(q, self._rawmul(s, s), -1)
        inv0 = tuple((g, -e) for g, e in t0)
        for _ in range(12):
            if not rem:
                return s
            lm = max(rem, key=self._okey2)
            m = _mulmono(lm, inv0)
            c = norm_c(Fraction(rem[lm]) / (2 * r))
            if any(isinstance(e, Fraction) or e < 0 for _, e in m):
                return None
            s = self.padd(s, {m: c})
            rem = self.padd(q, self._rawmul(s, s), -1)
        return None

    def _okey2(self, m):
        tot = sum(e for _, e in m)
        return (tot, tuple((-g, e) for g, e in m))

    def _rawmul(self, a, b):
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mulmono(m1, m2)
                s = out.get(m, 0) + c1 * c2
                if s:
                    out[m] = s
                else:
                    del out[m]
        return out

    def sqrt_gen(self, q):
        """generator for sqrt(q), q a primitive real poly (assumed >= 0 where used)."""
        with mp.workdps(DPS):
            vals = [mp.sqrt(self.pval(q, k)) for k in range(len(self.samples))]
        lst = self.by_key.setdefault(('sqrtlist',), [])
        for gid in lst:
            G = self.gens[gid]
            if all(close(v, w) for v, w in zip(vals, G.vals)):
                sq = G.rel if G.rel is not None else {((gid, 2),): 1}
                if not self.padd(self.preduce(dict(q)), sq, -1):
                    return self.g(gid)
        gid = len(self.gens)
        self.gens.append(Gen(gid, f'sqrt#{gid}', 'sqrt', False, False, vals, {'poly': q}))
        lst.append(gid)
        v = None if self.no_elim else self.pick_elim(q)
        if v is not None:
            c = q[((v, 2),)]
            rest = {m: x for m, x in q.items() if m != ((v, 2),)}
            rel = self.padd({((gid, 2),): norm_c(Fraction(1) / c)}, self.pscale(rest, Fraction(-1) / c))
            self.gens[v].rel = rel
            self.gens[v].positive = False
            self.special.add(v)
            self.gens[gid].positive = True    # free generator (nonneg; used as nonzero where divided)
            self.restale()
        else:
            self.gens[gid].rel = q
            self.special.add(gid)
        return self.g(gid)

    def restale(self):
        """re-reduce memoised normal forms and relations after a new elimination."""
        for nid, r in list(self.memo.items()):
            if any(self._bad(m) for m in r.n):
                self.memo[nid] = RF(self.preduce(r.n), r.d)
        for i, f in enumerate(self.factors):
            if any(self._bad(m) for m in f):
                self.factors[i] = self.preduce(f)
        for G in self.gens:
            if G.rel is not None and any(self._bad(m) for m in G.rel):
                G.rel = self.preduce(G.rel)
            if isinstance(G.info, dict) and 'args' in G.info:
                for r in G.info['args']:
                    if any(self._bad(m) for m in r.n):
                        r.n = self.preduce(r.n)

    def pick_elim(self, q):
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 2:
                v = m[0][0]
                G = self.gens[v]
                if G.kind != 'var' or G.rel is not None or self.domains.get(G.name, 'real') == 'pos':
                    continue
                if any(g == v for m2 in q if m2 != m for g, _ in m2):
                    continue
                # v must not occur with negative powers anywhere so far
                if any(g == v and e < 0 for r in self.memo.values() for mm in r.n for g, e in mm):
                    continue
                if any(g in self.special and self.gens[g].kind == 'var' for m2 in q for g, _ in m2):
                    continue
                if any(self.gens[g].kind == 'sqrt' and self.gens[g].rel is not None for m2 in q for g, _ in m2):
                    continue
                if any(g == v for G2 in self.gens if G2.kind == 'sqrt' and G2.rel is not None
                       for mm in G2.rel for g, _ in mm) and False:
                    continue
                return v
        return None

    def csqrt(self, n, a):
        """principal square root of a complex quantity: pull out positive reals."""
        num = a.n
        out = self.const(1)
        for f, e in a.d.items():
            if self.is_real_poly(self.factors[f]) and self.sign(self.factors[f]) == '+':
                k = (e + 1) // 2
                if e % 2:
                    num = self.pmul(num, self.factors[f])
                out = self.mul(out, self.pow(self.inv(RF(self.factors[f])), k))
            else:
                return self.opaque_sq(n, a)
        co, mono, q = self.content(num)
        inside = []
        for g, e in mono:
            if self.gens[g].positive:
                out = self.mul(out, self.g(g, Fraction(e) / 2))
            else:
                inside.append((g, e))
        out = self.mul(out, self.sqrt_const(abs(co)))
        q = {_mulmono(m, tuple(inside)): (c if co > 0 else -c) for m, c in q.items()}
        q = self.preduce(q)
        if q == {ONE: 1}:
            return out
        if len(q) == 1:
            (m, c), = q.items()
            if m == ((self.I, 1),) and abs(c) == 1:
                # sqrt(+-i) = (1 +- i)/sqrt 2
                r = RF({ONE: 1, ((self.I, 1),): c})
                return self.mul(out, self.mul(r, self.sqrt_const(Fraction(1, 2))))
            if m == ONE and c == -1:
                return self.mul(out, self.g(self.I))
        # common positive factor of both parts, e.g. (a+b) i
        re = {m: c for m, c in q.items() if not any(g == self.I for g, _ in m)}
        im = {tuple(x for x in m if x[0] != self.I): c for m, c in q.items() if any(g == self.I for g, _ in m)}
        if not re and self.is_real_poly(im):
            s = self.sign(im)
            if s in ('+', '-'):
                k = 1 if s == '+' else -1
                r = self.sqrt_poly(self.pscale(im, k), n)
                u = RF({ONE: 1, ((self.I, 1),): k})
                return self.mul(out, self.mul(r, self.mul(u, self.sqrt_const(Fraction(1, 2)))))
        return self.mul(out, self.csqrt_gen(q))

    def csqrt_gen(self, q):
        with mp.workdps(DPS):
            vals = [mp.sqrt(self.pval(q, k)) for k in range(len(self.samples))]
        lst = self.by_key.setdefault(('csqrtlist',), [])
        for gid in lst:
            G = self.gens[gid]
            if all(close(v, w) for v, w in zip(vals, G.vals)):
                if not self.padd(self.preduce(dict(q)), G.rel if G.rel is not None else G.info['poly'], -1):
                    return self.g(gid)
        gid = len(self.gens)
        self.gens.append(Gen(gid, f'csqrt#{gid}', 'sqrt', False, True, vals, {'poly': q}))
        v = self.pick_linear(q) if self.lazy_csqrt else None
        if v is not None:
            # eliminate the complex input instead of reducing squares of the root
            (m, c), = [(m, c) for m, c in q.items() if any(g == v for g, _ in m)]
            rest = {mm: x for mm, x in q.items() if mm != m}
            im = tuple((g, -e) for g, e in m if g != v)
            num = self.padd({((gid, 2),): 1}, rest, -1)
            self.gens[v].rel = self.preduce({_mulmono(mm, im): norm_c(Fraction(x) / c) for mm, x in num.items()})
            self.special.add(v)
            self.restale()
        else:
            self.gens[gid].rel = q
            self.special.add(gid)
        lst.append(gid)
        return self.g(gid)

    def pick_linear(self, q):
        """a complex input (generator cx) occurring once and linearly in q, over a monomial of nonzero symbols."""
        for m, c in q.items():
            for v, e in m:
                G = self.gens[v]
                if e != 1 or G.kind != 'fun' or G.info['f'] != 'cx' or v in self.special \
                        or not str(G.info['node'].args[0].data).startswith(self.lazy_csqrt):
                    continue
                if any(g == v for m2 in q if m2 != m for g, _ in m2):
                    continue
                if any(g in self.special and self.gens[g].kind != 'I' or not (self.gens[g].positive or self.gens[g].kind in ('I', 'pi')
                       or (self.gens[g].kind == 'fun' and self.gens[g].info['f'] == 'cx')) for g, _ in m if g != v):
                    continue
                if any(g == v and e2 < 0 for r in self.memo.values() for mm in r.n for g, e2 in mm):
                    continue
                if any(g == v for G2 in self.gens if G2.rel is not None for mm in G2.rel for g, _ in mm):
                    continue
                return v
        return None

    def opaque_sq(self, n, a):
        r = self.opaque(n, 'sqrt', [a])
        return r

    # exp / trig / log ----------------------------------------------------------------
    def f_exp(self, n, a):
        return self.exp_rf(a, n)

    def exp_rf(self, a, n=None):
        if not a.n:
            return self.const(1)
        if a.d:
            # try splitting a sum over a common denominator is not attempted
            return self.exp_whole(a, n)
        out = self.const(1)
        for m, c in a.n.items():
            out = self.mul(out, self.exp_term(m, Fraction(c)))
        return out

    def exp_term(self, m, c):
        dm = dict(m)
        # i*pi*c
        if set(dm) == {self.I, self.by_key.get(('pi',))} and all(e == 1 for e in dm.values()):
            return self.root_of_unity(c)
        # i * angle generators
        if dm.get(self.I) == 1 and len(dm) == 2 and c.denominator == 1 and not self.keep_angles:
            (g, e), = [(g, e) for g, e in m if g != self.I]
            G = self.gens[g]
            if e == 1 and G.kind == 'fun' and G.info['f'] in ('atan2', 'acos', 'asin', 'atan'):
                A = G.info['args']
                if G.info['f'] == 'atan2':
                    y, x = A
                    nd = G.info['node']
                    rho = self.nf(E.ssqrt(E.add2(E.pow_(nd.args[0], 2), E.pow_(nd.args[1], 2))))
                    z = self.mul(self.add(x, self.mul(self.g(self.I), y)), self.inv(rho))
                    zi = self.mul(self.add(x, self.mul(self.g(self.I), y), -1), self.inv(rho))
                else:
                    u = A[0]
                    nd = G.info['node']
                    u2 = E.pow_(nd.args[0], 2)
                    if G.info['f'] == 'atan':
                        s = self.nf(E.ssqrt(E.add2(E.const(1.0), u2)))
                        z = self.mul(self.add(self.const(1), self.mul(self.g(self.I), u)), self.inv(s))
                        zi = self.mul(self.add(self.const(1), self.mul(self.g(self.I), u), -1), self.inv(s))
                    else:
                        s = self.nf(E.ssqrt(E.sub2(E.const(1.0), u2)))
                        re, im = (u, s) if G.info['f'] == 'acos' else (s, u)
                        z = self.add(re, self.mul(self.g(self.I), im))
                        zi = self.add(re, self.mul(self.g(self.I), im), -1)
                k = int(c)
                if k < 0:
                    # unit modulus (x, y real): the inverse flips the sign of the I part only
                    z = zi
                    k = -k
                return self.pow(z, k)
        cplx = any(self.gens[g].cplx for g, _ in m)
        with mp.workdps(DPS):
            av = [self.pval({m: 1}, k) for k in range(len(self.samples))]
            vals = [mp.exp(v) for v in av]
        gid = self._gen(('exp', m), f'exp#{len(self.gens)}', 'exp', not cplx, cplx, vals,
                        {'arg': {m: 1}, 'argvals': av})
        return self.g(gid, c)

    def exp_whole(self, a, n):
        av = self.rfvals(a)
        lst = self.by_key.setdefault(('expW',), [])
        for gid, b in lst:
            bv = self.gens[gid].info['argvals']
            with mp.workdps(DPS):
                q = av[0] / bv[0]
                if abs(mp.im(q)) > mp.mpf(10) ** -40:
                    continue
                fr = Fraction(str(mp.nstr(mp.re(q), 40))).limit_denominator(64)
                if fr and abs(mp.re(q) - mp.mpf(fr.numerator) / fr.denominator) < mp.mpf(10) ** -35:
                    if not self.add(a, self.mul(self.const(fr), b), -1).n:
                        return self.g(gid, fr)
        with mp.workdps(DPS):
            vals = [mp.exp(v) for v in av]
        cplx = not self.is_real_poly(a.n) or any(not self.is_real_poly(self.factors[f]) for f in a.d)
        gid = len(self.gens)
        self.gens.append(Gen(gid, f'exp#{gid}', 'expW', not cplx, cplx, vals, {'argvals': av}))
        lst.append((gid, a))
        return self.g(gid)

    def root_of_unity(self, c):
        c = c % 2
        table = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if c in table:
            re, im = table[c]
            return RF({k: v for k, v in {ONE: re, ((self.I, 1),): im}.items() if v})
        q4 = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}
        if (c * 4).denominator == 1:
            re, im = q4[int(c * 4)]
            return self.mul(RF({ONE: re, ((self.I, 1),): im}), self.sqrt_const(Fraction(1, 2)))
        if (c * 6).denominator == 1:
            k = int(c * 6)
            ang = {1: ('s', 1, 'h', 1), 2: ('h', 1, 's', 1), 4: ('h', -1, 's', 1), 5: ('s', -1, 'h', 1),
                   7: ('s', -1, 'h', -1), 8: ('h', -1, 's', -1), 10: ('h', 1, 's', -1), 11: ('s', 1, 'h', -1)}[k]

            def v(t, s):
                r = self.const(Fraction(s, 2))
                return r if t == 'h' else self.mul(r, self.sqrt_const(Fraction(3)))
            return self.add(v(ang[0], ang[1]), self.mul(self.g(self.I), v(ang[2], ang[3])))
        # generic root
        m = tuple(sorted(((self.I, 1), (self.by_key[('pi',)], 1))))
        with mp.workdps(DPS):
            av = [mp.mpc(0, mp.pi)] * len(self.samples)
            vals = [mp.exp(v) for v in av]
        gid = self._gen(('exp', m), 'exp_ipi', 'exp', False, True, vals, {'arg': {m: 1}, 'argvals': av})
        return self.g(gid, c)

    def expi(self, a):
        return self.exp_rf(self.mul(self.g(self.I), a))

    def expmi(self, a):
        return self.exp_rf(self.mul(RF({((self.I, 1),): -1}), a))

    def f_cos(self, n, a):
        return self.mul(self.const(Fraction(1, 2)), self.add(self.expi(a), self.expmi(a)))

    def f_sin(self, n, a):
        return self.mul(RF({((self.I, 1),): Fraction(-1, 2)}), self.add(self.expi(a), self.expmi(a), -1))

    def f_tan(self, n, a):
        return self.mul(self.f_sin(n, a), self.inv(self.f_cos(n, a)))

    def f_sinh(self, n, a):
        m = self.mul(self.const(-1), a)
        return self.mul(self.const(Fraction(1, 2)), self.add(self.exp_rf(a), self.exp_rf(m), -1))

    def f_cosh(self, n, a):
        m = self.mul(self.const(-1), a)
        return self.mul(self.const(Fraction(1, 2)), self.add(self.exp_rf(a), self.exp_rf(m)))

    def f_tanh(self, n, a):
        if self.lazy_csqrt and self.opaque_tanh and n.kind == 'c':
            return self.opaque(n, 'tanh', [a], odd=True)
        e = self.exp_rf(self.mul(self.const(-2), a))
        return self.mul(self.add(self.const(1), e, -1), self.inv(self.add(self.const(1), e)))

    def f_log(self, n, a):
        if not self.is_real_poly(a.n) or any(not self.is_real_poly(self.factors[f]) for f in a.d) or not a.n:
            return self.opaque(n, 'log', [a])
        out = self.logabs_poly(a.n)
        for f, e in a.d.items():
            out = self.add(out, self.mul(self.const(e), self.logabs_poly(self.factors[f])), -1)
        return out

    def logabs_poly(self, p):
        co, mono, q = self.content(p)
        out = self.const(0)
        co = abs(Fraction(co))
        for x, s in ((co.numerator, 1), (co.denominator, -1)):
            for pr, e in factorint(x):
                with mp.workdps(DPS):
                    v = [mp.log(pr)] * len(self.samples)
                out = self.add(out, self.mul(self.const(s * e), self.g(
                    self._gen(('logp', pr), f'log{pr}', 'fun', False, False, v, {'f': 'logp', 'args': []}))))
        for g, e in mono:
            out = self.add(out, self.mul(self.const(Fraction(e)), self.log_gen(g)))
        conj = self.log_conjugate(q) if q != {ONE: 1} else None
        if conj is not None:
            qq, qc = conj
            out = self.add(out, self.logabs_poly(qq))
            return self.add(out, self.logabs_poly(qc), -1)
        if q != {ONE: 1}:
            with mp.workdps(DPS):
                v = [mp.log(abs(self.pval(q, k))) for k in range(len(self.samples))]
            lst = self.by_key.setdefault(('loglist',), [])
            for gid, q0 in lst:
                if all(close(a, b) for a, b in zip(v, self.gens[gid].vals)):
                    d = self.padd(self.preduce(dict(q)), self.preduce(dict(q0)), -1)
                    s = self.padd(self.preduce(dict(q)), self.preduce(dict(q0)))
                    if not d or not s:
                        return self.add(out, self.g(gid))
            gid = len(self.gens)
            self.gens.append(Gen(gid, f'log#{gid}', 'fun', False, False, v, {'f': 'logabs', 'args': [RF(q)]}))
            lst.append((gid, q))
            out = self.add(out, self.g(gid))
        return out

    def log_conjugate(self, q):
        """q = k*s + A with one square root s and 'negative' A:
        log|q| = log|k^2 s^2 - A^2| - log|k*s - A| (a canonical choice between conjugates)."""
        roots = {g for m in q for g, _ in m if self.gens[g].kind == 'sqrt'}
        if len(roots) != 1:
            return None
        g, = roots
        k, A = {}, {}
        for m, c in q.items():
            e = dict(m).get(g, 0)
            if e == 0:
                A[m] = c
            elif e == 1:
                k[tuple(x for x in m if x[0] != g)] = c
            else:
                return None
        if set(k) != {ONE} or not A:
            return None
        if A[min(A)] * k[ONE] > 0:
            return None
        qc = {m: (c if dict(m).get(g, 0) else -c) for m, c in q.items()}
        qq = self.preduce(self.pmul(dict(q), qc))
        if not qq:
            return None
        return qq, qc

    def log_gen(self, g):
        G = self.gens[g]
        if G.kind == 'exp' and not G.cplx:
            return RF(dict(G.info['arg']))
        if G.kind == 'prime':
            with mp.workdps(DPS):
                v = [mp.log(G.info)] * len(self.samples)
            return self.g(self._gen(('logp', G.info), f'log{G.info}', 'fun', False, False, v, {'f': 'logp', 'args': []}))
        with mp.workdps(DPS):
            v = [mp.log(abs(x)) for x in G.vals]
        return self.g(self._gen(('logg', g), f'log[{G.name}]', 'fun', False, False, v, {'f': 'logabs', 'args': []}))

    def f_rpow(self, n, a, e):
        ev = n.args[1].data
        if len(a.n) == 1 and not a.d:
            (m, c), = a.n.items()
            if c == 1 and all(self.gens[g].positive for g, _ in m):
                return RF({tuple((g, norm_c(x * ev)) for g, x in m): 1})
        return self.opaque(n, 'rpow', [a, e])


def close(a, b):
    with mp.workdps(DPS):
        d = abs(a - b)
        return d <= mp.mpf(10) ** -38 * (abs(a) + abs(b)) or (d == 0)


def squarefree(x):
    """x = s^2 * r with r squarefree (trial division)."""
    s, r = 1, 1
    for p, e in factorint(x):
        s *= p ** (e // 2)
        if e % 2:
            r *= p
    return s, r


_FI = {}


def factorint(x):
    if x in _FI:
        return _FI[x]
    from sympy import factorint as fi
    r = sorted(fi(int(x)).items()) if x > 1 else []
    _FI[x] = r
    return r


def primes_of(x):
    return [p for p, _ in factorint(x)]
