"""Zero test of large sums by parts: the sum is flattened, every summand is normalised on its own
(denominators free of square roots), and its numerator is split by the monomial of irrational and
transcendental generators it carries.  If the coefficient of every such monomial vanishes (decided
by the solver) the sum vanishes; the converse is not claimed."""
from fractions import Fraction
from . import expr as E
from .nf import NF, RF, ONE, TooBig, norm_c


def has_fun(n, memo):
    r = memo.get(n.id)
    if r is None:
        for k in E.topo([n]):
            if k.id not in memo:
                memo[k.id] = k.op == 'fun' or any(memo[a.id] for a in k.args)
        r = memo[n.id]
    return r


def summands(node, limit=60000):
    """list of (coef, [(node, exp)...]) products whose sum is node."""
    out = []
    memo = {}

    def go(n, coef, rest):
        if len(out) > limit:
            raise TooBig('summands')
        if n is None:
            # take the next factor to expand from rest
            for i, (a, e) in enumerate(rest):
                if e == 1 and a.op == 'add':
                    go(a, coef, rest[:i] + rest[i + 1:])
                    return
                if e == 1 and a.op == 'mul':
                    c, es = a.data
                    go(None, coef * c, rest[:i] + rest[i + 1:] + tuple(zip(a.args, es)))
                    return
            out.append((coef, rest))
            return
        if n.op == 'add':
            c, cs = n.data
            if c:
                go(None, coef * c, rest)
            for a, k in zip(n.args, cs):
                go(a, coef * k, rest)
            return
        if n.op == 'mul':
            c, es = n.data
            go(None, coef * c, rest + tuple(zip(n.args, es)))
            return
        if n.op == 'const':
            go(None, coef * n.data, rest)
            return
        go(None, coef, rest + ((n, 1),))
    go(node, Fraction(1), ())
    return out


def buckets(nf, node, prefactor_free=True):
    B = {}
    for coef, fs in summands(node):
        r = nf.const(coef)
        for a, e in fs:
            r = nf.mul(r, nf.pow(nf.nf(a), e))
        dk = tuple(sorted(r.d.items()))
        for m, c in nf.preduce(r.n).items():
            S = tuple(x for x in m if nf.gens[x[0]].kind != 'var')
            V = tuple(x for x in m if nf.gens[x[0]].kind == 'var')
            p = B.setdefault(S, {}).setdefault(dk, {})
            t = p.get(V, 0) + c
            if t:
                p[V] = norm_c(t)
            else:
                del p[V]
    return B


def decide(nf, ob, node, z3):
    """True when every part is shown zero by the solver."""
    B = buckets(nf, node)
    nq = 0
    for S, groups in B.items():
        groups = {k: p for k, p in groups.items() if p}
        if not groups:
            continue
        # cancel inside each group first, then a common denominator
        rs = {}
        for k, p in groups.items():
            r = nf.cancel(RF(p, dict(k)))
            kk = tuple(sorted(r.d.items()))
            rs[kk] = nf.padd(rs[kk], r.n) if kk in rs else r.n
        rs = {k: p for k, p in rs.items() if p}
        if not rs:
            continue
        den = {}
        for k in rs:
            for f, e in k:
                den[f] = max(den.get(f, 0), e)
        polys = []
        for k, p in rs.items():
            d = dict(k)
            for f, e in den.items():
                x = e - d.get(f, 0)
                if x:
                    p = nf.pmul(p, nf.fpoly_pow(f, x))
            polys.append(p)
        rest = {}
        for p in polys[1:]:
            rest = nf.padd(rest, p, -1)
        # numerators may have picked up square roots again: none do (denominators are root free)
        save, ob._cp = ob._cp, []
        try:
            r, _ = ob.solve([('pne', polys[0], rest)], (), tag='part', want_model=False)
        finally:
            ob._cp = save
        nq += 1
        if r != z3.unsat:
            return False
    if nq == 0:
        r, _ = ob.solve([('ne', {})], tag='identical', want_model=False)
        return r == z3.unsat
    return True
