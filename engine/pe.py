"""Polynomial back end: a straight-line float expression is an exact polynomial over the
rationals plus a rounding error bounded by sum(e_m * |m|) over monomials m (u = 2^-24 per
operation, 2^-150 per product or quotient for underflow; overflow excluded by magnitude
bounds).  The comparison with the specified polynomial is a linear query over the monomials'
absolute values; z3 decides it."""
from fractions import Fraction as Fr
import itertools, time
import z3
from dag import *

U = Fr(1, 1 << 24)
TINY = Fr(1, 1 << 150)


class NotPoly(Exception):
    pass


class PV:
    """polynomial p (dict monomial -> coefficient) with error e (dict monomial -> bound)"""
    __slots__ = ("p", "e")

    def __init__(self, p, e=None):
        self.p, self.e = p, e or {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mm(a, b):
    d = dict(a)
    for v, k in b:
        d[v] = d.get(v, 0) + k
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mm(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pabs(a):
    return {m: abs(c) for m, c in a.items()}


def pscale(a, k):
    return {m: c * k for m, c in a.items()}


def pconst(c):
    return {(): Fr(c)} if c else {}


def pvar(v):
    return {((v, 1),): Fr(1)}


class PE:
    """evaluator; env: var name -> PV (default: the variable itself).  cutoff: dict node id -> PV"""

    def __init__(self, env=None, nodes=None):
        self.env, self.memo = env or {}, dict(nodes or {})

    def rounded(self, p, e, under):
        m = padd(pabs(p), e)
        e = padd(e, pscale(m, U))
        if under:
            e = padd(e, {(): TINY})
        return PV(p, e)

    def ev(self, root):
        for n in topo([root]):
            if n.id not in self.memo:
                try:
                    self.memo[n.id] = self.one(n)
                except NotPoly as x:
                    self.memo[n.id] = x
        r = self.memo[root.id]
        if isinstance(r, NotPoly):
            raise r
        return r

    def one(self, n):
        op = n.op
        if op == "fc":
            if isnan_b(n.val) or (n.val & 0x7FFFFFFF) == 0x7F800000:
                raise NotPoly("const")
            return PV(pconst(Fr(b2f(n.val))))
        if op in ("fvar", "var"):
            return self.env.get(n.val) or PV(pvar(n.val))
        if op == "c":
            return PV(pconst(sgn(n.val, n.ty)))
        a = []
        for x in n.args:
            v = self.memo[x.id]
            if isinstance(v, NotPoly):
                raise v
            a.append(v)
        if op in ("fadd", "fsub"):
            p = padd(a[0].p, a[1].p, 1 if op == "fadd" else -1)
            if not a[0].p and not a[0].e:
                return PV(p, a[1].e)
            if not a[1].p and not a[1].e:
                return PV(p, a[0].e)
            return self.rounded(p, padd(a[0].e, a[1].e), False)
        if op == "fmul":
            x, y = a
            p = pmul(x.p, y.p)
            e = padd(padd(pmul(pabs(x.p), y.e), pmul(pabs(y.p), x.e)), pmul(x.e, y.e))
            for z in a:
                if list(z.p) == [()] and not z.e and pow2(z.p[()]) and abs(z.p[()]) >= 1:
                    return PV(p, e)
            return self.rounded(p, e, True)
        if op == "fdiv":
            x, y = a
            if list(y.p) != [()] or y.e:
                raise NotPoly("division by a variable")
            k = 1 / y.p[()]
            if pow2(k) and abs(k) >= 1:
                return PV(pscale(x.p, k), pscale(x.e, abs(k)))
            return self.rounded(pscale(x.p, k), pscale(x.e, abs(k)), True)
        if op == "fneg":
            return PV(pscale(a[0].p, -1), a[0].e)
        if op in ("sitofp", "uitofp"):
            # exact for the small integers of the bound; one rounding otherwise
            if n.args[0].ty <= 16 or list(a[0].p) in ([], [()]):
                return a[0]
            return self.rounded(a[0].p, a[0].e, False)
        if op in ("sext", "zext"):
            return a[0]
        if op in ("add", "sub"):
            return PV(padd(a[0].p, a[1].p, 1 if op == "add" else -1))
        if op == "mul":
            return PV(pmul(a[0].p, a[1].p))
        if op == "shl" and not n.args[1].args and n.args[1].op == "c":
            return PV(pscale(a[0].p, 1 << n.args[1].val))
        raise NotPoly(op)


def pow2(k):
    k = abs(Fr(k))
    return (k.numerator & (k.numerator - 1)) == 0 and (k.denominator & (k.denominator - 1)) == 0


def decide(res, spec, tol):
    """z3: is |res - spec| > sum tol_m |m| possible?  -> (result, seconds)"""
    t = time.time()
    d = padd(res.p, spec, -1)
    s = z3.Solver()
    mons = sorted(set(d) | set(res.e) | set(tol), key=str)
    tot = []
    for i, m in enumerate(mons):
        if m == ():
            a = z3.RealVal(1)
        else:
            a = z3.Real(f"a{i}")
            s.add(a >= 0)
        c = d.get(m, 0)
        if c:
            if m == ():
                v = z3.RealVal(1)
            else:
                v = z3.Real(f"v{i}")
                s.add(v <= a, v >= -a)
            tot.append(("d", c * v))
        k = Fr(res.e.get(m, 0)) - Fr(tol.get(m, 0))
        if k:
            tot.append(("e", z3.Q(k.numerator, k.denominator) * a))
    D = z3.Sum([x if not isinstance(x, Fr) else z3.Q(x.numerator, x.denominator) for k, x in tot if k == "d"] or [z3.RealVal(0)])
    E = z3.Sum([x for k, x in tot if k == "e"] or [z3.RealVal(0)])
    s.add(z3.Or(D + E > 0, -D + E > 0))
    r = s.check()
    return str(r), time.time() - t


def differing(p, spec, names, lo=-4, hi=4, extra=None, n=6, signed=True):
    """small integer points where the two polynomials differ (z3, nonlinear integers)"""
    out = []
    s = z3.Solver()
    s.set("timeout", 10000)
    iv = {v: z3.Int(v) for v in names}
    for v in iv.values():
        s.add(v >= lo, v <= hi)
    d = padd(p, spec, -1)
    den = 1
    for c in d.values():
        den = den * Fr(c).denominator // __import__("math").gcd(den, Fr(c).denominator)
    terms = []
    for m, c in d.items():
        e = z3.IntVal(int(c * den))
        for v, k in m:
            for _ in range(k):
                e = e * iv[v]
        terms.append(e)
    e = z3.Sum(terms) if terms else z3.IntVal(0)
    s.add(z3.Or(e >= den, e <= -den) if den < 10 ** 6 else e != 0)
    while len(out) < n and s.check() == z3.sat:
        m = s.model()
        pt = {v: m.eval(x, model_completion=True).as_long() for v, x in iv.items()}
        out.append(pt)
        s.add(z3.Or([iv[v] != k for v, k in pt.items()]))
    return out
