"""goals decided by the polynomial back end (pe.py)"""
import math, random, time
from fractions import Fraction as Fr
import pe, spec
from pe import padd, pmul, pscale, pabs, pvar, pconst
from spec import Code, CheckError, argtypes, mkvar, show_val, f2b, b2f, rnd_float
from dag import *

SLACK = Fr(1, 1 << 136)


class Poly(dict):
    """a polynomial; | is the same with absolute values"""

    def __add__(a, b):
        return Poly(padd(a, poly(b)))

    def __sub__(a, b):
        return Poly(padd(a, poly(b), -1))

    def __mul__(a, b):
        return Poly(pmul(a, poly(b)))

    def __neg__(a):
        return Poly(pscale(a, -1))
    __radd__ = __add__
    __rmul__ = __mul__


def poly(x):
    return x if isinstance(x, Poly) else Poly(pconst(x))


def var(n):
    return Poly(pvar(n))


class PolyGoal:
    """|result_i - spec_i(inputs)| <= K u |spec|_i (+ underflow) for all floats of magnitude at
    most 2^mag; spec_i a polynomial, |spec|_i the sum of the absolute values of the terms given"""

    def __init__(self, name, fn, spec_, K, mag, note, profiles=("chk", "rel")):
        self.name, self.fn, self.K, self.mag, self.note, self.profiles = name, fn, K, mag, note, profiles
        self.args = [mkvar(nm, ty) for nm, ty in argtypes(fn)]
        self.terms = spec_(*[var(a.val) for a in self.args])  # per output: list of polynomials summed
        self.p = [sum(ts, poly(0)) for ts in self.terms]
        self.abs = [sum((Poly(pabs(t)) for t in ts), poly(0)) for ts in self.terms]

    def value(self, p, pt):
        r = Fr(0)
        for m, c in p.items():
            for v, k in m:
                c = c * pt[v] ** k
            r += c
        return r

    def native(self, code, prof, pt):
        vals = [f2b(float(pt[a.val])) if a.ty == "f" else int(pt[a.val]) % (1 << a.ty) for a in self.args]
        pt = {a.val: Fr(b2f(v)) if a.ty == "f" else Fr(pt[a.val]) for a, v in zip(self.args, vals)}
        st, r, outs = code.native(prof).call(self.fn, vals)
        res = ([r] if r is not None else []) + [x for o in (outs or []) for x in o]
        ok = st == "ret"
        exp = []
        if ok:
            for b, p, a in zip(res, self.p, self.abs):
                v = b2f(b)
                e = self.value(p, pt)
                t = self.K * pe.U * self.value(a, {k: abs(x) for k, x in pt.items()}) + SLACK * 64
                exp.append(float(e))
                if not math.isfinite(v) or abs(Fr(v) - e) > t:
                    ok = False
        return ok, {"goal": self.name, "profile": prof, "inputs": {a.val: v for a, v in zip(self.args, vals)}, "expected": exp,
                    "calls": [{"fn": self.fn, "args": vals, "args_shown": [show_val(v, a.ty) for v, a in zip(vals, self.args)], "status": st, "ret": r, "outs": outs,
                               "results_shown": [b2f(b) for b in res] if st == "ret" else None}]}


def run_poly(rep, goals):
    code = Code.get()
    rng = random.Random(f"{rep.seed}/{rep.pid}/poly")
    for g in goals:
        rep.cov["goals"][g.name] = {"calls": [g.fn], "back_end": "polynomials with rounding terms (QF_LRA over monomials)", "tolerance_units": g.K, "outputs": len(g.p)}
        rep.cov["bounds"].append(f"{g.name}: |inputs| <= 2^{g.mag}, {g.note}, error <= {g.K} * 2^-24 * (sum of the terms' magnitudes) + 2^-130")
        bad = []
        deg = max(sum(k for v, k in m) for p in g.abs for m in p) if g.abs else 0
        assert deg * g.mag + 10 < 127, "overflow not excluded"
        seen = set()
        for prof in g.profiles:
            paths = code.run(prof, g.fn, g.args)
            k = spec.pathkey(paths)
            if k in seen:
                continue
            seen.add(k)
            for p in paths:
                rep.cov["states"] += 1
                if p.status != "ret":
                    bad.append((prof, None, "a path ends in " + p.status))
                    continue
                rs = ([p.ret] if p.ret is not None else []) + [x for o in p.outs for x in o]
                for i, (r, sp, ab) in enumerate(zip(rs, g.p, g.abs)):
                    try:
                        v = pe.PE().ev(r)
                    except pe.NotPoly as x:
                        bad.append((prof, None, f"not a polynomial: {x}"))
                        continue
                    tol = pscale(ab, g.K * pe.U)
                    for m in v.e:
                        tol = padd(tol, {m: SLACK})
                    res, t = pe.decide(v, sp, tol)
                    rep.cov["queries"] += 1
                    rep.cov["transitions"] += len(v.e)
                    rep.cov["solver_seconds"] += t
                    if res == "unsat":
                        rep.cov["queries_unsat"] += 1
                    else:
                        bad.append((prof, (v.p, sp), f"result {i}"))
        names = [a.val for a in g.args]
        pts = []
        for prof, d, why in bad:
            if d and padd(d[0], d[1], -1):
                pts += pe.differing(d[0], d[1], names, n=4)
        rnd = [{n: rng.choice([-3, -2, -1, 1, 2, 3, 5, 7]) * Fr(2) ** rng.randint(-3, 3) for n in names} for _ in range(4)] if not any(a.ty != "f" for a in g.args) else [{n: rng.randint(-9, 9) for n in names} for _ in range(4)]
        hit = False
        for pt in pts + rnd:
            for prof in g.profiles:
                ok, rec = g.native(code, prof, pt)
                rep.cov["traces_validated_against_impl"] += 1
                if len(rep.cov["samples"]) < 12:
                    rep.cov["samples"].append(rec)
                if not ok and not hit:
                    hit = True
                    rep.violations.append(rec)
        if bad and not hit:
            rep.errors.append(f"{g.name}: not decided: {sorted(set(w for _, _, w in bad))[:3]}")
