"""Accuracy goals: for every box of inputs the real code (as executed symbolically) has a
Taylor model with rounding errors included; the claim "the error exceeds the bound
somewhere in the box" becomes a polynomial inequality over s in [-1,1]^n, which z3 refutes
(nlsat).  A box it cannot refute is replayed natively at the solver's point and then split,
down to single floats."""
import os, sys, time, math, heapq, itertools, multiprocessing, traceback, signal
from fractions import Fraction
import z3
from dag import *
from box import *
from tm import TM, Space
import spec
from spec import Code, CheckError, NPROC, LIMIT


class AccGoal:
    """fn: entry point; vars: names of the arguments that range over boxes (others fixed via
    `fixed` {index: node}).  domain: list of boxes, each a tuple of (olo, ohi) ordinals per var.
    oblig(S, T, V): T = list of exact argument TMs, V = list of results (FV/IV) -> list of TMs
    that must be <= 0; may raise Undecided.  oracle(xs, ret, outs) -> True if the property
    holds for these concrete argument bit patterns / results.
    panic: True if panicking paths are acceptable (never by default)."""

    def __init__(self, name, fn, domain, oblig, oracle, deg=6, fixed=None, maxforks=8, results=None, note="",
                 minw=None, reach=True, panic_ok=False, profiles=("chk", "rel"), coarse=False):
        self.fns = [fn] if isinstance(fn, str) else list(fn)
        fn = self.fns[0]
        self.name, self.fn, self.domain, self.oblig, self.oracle = name, fn, domain, oblig, oracle
        self.coarse = coarse
        self.deg, self.fixed, self.maxforks, self.note = deg, fixed or {}, maxforks, note
        self.results = results
        self.panic_ok, self.profiles = panic_ok, profiles
        ats = spec.argtypes(fn)
        self.args, self.vars = [], []
        for i, (nm, ty) in enumerate(ats):
            if i in self.fixed:
                self.args.append(self.fixed[i])
            else:
                v = spec.mkvar(nm, ty)
                self.args.append(v)
                self.vars.append(v)

    def variants(self, code):
        """[((profile, entry point) list, paths)] with equal path lists merged"""
        out = {}
        for prof, fn in [(p, f) for f in self.fns for p in self.profiles]:
            ps = code.run(prof, fn, self.args)
            key = tuple((tuple((c.id, w) for c, w in p.conds), p.status, p.ret.id if p.ret is not None else None,
                         tuple(x.id if x is not None else None for o in p.outs for x in o)) for p in ps)
            out.setdefault(key, ([], ps))[0].append((prof, fn))
        return list(out.values())


def flat_results(p):
    r = [p.ret] if p.ret is not None else []
    for o in p.outs:
        r += o
    return r


def q(x):
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


def shorten(c, r):
    """coefficients as short dyadics; the change goes into the remainder"""
    m = max(float(np.abs(c).max()), r, 1e-300)
    sc = 2.0 ** (math.frexp(m)[1])
    ci = np.round(c / sc * 2.0 ** 40)
    err = float(np.abs(c / sc - ci * 2.0 ** -40).sum()) * (1 + 1e-12)
    rr = math.ceil((r / sc + err) * 2.0 ** 40 * (1 + 1e-12) + 1)
    return [int(v) for v in ci], rr, sc  # all scaled by sc/2^40


def poly_expr(S, ints, sv):
    t = []
    for m, k in zip(S.mon, ints):
        if k == 0:
            continue
        e = z3.IntVal(k)
        e = z3.RealVal(k)
        for v, d in zip(sv, m):
            for _ in range(d):
                e = e * v
        t.append(e)
    return z3.Sum(t) if t else z3.RealVal(0)


class Stats:
    def __init__(self):
        self.boxes = self.leaves = self.queries = self.unsat = self.sat = self.unknown = self.points = self.replays = 0
        self.solver = 0.0
        self.maxdepth = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, max(self.maxdepth, v) if k == "maxdepth" else getattr(self, k) + v)


def constraints(S, bx, P, emit):
    """the claim "P > 0 somewhere" and the leaf's assumptions, as emit(poly TM) expressions"""
    out = []
    ints, rr, _ = shorten(P.c, P.r)
    out.append(emit(ints) + rr > 0)
    for tm, lo, hi in bx.narrow_used:
        if tm is None:
            continue
        k, r2, sc = shorten(tm.c, tm.r)
        e = emit(k)
        if lo is not None and math.isfinite(lo):
            out.append(e + r2 >= q(lo) * z3.RealVal(2 ** 40) / q(sc))
        if hi is not None and math.isfinite(hi):
            out.append(e - r2 <= q(hi) * z3.RealVal(2 ** 40) / q(sc))
    return out


_base = {}


def base_solver(S):
    if S not in _base:
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 10000)
        mv = []
        for m in S.mon:
            if sum(m) == 0:
                mv.append(z3.RealVal(1))
                continue
            v = z3.Real("m" + "_".join(map(str, m)))
            s.add(v <= 1, v >= (0 if all(e % 2 == 0 for e in m) else -1))
            mv.append(v)
        for i in range(S.n):
            u = [0] * S.n
            u[i] = 1
            w = [0] * S.n
            w[i] = 2
            if tuple(w) in S.idx:
                x, y = mv[S.idx[tuple(u)]], mv[S.idx[tuple(w)]]
                s.add(y >= 2 * x - 1, y >= -2 * x - 1, y >= x - z3.Q(1, 4), y >= -x - z3.Q(1, 4))
            for j in range(i):
                w = [0] * S.n
                w[i] = w[j] = 1
                if tuple(w) in S.idx:
                    y = mv[S.idx[tuple(w)]]
                    z = [0] * S.n
                    z[j] = 1
                    a, b = mv[S.idx[tuple(u)]], mv[S.idx[tuple(z)]]
                    s.add(y >= a + b - 1, y >= -a - b - 1, y <= a - b + 1, y <= b - a + 1)
        _base[S] = (s, mv)
    return _base[S]


def relaxed(S, bx, P, st):
    """linear relaxation: monomials are variables bounded by their range on the box (with
    tangents of the squares).  unsat here is unsat for the polynomials; otherwise a point"""
    t = time.time()
    s, mv = base_solver(S)
    s.push()
    try:
        s.add(constraints(S, bx, P, lambda ints: z3.Sum([z3.RealVal(k) * v for k, v in zip(ints, mv) if k] or [z3.RealVal(0)])))
        r = s.check()
        st.queries += 1
        if r == z3.unsat:
            st.unsat += 1
            return None
        if r == z3.unknown:
            st.unknown += 1
            return [0.0] * S.n
        st.sat += 1
        m = s.model()
        out = []
        for i in range(S.n):
            u = [0] * S.n
            u[i] = 1
            x = m.eval(mv[S.idx[tuple(u)]], model_completion=True)
            out.append(float(x.as_fraction()))
        return out
    finally:
        s.pop()
        st.solver += time.time() - t


_pts = {}


def easy(S, bx, P):
    """a sample point that satisfies the claim "P > 0" and the assumptions, if one is at hand"""
    if S not in _pts:
        rows = [[0.0] * S.n] + [list(t) for t in itertools.product((-1.0, 1.0), repeat=min(S.n, 2))] if S.n else []
        _pts[S] = (rows, np.array([[np.prod([x ** d for x, d in zip(r, m)]) for m in S.mon] for r in rows]) if rows else None)
    rows, M = _pts[S]
    if not rows or S.n > 2:
        return None
    ok = M @ P.c + P.r > 0
    for tm, lo, hi in bx.narrow_used:
        if tm is None:
            continue
        v = M @ tm.c
        if lo is not None:
            ok &= v + tm.r >= lo
        if hi is not None:
            ok &= v - tm.r <= hi
    i = np.flatnonzero(ok)
    return rows[i[0]] if len(i) else None


def refute(S, bx, P, st):
    """is p(s)+r > 0 impossible on the box (under the leaf's assumptions)?  -> None or s values"""
    e = easy(S, bx, P)
    if e is not None:
        return e
    if S.n >= 2:
        return relaxed(S, bx, P, st)
    t = time.time()
    sv = [z3.Real(f"s{i}") for i in range(S.n)]
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", 10000)
    for v in sv:
        s.add(v >= -1, v <= 1)
    s.add(constraints(S, bx, P, lambda ints: poly_expr(S, ints, sv)))
    r = s.check()
    st.queries += 1
    st.solver += time.time() - t
    if r == z3.unsat:
        st.unsat += 1
        return None
    if r == z3.unknown:
        st.unknown += 1
        return [0.0] * S.n
    st.sat += 1
    m = s.model()
    out = []
    for v in sv:
        x = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        try:
            out.append(float(x.as_fraction()))
        except Exception:
            out.append(0.0)
    return out


_G = {}


_mask = {}


def mask(S, j):
    if (S, j) not in _mask:
        _mask[S, j] = np.array([m[j] > 0 for m in S.mon])
    return _mask[S, j]


def attempt(g, paths, box, st, infl=None, coarse=None):
    """True if proven; otherwise a list of candidate points (ordinal tuples) to try"""
    n = sum(1 for lo, hi in box if lo != hi)
    S = Space(n, g.deg)
    roots, T, j = {}, [], 0
    for v, (lo, hi) in zip(g.vars, box):
        if v.ty == "f":
            if lo == hi:
                fv = mkroot(S, v.val, None, lo, hi)
            else:
                fv = mkroot(S, v.val, j, lo, hi)
                j += 1
            roots[v.val] = fv
            T.append(fv.tm)
        else:
            mid, rad = (lo + hi) / 2, (hi - lo) / 2
            if lo == hi:
                tm = TM.const(S, float(lo))
            else:
                tm = TM.var(S, j, mid, rad)
                j += 1
            roots[v.val] = IV(v.ty, lo, hi, tm)
            T.append(tm)
    try:
        lv = leaves(S, roots, paths, flat_results, g.maxforks, g.coarse if coarse is None else coarse)
    except Undecided:
        return []
    st.leaves += len(lv)
    cands = []
    for p, bx, vals in lv:
        if p.status != "ret":
            # an unwanted path: impossible under the assumptions?
            one = TM.const(S, 1.0)
            s = refute(S, bx, one, st)
            if s is None:
                continue
            cands.append(pt(box, s))
            continue
        for v in vals:
            if isinstance(v, FV) and v.tm is None and v.num and not v.nan and math.isfinite(v.hi - v.lo):
                v.tm = TM.const(S, (v.lo + v.hi) / 2).widen((v.hi - v.lo) / 2 * (1 + 1e-12) + 1e-300)
        try:
            obl = g.oblig(S, T, vals)
        except Undecided:
            s = refute(S, bx, TM.const(S, 1.0), st) if bx.narrow_used else [0.0] * S.n
            if s is None:
                continue
            cands.append(pt(box, s))
            continue
        for P in obl:
            if P is None or not math.isfinite(P.r) or not np.isfinite(P.c).all():
                cands.append(pt(box, [0.0] * S.n))
                break
            s = refute(S, bx, P, st)
            if s is not None:
                cands.append(pt(box, s))
                if infl is not None and n > 1:
                    j = 0
                    for i, (lo, hi) in enumerate(box):
                        if lo != hi:
                            # variation of the claim over this variable, uncertainty included
                            infl[i] += float(np.abs(P.c[mask(S, j)]).sum()) / (float(np.abs(P.c).sum()) + P.r + 1e-300)
                            j += 1
                break
    return True if not cands else cands


def pt(box, s):
    out, j = [], 0
    for lo, hi in box:
        if lo == hi:
            out.append(lo)
            continue
        x = s[j]
        j += 1
        a, b = o2f(lo), o2f(hi)
        v = (a + b) / 2 + x * (b - a) / 2
        o = f2o(v)
        out.append(min(max(o, lo), hi))
    return tuple(out)


def envof(g, ords):
    env = {}
    for v, o in zip(g.vars, ords):
        env[v.val] = o2b(o) if v.ty == "f" else o & ((1 << v.ty) - 1)
    return env


def replay(g, code, prof, ords, st=None):
    env = envof(g, ords)
    c = Conc(env)
    vals = [c.ev(a) for a in g.args]
    prof, fn = prof
    s, r, outs = code.native(prof).call(fn, vals)
    if st is not None:
        st.replays += 1
    ok = g.panic_ok if s == "panic" else bool(g.oracle(vals, r, outs))
    rec = {"goal": g.name, "profile": prof, "inputs": env, "calls": [
        {"fn": fn, "args": vals, "args_shown": [spec.show_val(v, a.ty) for v, a in zip(vals, g.args)], "status": s, "ret": r,
         "ret_shown": spec.show_val(r, spec.outtypes(g.fn)[0]) if r is not None else None,
         "outs": outs}], "expected": "accuracy bound " + ("met" if ok else "exceeded") if s != "panic" else "no panic"}
    return ok, rec


LATE = 7  # depth from which plain ranges are tried as well


def process(job):
    """prove one initial box; returns (index, stats, violation record|None, undecided list)"""
    gi, vi, box0, deadline = job
    g, variants = _G["goals"][gi], _G["variants"][gi]
    profs, paths = variants[vi]
    code = Code.get()
    st = Stats()
    stack = [(box0, 0)]
    tried = 0
    try:
        while stack:
            if time.time() > deadline:
                return gi, st, None, "time limit"
            box, d = stack.pop()
            if d > 30 and os.environ.get("DBG"): print("DEEP", d, [repr(o2f(o)) for b in box for o in b], file=sys.stderr, flush=True)
            st.boxes += 1
            st.maxdepth = max(st.maxdepth, d)
            if all(lo == hi for lo, hi in box):
                st.points += 1
                for prof in profs:
                    ok, rec = replay(g, code, prof, [lo for lo, _ in box], st)
                    if not ok:
                        return gi, st, rec, None
                continue
            infl = [0.0] * len(box)
            r = attempt(g, paths, box, st, infl)
            if r is True or (d >= LATE and not g.coarse and len(box) == 1 and attempt(g, paths, box, st, None, True) is True):
                continue
            for c in r[:2]:
                for prof in profs[:1]:
                    ok, rec = replay(g, code, prof, c, st)
                    if not ok:
                        return gi, st, rec, None
            # split the widest dimension (in units of the ordinal range relative to its start)
            w = [hi - lo for lo, hi in box]
            if max(infl) > 0 and d % 6 != 5:
                w = [x if lo != hi else -1 for x, (lo, hi) in zip(infl, box)]
            k = max(range(len(box)), key=lambda i: w[i])
            lo, hi = box[k]
            # split at the candidate if that isolates a switching point, else in the middle
            mid = (lo + hi) >> 1
            stack.append((box[:k] + ((mid + 1, hi),) + box[k + 1:], d + 1))
            stack.append((box[:k] + ((lo, mid),) + box[k + 1:], d + 1))
        return gi, st, None, None
    except Exception:
        return gi, st, None, traceback.format_exc()
    finally:
        pass


def _init():
    # children must not share the parent's native worker
    Code.get().nat = {}


def run_acc(rep, goals):
    if spec.settled(rep):
        return
    code = Code.get()
    for prof in ("chk", "rel"):
        code.native(prof)
    _G["goals"] = goals
    _G["variants"] = [g.variants(code) for g in goals]
    jobs = []
    deadline = time.time() + max(5, rep.left(LIMIT))
    import random
    rng = random.Random(rep.seed)
    for gi, g in enumerate(goals):
        for vi in range(len(_G["variants"][gi])):
            jobs += [(gi, vi, b, deadline) for b in g.domain]
    rng.shuffle(jobs)
    per = {g.name: Stats() for g in goals}
    bad = set()
    tot = Stats()
    stop = None
    with multiprocessing.get_context("fork").Pool(NPROC, initializer=_init) as pool:
        it = pool.imap_unordered(process, jobs, chunksize=1)
        try:
            for _ in jobs:
                try:
                    gi, st, rec, err = it.next(timeout=max(.1, min(deadline + 60, stop + 10 if stop else 1e18) - time.time()))
                except multiprocessing.TimeoutError:
                    if stop:
                        break
                    raise CheckError("time limit in box search")
                per[goals[gi].name].add(st)
                tot.add(st)
                if rec is not None:
                    bad.add(goals[gi].name)
                    rep.violations.append(rec)
                    if len(rep.violations) >= 3:
                        break
                    if stop is None and spec.settled(rep):
                        stop = time.time()
                if err:
                    rep.errors.append(f"{goals[gi].name}: {err}")
                    if len(rep.errors) > 5:
                        break
        finally:
            pool.terminate()
    for g in goals:
        s = per[g.name]
        rep.cov["goals"][g.name] = {"back_end": "Taylor models + QF_NRA", "calls": g.fns, "initial_boxes": len(g.domain), "boxes": s.boxes,
                                    "queries": s.queries, "unsat": s.unsat, "sat_then_split": s.sat, "unknown": s.unknown, "single_floats": s.points,
                                    "native_replays": s.replays, "max_split_depth": s.maxdepth, "degree": g.deg}
        if g.note:
            rep.cov["bounds"].append(f"{g.name}: {g.note}")
        # concrete witness of the property on the real code
        if g.domain and g.name not in bad:
            b = g.domain[len(g.domain) // 2]
            for prof in [(p, f) for f in g.fns for p in g.profiles]:
                ok, rec = replay(g, code, prof, [(lo + hi) // 2 for lo, hi in b])
                if len(rep.cov["samples"]) < 12:
                    rep.cov["samples"].append(rec)
                if not ok:
                    rep.violations.append(rec)
                rep.cov["reachability_witnesses"] += 1
    rep.cov["queries"] += tot.queries
    rep.cov["queries_unsat"] += tot.unsat
    rep.cov["solver_seconds"] += tot.solver
    rep.cov["states"] += tot.boxes
    rep.cov["transitions"] += tot.leaves


# ------------------------------------------------------------------ domains
def binades(lo, hi, sign=1, parts=1):
    """boxes covering the floats of [lo, hi] (lo, hi > 0, floats), split at powers of two"""
    out = []
    a, b = f2b(lo), f2b(hi)
    step = (1 << 23) // parts
    cur = a
    while cur <= b:
        nxt = min(b, (cur // step + 1) * step - 1)
        out.append((cur, nxt) if sign > 0 else (-nxt - 1, -cur - 1))
        cur = nxt + 1
    return out


def linear(lo, hi, step):
    """boxes of about equal width over the floats of [lo, hi] (same sign or crossing zero is
    split at zero)"""
    if lo < 0 < hi:
        return linear(lo, -0.0, step) + linear(0.0, hi, step)
    out = []
    a, b = f2o(lo), f2o(hi)
    if lo == 0 and hi > 0:
        a = 0
    x = lo
    cur = a
    while cur <= b:
        x = x + step
        nxt = min(b, f2o(x) - 1)
        if nxt < cur:
            nxt = cur
        out.append((cur, nxt))
        cur = nxt + 1
    return out


def d1(bs):
    return [(b,) for b in bs]


# ------------------------------------------------------------------ obligation helpers
def fin(v):
    """TM of a result that must be an ordinary number on the whole box"""
    if not isinstance(v, FV) or not v.num or v.nan or v.tm is None:
        raise Undecided()
    return v.tm


def within(d, tol):
    """|d| <= tol, d and tol TMs or tol a constant"""
    if isinstance(tol, TM):
        return [d.sub(tol), d.neg().sub(tol)]
    return [d.addc(-tol), d.neg().addc(-tol)]
