"""Goals, their discharge, replay and reporting."""
import os, sys, copy, json, time, random, struct, itertools, traceback, multiprocessing, signal
import z3
import build as B
from dag import *
import llir, exact

VERIF = B.VERIF


class CheckError(Exception):
    """the check cannot decide: an error exit, never a pass or an alarm"""


# ------------------------------------------------------------------ node helpers
def isnan(x):
    return build("fcmp", (x, x), 1, "uno")


def bits(x):
    return build("bits", (x,), 32)


def frombits(b):
    return build("frombits", (b,), "f")


def fcmp(p, a, b):
    return build("fcmp", (a, b), 1, p)


def lt(a, b):
    return fcmp("olt", a, b)


def le(a, b):
    return fcmp("ole", a, b)


def feq(a, b):
    return fcmp("oeq", a, b)


def same(a, b):
    return build("fsame", (a, b), 1)


def fabs(x):
    return build("fabs", (x,), "f")


def fneg(x):
    return build("fneg", (x,), "f")


def fadd(a, b):
    return build("fadd", (a, b), "f")


def fsub(a, b):
    return build("fsub", (a, b), "f")


def fmul(a, b):
    return build("fmul", (a, b), "f")


def fdiv(a, b):
    return build("fdiv", (a, b), "f")


def icmp(p, a, b):
    return build("icmp", (a, b), 1, p)


def ieq(a, b):
    return icmp("eq", a, b)


def ite(c, a, b):
    return build("ite", (c, a, b), a.ty)


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return bnot(build("xor", (a, b), 1))


def isinf(x):
    return feq(fabs(x), FC(0x7F800000))


def isfin(x):
    return lt(fabs(x), FC(0x7F800000))


def signbit(x):
    return icmp("slt", bits(x), C(0, 32))


def absle(x, v):
    """|x| <= v (false for NaN)"""
    return le(fabs(x), FCx(v))


def absge(x, v):
    return fcmp("oge", fabs(x), FCx(v))


def absin(x, lo, hi):
    return band(absge(x, lo), absle(x, hi))


# ------------------------------------------------------------------ the code under check
class Code:
    _inst = None

    def __init__(self):
        self.paths, self.hash = B.ensure()
        self.mods, self.nat, self.cache = {}, {}, {}
        self.functions = set()
        self.steps = 0

    @classmethod
    def get(cls):
        if cls._inst is None:
            cls._inst = cls()
        return cls._inst

    def native(self, prof):
        if prof not in self.nat:
            self.nat[prof] = B.Native(self.paths[prof]["so"])
        return self.nat[prof]

    def mod(self, prof):
        if prof not in self.mods:
            self.mods[prof] = llir.Module(open(self.paths[prof]["ll"]).read())
        return self.mods[prof]

    def run(self, prof, fn, args):
        """symbolic paths of entry point fn on flat list of argument nodes"""
        k = (prof, fn, tuple(a.id for a in args))
        if k not in self.cache:
            ex = llir.Exec(self.mod(prof), ifconv=fn in IFCONV)
            self.cache[k] = ex.run(fn, shape(fn, args))
            self.functions |= ex.functions
            self.functions.add(fn)
        return self.cache[k]


def shape(fn, flat):
    sig, _ = B.signatures()[fn]
    out, i = [], 0
    for nm, kind, ty, n in sig:
        if kind in ("val", "sval"):
            out.append(flat[i])
            i += 1
        elif kind == "in":
            out.append(("in", list(flat[i:i + n]), ty))
            i += n
        else:
            out.append(("out", n, ty))
    assert i == len(flat), (fn, i, len(flat))
    return out


def argtypes(fn):
    sig, _ = B.signatures()[fn]
    r = []
    for nm, kind, ty, n in sig:
        if kind in ("val", "sval"):
            r.append((nm, ty))
        elif kind == "in":
            r += [(f"{nm}{i}", ty) for i in range(n)]
    return r


def outtypes(fn):
    sig, rty = B.signatures()[fn]
    return rty, [(ty, n) for nm, kind, ty, n in sig if kind == "out"]


def mkvar(nm, ty):
    return FVar(nm) if ty == "f" else IVar(nm, ty)


class Res:
    """results of one call: .r return node, .o list of output arrays"""

    def __init__(self, r, o):
        self.r, self.o = r, o


def pathkey(ps):
    return tuple((tuple((c.id, w) for c, w in p.conds), p.status, p.ret.id if p.ret is not None else None,
                  tuple(x.id if x is not None else None for o in p.outs for x in o)) for p in ps)


def sliced(ps, rv, used):
    """the paths with the outputs nobody reads projected away: their condition tree, with tests
    dropped whose two subtrees are the same"""
    keep_r = rv.r is not None and rv.r.id in used
    keep_o = [[v.id in used for v in o] for o in rv.o]
    if keep_r is (rv.r is not None) and all(all(k) for k in keep_o):
        return ps
    nodes, order = {}, []

    def mk(key):
        if key not in nodes:
            nodes[key] = len(order)
            order.append(key)
        return nodes[key]

    def tree(ps, k):
        p = ps[0]
        if len(ps) == 1 and len(p.conds) == k:
            if p.status != "ret":
                return mk(("leaf", p.status))
            key = ("leaf", "ret", p.ret if keep_r or rv.r is None else FV0, tuple(tuple(x if kp else FV0 for x, kp in zip(o, ks)) for o, ks in zip(p.outs, keep_o)))
            return mk(key)
        by = {}
        for q in ps:
            c, w = q.conds[k]
            by.setdefault((c.id, w), (c, w, []))[2].append(q)
        if len({c.id for c, w, g in by.values()}) != 1:
            raise ValueError("not a tree")
        kids = {w: tree(g, k + 1) for c, w, g in by.values()}
        if len(kids) == 2 and len(set(kids.values())) == 1:
            return next(iter(kids.values()))
        c = next(iter(by.values()))[0]
        return mk(("test", c, tuple(sorted(kids.items()))))

    try:
        root = tree(ps, 0)
    except (ValueError, IndexError):
        return ps
    out = []

    def emit(n, conds):
        key = order[n]
        if key[0] == "test":
            for w, k in key[2]:
                emit(k, conds + [(key[1], w)])
            return
        p = copy.copy(ps[0])
        p.conds, p.status = conds, key[1]
        if key[1] == "ret":
            p.ret, p.outs = (key[2] if key[2] is not FV0 else None), [list(o) for o in key[3]]
            p.outs = [[x if x is not FV0 else None for x in o] for o in p.outs]
        out.append(p)
    emit(root, [])
    return out if len(out) < len(ps) else ps


FV0 = "unused"


def resvars(i, fn):
    rty, outs = outtypes(fn)
    r = mkvar(f"ret.{i}", rty) if rty is not None else None
    return Res(r, [[mkvar(f"out.{i}.{j}.{k}", ty) for k in range(n)] for j, (ty, n) in enumerate(outs)])


class Goal:
    """forall variables with pre: every call returns (or panics exactly when `panic` says so)
    and post(results) holds.

    calls: list of (fn, [argument nodes]) over the variables V (dict name -> node)."""

    def __init__(self, name, fn=None, calls=None, vars=None, pre=None, post=None, panic=None, uf=False,
                 timeout=60, note=None, profiles=("chk", "rel"), walk=False):
        # walk: prune joint paths with the solver while enumerating them
        self.walk = walk
        self.name, self.uf, self.timeout, self.note, self.profiles = name, uf, timeout, note, profiles
        if calls is None:
            V = {nm: mkvar(nm, ty) for nm, ty in argtypes(fn)}
            calls = [(fn, list(V.values()))]
        else:
            V = vars
        self.V, self.calls = V, calls
        ns = type("V", (), V) if False else V
        self.args = list(V.values())
        self.pre = pre(*self.args) if pre else TRUE
        self.mustpanic = panic(*self.args) if panic else FALSE
        self.rv = []
        for i, (fn, a) in enumerate(calls):
            if callable(a):  # arguments computed from the results so far
                calls[i] = (fn, a(*self.rv))
            self.rv.append(resvars(i, fn))
        ids = {x.id for r in self.rv for x in ([r.r] if r.r is not None else []) + [v for o in r.o for v in o]}
        self.chained = any(n.id in ids for fn, a in calls for x in a for n in topo([x]))
        self.post = post(*self.args, *self.rv) if post else TRUE

    def tasks(self, code):
        """list of Query; identical ones of the two profiles are merged"""
        out, seen = [], {}
        same = {}
        for prof in self.profiles:
            k = tuple(pathkey(code.run(prof, fn, a)) for fn, a in self.calls)
            if self.walk and len(k) > 1 and all(x == k[0] for x in k):
                self.walk = False  # the calls run the same code: paths pair off by their conditions
            if self.walk:
                # every joint path of all but the last call is one job, which walks the last
                # call's paths and decides each
                if k in same:
                    for q in same[k]:
                        q.profs.add(prof)
                    continue
                same[k] = []
                for st in self.combos(code, prof, len(self.calls) - 1):
                    if st[1]:
                        raise CheckError("panic in a prefix of " + self.name)
                    q = WalkQuery(self, prof, st[0], FALSE, "post")
                    q.start = st
                    same[k].append(q)
                    out.append(q)
                continue
            if k not in same:
                same[k] = self.combos(code, prof)
            for conds, bad, sub, _ in same[k]:
                viol, kind = self.violation(bad, sub)
                key = (tuple(c.id for c in conds), viol.id, kind)
                if key in seen:
                    seen[key].profs.add(prof)
                    continue
                q = Query(self, prof, conds, viol, kind)
                seen[key] = q
                out.append(q)
        return out

    def combos(self, code, prof, ncalls=None, start=None):
        """(conditions, failures, results) of every joint path of the calls that is not
        contradictory on its face; a call's arguments may use the results of earlier calls"""
        used = {n.id for n in topo([self.post] + [x for fn, a in self.calls for x in a])}
        plists = [sliced(code.run(prof, fn, a), r, used) for (fn, a), r in zip(self.calls, self.rv)]
        out = []

        wk = exact.Walker() if self.walk else None

        def go(i, conds, known, bad, sub):
            if i == (len(plists) if ncalls is None else ncalls):
                out.append((conds, bad, sub, known))
                return
            later = sub and any(n.id in sub for a in self.calls[i][1] for n in topo([a]))
            walk(i, [(p, 0) for p in plists[i]], later, conds, known, bad, sub)

        def walk(i, ps, later, conds, known, bad, sub):
            """ps: paths that agree on the first k conditions, which are already assumed"""
            if len(ps) == 1 and ps[0][1] == len(ps[0][0].conds):
                return leaf(i, ps[0][0], later, conds, known, bad, sub)
            by = {}
            for p, k in ps:
                by.setdefault(p.conds[k], []).append((p, k + 1))
            for (c, w), group in by.items():
                if later:
                    c = subst([c], sub)[0]
                if c.op == "xor" and c.args[1] is TRUE:
                    c, w = c.args[0], 1 - w
                if is_c(c):
                    if c.val == w:
                        walk(i, group, later, conds, known, bad, sub)
                    continue
                if c.id in known:
                    if known[c.id] == w:
                        walk(i, group, later, conds, known, bad, sub)
                    continue
                if wk:
                    wk.push(c, w)
                    if wk.possible():
                        walk(i, group, later, conds + [c if w else bnot(c)], {**known, c.id: w}, bad, sub)
                    wk.pop()
                else:
                    walk(i, group, later, conds + [c if w else bnot(c)], {**known, c.id: w}, bad, sub)

        def leaf(i, p, later, conds, known, bad, sub):
            s2 = dict(sub)
            if p.status != "ret":
                if self.chained:
                    out.append((conds, bad + [p.status], s2, known))
                else:
                    go(i + 1, conds, known, bad + [p.status], s2)
                return
            rs = ([p.ret] if p.ret is not None else []) + [x for o in p.outs for x in o if x is not None]
            it = iter(subst(rs, sub) if later else rs)
            if self.rv[i].r is not None and p.ret is not None:
                s2[self.rv[i].r.id] = next(it)
            for ov, on in zip(self.rv[i].o, p.outs):
                for v, x in zip(ov, on):
                    if x is not None:
                        s2[v.id] = next(it)
            go(i + 1, conds, known, bad, s2)

        if wk and self.pre is not TRUE:
            wk.push(self.pre, 1)
        if start is not None:
            conds, bad, sub, known = start
            for c in conds[1:]:
                wk.push(c, 1)
            go(len(plists) - 1, conds, known, bad, sub)
        elif self.pre is not FALSE:
            go(0, [self.pre], {}, [], {})
        return out

    def violation(self, bad, sub):
        """(the condition under which a joint path violates the claim, kind)"""
        if not bad:
            return bor(self.mustpanic, bnot(subst([self.post], sub)[0])), "post"
        if "panic" in bad:
            return bnot(self.mustpanic), "panic"
        return TRUE, bad[0]

    def native(self, code, prof, env):
        """replay on the real code.  Returns (ok, record)"""
        c = Conc(env)
        rec = {"goal": self.name, "profile": prof, "inputs": dict(env), "calls": []}
        e2 = dict(env)
        panicked = False
        for i, (fn, a) in enumerate(self.calls):
            c = Conc(e2)
            vals = [c.ev(x) for x in a]
            st, r, outs = code.native(prof).call(fn, vals)
            rec["calls"].append({"fn": fn, "args": vals, "args_shown": [show_val(v, x.ty) for v, x in zip(vals, a)],
                                 "status": st, "ret": r, "ret_shown": show_val(r, self.rv[i].r.ty) if self.rv[i].r is not None and r is not None else None,
                                 "outs": outs, "outs_shown": [[show_val(v, x.ty) for v, x in zip(o, ov)] for o, ov in zip(outs, self.rv[i].o)] if outs else None})
            if st == "panic":
                panicked = True
                break
            if self.rv[i].r is not None:
                e2[self.rv[i].r.val] = r
            for ov, ox in zip(self.rv[i].o, outs):
                for v, x in zip(ov, ox):
                    e2[v.val] = x
        mp = Conc(env).ev(self.mustpanic)
        if panicked or mp:
            ok = bool(panicked) == bool(mp)
            rec["expected"] = "a panic" if mp else "no panic"
        else:
            ok = bool(Conc(e2).ev(self.post))
            rec["expected"] = "postcondition " + ("holds" if ok else "violated")
        return ok, rec


def show_val(v, ty):
    if v is None:
        return None
    if ty == "f":
        return repr(b2f(v))
    return str(sgn(v, ty)) if isinstance(ty, int) else str(v)


class Query:
    def __init__(self, goal, prof, conds, viol, kind):
        self.goal, self.prof, self.conds, self.viol, self.kind = goal, prof, conds, viol, kind
        self.profs = {prof}

    def solve(self, timeout):
        """-> dict(result, env, time)"""
        t = time.time()
        cs = [c for c in self.conds if c is not TRUE]
        if self.viol is FALSE:
            return {"result": "unsat", "time": 0.0, "env": None, "stubs": 0, "trivial": True}
        if not self.goal.uf and any(n.op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fma") for n in topo(cs + [self.viol])):
            # arithmetic as uninterpreted functions: if that already refutes it, done
            try:
                r, env, stubs = exact.solve(cs + [self.viol], min(10, timeout) * 1000, True)
            except NotImplementedError:
                r = "unknown"
            if r == "unsat":
                return {"result": "unsat", "env": None, "time": time.time() - t, "stubs": 0, "uf": True}
        r, env, stubs = exact.solve(cs + [self.viol], timeout * 1000, self.goal.uf)
        return {"result": r, "env": env if r == "sat" else None, "why": env if r == "unknown" else None,
                "time": time.time() - t, "stubs": stubs}

    def reach(self, timeout):
        cs = [c for c in self.conds if c is not TRUE]
        t = time.time()
        r, env, stubs = exact.solve(cs, timeout * 1000, self.goal.uf, want=self.goal.args)
        return {"result": r, "env": env if r == "sat" else None, "time": time.time() - t}


class WalkQuery(Query):
    def solve(self, timeout):
        t = time.time()
        n = stubs = 0
        for conds, bad, sub, _ in self.goal.combos(Code.get(), self.prof, start=self.start):
            viol, kind = self.goal.violation(bad, sub)
            r = Query(self.goal, self.prof, conds, viol, kind).solve(timeout)
            n += 1
            stubs += r["stubs"]
            if r["result"] != "unsat":
                return {**r, "time": time.time() - t, "n": n}
        return {"result": "unsat", "env": None, "time": time.time() - t, "stubs": stubs, "n": n, "uf": True}


_work = []


def _worker(job):
    i, what, timeout = job
    signal.alarm(int(timeout * 2 + 30) if not isinstance(_work[i], WalkQuery) else 800)
    q = _work[i]
    if isinstance(q, Precise):
        signal.alarm(800)
    try:
        return i, what, (q.solve(timeout) if what == "solve" else q.reach(timeout))
    except Exception as e:
        return i, what, {"result": "error", "why": traceback.format_exc(), "time": 0.0, "env": None, "stubs": 0}


NPROC = min(8, os.cpu_count() or 8)


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cov = {"explanation": "", "queries": 0, "queries_unsat": 0, "queries_trivial": 0, "solver_seconds": 0.0,
                    "states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "reachability_witnesses": 0, "goals": {}, "samples": [], "bounds": [], "functions_encoded": []}
        self.assumptions = []
        self.violations = []   # (record)
        self.known = []
        self.errors = []

    def left(self, limit):
        return limit - (time.time() - self.t0)


LIMIT = float(os.environ.get("VERIF_LIMIT", "840"))


def run_goals(rep, goals):
    """exact goals"""
    global _work
    if settled(rep):
        return
    code = Code.get()
    qs = []
    for g in goals:
        ts = g.tasks(code)
        rep.cov["goals"][g.name] = {"queries": len(ts), "calls": [fn for fn, _ in g.calls], "back_end": "uninterpreted arithmetic" if g.uf else "bit-precise"}
        if g.note:
            rep.cov["bounds"].append(f"{g.name}: {g.note}")
        qs += ts
        if not ts:
            rep.errors.append(f"{g.name}: no path at all")
    _work = qs
    rep.cov["states"] += len(qs)
    rep.cov["transitions"] += sum(len(q.conds) for q in qs)
    jobs = [(i, "solve", q.goal.timeout) for i, q in enumerate(qs)]
    # one reachability witness for every goal: the cheapest path that it is possible to take
    # (concrete inputs that satisfy the precondition will do; otherwise the solver looks)
    reach = {}
    rng = random.Random(f"{rep.seed}/{rep.pid}")
    for g in goals:
        free = [v for v in g.args if not is_c(v)]
        for _ in range(300):
            env = {v.val: (rnd_float(rng) if v.ty == "f" else rng.choice([rng.getrandbits(v.ty), rng.getrandbits(v.ty) & 7])) for v in free}
            try:
                c = Conc(env)
                if c.ev(g.pre) and not c.ev(g.mustpanic):
                    reach.setdefault(g.name, []).append((None, env))
                    if len(reach[g.name]) == 2:
                        break
            except EvalError:
                continue
        if g.name not in reach:
            jobs += [(i, "reach", min(20, g.timeout)) for i, q in enumerate(qs) if q.goal is g and q.kind == "post"]
    viol, done, stop = {}, set(), None
    with multiprocessing.get_context("fork").Pool(NPROC, maxtasksperchild=50) as pool:
        it = pool.imap_unordered(_worker, jobs, chunksize=1)
        for _ in jobs:
            try:
                # a violation settles the outcome: the other queries get a few more seconds
                i, what, r = it.next(timeout=max(.1, min(rep.left(LIMIT), stop + 10 - time.time() if stop else 1e9)))
            except multiprocessing.TimeoutError:
                pool.terminate()
                if stop:
                    return
                raise CheckError(f"time limit: solver queries of {rep.pid} outstanding")
            q = qs[i]
            rep.cov["solver_seconds"] += r["time"]
            if r["result"] == "error":
                raise CheckError(r["why"])
            if what == "reach":
                if r["result"] == "sat" and (q.goal.name not in reach or len(reach[q.goal.name]) < 3):
                    reach.setdefault(q.goal.name, []).append((q, r["env"]))
                continue
            rep.cov["queries"] += r.get("n", 1)
            if r["result"] == "unsat":
                rep.cov["queries_unsat"] += r.get("n", 1)
                if r.get("trivial"):
                    rep.cov["queries_trivial"] += 1
                elif r.get("uf"):
                    rep.cov["queries_by_uninterpreted_arithmetic"] = rep.cov.get("queries_by_uninterpreted_arithmetic", 0) + 1
            elif r["result"] == "sat":
                viol.setdefault(q.goal.name, []).append((q, r))
                if q.goal.name not in done and (confirm(rep, q.goal, q, r["env"]) or hunt(rep, q.goal, q, r["env"], rng)):
                    done.add(q.goal.name)
                    if stop is None and settled(rep):
                        stop = time.time()
            else:
                rep.errors.append(f"{q.goal.name}: solver gave no answer ({r['why']}, {r['time']:.0f}s)")
    # counterexamples that are artefacts of uninterpreted arithmetic: decide these bit-precisely
    spur = [(q, r) for nm in viol if nm not in done for q, r in viol[nm]]
    if spur and not stop:
        _work = [Precise(q, r) for q, r in spur]
        with multiprocessing.get_context("fork").Pool(NPROC) as pool:
            for i, _, r in pool.imap_unordered(_worker, [(i, "solve", max(5, min(200, rep.left(LIMIT) / 2 - 20))) for i in range(len(_work))]):
                q, r0 = spur[i]
                rep.cov["queries"] += 1
                rep.cov["solver_seconds"] += r["time"]
                if r["result"] == "unsat":
                    rep.cov["queries_unsat"] += 1
                elif not (r["result"] == "sat" and confirm(rep, q.goal, q, r["env"])):
                    rep.errors.append(f"{q.goal.name}: the solver's counterexample does not replay: " + json.dumps({k: hex(v) for k, v in r0["env"].items()}) + " kind=" + q.kind
                                      + (" (bit-precise: " + str(r["result"]) + ")"))
    for g in goals:
        if g.mustpanic is TRUE:
            continue
        if g.name not in reach and g.name not in viol:
            rep.errors.append(f"{g.name}: no input reaches a returning path (vacuous)")
        for q, env in reach.get(g.name, []):
            full = {v.val: env.get(v.val, 0) for v in g.args if not is_c(v)}
            rep.cov["reachability_witnesses"] += 1
            try:
                ok, rec = g.native(code, q.prof if q else g.profiles[0], full)
            except EvalError:
                continue
            if len(rep.cov["samples"]) < 12:
                rep.cov["samples"].append(rec)
            if not ok and g.name not in viol:
                rep.errors.append(f"{g.name}: witness contradicts the proof: {rec}")


class Precise:
    """a query again, with float arithmetic bit-precise"""

    def __init__(self, q, r):
        self.q, self.r, self.goal = q, r, q.goal

    def solve(self, timeout):
        t, q, g = time.time(), self.q, self.goal
        if isinstance(q, WalkQuery):  # go on from the path it stopped at
            n = 0
            for conds, bad, sub, _ in g.combos(Code.get(), q.prof, start=q.start):
                n += 1
                if n < self.r["n"]:
                    continue
                viol, kind = g.violation(bad, sub)
                x = Query(g, q.prof, conds, viol, kind)
                if n == self.r["n"] or x.solve(timeout)["result"] != "unsat":
                    r, env = self.precise(x, timeout)
                    if r != "unsat":
                        return {"result": r, "env": env if r == "sat" else None, "time": time.time() - t}
            return {"result": "unsat", "env": None, "time": time.time() - t}
        r, env = self.precise(q, timeout)
        return {"result": r, "env": env if r == "sat" else None, "time": time.time() - t}

    def precise(self, q, timeout):
        try:
            r, env, _ = exact.solve([c for c in q.conds if c is not TRUE] + [q.viol], timeout * 1000, False)
        except NotImplementedError:
            return "unknown", None
        return r, env


def is_known(pid, v):
    return any(all(v.get(a) == b for a, b in k["match"].items()) for k in known_findings(pid))


def settled(rep):
    """a violation that is no known finding has been confirmed: the outcome is decided"""
    return bool(rep.violations) and not all(is_known(rep.pid, v) for v in rep.violations)


def hunt(rep, g, q, env, rng, seconds=6):
    """the abstract counterexample does not replay as it is: look for a concrete one near it"""
    code = Code.get()
    free = [v for v in g.args if not is_c(v)]
    t = time.time()
    n = 0
    while free and time.time() - t < seconds:
        n += 1
        mild = n % 3 == 0  # ordinary magnitudes only: a single huge sample drowns everything else
        e = {v.val: f2b(rng.uniform(-8, 8)) if mild and v.ty == "f" else env.get(v.val, 0) if rng.random() < .5 - min(.4, n / 1000) else rnd_float(rng) if v.ty == "f" else rng.choice([rng.getrandbits(v.ty), rng.getrandbits(v.ty) & 7]) for v in free}
        try:
            if not Conc(e).ev(g.pre):
                continue
            for prof in sorted(q.profs):
                ok, rec = g.native(code, prof, e)
                if not ok:
                    rep.violations.append(rec)
                    return True
        except EvalError:
            continue
    return False


def confirm(rep, g, q, env):
    code = Code.get()
    full = {v.val: env.get(v.val, 0) for v in g.args if not is_c(v)}
    for prof in sorted(q.profs):
        ok, rec = g.native(code, prof, full)
        if not ok:
            rep.violations.append(rec)
            return True
    return False


# ------------------------------------------------------------------ translator validation
SPECIAL = [0, 0x80000000, 1, 0x80000001, 0x7FFFFF, 0x800000, 0x3F800000, 0xBF800000, 0x3F000000, 0xBF000000, 0x7F7FFFFF,
           0xFF7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0x4B000000, 0x4B7FFFFF, 0x4F000000, 0xCF000000, 0x4F800000,
           0x40490FDB, 0x3FC90FDB, 0x42B17218, 0x3EFFFFFF, 0x4B800001, 0x5F000000, 0x1F000000]


def rnd_float(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice(SPECIAL)
    if k < 0.6:
        return f2b(rng.uniform(-10, 10))
    if k < 0.7:
        return f2b(float(rng.randint(-300, 300)))
    if k < 0.85:
        return f2b(rng.uniform(-1, 1) * 2.0 ** rng.randint(-20, 30))
    return rng.getrandbits(32)


def validate(rep, fns, n=40):
    """the executor's results against the native code on sampled inputs (the encoding, not the
    property, is under test here)"""
    code = Code.get()
    rng = random.Random(f"{rep.seed}/{rep.pid}")
    npanic = {}
    if len(fns) > 60:
        n = 8
    for fn in sorted(fns):
        if fn in NOVALIDATE:
            continue
        ats = argtypes(fn)
        vs = [mkvar("a%d" % i, ty) for i, (nm, ty) in enumerate(ats)]
        for prof in ("chk", "rel"):
            paths = None
            for _ in range(n):
                env = {v.val: (rnd_float(rng) if v.ty == "f" else rng.choice([rng.getrandbits(v.ty), rng.getrandbits(v.ty) & 7, (1 << (v.ty - 1)) - rng.randint(0, 1)])) for v in vs}
                if fn in CONSTARGS:
                    args = [C(env[v.val] % 9 - 4, v.ty) if i in CONSTARGS[fn] else v for i, v in enumerate(vs)]
                    for i in CONSTARGS[fn]:
                        env[vs[i].val] = args[i].val
                else:
                    args = vs
                paths = code.run(prof, fn, args)
                try:
                    p, c = run_paths(paths, env)
                except EvalError:
                    continue
                if p is not None and p.status == "panic":
                    npanic[fn] = npanic.get(fn, 0) + 1
                    if npanic[fn] > 2:  # each costs a fresh worker process
                        continue
                if p is None:
                    raise CheckError(f"translator: no path of {fn} for {env}")
                st, r, outs = code.native(prof).call(fn, [env[v.val] for v in vs])
                if p.status in ("unreachable", "bound"):
                    continue
                if (p.status == "panic") != (st == "panic"):
                    raise CheckError(f"translator: {fn}{env}: symbolic {p.status}, native {st}")
                rep.cov["traces_validated_against_impl"] += 1
                if st == "panic":
                    continue
                pairs = []
                if p.ret is not None:
                    pairs.append((p.ret, r))
                for on, ov in zip(p.outs, outs):
                    pairs += [(x, v) for x, v in zip(on, ov) if x is not None]
                for x, v in pairs:
                    try:
                        y = c.ev(x)
                    except EvalError:
                        continue
                    if y != v and not (x.ty == "f" and isnan_b(y) and isnan_b(v)) and not nanfree(c, x):
                        raise CheckError(f"translator: {fn} {prof} {env}: symbolic {y:#x}, native {v:#x}")


def nanfree(c, root):
    """true if a computed NaN (whose sign and payload are not determined) enters the value"""
    for n in topo([root]):
        if n.ty == "f" and n.op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt") and n.id in c.memo and isnan_b(c.memo[n.id]):
            return True
    return False


NOVALIDATE = set()
CONSTARGS = {}
IFCONV = {"f_powi", "e_powi"}  # loops over a symbolic exponent


# ------------------------------------------------------------------ finishing
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("known: property=" + pid + " "):
                out.append(json.loads(ln[ln.index("{"):]))
    return out


def finish(rep, level="model_checking"):
    code = Code.get()
    validate(rep, {f for f in code.functions if f in B.signatures()}) if not rep.errors else None
    rep.cov["functions_encoded"] = sorted(short(f) for f in code.functions)
    kf = known_findings(rep.pid)
    new = []
    for v in rep.violations:
        k = next((k for k in kf if all(v.get(a) == b for a, b in k["match"].items())), None)
        (rep.known if k else new).append((k, v))
    for k, v in rep.known:
        print(f"KNOWN-FINDING: property={rep.pid} {k['what']}")
    rep.cov["solver_seconds"] = round(rep.cov["solver_seconds"], 2)
    ev = {"property": rep.pid, "tier": rep.tier, "seed": rep.seed, "level": level, "coverage": rep.cov,
          "assumptions": rep.assumptions, "wall_s": round(time.time() - rep.t0, 2), "violations": len(new)}
    if rep.errors:
        rep.cov["errors"] = rep.errors[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{rep.pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{rep.pid}.json"))
    if new:
        for i, (_, v) in enumerate(new[:5]):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{rep.pid}-{i}.json")
            json.dump({"property": rep.pid, "tree": code.hash, **v}, open(p, "w"), indent=1)
            print(json.dumps(v.get("calls", v))[:600])
            print(f"VIOLATION property={rep.pid} replay={p}")
        sys.stdout.flush()
        return 1
    for e in rep.errors[:10]:
        print("ERROR", e[:1500])
    if rep.errors:
        return 2
    print(f"{rep.pid}: held; {rep.cov['queries']} queries, {rep.cov['solver_seconds']} s solver, {ev['wall_s']} s wall")
    return 0


def short(n):
    import re
    m = re.match(r"_RNv|_ZN", n)
    if not m:
        return n
    parts = re.findall(r"\d+([A-Za-z_][A-Za-z0-9_]*)", n)
    return n if not parts else n
