"""C36-C38: statistics over slices of up to 300 samples"""
from spec import *
from vec import band_, tof

TYPES = ["i8", "u8", "i16", "u16"]


def mean(xs):
    """the sum in the order of the samples, divided by their number"""
    alts = []
    for r in (FCx(0.0), None):
        for x in xs:
            r = x if r is None else fadd(r, x)
        alts.append(fdiv(r, FCx(float(len(xs)))))
    return alts


def c36(rep):
    gs = [Goal("st_mean0", "st_mean0", post=lambda R: isnan(R.r), note="no samples: NaN")]
    for n in [*range(1, 7), 17, 300]:
        gs.append(Goal(f"st_mean{n}", f"st_mean{n}", uf=True, timeout=200, note=f"{n} samples, all bit patterns",
                       post=lambda *v: bor(*[same(v[-1].r, m) for m in mean(v[:-1])])))
    run_goals(rep, gs)


def sumsq(xs, m):
    r = FCx(0.0)
    for x in xs:
        d = fsub(x, m)
        r = fadd(r, fmul(d, d))
    return r


def c37(rep):
    gs = []

    def goals(t, n):
        suffix = str(n) if t == "f32" else "_" + t
        V = {nm: mkvar(nm, ty) for nm, ty in argtypes("st_var" + suffix)}
        a = list(V.values())
        xs = [tof(x, t) for x in a]

        def post(*v):
            ss = sumsq(xs, v[n].r)
            return same(v[n + 1].r, fdiv(ss, FCx(float(n - 1))))
        gs.append(Goal("st_var" + suffix, calls=[(f"st_mean{n}", xs), ("st_var" + suffix, a)], vars=V, post=post, uf=True, timeout=200,
                       note=f"{n} samples, all values: squared deviations from the crate's mean over n - 1"))
        gs.append(Goal("st_std" + suffix, calls=[("st_var" + suffix, a), ("st_std" + suffix, a), ("e_sqrt", lambda A, B: [A.r])], vars=V, uf=True, timeout=200,
                       post=lambda *v: same(v[-2].r, v[-1].r), note="all values: the crate's square root of the variance"))
        if n > 1:
            gs.append(Goal("st_var_sign" + suffix, "st_var" + suffix, timeout=200, post=lambda *v: bor(isnan(v[-1].r), le(FCx(0.0), v[-1].r)), uf=True, note="all values: not negative"))
    for n in [*range(1, 7), 17, 300]:
        goals("f32", n)
    for t in TYPES:
        goals(t, 3)
    run_goals(rep, gs)


def c38(rep):
    gs = []

    def goal(t, n, default):
        suffix = str(n) if t == "f32" else "_" + t
        fn = ("st_trimd" if default else "st_trim") + suffix
        V = {nm: mkvar(nm, ty) for nm, ty in argtypes(fn)}
        a = list(V.values())
        xs = [tof(x, t) for x in a[:n]]
        th = FCx(2.0) if default else a[n]
        eq = same if t == "f32" else ieq

        def post(*v):
            m, sd, R = v[-3].r, v[-2].r, v[-1]
            w = R.r.ty
            rank, c = C(0, w), []
            for i in range(n):
                keep = lt(fdiv(fabs(fsub(xs[i], m)), sd), th)
                for j in range(i + 1):
                    c.append(implies(band(keep, ieq(rank, C(j, w))), eq(R.o[0][j], a[i])))
                rank = build("add", (rank, build("zext", (keep,), w)), w)
            return band(ieq(R.r, rank), *c)
        gs.append(Goal(fn, calls=[(f"st_mean{n}", xs), ("st_std" + suffix, a[:n]), (fn, a)], vars=V, post=post, uf=True, timeout=300, walk=n > 2,
                       note=f"{n} samples and {'the default threshold' if default else 'any threshold'}, all values: keeps, in order, exactly the samples closer to the crate's mean than threshold * its deviation"))
    N = 6 if rep.tier == "thorough" else 4
    for n in range(1, N + 1):
        goal("f32", n, False)
    for n in range(1, N + 1):
        goal("f32", n, True)
    for t in TYPES:
        goal(t, 3, False)
    run_goals(rep, gs)
