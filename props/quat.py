"""C39-C45: quaternions"""
from spec import *
from poly import PolyGoal, run_poly, poly
from vec import band_, bor_, sums, anysum
from approx import *

ALL = "all 2^32 bit patterns of every component"


def goal(fn, post, **k):
    return Goal(fn, fn, post=post, uf=True, timeout=200, note=k.pop("note", ALL), **k)


def c39(rep):
    gs = []
    for nm, op in (("add", "fadd"), ("adda", "fadd"), ("sub", "fsub"), ("suba", "fsub")):
        gs.append(goal("q_" + nm, lambda *v, op=op: band_(same(r, build(op, (x, y), "f")) for r, x, y in zip(v[-1].o[0], v[:4], v[4:]))))
    for nm in ("scale", "scalef", "mulk", "kmul", "mulka"):
        gs.append(goal("q_" + nm, lambda *v: band_(same(r, fmul(x, v[4])) for r, x in zip(v[-1].o[0], v[:4]))))
    gs.append(goal("q_conj", lambda *v: band(same(v[-1].o[0][0], v[0]), band_(same(v[-1].o[0][i], fneg(v[i])) for i in (1, 2, 3)))))
    gs.append(goal("q_eq", lambda *v: ieq(v[-1].r, build("zext", (band_(feq(x, y) for x, y in zip(v[:4], v[4:])),), 8))))
    for nm in ("identity", "default"):
        gs.append(goal("q_" + nm, lambda R: band(feq(R.o[0][0], FCx(1.0)), band_(feq(x, FCx(0.0)) for x in R.o[0][1:]))))
    # 1 is neutral, conjugation reverses products: exactly, for all floats
    run_goals(rep, gs)

    def mul(a, b, c, d, e, f, g, h):
        return [[a * e, -(b * f), -(c * g), -(d * h)], [a * f, b * e, c * h, -(d * g)], [a * g, -(b * h), c * e, d * f], [a * h, b * g, -(c * f), d * e]]
    N = "each component of the Hamilton product"
    run_poly(rep, [PolyGoal("q_mul", "q_mul", mul, 5, 56, N),
                   PolyGoal("q_dot", "q_dot", lambda *v: [[x * y for x, y in zip(v[:4], v[4:])]], 5, 56, "dot product"),
                   PolyGoal("q_norm", "q_norm", lambda *v: [[x * x for x in v]], 5, 56, "sum of squares")])


def c40(rep):
    gs = []
    for nm in ("new", "acc", "toarr", "intoarr", "tuple", "totuple"):
        gs.append(goal("q_" + nm, lambda *v: band_(same(r, x) for r, x in zip(v[-1].o[0], v[:4]))))
    gs.append(goal("q_fromv", lambda *v: band(feq(v[-1].o[0][0], FCx(0.0)), band_(same(r, x) for r, x in zip(v[-1].o[0][1:], v[:3])))))
    gs.append(goal("q_fromvi", lambda *v: band(feq(v[-1].o[0][0], FCx(0.0)), band_(same(r, build("sitofp", (x,), "f")) for r, x in zip(v[-1].o[0][1:], v[:3])))))
    run_goals(rep, gs)


def qv():
    V = {nm: mkvar(nm, ty) for nm, ty in argtypes("q_inv")}
    return V, list(V.values())


def zero_norm(*v):
    return band_(feq(fmul(x, x), FCx(0.0)) for x in v)


def c41(rep):
    V, a = qv()
    gs = []
    kw = dict(uf=True, timeout=200, walk=True)
    gs.append(Goal("q_inv.value", calls=[("q_norm", a), ("f_inv", lambda A: [A.r]), ("q_inv", a)], vars=V, pre=lambda *v: bnot(zero_norm(*v)), note=ALL + ", norm not 0: conjugate times the crate's inverse of the norm",
                   post=lambda *v: band(same(v[-1].o[0][0], fmul(v[0], v[-2].r)), band_(same(v[-1].o[0][i], fmul(fneg(v[i]), v[-2].r)) for i in (1, 2, 3))), **kw))
    gs.append(Goal("q_normalize.value", calls=[("q_norm", a), ("f_invsqrt", lambda A: [A.r]), ("q_normalize", a)], vars=V, pre=lambda *v: bnot(zero_norm(*v)), note=ALL + ", norm not 0: scaled by the crate's inverse square root of the norm",
                   post=lambda *v: band_(same(v[-1].o[0][i], fmul(v[i], v[-2].r)) for i in range(4)), **kw))
    gs.append(Goal("q_mag.value", calls=[("q_norm", a), ("f_sqrt", lambda A: [A.r]), ("q_mag", a)], vars=V, note=ALL + ": the crate's square root of the norm",
                   post=lambda *v: same(v[-1].r, v[-2].r), **kw))
    for fn in ("q_inv", "q_normalize"):
        gs.append(Goal(fn + ".panics", fn, panic=zero_norm, uf=True, timeout=200, note=ALL + ": panics exactly when the norm is zero"))
    run_goals(rep, gs)


def rot(w, x, y, z, a, b, c):
    ww, xx, yy, zz = w * w, x * x, y * y, z * z
    two = poly(2)
    return [[ww * a, xx * a, -(yy * a), -(zz * a), two * x * y * b, -(two * w * z * b), two * x * z * c, two * w * y * c],
            [two * x * y * a, two * w * z * a, ww * b, -(xx * b), yy * b, -(zz * b), two * y * z * c, -(two * w * x * c)],
            [two * x * z * a, -(two * w * y * a), two * y * z * b, two * w * x * b, ww * c, -(xx * c), -(yy * c), zz * c]]


def c42(rep):
    N = "q v q*, expanded"
    run_poly(rep, [PolyGoal("q_rotate", "q_rotate", rot, 8, 36, N), PolyGoal("q_mulv", "q_mulv", rot, 8, 36, N),
                   PolyGoal("q_rotate_i8", "q_rotate_i8", rot, 8, 36, N)])


def c43(rep):
    V = {nm: mkvar(nm, ty) for nm, ty in argtypes("q_axis")}
    a = list(V.values())
    h = fmul(a[3], FCx(0.5))
    gs = [Goal("q_axis", calls=[("f_cos", [h]), ("f_sin", [h]), ("q_axis", a)], vars=V, uf=True, walk=True, timeout=300, note=ALL + ": the crate's cosine and sine of half the angle",
               post=lambda *v: band(same(v[-1].o[0][0], v[-3].r), band_(same(r, fmul(x, v[-2].r)) for r, x in zip(v[-1].o[0][1:], v[:3]))))]
    run_goals(rep, gs)


def c45(rep):
    """roll, pitch and yaw: the crate's atan2, asin, atan2 of the usual products"""
    V, a = qv()
    w, x, y, z = a
    two, one = FCx(2.0), FCx(1.0)
    dbl = lambda p: fmul(two, p)
    pr = lambda a, b, c, d: dbl(fadd(fmul(a, b), fmul(c, d)))
    sq = lambda a, b: fsub(one, dbl(fadd(fmul(a, a), fmul(b, b))))
    s = dbl(fsub(fmul(w, y), fmul(x, z)))
    cl = ite(lt(s, FCx(-1.0)), FCx(-1.0), s)
    cl = ite(lt(one, cl), one, cl)
    kw = dict(uf=True, timeout=300, walk=True)
    gs = []
    for i, (nm, fn, args) in enumerate((("roll", "f_atan2", [pr(w, x, y, z), sq(x, y)]), ("pitch", "f_asin", [cl]), ("yaw", "f_atan2", [pr(w, z, x, y), sq(y, z)]))):
        gs.append(Goal("q_euler." + nm, calls=[(fn, args), ("q_euler", a)], vars=V, note=ALL, post=lambda *v, i=i: same(v[-1].o[0][i], v[-2].r), **kw))
    run_goals(rep, gs)


# ------------------------------------------------------------------ rotation between two directions
def two_goal(name, u, v, dom, opposite=False, **kw):
    """u, v: three entries each, constants or 'x'/'y' (the variables) or ('-x', k) = -k*x"""
    u, v = [[b2f(f2b(e)) if isinstance(e, float) else e for e in t] for t in (u, v)]
    ats = argtypes("q_two")
    lead = {}
    for i, e in enumerate(u + v):
        if isinstance(e, str) and e not in lead:
            lead[e] = i
    fixed = {}
    for i, e in enumerate(u + v):
        if isinstance(e, tuple):
            fixed[i] = fneg(mkvar(ats[lead[e[0]]][0], "f")) if e[1] == 1 else fmul(mkvar(ats[lead[e[0]]][0], "f"), FCx(-e[1]))
        elif not isinstance(e, str):
            fixed[i] = FCx(e)
    names = sorted(lead, key=lead.get)

    def comp(S, X, e):
        if isinstance(e, tuple):
            return X[names.index(e[0])].scale(-e[1])
        return X[names.index(e)] if isinstance(e, str) else TM.const(S, e)

    def rotu(q, u, mul, add, neg):
        """q u q* expanded, from the polynomial used for rotate"""
        w, x, y, z = q
        two = lambda a: add(a, a)
        sub = lambda a, b: add(a, neg(b))
        ww, xx, yy, zz = [mul(a, a) for a in q]
        m = [[sub(sub(add(ww, xx), yy), zz), two(sub(mul(x, y), mul(w, z))), two(add(mul(x, z), mul(w, y)))],
             [two(add(mul(x, y), mul(w, z))), sub(add(sub(ww, xx), yy), zz), two(sub(mul(y, z), mul(w, x)))],
             [two(sub(mul(x, z), mul(w, y))), two(add(mul(y, z), mul(w, x))), add(sub(sub(ww, xx), yy), zz)]]
        return [add(add(mul(r[0], u[0]), mul(r[1], u[1])), mul(r[2], u[2])) for r in m]

    T, N = .001, .072

    def cross(r, v, mul, sub):
        return [sub(mul(r[1], v[2]), mul(r[2], v[1])), sub(mul(r[2], v[0]), mul(r[0], v[2])), sub(mul(r[0], v[1]), mul(r[1], v[0]))]

    def obl(S, X, V):
        q = [fin(a) for a in V]
        U, W = [comp(S, X, e) for e in u], [comp(S, X, e) for e in v]
        mul, add, sub, neg = (lambda a, b: a.mul(b)), (lambda a, b: a.add(b)), (lambda a, b: a.sub(b)), (lambda a: a.neg())
        r = rotu(q, U, mul, add, neg)
        n2 = q[0].sq().add(q[1].sq()).add(q[2].sq()).add(q[3].sq())
        d = U[0].sq().add(U[1].sq()).add(U[2].sq())
        e = W[0].sq().add(W[1].sq()).add(W[2].sq())
        uv = d.mul(e).sqrt()
        if uv is None:
            raise Undecided()
        out = within(n2.addc(-1), N)
        for c in cross(r, W, mul, sub):
            out += within(c, uv.scale(T))
        dot = r[0].mul(W[0]).add(r[1].mul(W[1])).add(r[2].mul(W[2]))
        return out + [uv.scale(.9).sub(dot)]

    def orc(xs, r, outs):
        q = [val(b) for b in outs[0]]
        if any(a is None or not mpmath.isfinite(a) for a in q):
            return False
        X = [mp(b2f(b)) for b in xs]
        U, W = X[:3], X[3:]
        mul, add, sub, neg = (lambda a, b: a * b), (lambda a, b: a + b), (lambda a, b: a - b), (lambda a: -a)
        rr = rotu(q, U, mul, add, neg)
        uv = mpmath.sqrt(sum(a * a for a in U) * sum(a * a for a in W))
        return (abs(sum(a * a for a in q) - 1) <= N and all(abs(c) <= T * uv for c in cross(rr, W, mul, sub))
                and sum(a * b for a, b in zip(rr, W)) >= .9 * uv)
    return AccGoal(name, "q_two", dom, obl, orc, deg=kw.pop("deg", 4), fixed=fixed, **kw)


def square(top, n, parts=1):
    """boxes covering |x|, |y| <= top"""
    one = [ordbox(0.0, top * 2.0 ** -n)] + binades(nxt(top * 2.0 ** -n), top, parts=parts)
    return quadrants([(a, b) for a in one for b in one])


def c44(rep):
    e = 30 if thorough(rep) else 3
    big = bothsigns(2.0 ** -e, 2.0 ** e, 1)
    gs = []
    for i, nm in enumerate("xyz"):  # opposite vectors on the axes
        u = [0.0] * 3
        u[i] = "x"
        gs.append(two_goal("opposite on the %s axis" % nm, u, [("x", 1) if e == "x" else -0.0 for e in u], d1(big), deg=6, note="u = x on the %s axis, v = -u, 2^-%d <= |x| <= 2^%d" % (nm, e, e)))
    for nm, u in (("(x,.5,0)", ["x", .5, 0.0]), ("(x,0,.5)", ["x", 0.0, .5]), ("(0,x,.5)", [0.0, "x", .5]), ("(0,.5,x)", [0.0, .5, "x"])):
        gs.append(two_goal("opposite u=" + nm, u, [("x", 1) if e == "x" else -e for e in u], d1([ordbox(0.0, 2.0 ** -20)] + binades(nxt(2.0 ** -20), .25)), deg=6, note="u = %s, v = -u, 0 <= x <= 1/4" % nm))
    N = " for all floats |x|, |y| <= 1"
    gs.append(two_goal("v=(x,y,.7)", [1.0, 0.0, 0.0], ["x", "y", .7], square(1.0, 5), note="u = (1, 0, 0), v = (x, y, .7)" + N))
    gs.append(two_goal("u=(x,.6,y)", ["x", .6, "y"], [-3.0, 2.0, 1.0], square(1.0, 5), note="u = (x, .6, y), v = (-3, 2, 1)" + N))
    if thorough(rep):
        gs.append(two_goal("v=(x,y,.2)", [.3, -.5, .8], ["x", "y", .2], square(1.0, 5), note="u = (.3, -.5, .8), v = (x, y, .2)" + N))
    run_acc(rep, gs)
