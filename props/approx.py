"""C09-C26: approximations.  Accuracy claims are decided with Taylor models (rounding errors
included) and nonlinear real arithmetic; special values and relations bit-precisely."""
import math
import mpmath
from spec import *
from boxdrv import *
from box import *
from tm import TM
import tm as _tm

mp = mpmath.mpf
MINN = 2.0 ** -126
PI = math.pi


def both(name):
    return ["f_" + name, "e_" + name]


def thorough(rep):
    return rep.tier == "thorough"


def val(b):
    """the real number with bit pattern b (None for NaN, +-inf kept)"""
    x = b2f(b)
    return None if x != x else mp(x)


def prev(x):
    return o2f(f2o(x) - 1)


def nxt(x):
    return o2f(f2o(x) + 1)


def ordbox(lo, hi):
    """the single box of the floats lo..hi (same sign)"""
    return (f2o(lo), f2o(hi))


def absacc(name, fn, boxes, ref, refm, tol, **kw):
    """|fn(x) - ref(x)| <= tol"""
    def obl(S, T, V):
        f = ref(T[0])
        if f is None:
            raise Undecided()
        return within(fin(V[0]).sub(f), tol)

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and abs(v - refm(mp(b2f(xs[0])))) <= tol
    return AccGoal(name, fn, d1(boxes), obl, orc, **kw)


def ratio(name, fn, boxes, inv, invm, lo, hi, **kw):
    """lo <= fn(x) * inv(x) <= hi"""
    def obl(S, T, V):
        f = inv(T[0])
        if f is None:
            raise Undecided()
        p = fin(V[0]).mul(f)
        return [p.addc(-hi), p.neg().addc(lo)]

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and lo <= v * invm(mp(b2f(xs[0]))) <= hi
    return AccGoal(name, fn, d1(boxes), obl, orc, **kw)


def ranged(name, fn, boxes, lo, hi, coarse=True, **kw):
    """lo <= fn(x) <= hi, neither NaN nor a negative zero"""
    def obl(S, T, V):
        v = V[0]
        if not isinstance(v, FV) or not v.num or v.nan:
            raise Undecided()
        if v.lo >= lo and v.hi <= hi and (lo < 0 or math.copysign(1, v.lo) == 1):
            return []
        if lo == math.inf or hi == -math.inf:
            raise Undecided()
        return ([fin(v).addc(-hi)] if hi < math.inf else []) + ([fin(v).neg().addc(lo)] if lo > -math.inf else [])

    def orc(xs, r, outs):
        v = b2f(r)
        return lo <= v <= hi and (lo < 0 or r < 0x80000000)
    return AccGoal(name, fn, d1(boxes), obl, orc, coarse=coarse, **kw)


def special(fn, name, pre, post, **kw):
    return Goal(f"{fn}.{name}", fn, pre=pre, post=post, **kw)


def rbetween(R, lo, hi):
    return band(fcmp("oge", R, FCx(lo)), fcmp("ole", R, FCx(hi)))


def pos(x):
    """finite, > 0"""
    return band(lt(FCx(0.0), x), isfin(x))


def neg(x):
    return lt(x, FCx(0.0))


ALLPOS = binades(MINN, FMAX, parts=2)


# ------------------------------------------------------------------ roots
def c09(rep):
    T = .061

    def obl(S, X, V):
        R2 = fin(V[0]).sq()
        return [R2.sub(X[0].scale((1 + T) ** 2)), X[0].scale((1 - T) ** 2).sub(R2), fin(V[0]).neg()]

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and abs(v / mpmath.sqrt(mp(b2f(xs[0]))) - 1) <= T
    run_acc(rep, [AccGoal("sqrt.accuracy", both("sqrt"), d1(ALLPOS), obl, orc, note="every positive normal float, relative error <= 6.1%")])
    gs = []
    for fn in both("sqrt"):
        gs.append(special(fn, "domain", None, lambda x, R: band(
            iff(isnan(R.r), bor(isnan(x), neg(x))),
            implies(feq(x, FCx(0.0)), rbetween(R.r, 0.0, 1e-19)),
            implies(absle(x, MINN), implies(le(FCx(0.0), x), rbetween(R.r, 0.0, 1.3e-19))),
            implies(feq(x, FC(0x7F800000)), feq(R.r, FC(0x7F800000)))), note="all 2^32 inputs"))
        V = {"x": FVar("x"), "y": FVar("y")}
        gs.append(Goal(fn + ".monotone", calls=[(fn, [V["x"]]), (fn, [V["y"]])], vars=V, pre=lambda x, y: band(le(FCx(0.0), x), le(x, y)),
                       post=lambda x, y, A, B: le(A.r, B.r), note="all pairs 0 <= x <= y"))
    run_goals(rep, gs)


def pairs(lo, hi, w=13, parts=1, least=0.0):
    """boxes over both arguments in (0, 2^hi), the larger one in [2^lo, 2^hi)"""
    out = []
    for i in range(lo, hi):
        big = ordbox(2.0 ** i, prev(2.0 ** (i + 1)) if i < 127 else FMAX)
        bigs = binades(2.0 ** i, prev(2.0 ** (i + 1)) if i < 127 else FMAX, parts=parts)
        small = ordbox(least, prev(max(2.0 ** (i - w), 2.0 ** -148)))
        for b in bigs:
            out += [(b, small)]
        for j in range(i - w, i + 1):
            if 2.0 ** j < 2.0 ** -149 or (j < -126 and j < max(i - w, -148)):
                continue
            e = prev(2.0 ** (j + 1)) if j < 127 else FMAX
            for o in binades(2.0 ** j, e, parts=parts):
                for b in bigs:
                    out.append((b, o))
    return out


def c10(rep):
    T = .07

    def obl(S, X, V):
        R2 = fin(V[0]).sq()
        s = X[0].sq().add(X[1].sq())
        return [R2.sub(s.scale((1 + T) ** 2)), s.scale((1 - T) ** 2).sub(R2), fin(V[0]).neg()]

    def orc(xs, r, outs):
        v = val(r)
        a, b = mp(b2f(xs[0])), mp(b2f(xs[1]))
        return v is not None and abs(v / mpmath.sqrt(a * a + b * b) - 1) <= T
    dom = pairs(-62, 63)
    run_acc(rep, [AccGoal("hypot.accuracy", both("hypot"), dom, obl, orc, deg=3,
                          note="non-negative legs, the longer one (the first argument; see symmetric) in [2^-62, 2^63): relative error <= 7%")])
    gs = []
    for fn in both("hypot"):
        V = {"x": FVar("x"), "y": FVar("y")}
        x, y = V["x"], V["y"]
        gs.append(Goal(fn + ".even", calls=[(fn, [x, y]), (fn, [fneg(x), y]), (fn, [x, fneg(y)])], vars=V, uf=False,
                       post=lambda x, y, A, B, D: band(same(A.r, B.r), same(A.r, D.r)), note="all inputs: the signs of the legs do not matter"))
        gs.append(Goal(fn + ".symmetric", calls=[(fn, [x, y]), (fn, [y, x])], vars=V, post=lambda x, y, A, B: same(A.r, B.r), note="all inputs"))
        gs.append(Goal(fn + ".special", fn, post=lambda x, y, R: band(
            implies(bor(isnan(x), isnan(y)), isnan(R.r)),
            implies(band(isfin(x), isfin(y)), bnot(isnan(R.r))),
            implies(band(bor(isinf(x), isinf(y)), bnot(bor(isnan(x), isnan(y)))), feq(R.r, FC(0x7F800000)))), timeout=200, note="all inputs: NaN and infinity"))
    run_goals(rep, gs)


def c11(rep):
    T = .035

    def obl(S, X, V):
        p = fin(V[0]).sq().mul(X[0])
        return [p.addc(-(1 + T) ** 2), p.neg().addc((1 - T) ** 2), fin(V[0]).neg()]

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and abs(v * mpmath.sqrt(mp(b2f(xs[0]))) - 1) <= T
    run_acc(rep, [AccGoal("invsqrt.accuracy", both("invsqrt"), d1(ALLPOS), obl, orc, note="every positive normal float, relative error <= 3.5%")])
    gs = []
    for fn in both("invsqrt"):
        gs.append(special(fn, "domain", None, lambda x, R: band(
            iff(isnan(R.r), bor(isnan(x), neg(x))),
            implies(absle(x, MINN), implies(le(FCx(0.0), x), rbetween(R.r, 8.8e18, FMAX))),
            implies(feq(x, FC(0x7F800000)), rbetween(R.r, 0.0, 1e-19))), note="all 2^32 inputs"))
        V = {"x": FVar("x"), "y": FVar("y")}
        gs.append(Goal(fn + ".monotone", calls=[(fn, [V["x"]]), (fn, [V["y"]])], vars=V, pre=lambda x, y: band(le(FCx(0.0), x), le(x, y)),
                       post=lambda x, y, A, B: le(B.r, A.r), note="all pairs 0 <= x <= y"))
    run_goals(rep, gs)


# ------------------------------------------------------------------ reciprocals
def bothsigns(lo, hi, parts=1):
    return binades(lo, hi, 1, parts) + binades(lo, hi, -1, parts)


def c12(rep):
    gs = [ratio("inv.accuracy", both("inv"), bothsigns(MINN, 2.0 ** 126, 2), lambda x: x, lambda x: x, .999, 1.126,
                note="2^-126 <= |x| <= 2^126: between 0.1% below and 12.6% above 1/x")]
    run_acc(rep, gs)
    gs = []
    for fn in both("inv"):
        gs.append(special(fn, "domain", None, lambda x, R: band(
            iff(isnan(x), isnan(R.r)),
            implies(absin(x, 2.0 ** 126, FMAX), absle(R.r, 1.2e-38)),
            implies(isinf(x), band(feq(R.r, FCx(0.0)), iff(signbit(x), signbit(R.r)))),
            implies(band(isfin(x), absle(x, 2.0 ** 126)), iff(signbit(x), signbit(R.r))),
            implies(absle(x, MINN), band(absge(R.r, 8.5e37), isfin(R.r)))), note="all 2^32 inputs"))
    run_goals(rep, gs)


def c13(rep):
    gs = [ratio("recip.accuracy", both("recip"), bothsigns(MINN, 2.0 ** 125, 4), lambda x: x, lambda x: x, 1 - 4e-5, 1 + 4e-5,
                note="2^-126 <= |x| <= 2^125: relative error <= 4e-5")]
    gs += [ratio("recip.tiny", both("recip"), bothsigns(nxt(2.0 ** 125), 2.0 ** 126, 4), lambda x: x, lambda x: x, 1 - .01, 1 + .01,
                 note="2^125 < |x| <= 2^126: relative error <= 1%")]
    for sg, nm in ((1, "positive"), (-1, "negative")):
        lo, hi = sorted([0.0, sg * 1.2e-38])
        gs.append(ranged("recip.huge " + nm, both("recip"), binades(nxt(2.0 ** 126), FMAX, sg), lo, hi, note="|x| > 2^126: at most 1.2e-38"))
        lo, hi = sorted([sg * 8.4e37, sg * math.inf])
        gs.append(ranged("recip.subnormal " + nm, both("recip"), binades(2.0 ** -149, prev(MINN), sg), lo, hi, note="subnormals: at least 8.4e37"))
    run_acc(rep, gs)
    gs = []
    for fn in both("recip"):
        gs.append(special(fn, "domain", None, lambda x, R: band(
            implies(isnan(x), isnan(R.r)),
            implies(isinf(x), band(feq(R.r, FCx(0.0)), iff(signbit(x), signbit(R.r)))),
            implies(feq(x, FCx(0.0)), isinf(R.r)),
            implies(bnot(isnan(x)), iff(signbit(x), signbit(R.r)))), note="all 2^32 inputs", timeout=200))
    run_goals(rep, gs)


# ------------------------------------------------------------------ trigonometry
def trigdom(hi, step):
    return [b for b in linear(0.0, hi, step)] + [b for b in linear(-hi, -0.0, step)]


def c14(rep):
    M, st = (4096.0, .5) if thorough(rep) else (1024.0, .5)
    run_acc(rep, [absacc("cos.accuracy", both("cos"), trigdom(M, st), lambda x: x.cos(), mpmath.cos, .002, deg=8,
                         note=f"|x| <= {M}: error <= 0.002")])
    gs = [special(fn, "nonfinite", lambda x: bnot(isfin(x)), lambda x, R: isnan(R.r)) for fn in both("cos")]
    run_goals(rep, gs)


def c15(rep):
    M, st = (4096.0, .5) if thorough(rep) else (1024.0, .5)
    gs = [absacc("sin.accuracy", both("sin"), trigdom(M, st), lambda x: x.sin(), mpmath.sin, .002, deg=8,
                 note=f"|x| <= {M}: error <= 0.002")]
    run_acc(rep, gs)
    gs = [special(fn, "nonfinite", lambda x: bnot(isfin(x)), lambda x, R: isnan(R.r)) for fn in both("sin")]
    for fn in both("sin_cos"):
        p = fn[:2]
        x = FVar("x")
        gs.append(Goal(fn, calls=[(fn, [x]), (p + "sin", [x]), (p + "cos", [x])], vars={"x": x},
                       post=lambda x, A, B, D: band(same(A.o[0][0], B.r), same(A.o[0][1], D.r)), note="all inputs: the pair (sin, cos)"))
    run_goals(rep, gs)


def c16(rep):
    def goal(fn, M, tol, step):
        def obl(S, X, V):
            R = fin(V[0])
            s, c = X[0].sin(), X[0].cos()
            if s is None or c is None:
                raise Undecided()
            d = R.mul(c).sub(s)
            return [d.sub(c.scale(tol)), d.neg().sub(c.scale(tol))]

        def orc(xs, r, outs):
            v = val(r)
            return v is not None and abs(v - mpmath.tan(mp(b2f(xs[0])))) <= tol
        return AccGoal(f"{fn}.{M}", fn, d1(trigdom(M, step)), obl, orc, deg=8, note=f"|x| <= {M}: error <= {tol}")
    gs = []
    for fn in both("tan"):
        gs += [goal(fn, 1.55, .6, .05), goal(fn, 1.3, .02, .05), goal(fn, 1.0, .01, .05)]
    run_acc(rep, gs)
    gs = []
    for fn in both("tan"):
        p = fn[:2]
        x = FVar("x")
        gs.append(Goal(fn + ".quotient", calls=[(fn, [x]), (p + "sin", [x]), (p + "cos", [x])], vars={"x": x},
                       post=lambda x, A, B, D: same(A.r, fdiv(B.r, D.r)), note="all inputs: the crate's sine over its cosine, rounded once"))
    run_goals(rep, gs)


def c17(rep):
    def refs(scale):
        def ref(x):
            a = x.atan()
            return None if a is None else a.scale(scale).widen(1e-15)
        return ref
    dom = [ordbox(0.0, 2.0 ** -12)] + binades(nxt(2.0 ** -12), prev(2.0 ** 12), parts=4) + binades(2.0 ** 12, FMAX)
    dom += [(-h - 1, -l - 1) for l, h in dom]
    gs = []
    for fn in both("atan"):
        gs.append(absacc(fn + ".accuracy", fn, dom, lambda x: x.atan(), mpmath.atan, .00284, note="every finite float: error <= 0.00284 rad (0.1627 degrees)"))
    gs.append(absacc("f_atan_norm.accuracy", "f_atan_norm", dom, refs(2 / PI), lambda x: mpmath.atan(x) * 2 / mpmath.pi, .001808,
                     note="every finite float: error <= 0.1627 degrees of 90"))
    gs.append(absacc("e_atan_norm.accuracy", "e_atan_norm", dom, refs(2 / PI), lambda x: mpmath.atan(x) * 2 / mpmath.pi, .001808))
    run_acc(rep, gs)
    gs = []
    H = b2f(0x3FC90FDB)
    for fn in both("atan") + both("atan_norm"):
        V = {"x": FVar("x")}
        x = V["x"]
        gs.append(Goal(fn + ".odd", calls=[(fn, [x]), (fn, [fneg(x)])], vars=V, post=lambda x, A, B: same(A.r, fneg(B.r)), note="all inputs: odd"))
        top = 1.0 if "norm" in fn else H
        gs.append(special(fn, "ends", lambda x: bor(bnot(isfin(x)), feq(x, FCx(0.0))), lambda x, R, top=top: band(
            implies(isnan(x), isnan(R.r)), implies(feq(x, FCx(0.0)), feq(R.r, FCx(0.0))),
            implies(isinf(x), band(feq(fabs(R.r), FCx(top)), iff(signbit(x), signbit(R.r)))))))
    run_goals(rep, gs)


def quadrants(dom):
    """boxes over (y, x) > 0 in all four quadrants"""
    out = []
    for a, b in dom:
        na, nb = (-a[1] - 1, -a[0] - 1), (-b[1] - 1, -b[0] - 1)
        out += [(a, b), (na, b), (a, nb), (na, nb)]
    return out


def both_orders(dom):
    return dom + [(b, a) for a, b in dom if a != b]


def c18(rep):
    def angle(y, x):
        """TM of atan2(y, x) for boxes with x, y of one sign each; picks the stable quotient"""
        yl, yh = y.bounds()
        xl, xh = x.bounds()
        sy = 1 if yl + yh > 0 else -1
        sx = 1 if xl + xh > 0 else -1
        if min(abs(xl), abs(xh)) >= min(abs(yl), abs(yh)) and xl * xh > 0:
            r = y.div(x)
            a = None if r is None else r.atan()
            if a is None:
                raise Undecided()
            return a if sx > 0 else a.addc(sy * PI).widen(2e-16)
        if yl * yh <= 0:
            raise Undecided()
        r = x.div(y)
        a = None if r is None else r.atan()
        if a is None:
            raise Undecided()
        return a.neg().addc(sy * PI / 2).widen(2e-16)

    T = .003

    def obl(S, X, V):
        return within(fin(V[0]).sub(angle(X[0], X[1])), T)

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and abs(v - mpmath.atan2(mp(b2f(xs[0])), mp(b2f(xs[1])))) <= T

    TN = .00191

    def obln(S, X, V):
        a = angle(X[0], X[1])
        yl, yh = X[0].bounds()
        if yl + yh < 0 and fin(V[0]).bounds()[1] > 1:  # angles are equal modulo a full turn
            a = a.addc(2 * PI).widen(4e-16)
        d = fin(V[0]).sub(a.scale(2 / PI).widen(1e-15))
        return within(d, TN) + [fin(V[0]).neg().addc(-1e-30)]

    def orcn(xs, r, outs):
        v = val(r)
        if v is None:
            return False
        a = mpmath.atan2(mp(b2f(xs[0])), mp(b2f(xs[1]))) * 2 / mpmath.pi
        if a < 0:
            a += 4
        d = abs(v - a)
        return 0 <= v < 4 and min(d, 4 - d) <= TN
    if thorough(rep):
        wins = [(k, k + 1) for k in range(-120, 126)]
    else:
        wins = [(k, k + 1) for k in (-61, 0, 60)]
    dom = []
    for a, b in wins:
        dom += both_orders(pairs(a, b, 10, 2, 2.0 ** -149))
    q4 = quadrants(dom)
    gs = [AccGoal("atan2.accuracy", both("atan2"), q4, obl, orc, deg=4, note="every finite pair whose larger magnitude lies in the binades 2^k, k in %s; error <= 0.003 rad" % [w[0] for w in wins]),
          AccGoal("atan2_norm.accuracy", "e_atan2_norm", q4, obln, orcn, deg=4, note="the same domain; error <= 0.172 degrees, result in [0, 4)")]
    # on the axes
    nz = bothsigns(2.0 ** -149, FMAX, 1)
    for k, z in (("+0", 0), ("-0", 0x80000000)):
        for pos_, ax in ((0, "y"), (1, "x")):
            def obx(S, X, V, ax=ax, nrm=False):
                lo, hi = X[0].bounds()
                sg = 1 if lo + hi > 0 else -1
                ref = (PI / 2 * sg) if ax == "x" else (0.0 if sg > 0 else PI)
                return within(fin(V[0]).addc(-ref), 1e-5)

            def orx(xs, r, outs, ax=ax):
                v = val(r)
                y, x = b2f(xs[0]), b2f(xs[1])
                ref = math.copysign(PI / 2, y) if ax == "x" else (0.0 if x > 0 else PI)
                return v is not None and abs(v - ref) <= 1e-5
            gs.append(AccGoal(f"atan2.axis {ax}={k}", both("atan2"), d1(nz), obx, orx, fixed={pos_: FC(z)}, note="every finite nonzero other argument"))
    run_acc(rep, gs)
    gs = []
    for fn in both("atan2") + ["e_atan2_norm"]:
        gs.append(special(fn, "zeros", lambda y, x: band(feq(x, FCx(0.0)), feq(y, FCx(0.0))), lambda y, x, R: feq(R.r, FCx(0.0))))
        gs.append(special(fn, "nan", lambda y, x: bor(isnan(x), isnan(y)), lambda y, x, R: isnan(R.r)))
    run_goals(rep, gs)


def c19(rep):
    T = .018

    def sinbound(R, x, sgn, t):
        """sgn*x <= sgn*sin(R + sgn*t), or R + sgn*t is beyond the quarter turn"""
        u = R.addc(sgn * t)
        lo, hi = u.bounds()
        if sgn > 0 and lo >= PI / 2 - 1e-9 or sgn < 0 and hi <= -PI / 2 + 1e-9:
            return []
        if sgn > 0 and hi > PI / 2 or sgn < 0 and lo < -PI / 2:
            raise Undecided()
        s = u.sin()
        if s is None:
            raise Undecided()
        d = x.sub(s)
        return [d] if sgn > 0 else [d.neg()]

    def obl(S, X, V):
        R = fin(V[0])
        lo, hi = R.bounds()
        if lo < -PI / 2 - T or hi > PI / 2 + T:
            raise Undecided()
        return sinbound(R, X[0], 1, T) + sinbound(R, X[0], -1, T)

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and abs(v - mpmath.asin(mp(b2f(xs[0])))) <= T
    M = 1.0
    dom = linear(0.0, 1.0, .01) + linear(-1.0, -0.0, .01)
    run_acc(rep, [AccGoal("asin.accuracy", both("asin"), d1(dom), obl, orc, note="|x| <= 1: error <= 0.018")])
    gs = []
    for fn in both("asin"):
        gs.append(special(fn, "outside", None, lambda x, R: implies(bnot(absle(x, 1.0)), isnan(R.r)), note="all 2^32 inputs: NaN outside [-1, 1]"))
        x = FVar("x")
        gs.append(Goal(fn + ".odd", calls=[(fn, [x]), (fn, [fneg(x)])], vars={"x": x}, post=lambda x, A, B: same(A.r, fneg(B.r)), note="all inputs: odd"))
    run_goals(rep, gs)


def c20(rep):
    T = .03

    def obl(S, X, V):
        R = fin(V[0])
        x = X[0]
        out = []
        for sg in (1, -1):
            # arccos x <= R + T (sg = 1), >= R - T: cos is decreasing on [0, pi]
            u = R.addc(sg * T)
            lo, hi = u.bounds()
            if sg > 0 and lo >= PI - 1e-9 or sg < 0 and hi <= 1e-9:
                continue
            if lo < 0 or hi > PI:
                raise Undecided()
            c = u.cos()
            if c is None:
                raise Undecided()
            out.append(c.sub(x) if sg > 0 else x.sub(c))
        return out

    def orc(xs, r, outs):
        v = val(r)
        return v is not None and abs(v - mpmath.acos(mp(b2f(xs[0])))) <= T
    dom = [ordbox(0.0, 2.0 ** -20)] + binades(nxt(2.0 ** -20), prev(2.0 ** -6)) + linear(2.0 ** -6, 1.0, .01)
    dom += [(-h - 1, -l - 1) for l, h in dom]
    run_acc(rep, [AccGoal("acos.accuracy", "e_acos", d1(dom), obl, orc, note="|x| <= 1: error <= 0.03")])
    run_goals(rep, [special("e_acos", "outside", None, lambda x, R: implies(bnot(absle(x, 1.0)), isnan(R.r)), note="all 2^32 inputs: NaN outside [-1, 1]")])


# ------------------------------------------------------------------ exponential and logarithms
def c21(rep):
    T = .0025
    dom = linear(2.0 ** -14, 88.72, .3) + linear(-87.3, -2.0 ** -14, .3) + [ordbox(0.0, prev(2.0 ** -14)), ordbox(-prev(2.0 ** -14), -0.0)]
    g = [ratio("exp.accuracy", both("exp"), dom, lambda x: x.neg().exp(), lambda x: mpmath.exp(-x), 1 - T, 1 + T, deg=4,
               note="-87.3 <= x <= 88.72: relative error <= 0.25%")]
    g.append(ranged("exp.overflow", both("exp"), binades(88.73, FMAX), math.inf, math.inf, note="x >= 88.73: infinity"))
    g.append(ranged("exp.underflow", both("exp"), binades(87.3, FMAX, -1), 0.0, 1.3e-38, note="x <= -87.3: between 0 and 1.3e-38"))
    g.append(ranged("exp.top", both("exp"), [ordbox(88.72, 88.73)], 3.3e38, math.inf, note="88.72 <= x <= 88.73"))
    run_acc(rep, g)
    gs = []
    for fn in both("exp"):
        gs.append(special(fn, "ends", lambda x: bor(bnot(isfin(x)), feq(x, FCx(0.0))), lambda x, R: band(
            implies(isnan(x), isnan(R.r)), implies(feq(x, FCx(0.0)), feq(R.r, FCx(1.0))),
            implies(feq(x, FC(0x7F800000)), feq(R.r, FC(0x7F800000))), implies(feq(x, FC(0xFF800000)), feq(R.r, FCx(0.0))))))
    run_goals(rep, gs)


LOGDOM = binades(2.0 ** -126, FMAX, parts=2)


def logends(fn, bottom):
    """special values of a logarithm"""
    return [special(fn, "ends", lambda x: bor(isnan(x), bor(neg(x), feq(x, FC(0x7F800000)))), lambda x, R: band(
        implies(bor(isnan(x), neg(x)), isnan(R.r)), implies(feq(x, FC(0x7F800000)), feq(R.r, FC(0x7F800000)))),
        note="NaN and negative arguments give NaN, infinity gives infinity")]


def c22(rep):
    run_acc(rep, [absacc("ln.accuracy", both("ln"), LOGDOM, lambda x: x.log(), mpmath.log, 1e-4, deg=8, note="every positive normal float: error <= 0.0001"),
                  ranged("ln.bottom", both("ln"), [(0, 0x7FFFFF)], -math.inf, -87.3, note="+0 and the subnormals: at most -87.3")])
    run_goals(rep, [g for fn in both("ln") for g in logends(fn, -87.3)])


def c23(rep):
    def lg(b):
        k = float(1 / mpmath.log(b))

        def ref(x):
            t = x.log()
            return None if t is None else t.scale(k).widen(1e-13)
        return ref
    gs = [absacc("log2.accuracy", both("log2"), LOGDOM, lg(2), lambda x: mpmath.log(x, 2), 1.5e-4, deg=8, note="every positive normal float: error <= 0.00015"),
          absacc("log10.accuracy", both("log10"), LOGDOM, lg(10), lambda x: mpmath.log10(x), 5e-5, deg=8, note="every positive normal float: error <= 0.00005")]
    # a fixed base: relative error of ln(base) <= 1e-4/|ln base|
    for b in (2.0, 10.0, 3.0, 0.5, 1.25, 100.0):
        bb = b2f(f2b(b))

        def obl(S, X, V, b=bb):
            t = X[0].log()
            if t is None:
                raise Undecided()
            L = abs(math.log(b))
            d = fin(V[0]).sub(t.scale(1 / math.log(b)).widen(1e-13))
            e = 1.3e-4 / L
            # tolerance e*(1 + |log_b x|)
            lo, hi = t.bounds()
            if lo < 0 < hi:
                return within(d, e)
            return within(d, t.scale((1 if lo >= 0 else -1) * e / L * (1 + 1e-9)).addc(e))

        def orc(xs, r, outs, b=bb):
            v = val(r)
            L = mpmath.log(b)
            e = mp(1.3e-4) / abs(L)
            t = mpmath.log(mp(b2f(xs[0]))) / L
            return v is not None and abs(v - t) <= e * (1 + abs(t)) * (1 + 1e-9)
        gs.append(AccGoal(f"log.base {b}", both("log"), d1(LOGDOM), obl, orc, deg=8, fixed={1: FCx(b)}, note=f"base {b}, every positive normal float; error <= 1.3e-4/|ln base| * (1 + |log|)"))
    run_acc(rep, gs)
    gs = []
    for fn in both("log"):
        p = fn[:2]
        x, b = FVar("x"), FVar("b")
        gs.append(Goal(fn + ".quotient", calls=[(fn, [x, b]), (p + "ln", [x]), (p + "ln", [b])], vars={"x": x, "b": b},
                       post=lambda x, b, A, B, D: same(A.r, fmul(fdiv(FCx(1.0), D.r), B.r)), note="all inputs: the product of ln x and the reciprocal of ln base"))
        gs.append(special(fn, "nan", lambda x, b: bor(isnan(x), isnan(b), neg(x), neg(b)), lambda x, b, R: isnan(R.r)))
    for fn in both("log2") + both("log10"):
        gs += logends(fn, 0)
    run_goals(rep, gs)


# ------------------------------------------------------------------ powers
def c24(rep):
    gs = []
    L2 = math.log(2)

    def goal(n, k=85.0, kx=87.3 if thorough(rep) else 2.2):
        # |n ln x| <= k and |ln x| <= kx
        m = min(k / abs(n), kx)
        lo, hi = max(math.exp(-m), MINN), min(math.exp(m), FMAX)
        tol = math.expm1(abs(n) * 1e-4) + .0026 + 85 * 2.0 ** -22

        def obl(S, X, V, n=n):
            t = X[0].log()
            e = None if t is None else t.scale(-n).exp()
            if e is None:
                raise Undecided()
            p = fin(V[0]).mul(e)
            return [p.addc(-1 - tol), p.neg().addc(1 - tol)]

        def orc(xs, r, outs, n=n):
            v = val(r)
            return v is not None and abs(v / mpmath.power(mp(b2f(xs[0])), n) - 1) <= tol
        parts = max(1, min(64, int(2 ** math.ceil(math.log2(max(1, abs(n) * 1.4 * 2))))))
        return AccGoal(f"powf.n={n}", both("powf"), d1(binades(b2f(f2b(lo)), b2f(f2b(hi)), parts=parts)), obl, orc, deg=5, fixed={1: FCx(n)},
                       note=f"exponent {n}, every x with |n ln x| <= {k} and |ln x| <= {kx}: relative error <= {tol:.4g}")
    ns = (0.5, 2.0, -1.0, 3.0)
    if thorough(rep):
        ns += (-0.5, 1.0, 1.5, -2.5, 0.25, 4.0, -3.0, 7.5, 10.0, -6.25, 0.1, 20.0, -15.5)
    gs += [goal(b2f(f2b(n))) for n in ns]

    def goalx(x, kk=85 if thorough(rep) else 6):
        lx = mpmath.log(mp(x))
        m = float(kk / abs(lx))

        def tolc(nmax):
            return math.expm1(nmax * 1e-4) + .0026 + 85 * 2.0 ** -22

        def obl(S, X, V):
            e = X[0].scale(-float(lx)).widen(1e-13).exp()
            if e is None:
                raise Undecided()
            tol = tolc(m)
            p = fin(V[0]).mul(e)
            return [p.addc(-1 - tol), p.neg().addc(1 - tol)]

        def orc(xs, r, outs):
            v = val(r)
            return v is not None and abs(v / mpmath.power(mp(x), mp(b2f(xs[1]))) - 1) <= tolc(m)
        st = float(.3 / abs(lx))
        z = 2.0 ** -10
        dom = linear(z, m, st) + linear(-m, -z, st) + [ordbox(0.0, prev(z)), ordbox(-prev(z), -0.0)]
        return AccGoal(f"powf.x={x}", both("powf"), d1(dom), obl, orc, deg=5, fixed={0: FCx(x)}, note=f"base {x}, every |n ln x| <= {kk}: relative error <= {tolc(m):.4g}")
    for x in (2.0, 10.0) + ((0.5, 3.0, 1.5, 0.1, 100.0) if thorough(rep) else ()):
        gs.append(goalx(b2f(f2b(x))))
    for z in (0, 0x80000000):
        gs.append(ranged(f"powf.n={b2f(z)}", both("powf"), bothsigns(2.0 ** -149, FMAX) + [(0, 0), (-1, -1)], 1.0, 1.0, fixed={1: FC(z)}, note="every finite x: x^0 is 1"))
    run_acc(rep, gs)
    gs = []
    for fn in both("powf"):
        x, n = FVar("x"), FVar("n")
        p = fn[:2]
        V = {"x": x, "n": n}
        gs.append(Goal(fn + ".composition", calls=[(p + "ln", [x]), (p + "exp", lambda L: [fmul(n, L.r)]), (fn, [x, n])], vars=V, walk=True,
                       pre=lambda x, n: le(FCx(0.0), x), post=lambda x, n, L, E, R: same(R.r, E.r),
                       note="every x >= 0 and n: the crate's exp of the rounded product of n and the crate's ln of x"))
        isint, odd = integer(n)
        gs.append(Goal(fn + ".negative base", calls=[(p + "ln", [fabs(x)]), (p + "exp", lambda L: [fmul(n, L.r)]), (fn, [fneg(fabs(x)), n])], vars=V, walk=True,
                       pre=lambda x, n: band(isfin(x), band(lt(FCx(0.0), fabs(x)), isfin(n))),
                       post=lambda x, n, L, B, A: ite(bnot(isint), isnan(A.r), same(A.r, ite(odd, fneg(B.r), B.r))), timeout=200,
                       note="every finite x > 0 and finite n: (-x)^n is NaN for fractional n, else +-x^n by the parity of n"))
        gs.append(special(fn, "nan base", lambda x, n: isnan(x), lambda x, n, R: isnan(R.r)))
    run_goals(rep, gs)


def integer(n):
    """(n is an integer, n is an odd integer), read off the bits of a finite float"""
    def bv(op, a, b):
        return build(op, (a, b), 32)
    b = bits(n)
    e = bv("and", bv("lshr", b, C(23, 32)), C(255, 32))
    m = bv("or", bv("and", b, C(0x7FFFFF, 32)), C(0x800000, 32))
    s = bv("sub", C(150, 32), e)
    mid = band(icmp("uge", e, C(127, 32)), icmp("ule", e, C(150, 32)))
    low = bv("and", m, bv("sub", bv("shl", C(1, 32), s), C(1, 32)))
    whole = ieq(low, C(0, 32))
    bit = ieq(bv("and", bv("lshr", m, s), C(1, 32)), C(1, 32))
    big = icmp("ugt", e, C(150, 32))
    zero = ieq(bv("and", b, C(0x7FFFFFFF, 32)), C(0, 32))
    return bor(zero, bor(big, band(mid, whole))), band(mid, band(whole, bit))


def c25(rep):
    gs = []

    def f32(x):
        return b2f(f2b(x))

    def acc(n):
        tol = 1e-6 + abs(n) * 2.4e-7
        # 2^-125 <= |x^n| <= 2^127.5
        e = sorted([-125.0 / n, 127.5 / n])
        lo, hi = max(2.0 ** max(e[0], -126), MINN), min(2.0 ** min(e[1], 127.99999), FMAX)
        parts = max(1, min(512, int(2 ** math.ceil(math.log2(max(1, abs(n) * 2))))))

        def obl(S, X, V, n=n):
            t = X[0].inv() if n > 0 else X[0]
            if t is None:
                raise Undecided()
            p = fin(V[0])
            for _ in range(abs(n)):
                p = p.mul(t)
            return [p.addc(-1 - tol), p.neg().addc(1 - tol)]

        def orc(xs, r, outs, n=n):
            v = val(r)
            return v is not None and abs(v / mpmath.mpf(b2f(xs[0])) ** n - 1) <= tol
        return AccGoal(f"powi.n={n}", both("powi"), d1(bothsigns(f32(lo), f32(hi), parts)), obl, orc, deg=5, fixed={1: C(n, 32)},
                       note=f"exponent {n}, every x with 2^-125 <= |x^n| <= 2^127.5: relative error <= {tol:.3g}")

    def ends(n):
        big, small = 2.0 ** (128.01 / n), 2.0 ** (-150.1 / n)
        odd = n % 2
        for sg in (1, -1):
            s = sg if odd else 1
            kw = dict(fixed={1: C(n, 32)})
            if n > 0:
                B = binades(f32(big), FMAX, sg) if big < FMAX else []
                L = binades(2.0 ** -149, f32(small), sg) if small >= 2.0 ** -149 else []
            else:
                B = binades(2.0 ** -149, f32(big), sg)
                L = binades(f32(small), FMAX, sg) if small < FMAX else []
            if B:
                gs.append(ranged(f"powi.n={n} overflow {'+-'[sg < 0]}", both("powi"), B, s * math.inf, s * math.inf, note="|x^n| >= 2^128.01: infinity with the sign of x^n", **kw))
            if L:
                gs.append(ranged(f"powi.n={n} underflow {'+-'[sg < 0]}", both("powi"), L, -2.0 ** -149 if s < 0 else 0.0, 0.0 if s < 0 else 2.0 ** -149, note="|x^n| <= 2^-150.1: zero or the least subnormal", **kw))
    ns = list(range(1, 10)) + [-1, -2, -3, -4, -5, -7, 12, 15, 16, -8, -12, 31]
    if thorough(rep):
        ns = [n for n in range(-40, 41) if n] + [48, 63, 64, -63, -64, 100, 127, 128]
    for n in ns:
        gs.append(acc(n))
        ends(n)
    run_acc(rep, gs)
    gs = []
    for fn in both("powi"):
        x, n = FVar("x"), IVar("n", 32)
        V = {"x": x, "n": n}
        odd = ieq(build("and", (n, C(1, 32)), 32), C(1, 32))
        npos = icmp("sgt", n, C(0, 32))
        nneg = icmp("slt", n, C(0, 32))
        gs.append(Goal(fn + ".zero exponent", calls=[(fn, [x, C(0, 32)])], vars={"x": x}, post=lambda x, R: feq(R.r, FCx(1.0)), note="every x, NaN included: x^0 = 1"))
        for nm, bits, post in (
                ("+0", 0, lambda n, R: ite(nneg, isinf(R.r), feq(R.r, FCx(0.0)))),
                ("-0", 0x80000000, lambda n, R: ite(nneg, isinf(R.r), feq(R.r, FCx(0.0)))),
                ("1", f2b(1.0), lambda n, R: feq(R.r, FCx(1.0))),
                ("-1", f2b(-1.0), lambda n, R: feq(R.r, ite(odd, FCx(-1.0), FCx(1.0)))),
                ("NaN", 0x7FC00000, lambda n, R: isnan(R.r))):
            gs.append(Goal(f"{fn}.base {nm}", calls=[(fn, [FC(bits), n])], vars={"n": n}, pre=lambda n: bnot(ieq(n, C(0, 32))), post=post, walk=True, timeout=200, note=f"base {nm} to every nonzero i32 power"))
        ks = list(range(-8, 0)) + list(range(1, 10)) + [127, -127, 150, 1 << 30, (1 << 31) - 1, -(1 << 31), 1 - (1 << 31)]
        if thorough(rep):
            ks = list(range(-64, 0)) + list(range(1, 65)) + ks[17:]
        for k in ks:
            m = C(k & 0xFFFFFFFF, 32)
            gs.append(Goal(f"{fn}.sign n={k}", calls=[(fn, [fabs(x), m]), (fn, [fneg(fabs(x)), m])], vars={"x": x}, pre=lambda x: band(bnot(isnan(x)), lt(FCx(0.0), fabs(x))),
                           post=lambda x, A, B, k=k: bor(band(isnan(A.r), isnan(B.r)), feq(B.r, fneg(A.r) if k % 2 else A.r)), walk=True, uf=True, timeout=200, note="every nonzero x: (-x)^n = +-x^n by the parity of n"))
    run_goals(rep, gs)


def c26(rep):
    def goal(nm, lo, hi, tol):
        def ref(x):
            a, b = x.exp(), x.neg().exp()
            return None if a is None or b is None else a.add(b).scale(.5)
        return absacc("cosh." + nm, "f_cosh", linear(lo, hi, .05) if lo > 0 else linear(2.0 ** -12, hi, .05) + [ordbox(0.0, prev(2.0 ** -12))], ref, mpmath.cosh, tol, deg=8,
                      note=f"[{lo}, {hi}]: error <= {tol}")
    def rel():
        def obl(S, X, V):
            a, b = X[0].exp(), X[0].neg().exp()
            i = None if a is None or b is None else a.add(b).scale(.5).inv()
            if i is None:
                raise Undecided()
            p = fin(V[0]).mul(i)
            return [p.addc(-1.003), p.neg().addc(.997)]

        def orc(xs, r, outs):
            v = val(r)
            return v is not None and abs(v / mpmath.cosh(mp(b2f(xs[0]))) - 1) <= .003
        return AccGoal("cosh.large", "f_cosh", d1(linear(6.2831855, 88.7, .3)), obl, orc, deg=4, note="[2 pi, 88.7]: relative error <= 0.3%")
    run_acc(rep, [goal("0..pi", 0.0, 3.1415927, .003), goal("pi..tau", 3.1415927, 6.2831855, .1), rel(),
                  ranged("cosh.overflow", "f_cosh", binades(89.5, FMAX), math.inf, math.inf, note="x >= 89.5: infinity")])
    gs = []
    x = FVar("x")
    gs.append(Goal("f_cosh.even", calls=[("f_cosh", [x]), ("f_cosh", [fneg(x)])], vars={"x": x}, post=lambda x, A, B: same(A.r, B.r), timeout=200, note="all inputs: even"))
    gs.append(special("f_cosh", "ends", lambda x: bor(bnot(isfin(x)), feq(x, FCx(0.0))), lambda x, R: band(
        implies(isnan(x), isnan(R.r)), implies(isinf(x), feq(R.r, FC(0x7F800000))), implies(feq(x, FCx(0.0)), feq(R.r, FCx(1.0))))))
    run_goals(rep, gs)
