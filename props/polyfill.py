"""C01-C08: exact polyfills (bit-precise, every one of the 2^32 inputs per argument)"""
from spec import *


def both(name):
    return ["f_" + name, "e_" + name]


def rti(op, x):
    return build(op, (x,), "f")


ALL = "all 2^32 bit patterns of every float argument"


def c01(rep):
    run_goals(rep, [Goal(fn, fn, note=ALL, post=lambda x, R: ite(isnan(x), isnan(R.r), band(
        feq(R.r, rti("ftrunc", x)), iff(signbit(R.r), signbit(x))))) for fn in both("trunc")])


def c02(rep):
    def post(x, R):
        return ite(isnan(x), isnan(R.r), implies(isfin(x), band(
            feq(R.r, fsub(x, rti("ftrunc", x))), iff(signbit(R.r), signbit(x)), lt(fabs(R.r), FCx(1.0)))))
    run_goals(rep, [Goal(fn, fn, note=ALL, post=post, timeout=120) for fn in both("fract")])


def c03(rep):
    gs = []
    for nm, op in (("floor", "ffloor"), ("ceil", "fceil")):
        gs += [Goal(fn, fn, note=ALL, post=lambda x, R, op=op: ite(isnan(x), isnan(R.r), feq(R.r, rti(op, x))), timeout=120) for fn in both(nm)]
    run_goals(rep, gs)


def c04(rep):
    run_goals(rep, [Goal(fn, fn, note=ALL, timeout=200, post=lambda x, R: ite(isnan(x), isnan(R.r), feq(R.r, rti("fround", x)))) for fn in both("round")])


M31 = C(0x7FFFFFFF, 32)
SGN = C(0x80000000, 32)


def c05(rep):
    def i_and(a, b):
        return build("and", (a, b), 32)

    def i_or(a, b):
        return build("or", (a, b), 32)
    gs = []
    for fn in both("abs"):
        gs.append(Goal(fn, fn, note=ALL, post=lambda x, R: ite(isnan(x), isnan(R.r), ieq(bits(R.r), i_and(bits(x), M31)))))
    for fn in both("copysign"):
        gs.append(Goal(fn, fn, note=ALL, post=lambda x, y, R: band(
            iff(isnan(x), isnan(R.r)), implies(bnot(isnan(x)), ieq(bits(R.r), i_or(i_and(bits(x), M31), i_and(bits(y), SGN)))))))
    for fn in both("signum"):
        gs.append(Goal(fn, fn, note=ALL, post=lambda x, R: ite(isnan(x), isnan(R.r), ieq(bits(R.r), i_or(i_and(bits(x), SGN), C(0x3F800000, 32))))))
    run_goals(rep, gs)


def intvars(*names, w=32):
    return {n: IVar(n, w) for n in names}


def irange(v, k):
    w = v.ty
    return band(icmp("sge", v, C(-k, w)), icmp("sle", v, C(k, w)))


def tof(v):
    return build("sitofp", (v,), "f")


def c06(rep):
    gs = []
    K = 4095 if rep.tier == "thorough" else 511
    for fn in both("div_euclid"):
        # integers: the exact Euclidean quotient
        V = intvars("a", "b", w=16)

        def post(a, b, R):
            q, r = build("sdiv", (a, b), 16), build("srem", (a, b), 16)
            neg = icmp("slt", r, C(0, 16))
            adj = ite(icmp("sgt", b, C(0, 16)), build("sub", (q, C(1, 16)), 16), build("add", (q, C(1, 16)), 16))
            return feq(R.r, tof(ite(neg, adj, q)))
        gs.append(Goal(fn + ".ints", calls=[(fn, [tof(V["a"]), tof(V["b"])])], vars=V,
                       pre=lambda a, b: band(irange(a, K), irange(b, K), icmp("ne", b, C(0, 16))), post=post, timeout=400,
                       note=f"integer operands of magnitude <= {K}, divisor not 0: exact quotient"))
        # anything: an integer, an infinity or NaN; NaN operands give NaN
        gs.append(Goal(fn + ".integral", fn, note=ALL + ": the result is integral, infinite or NaN; fmod by its contract",
                       post=lambda x, y, R: band(implies(bor(isnan(x), isnan(y)), isnan(R.r)),
                                                 bor(isnan(R.r), feq(R.r, rti("ftrunc", R.r)))), timeout=300))
        # the truncated quotient, corrected by one when the IEEE remainder is negative
        V = {nm: mkvar(nm, ty) for nm, ty in argtypes(fn)}
        a = list(V.values())

        def defn(x, y, A, R):
            q, r = A.r, build("frem", (x, y), "f")
            down, up = fsub(q, FCx(1.0)), fadd(q, FCx(1.0))
            return ite(isnan(r), bor(same(R.r, q), same(R.r, down), same(R.r, up)), ite(lt(r, FCx(0.0)), ite(lt(FCx(0.0), y), same(R.r, down), same(R.r, up)), same(R.r, q)))
        gs.append(Goal(fn + ".definition", calls=[("f_trunc", [fdiv(*a)]), (fn, a)], vars=V, post=defn, uf=True, timeout=200,
                       note=ALL + ": the crate's truncation of x / y, less one (y > 0) or plus one (y < 0) exactly when the IEEE remainder is negative"))
    run_goals(rep, gs)


def c07(rep):
    gs = []
    for fn in both("rem_euclid"):
        def rng(x, y, R):
            nan = bor(isnan(x), isnan(y), isinf(x), feq(y, FCx(0.0)))
            return ite(nan, isnan(R.r), band(le(FCx(0.0), R.r), le(R.r, fabs(y))))
        gs.append(Goal(fn + ".range", fn, post=rng, timeout=200, note=ALL + "; fmod by its contract (sign, |r| < |y|, |r| <= |x|)"))

        def val(x, y, R):
            r = build("frem", (x, y), "f")
            return same(fabs(R.r), fabs(ite(le(FCx(0.0), r), r, fadd(r, fabs(y)))))
        gs.append(Goal(fn + ".value", fn, post=val, timeout=200, note=ALL + ": IEEE remainder r if r >= 0, else r + |y| rounded once"))
        V = intvars("a", "b", w=16)
        K = 4095 if rep.tier == "thorough" else 511

        def post(a, b, R):
            r = build("srem", (a, b), 16)
            ab = ite(icmp("slt", b, C(0, 16)), build("sub", (C(0, 16), b), 16), b)
            return feq(R.r, tof(ite(icmp("slt", r, C(0, 16)), build("add", (r, ab), 16), r)))
        gs.append(Goal(fn + ".ints", calls=[(fn, [tof(V["a"]), tof(V["b"])])], vars=V,
                       pre=lambda a, b: band(irange(a, K), irange(b, K), icmp("ne", b, C(0, 16))), post=post, timeout=400,
                       note=f"integer operands of magnitude <= {K}: exact Euclidean remainder"))
    run_goals(rep, gs)


def c08(rep):
    run_goals(rep, [Goal(fn, fn, note=ALL, timeout=300, post=lambda x, y, z, R: same(R.r, fadd(fmul(x, y), z))) for fn in both("mul_add")])
