"""C27-C31: panic freedom, the extension trait, operators, comparisons, conversions"""
from spec import *

UN = "abs asin atan ceil cos exp floor fract inv invsqrt ln log10 log2 recip round signum sin sqrt tan trunc atan_norm".split()
BI = "atan2 copysign div_euclid hypot log powf rem_euclid".split()
ALL = "all 2^32 bit patterns of every float argument"


def allfns():
    fns = []
    for f in UN:
        fns += ["f_" + f, "e_" + f]
    for f in BI + ["powi", "mul_add", "sin_cos"]:
        fns += ["f_" + f, "e_" + f]
    return fns + ["f_cosh", "e_acos", "e_atan2_norm", "nt_inv"]


def c27(rep):
    run_goals(rep, [Goal(fn + ".returns", fn, uf=True, timeout=200, note=ALL + ": returns, in the checked and the release profile") for fn in allfns()])


def outsame(A, B):
    ts = [same(A.r, B.r)] if A.r is not None else []
    for a, b in zip(A.o, B.o):
        ts += [same(x, y) for x, y in zip(a, b)]
    return band(*ts) if len(ts) > 1 else ts[0]


def c28(rep):
    gs = []
    for f in UN + BI + ["powi", "mul_add", "sin_cos"]:
        V = {nm: mkvar(nm, ty) for nm, ty in argtypes("f_" + f)}
        a = list(V.values())
        gs.append(Goal(f + ".agrees", calls=[("f_" + f, a), ("e_" + f, a)], vars=V, post=lambda *r: outsame(r[-2], r[-1]), uf=True, timeout=300,
                       walk=True, note="all inputs: trait method and inherent method give the same bits (or NaN)"))
    run_goals(rep, gs)


def c29(rep):
    gs = []
    for op in ("add", "sub", "mul", "div", "rem"):
        def post(x, y, R, op=op):
            return same(R.r, build("f" + op, (x, y), "f"))
        for k in ("ff", "fp", "pf", "aff", "afp", "apf"):
            if (op, k) != ("rem", "apf"):
                gs.append(Goal(f"op_{op}_{k}", f"op_{op}_{k}", post=post, uf=True, note=ALL))
    gs.append(Goal("op_neg_f", "op_neg_f", post=lambda x, R: ite(isnan(x), isnan(R.r), ieq(bits(R.r), build("xor", (bits(x), C(0x80000000, 32)), 32))), note=ALL))
    for op, cs, b in (("sum", (0.0, -0.0), "fadd"), ("prod", (1.0, 1.0), "fmul")):
        for n in range(0, 5):
            def post(*a, cs=cs, b=b, n=n):
                alt = []
                for c in cs:  # the standard library's sum starts from -0.0, older versions from 0.0
                    r = FCx(c)
                    for x in a[:n]:
                        r = build(b, (r, x), "f")
                    alt.append(same(a[-1].r, r))
                return bor(*alt)
            gs.append(Goal(f"{op}_f{n}", f"{op}_f{n}", post=post, uf=True, note=f"{n} elements, all bit patterns: left to right from the neutral element"))
    run_goals(rep, gs)


def u8(c):
    return build("zext", (c,), 8)


def c30(rep):
    gs = []
    P = {"eq": "oeq", "ne": "une", "lt": "olt", "le": "ole", "gt": "ogt", "ge": "oge"}
    for k in ("ff", "fp", "pf"):
        for op, p in P.items():
            gs.append(Goal(f"cmp_{op}_{k}", f"cmp_{op}_{k}", post=lambda x, y, R, p=p: ieq(R.r, u8(fcmp(p, x, y))), note=ALL))
        gs.append(Goal(f"cmp_ord_{k}", f"cmp_ord_{k}", note=ALL, post=lambda x, y, R: ieq(R.r, ite(fcmp("uno", x, y), C(3, 8), ite(lt(x, y), C(0, 8), ite(lt(y, x), C(2, 8), C(1, 8)))))))
    run_goals(rep, gs)


def c31(rep):
    gs = [Goal("from f32 and back", "cv_f32", post=lambda x, R: same(R.r, x), note=ALL),
          Goal("to_bits", "cv_to_bits", post=lambda x, R: ieq(R.r, bits(x)), note=ALL),
          Goal("from_bits", "cv_from_bits", post=lambda b, R: same(R.r, frombits(b)), note=ALL),
          Goal("default", "cv_default", post=lambda R: ieq(bits(R.r), C(0, 32))),
          Goal("zero", "nt_zero", post=lambda R: ieq(bits(R.r), C(0, 32))),
          Goal("one", "nt_one", post=lambda R: ieq(bits(R.r), C(0x3F800000, 32))),
          Goal("is_zero", "nt_is_zero", post=lambda x, R: ieq(R.r, u8(feq(x, FCx(0.0)))), note=ALL),
          Goal("is_one", "nt_is_one", post=lambda x, R: ieq(R.r, u8(feq(x, FCx(1.0)))), note=ALL),
          Goal("classification", "cls_f", note=ALL, post=lambda x, R: ieq(R.r, cls(x))),
          Goal("float constants", "consts_f", post=lambda R: band(
              *[ieq(bits(R.o[0][i]), C(v, 32)) for i, v in enumerate((0, 0x3F800000, 0x34000000, 0xFF7FFFFF, 0x00800000, 0x7F7FFFFF)) ],
              isnan(R.o[0][6]), ieq(bits(R.o[0][7]), C(0x7F800000, 32)), ieq(bits(R.o[0][8]), C(0xFF800000, 32)))),
          Goal("integer constants", "consts_i", post=lambda R: band(*[ieq(R.o[0][i], C(v & 0xFFFFFFFF, 32)) for i, v in enumerate((2, 24, 6, -125, 128, -37, 38))])),
          Goal("reciprocal trait", calls=[("nt_inv", [X := FVar("x")]), ("f_inv", [X])], vars={"x": X}, post=lambda x, A, B: same(A.r, B.r), uf=True, note=ALL)]
    for ty in ("i8", "u8", "i16", "u16"):
        gs.append(Goal("from " + ty, "cv_" + ty, post=lambda x, R, ty=ty: feq(R.r, build("sitofp" if ty[0] == "i" else "uitofp", (x,), "f")), note="all values"))
    run_goals(rep, gs)


def cls(x):
    neg = signbit(x)
    parts = [isnan(x), isinf(x), isfin(x), bnot(neg), neg]
    r = C(0, 8)
    for i, p in enumerate(parts):
        r = build("or", (r, build("shl", (u8(p), C(i, 8)), 8)), 8)
    return r
