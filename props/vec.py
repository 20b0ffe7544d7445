"""C32-C35: vectors"""
from spec import *
import itertools

INTS = ["i8", "i16", "i32", "u8", "u16", "u32"]
FLT = ["f32", "F32"]
ALLF = "all 2^32 bit patterns of every component"


def bw(op, a, b):
    return build(op, (a, b), a.ty)


def ext(x, s, w):
    return build("sext" if s else "zext", (x,), w)


def band_(ts):
    ts = list(ts)
    r = ts[0]
    for t in ts[1:]:
        r = band(r, t)
    return r


def fits(e, s, w):
    """the wide value e (2w + 3 bits) lies in the range of a w-bit integer"""
    W = e.ty
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return band(icmp("sge", e, C(lo & ((1 << W) - 1), W)), icmp("sle", e, C(hi, W)))


def split(a, d, k=2):
    return [a[i * d:(i + 1) * d] for i in range(k)]


def pairs_int(p, d, t, rep):
    s, w = t[0] == "i", int(t[1:])
    W = 2 * w + 3
    gs = []

    def wide(op, a, b):
        return build(op, (ext(a, s, W), ext(b, s, W)), W)

    def mulok(a, b):
        """the product fits (double width product against the single width one)"""
        m = build("mul", (a, b), w)
        return bnot(icmp("ne", build("mul", (ext(a, s, 2 * w), ext(b, s, 2 * w)), 2 * w), ext(m, s, 2 * w)))

    def addok(a, b, op="add"):
        return bnot(icmp("ne", build(op, (ext(a, s, w + 1), ext(b, s, w + 1)), w + 1), ext(bw(op, a, b), s, w + 1)))

    def nofl(op):
        return lambda *v: band_(fits(wide(op, x, y), s, w) for x, y in zip(v[:d], v[d:2 * d]))

    for nm, op in (("add", "add"), ("adda", "add"), ("sub", "sub"), ("suba", "sub")):
        gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", pre=nofl(op), note="all components without overflow",
                       post=lambda *v, op=op: band_(ieq(r, bw(op, x, y)) for r, x, y in zip(v[-1].o[0], v[:d], v[d:]))))
    for nm in ("muls", "smul", "mulsa"):
        gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", pre=lambda *v: band_(mulok(x, v[d]) for x in v[:d]), note="all components and scalars without overflow", timeout=200,
                       post=lambda *v: band_(ieq(r, bw("mul", x, v[d])) for r, x in zip(v[-1].o[0], v[:d]))))
    for nm in ("divs", "divsa"):
        def bad(*v):
            k = v[d]
            z = ieq(k, C(0, w))
            if s:
                for x in v[:d]:
                    z = bor(z, band(ieq(x, C(1 << (w - 1), w)), ieq(k, C((1 << w) - 1, w))))
            return z
        gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", panic=bad, note="all components and scalars; panics exactly for a zero scalar and minimum / -1",
                       post=lambda *v: band_(ieq(r, bw("sdiv" if s else "udiv", x, v[d])) for r, x in zip(v[-1].o[0], v[:d]))))
    # products: no intermediate sum or product overflows in any order

    def prods(v):
        return [bw("mul", x, y) for x, y in zip(v[:d], v[d:2 * d])]

    def dotpre(v):
        ps = prods(v)
        t = [mulok(x, y) for x, y in zip(v[:d], v[d:2 * d])]
        for c in itertools.permutations(ps):
            r = c[0]
            for x in c[1:]:
                t.append(addok(r, x))
                r = bw("add", r, x)
        return band_(t)

    def dotval(v):
        r = None
        for x, y in zip(v[:d], v[d:2 * d]):
            m = bw("mul", x, y)
            r = m if r is None else bw("add", r, m)
        return r
    for nm in ("dot", "tdot"):
        gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", pre=lambda *v: dotpre(v), post=lambda *v: ieq(v[-1].r, dotval(v)), timeout=300, note="all components without overflow"))
    gs.append(Goal(f"{p}_magsq", f"{p}_magsq", pre=lambda *v: dotpre(list(v) + list(v)), post=lambda *v: ieq(v[-1].r, dotval(list(v[:d]) * 2)), timeout=300, note="all components without overflow"))

    def crossparts(v):
        a, b = list(v[:d]), list(v[d:2 * d])
        if d == 2:
            z = C(0, w)
            a, b = a + [z], b + [z]
        return [((a[1], b[2]), (a[2], b[1])), ((a[2], b[0]), (a[0], b[2])), ((a[0], b[1]), (a[1], b[0]))]

    def crosspre(v, parts=None):
        t = []
        for (x, y), (u, q) in parts or crossparts(v):
            t += [mulok(x, y), mulok(u, q), addok(bw("mul", x, y), bw("mul", u, q), "sub")]
        return band_(t)

    def crossval(ps):
        return [bw("sub", bw("mul", *m), bw("mul", *n)) for m, n in ps]
    for nm in ("cross", "mulv"):
        gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", pre=lambda *v: crosspre(v), timeout=300, note="all components without overflow",
                       post=lambda *v: band_(ieq(r, x) for r, x in zip(v[-1].o[0], crossval(crossparts(v))))))
    if d == 2:
        gs.append(Goal(f"{p}_perp", f"{p}_perp", pre=lambda *v: crosspre(v, crossparts(v)[2:]), timeout=300, note="all components without overflow",
                       post=lambda *v: ieq(v[-1].r, crossval(crossparts(v)[2:])[0])))
    for nm in ("sum3", "sumr3"):
        def ok(*v):
            t = []
            for i in range(d):
                r = ext(v[i], s, W)
                for k in (1, 2):
                    r = build("add", (r, ext(v[k * d + i], s, W)), W)
                    t.append(fits(r, s, w))
            return band_(t)
        gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", pre=ok, note="three vectors without overflow",
                       post=lambda *v: band_(ieq(v[-1].o[0][i], bw("add", bw("add", v[i], v[d + i]), v[2 * d + i])) for i in range(d))))
    gs.append(Goal(f"{p}_eq", f"{p}_eq", post=lambda *v: ieq(v[-1].r, build("zext", (band_(ieq(x, y) for x, y in zip(v[:d], v[d:])),), 8)), note="all components"))
    return gs


def c32(rep):
    gs = []
    for t in INTS:
        for d in (2, 3):
            gs += pairs_int(f"v{d}_{t}", d, t, rep)
    run_goals(rep, gs)


def sums(ts):
    """every way to add up the terms (in any order and grouping)"""
    if len(ts) == 1:
        return [ts[0]]
    out = []
    rest = ts[1:]
    for k in range(0, len(rest)):
        for c in itertools.combinations(range(len(rest)), k):
            A = [ts[0]] + [rest[i] for i in c]
            B = [rest[i] for i in range(len(rest)) if i not in c]
            out += [fadd(x, y) for x in sums(A) for y in sums(B)]
    return out


def anysum(r, ts):
    c = FALSE
    for e in sums(ts):
        c = bor(c, same(r, e))
    return c


def c33(rep):
    gs = []
    for t in FLT:
        for d in (2, 3):
            p = f"v{d}_{t}"
            kw = dict(uf=True, timeout=200, note=ALLF)
            for nm, op in (("add", "fadd"), ("adda", "fadd"), ("sub", "fsub"), ("suba", "fsub")):
                gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=lambda *v, op=op: band_(same(r, build(op, (x, y), "f")) for r, x, y in zip(v[-1].o[0], v[:d], v[d:])), **kw))
            for nm in ("muls", "smul", "mulsa", "divs", "divsa"):
                op = "fdiv" if nm[0] == "d" else "fmul"
                gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=lambda *v, op=op: band_(same(r, build(op, (x, v[d]), "f")) for r, x in zip(v[-1].o[0], v[:d])), **kw))

            def parts(v):
                a, b = list(v[:d]), list(v[d:2 * d])
                if d == 2:
                    a, b = a + [FCx(0.0)], b + [FCx(0.0)]
                return [((a[1], b[2]), (a[2], b[1])), ((a[2], b[0]), (a[0], b[2])), ((a[0], b[1]), (a[1], b[0]))]
            for nm in ("dot", "tdot"):
                gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=lambda *v: anysum(v[-1].r, [fmul(x, y) for x, y in zip(v[:d], v[d:2 * d])]), **kw))
            # +0 + x*x is x*x, which is not -0
            gs.append(Goal(f"{p}_magsq", f"{p}_magsq", post=lambda *v: bor(anysum(v[-1].r, [fmul(x, x) for x in v[:d]]), anysum(v[-1].r, [FCx(0.0)] + [fmul(x, x) for x in v[:d]])), **kw))

            def fin(v):
                return band_(isfin(x) for x in v)
            # vectors of the plane have z = 0: x and y are zero for finite components
            for nm in ("cross", "mulv"):
                if d == 3:
                    gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=lambda *v: band_(same(r, fsub(fmul(*m), fmul(*n))) for r, (m, n) in zip(v[-1].o[0], parts(v))), **kw))
                else:
                    gs.append(Goal(f"{p}_{nm}.z", f"{p}_{nm}", post=lambda *v: (lambda m, n: same(v[-1].o[0][2], fsub(fmul(*m), fmul(*n))))(*parts(v)[2]), **kw))
                    gs.append(Goal(f"{p}_{nm}.xy", f"{p}_{nm}", pre=lambda *v: fin(v), post=lambda *v: band(feq(v[-1].o[0][0], FCx(0.0)), feq(v[-1].o[0][1], FCx(0.0))), timeout=200, note="all finite components"))
            if d == 2:
                gs.append(Goal(f"{p}_perp", f"{p}_perp", post=lambda *v: (lambda m, n: same(v[-1].r, fsub(fmul(*m), fmul(*n))))(*parts(v)[2]), **kw))
            for nm in ("sum3", "sumr3"):
                def sumpost(*v):
                    c = []
                    for i in range(d):
                        a, b, e = v[i], v[d + i], v[2 * d + i]
                        r = v[-1].o[0][i]
                        c.append(bor(same(r, fadd(fadd(fadd(FCx(0.0), a), b), e)), same(r, fadd(fadd(a, b), e))))
                    return band_(c)
                gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=sumpost, **kw))
            gs.append(Goal(f"{p}_eq", f"{p}_eq", post=lambda *v: ieq(v[-1].r, build("zext", (band_(feq(x, y) for x, y in zip(v[:d], v[d:])),), 8)), note=ALLF))
    run_goals(rep, gs)


def eqv(t):
    return same if t in FLT else ieq


def zero(t):
    return FCx(0.0) if t in FLT else C(0, int(t[1:]))


def c34(rep):
    gs = []
    for t in INTS + FLT:
        eq = eqv(t)
        for d in (2, 3):
            p = f"v{d}_{t}"

            def sel(v, i, d=d):
                r = v[d - 1]
                for k in reversed(range(d - 1)):
                    r = ite(ieq(i, C(k, i.ty)), v[k], r)
                return r
            gs.append(Goal(p + "_index", p + "_index", panic=lambda *v, d=d: icmp("uge", v[d], C(d, v[d].ty)), post=lambda *v, eq=eq, sel=sel, d=d: eq(v[-1].r, sel(v, v[d])), note="every component and 64-bit index"))
            gs.append(Goal(p + "_get", p + "_get", note="every component and 64-bit index",
                           post=lambda *v, eq=eq, sel=sel, d=d: ite(icmp("ult", v[d], C(d, v[d].ty)), band(ieq(v[-1].r, C(1, 8)), eq(getout(v), sel(v, v[d]))), ieq(v[-1].r, C(0, 8)))))
            for nm in ("tuple", "totuple", "fields", "toarr"):
                gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=lambda *v, eq=eq: band_(eq(x, y) for x, y in zip(v[-1].o[0], v))))
            gs.append(Goal(p + "_iter", p + "_iter", post=lambda *v, eq=eq, d=d: band(ieq(v[-1].r, C(d, v[-1].r.ty)), band_(eq(x, y) for x, y in zip(v[-1].o[0], v[:d]))), note="every component; as many items as axes, in order"))
            gs.append(Goal(p + "_iterfused", p + "_iterfused", post=lambda *v: ieq(v[-1].r, C(1, 8)), note="stays exhausted"))
            for nm in ("default", "sum0"):
                gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", post=lambda *v, t=t: band_((feq if t in FLT else ieq)(x, zero(t)) for x in v[-1].o[0])))
            if t != "F32":
                for nm in ("fromslice", "fromiter"):
                    gs.append(Goal(f"{p}_{nm}", f"{p}_{nm}", panic=lambda *v, d=d: icmp("ne", v[d + 3], C(d, v[d + 3].ty)), note=f"every slice of 0 to {d + 3} elements: panics unless it has {d}",
                                   post=lambda *v, eq=eq, d=d: band_(eq(x, y) for x, y in zip(v[-1].o[0], v[:d]))))
            if d == 2:
                gs.append(Goal(f"v3_{t}_from2", f"v3_{t}_from2", post=lambda *v, eq=eq, t=t: band(band_(eq(x, y) for x, y in zip(v[-1].o[0], v[:2])), eq(v[-1].o[0][2], zero(t)))))
            f = f"{p}_tof32"
            if f in B.signatures():
                def conv(*v, t=t):
                    c = [same(r, x if t == "F32" else build("sitofp" if t[0] == "i" else "uitofp", (x,), "f")) for r, x in zip(v[-1].o[0], v)]
                    return band_(c)
                gs.append(Goal(f, f, post=conv))
    run_goals(rep, gs)


def getout(v):
    o = v[-1].o[0]
    return o[0] if isinstance(o, list) else o


# ------------------------------------------------------------------ lengths
def tof(x, t):
    if t in FLT:
        return x
    return build("sitofp" if t[0] == "i" else "uitofp", (x,), "f")


def bor_(ts):
    r = FALSE
    for t in ts:
        r = bor(r, t)
    return r


def perms(ts):
    """sums of the terms, from +0, -0 or the first term, in any order"""
    out = []
    for e in sums(ts):
        out.append(e)
    r = FCx(0.0)
    for x in ts:
        r = fadd(r, x)
    return out + [r]


def c35(rep):
    """magnitude and distance are the crate's square root of the sum of squares; normalisation
    divides by the magnitude"""
    gs = []
    for t in ["i8", "u8", "i16", "u16"] + FLT:
        for d in (2, 3):
            p = f"v{d}_{t}"
            V = {nm: mkvar(nm, ty) for nm, ty in argtypes(p + "_mag")}
            a = list(V.values())
            sq = lambda xs: [fmul(x, x) for x in xs]
            alts = perms(sq([tof(x, t) for x in a]))
            gs.append(alt(p + "_mag", p + "_mag", V, a, alts, note="all components: square root of the sum of squares"))
            V = {nm: mkvar(nm, ty) for nm, ty in argtypes(p + "_dist")}
            a = list(V.values())
            df = [fsub(tof(x, t), tof(y, t)) for x, y in zip(a[:d], a[d:])]
            gs.append(alt(p + "_dist", p + "_dist", V, a, perms(sq(df)), note="all components: magnitude of the difference"))
            if t in FLT:
                V = {nm: mkvar(nm, ty) for nm, ty in argtypes(p + "_norm")}
                a = list(V.values())
                gs.append(Goal(p + "_norm", calls=[(p + "_norm", a), (p + "_mag", a)], vars=V, uf=True, timeout=200, note="all components: each divided by the magnitude",
                               post=lambda *v, d=d: band_(same(r, fdiv(x, v[-1].r)) for r, x in zip(v[-2].o[0], v[:d]))))
    run_goals(rep, gs)


def alt(name, fn, V, a, alts, note):
    """the result is the crate's square root of one of the sums"""
    nv = len(a)
    return Goal(name, calls=[(fn, a)] + [("e_sqrt", [e]) for e in alts], vars=V, uf=True, timeout=200, note=note,
                post=lambda *v: bor_(same(v[nv].r, x.r) for x in v[nv + 1:]))
