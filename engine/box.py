"""Box semantics of the expression DAG: every value over a box of inputs is described by
an interval of representable floats (or a range of integers) and, where possible, by a
Taylor model in the box variables that includes all IEEE rounding errors.

Where an operation is not smooth on the box (a comparison, a conversion to integer, a
change of sign or of binade under a bit cast) the evaluator forks: it raises NeedChoice
with the exhaustive list of alternatives and the driver explores each of them."""
import math
import numpy as np
from dag import *
from tm import TM, Space

np.seterr(all="ignore")
INF = math.inf
FMAX = 3.4028234663852886e38


def r32(x):
    """nearest binary32 of a double, as a double"""
    return float(np.float32(x))


def o2b(o):
    """ordinal -> bits; ordinals order the floats, -0 just below +0"""
    return o if o >= 0 else (0x80000000 | (-o - 1))


def b2o(b):
    return b if b < 0x80000000 else -(b & 0x7FFFFFFF) - 1


def f2o(x):
    return b2o(f2b(x))


def o2f(o):
    return b2f(o2b(o))


def up32(x):
    """smallest float >= x (as double)"""
    if x > FMAX:
        return INF
    if x < -FMAX:
        return -FMAX if x > -INF else -INF
    y = r32(x)
    return y if y >= x else float(np.nextafter(np.float32(y), np.float32(np.inf)))


def dn32(x):
    return -up32(-x)


def half_ulp(m):
    """half an ulp of binary32 for results of magnitude <= m (finite)"""
    if m < 2.0 ** -126:
        return 2.0 ** -150
    return 2.0 ** (math.frexp(m)[1] - 1 - 24)


class NeedChoice(Exception):
    def __init__(self, node, opts):
        self.node, self.opts = node, opts


class Undecided(Exception):
    """no finite set of alternatives is known: the box has to be split"""


class FV:
    """float value: {real in [lo,hi]} (if num) plus possibly NaN.  lo/hi are floats held as
    doubles; signed zeros are significant (-0.0 < +0.0)."""
    __slots__ = ("lo", "hi", "nan", "tm")

    def __init__(self, lo, hi, nan=False, tm=None):
        self.lo, self.hi, self.nan, self.tm = lo, hi, nan, tm

    @property
    def num(self):
        return self.lo is not None

    @property
    def single(self):
        return self.lo is not None and not self.nan and f2b(self.lo) == f2b(self.hi)

    def __repr__(self):
        return f"FV[{self.lo},{self.hi}{',nan' if self.nan else ''}{',tm r=%g' % self.tm.r if self.tm else ''}]"


class IV:
    """integer value of width n: congruent mod 2^n to some v in [lo,hi]; tm models that v"""
    __slots__ = ("n", "lo", "hi", "tm", "tz", "src")

    def __init__(self, n, lo, hi, tm=None, tz=0):
        self.n, self.lo, self.hi, self.tm, self.tz = n, lo, hi, tm, tz
        self.src = None  # the float (of one sign) whose bit pattern this is
        if lo == hi:
            self.tm = None
            self.tz = 200 if lo == 0 else (lo & -lo).bit_length() - 1

    @property
    def single(self):
        return self.lo == self.hi

    def __repr__(self):
        return f"IV{self.n}[{self.lo},{self.hi}{',tm' if self.tm else ''}]"


def floor_lo(a):
    return a


class Box:
    """evaluation of DAG nodes over one box.  roots: {var name: FV or IV}"""

    def __init__(self, S, roots, choices, maxforks=8, coarse=False):
        self.S, self.roots, self.ch, self.maxforks = S, roots, choices, maxforks
        self.coarse = coarse  # operations that would fork or give up yield a plain range instead
        self.memo = {}
        self.narrow_used = []  # (TM, lo, hi): assumptions made by the choices taken

    # ---- choices
    def choose(self, node, opts, key=None):
        k = (node.id, key)
        if k in self.ch:
            return self.ch[k][0]
        if len(opts) == 1:
            return opts[0]
        if len(self.ch) >= self.maxforks:
            raise Undecided()
        raise NeedChoice((k, node), opts)

    def ev(self, n):
        m = self.memo.get(n.id)
        if m is not None:
            return m
        st = [n]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.op == "ite":
                c = self.truth(x.args[0]) if x.args[0].id in memo or self._ready(x.args[0]) else None
                if c is None:
                    st.append(x.args[0])
                    continue
                b = x.args[1] if c else x.args[2]
                if b.id not in memo:
                    st.append(b)
                    continue
                memo[x.id] = memo[b.id]
                st.pop()
                continue
            if x.op in ("and", "or") and x.ty == 1:
                # lazily: the second operand only if the first does not decide
                a = x.args[0]
                if a.id not in memo and not self._ready(a):
                    st.append(a)
                    continue
                t = self.truth(a)
                if (x.op == "and" and t == 0) or (x.op == "or" and t == 1):
                    memo[x.id] = IV(1, t, t)
                    st.pop()
                    continue
                b = x.args[1]
                if b.id not in memo and not self._ready(b):
                    st.append(b)
                    continue
                t = self.truth(b)
                memo[x.id] = IV(1, t, t)
                st.pop()
                continue
            miss = [a for a in x.args if a.id not in memo]
            if miss:
                st.extend(reversed(miss))
                continue
            memo[x.id] = self.transfer(x)
            st.pop()
        return memo[n.id]

    def _ready(self, n):
        if n.op in ("c", "fc", "var", "fvar"):
            self.memo[n.id] = self.transfer(n)
            return True
        return n.id in self.memo

    def truth(self, n):
        """0/1 value of an i1 node (forking if it is undecided on the box)"""
        v = self.ev(n)
        if v.lo == v.hi:
            return v.lo & 1
        t = self.choose(n, [1, 0])
        self.memo[n.id] = IV(1, t, t)
        self.note(n, t)
        return t

    def note(self, n, t):
        """consequences of an assumed comparison for its operands (narrowing)"""
        # the operand has been evaluated already on this run, so narrowing takes effect for
        # values computed from it afterwards through self.memo
        if n.op == "xor" and n.ty == 1 and n.args[1] is TRUE:
            return self.note(n.args[0], 1 - t)
        if n.op == "fcmp":
            p = n.val
            a, b = n.args
            va, vb = self.memo.get(a.id), self.memo.get(b.id)
            if va is None or vb is None:
                return
            if (p[1:] == "eq" and t and p[0] == "o") or (p == "une" and not t):
                for u, vu, vv in ((a, va, vb), (b, vb, va)):
                    if vv.num and vv.lo == vv.hi and vu.num and math.isfinite(vv.lo):
                        z = vv.lo == 0
                        self.memo[u.id] = FV(-0.0 if z else vv.lo, 0.0 if z else vv.hi, False, TM.const(self.S, vv.lo))
                        self.narrow_used.append((vu.tm, vv.lo, vv.hi))
                return
            # truth t of predicate p: derive relation that certainly holds
            rel = self.rel_holds(p, t)
            if rel is None:
                return
            r, nonan = rel
            if nonan:
                for x, v in ((a, va), (b, vb)):
                    if v.nan and v.num:
                        v = self.memo[x.id] = FV(v.lo, v.hi, False, v.tm)
                va, vb = self.memo[a.id], self.memo[b.id]
            if va.nan or vb.nan or r is None:
                return
            if r in (">", ">="):
                self._le(b, a, r == ">")
            elif r in ("<", "<="):
                self._le(a, b, r == "<")

    @staticmethod
    def rel_holds(p, t):
        neg = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}
        base = {"lt": "<", "gt": ">", "le": "<=", "ge": ">="}.get(p[1:])
        if p == "ord":
            return (None, True) if t else None
        if p == "uno":
            return None if t else (None, True)
        if base is None:
            return (None, True) if (p == "oeq" and t) or (p == "une" and not t) else None
        if p[0] == "o":
            return (base, True) if t else (neg[base], False)
        return (base, False) if t else (neg[base], True)

    def _le(self, a, b, strict):
        va, vb = self.memo[a.id], self.memo[b.id]
        if va.hi > vb.hi:
            h = vb.hi
            self.memo[a.id] = va = FV(va.lo, h, False, va.tm)
            self.narrow_used.append((va.tm, None, h))
        if vb.lo < va.lo:
            l = va.lo
            self.memo[b.id] = FV(l, vb.hi, False, vb.tm)
            self.narrow_used.append((vb.tm, l, None))

    # ---- transfer functions
    def transfer(self, x):
        op = x.op
        if op == "c":
            return IV(x.ty, x.val, x.val)
        if op == "fc":
            if isnan_b(x.val):
                return FV(None, None, True)
            v = b2f(x.val)
            return FV(v, v, False, TM.const(self.S, v) if math.isfinite(v) else None)
        if op in ("var", "fvar"):
            return self.roots[x.val]
        a = [self.memo[y.id] for y in x.args]
        # exact concrete evaluation when every operand is a single value
        if all(v.single for v in a):
            try:
                r = op_c(op, x.ty, x.val, [f2b(v.lo) if isinstance(v, FV) else v.lo & ((1 << v.n) - 1) for v in a], [y.ty for y in x.args])
            except EvalError:
                raise Undecided()
            if x.ty == "f":
                if isnan_b(r):
                    return FV(None, None, True)
                v = b2f(r)
                return FV(v, v, False, TM.const(self.S, v) if math.isfinite(v) else None)
            return IV(x.ty, r, r)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return self.arith(x, op, a[0], a[1], x.args[0] is x.args[1])
        f = getattr(self, "t_" + op, None)
        if f is None:
            raise Undecided()
        if self.coarse:
            try:
                return f(x, *a)
            except (Undecided, NeedChoice):
                return self.top(x, a)
        return f(x, *a)

    def top(self, x, a):
        """a range that certainly contains the value"""
        op = x.op
        if x.ty == "f":
            if op == "frombits":
                r = self.norm(a[0], False)
                if r is not None and r[0] >> 31 == r[1] >> 31:
                    m = [v & 0x7FFFFFFF for v in r[:2]]
                    if m[1] <= 0x7F800000:
                        l, h = b2f(m[0]), b2f(m[1])
                        if r[0] >> 31:
                            l, h = -h, -l
                        return FV(l, h, False, TM.const(self.S, (l + h) / 2).widen((h - l) / 2 * (1 + 1e-12) + 1e-300) if math.isfinite(h - l) else None)
            return FV(-INF, INF, True)
        n = x.ty
        if n == 1:
            return IV(1, 0, 1)
        full = (1 << n) - 1
        if op in ("and", "or", "xor", "lshr") and all(isinstance(v, IV) for v in a):
            rs = [self.norm(v, False) or (0, (1 << v.n) - 1) for v in a]
            if op == "and":
                return IV(n, 0, min(r[1] for r in rs))
            if op == "lshr":
                return IV(n, 0, rs[0][1] >> min(rs[1][0], n))
            h = (1 << max(r[1] for r in rs).bit_length()) - 1
            return IV(n, max(r[0] for r in rs) if op == "or" else 0, h)
        return IV(n, 0, full)

    # ---- float arithmetic
    def arith(self, x, op, a, b, same=False):
        nan = a.nan or b.nan
        if not a.num or not b.num:
            return FV(None, None, True)
        if op == "fsub":
            b = FV(-b.hi, -b.lo, b.nan, b.tm.neg() if b.tm else None)
            op = "fadd"
            if same and not nan and math.isfinite(a.lo) and math.isfinite(a.hi):
                return FV(0.0, 0.0, False, TM.const(self.S, 0.0))
        if op == "fadd":
            if (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF):
                nan = True
            l = a.lo + b.lo
            h = a.hi + b.hi
            if l != l:
                l = -INF
            if h != h:
                h = INF
            tm = a.tm.add(b.tm) if a.tm and b.tm else None
            exact = (a.single and a.lo == 0) or (b.single and b.lo == 0)
        elif op == "fmul":
            if same:
                c = [a.lo * a.lo, a.hi * a.hi]
                l = 0.0 if a.lo <= 0 <= a.hi else min(c)
                h = max(c)
            else:
                ps = []
                for p in (a.lo, a.hi):
                    for q in (b.lo, b.hi):
                        v = p * q
                        if v != v:
                            v = 0.0
                        ps.append(v)
                l, h = min(ps), max(ps)
            for u, v in ((a, b), (b, a)):
                if u.lo <= 0 <= u.hi and (v.hi == INF or v.lo == -INF):
                    nan = True
                    # an infinite factor times something nonzero
                    if u.lo < 0 or u.hi > 0:
                        l, h = min(l, -INF), max(h, INF)
            tm = a.tm.mul(b.tm) if a.tm and b.tm else None
            exact = False
            for u in (a, b):
                if u.single and u.lo != 0 and math.isfinite(u.lo) and abs(math.frexp(u.lo)[0]) == 0.5:
                    v = b if u is a else a
                    if min(abs(l), abs(h)) >= 2.0 ** -126 and l * h > 0 or abs(u.lo) >= 1:
                        exact = True
        else:
            if (a.lo <= 0 <= a.hi and b.lo <= 0 <= b.hi) or ((a.hi == INF or a.lo == -INF) and (b.hi == INF or b.lo == -INF)):
                nan = True
            tm = None
            exact = False
            if b.lo <= 0 <= b.hi:
                if b.single or (b.lo == 0 and b.hi > 0 and f2b(b.lo) == 0) or (b.hi == 0 and b.lo < 0 and f2b(b.hi) != 0):
                    # one-sided zero: quotient magnitudes run from |a|min/|b|max to inf
                    sgb = 1 if math.copysign(1.0, b.hi if b.hi != 0 else b.lo) > 0 else -1
                    mb = max(abs(b.lo), abs(b.hi))
                    aa = (a.lo, a.hi) if sgb > 0 else (-a.hi, -a.lo)
                    l = -INF if aa[0] < 0 or (aa[0] == 0 and math.copysign(1, aa[0]) < 0) else (aa[0] / mb if mb else INF)
                    h = INF if aa[1] > 0 or (aa[1] == 0 and math.copysign(1, aa[1]) > 0) else (aa[1] / mb if mb else -INF)
                    if mb == INF:
                        l = min(l, 0.0)
                        h = max(h, -0.0)
                else:
                    l, h = -INF, INF
            else:
                ps = []
                for p in (a.lo, a.hi):
                    for q in (b.lo, b.hi):
                        if math.isinf(p) and math.isinf(q):
                            ps += [0.0, math.copysign(INF, p) * math.copysign(1, q)]
                        else:
                            ps.append(p / q)
                l, h = min(ps), max(ps)
                if a.tm and b.tm:
                    tm = a.tm.div(b.tm)
        l, h = r32(l), r32(h)
        if h == 0:
            h = 0.0
        if l == 0:
            l = -0.0
            if op == "fmul" and (same or (a.lo > 0 or f2b(a.lo) == 0) and (b.lo > 0 or f2b(b.lo) == 0)):
                l = 0.0
            elif op == "fadd" and (a.lo > 0 or f2b(a.lo) == 0) and (b.lo > 0 or f2b(b.lo) == 0):
                l = 0.0
            elif op == "fdiv" and (a.lo > 0 or f2b(a.lo) == 0) and (b.lo > 0 or f2b(b.lo) == 0):
                l = 0.0
        return self.mkf(l, h, nan, tm, exact)

    def mkf(self, l, h, nan, tm, exact=False):
        if tm is not None:
            if not (math.isfinite(l) and math.isfinite(h)):
                # may overflow on the box; the model only describes finite results
                bl, bh = tm.bounds()
                if not (bl > -FMAX and bh < FMAX):
                    return FV(l, h, nan, None)
            if not math.isfinite(tm.r):
                return FV(l, h, nan, None)
            bl, bh = tm.bounds()
            m = max(abs(max(l, bl)), abs(min(h, bh)))
            if not exact:
                e = half_ulp(m * (1 + 2.0 ** -23))
                tm = tm.widen(e)
                bl, bh = bl - e, bh + e
            nl, nh = up32(bl), dn32(bh)
            if nl > l:
                l = nl if nl != 0 else -0.0
            if nh < h:
                h = nh if nh != 0 else 0.0
            if l > h:
                # rounding of the enclosures: fall back to a consistent hull
                l, h = min(l, h), max(l, h)
        return FV(l, h, nan, tm)

    def t_fneg(self, x, a):
        if not a.num:
            return a
        return FV(-a.hi, -a.lo, a.nan, a.tm.neg() if a.tm else None)

    def sign_of(self, a):
        """+1/-1 when the sign bit is the same over the whole range, else None"""
        if f2b(a.lo) >> 31 == 0:
            return 1
        if f2b(a.hi) >> 31 == 1:
            return -1
        return None

    def t_fabs(self, x, a):
        if not a.num:
            return a
        s = self.sign_of(a)
        if s is None and a.tm is not None and a.lo != 0 and a.hi != 0:
            # crossing zero: either sign (fork keeps the model polynomial); large boxes just
            # take the hull
            if min(-a.lo, a.hi) > 0 and len(self.ch) < self.maxforks - 1:
                t = self.choose(x, ["+", "-"])
                if t == "+":
                    self.narrow_used.append((a.tm, -0.0, None))
                    self.memo[x.args[0].id] = a = FV(0.0, a.hi, a.nan, a.tm)
                    s = 1
                else:
                    self.narrow_used.append((a.tm, None, 0.0))
                    self.memo[x.args[0].id] = a = FV(a.lo, -0.0, a.nan, a.tm)
                    s = -1
        if s is None:
            if a.lo == 0:
                s = 1
            elif a.hi == 0:
                s = -1
        if s == 1:
            return FV(abs(a.lo) if a.lo == 0 else a.lo, a.hi, a.nan, a.tm)
        if s == -1:
            return FV(-a.hi if a.hi != 0 else 0.0, -a.lo, a.nan, a.tm.neg() if a.tm else None)
        return FV(0.0, max(-a.lo, a.hi), a.nan, None)

    def t_copysign(self, x, a, b):
        m = self.t_fabs(x, a)
        if not b.num:
            s = self.choose(x, [1, -1], "cs")
        else:
            s = self.sign_of(b) if not b.nan else None
            if s is None:
                s = self.choose(x, [1, -1], "cs")
        if not m.num:
            return m
        return m if s == 1 else FV(-m.hi, -m.lo, m.nan, m.tm.neg() if m.tm else None)

    def t_fsqrt(self, x, a):
        if not a.num:
            return a
        if a.lo < 0:
            if a.hi < 0:
                return FV(None, None, True)
            raise Undecided()
        l, h = r32(math.sqrt(a.lo)), r32(math.sqrt(a.hi)) if a.hi < INF else INF
        tm = a.tm.sqrt() if a.tm and a.lo > 0 else None
        return self.mkf(l, h, a.nan, tm)

    def t_fma(self, x, a, b, c):
        if not (a.num and b.num and c.num):
            return FV(None, None, True)
        if a.tm and b.tm and c.tm:
            t = a.tm.mul(b.tm).add(c.tm)
            bl, bh = t.bounds()
            if bl > -FMAX and bh < FMAX:
                return self.mkf(dn32(bl), up32(bh), a.nan or b.nan or c.nan, t)
        raise Undecided()

    def minmax(self, x, a, b, mx):
        if not a.num or not b.num:
            if not a.num and not b.num:
                return a
            return b if not a.num else a
        if a.nan or b.nan:
            raise Undecided()
        if (a.lo >= b.hi) == mx and (a.lo >= b.hi or a.hi <= b.lo):
            return a
        if a.lo >= b.hi or a.hi <= b.lo:
            return b
        return a if self.choose(x, [0, 1]) == 0 else b

    def t_fminnum(self, x, a, b):
        return self.minmax(x, a, b, False)

    def t_fmaxnum(self, x, a, b):
        return self.minmax(x, a, b, True)

    def t_frem(self, x, a, b):
        # contract of fmod: |r| < |b|, |r| <= |a|, sign of a (zero included)
        if not a.num or not b.num:
            return FV(None, None, True)
        nan = a.nan or b.nan or a.lo == -INF or a.hi == INF or (b.lo <= 0 <= b.hi)
        mb = max(abs(b.lo), abs(b.hi))
        h = min(max(a.hi, 0.0), mb)
        l = max(min(a.lo, 0.0), -mb)
        if a.lo >= 0 and f2b(a.lo) == 0 or a.lo > 0:
            l = 0.0
        elif l == 0:
            l = -0.0
        if f2b(a.hi) >> 31:
            h = -0.0
        elif h == 0:
            h = 0.0
        tm = None
        if a.tm and b.tm and b.lo > 0 and a.lo > 0 or False:
            pass
        if max(abs(a.lo), abs(a.hi)) < (min(abs(b.lo), abs(b.hi)) if not b.lo <= 0 <= b.hi else 0):
            return FV(a.lo, a.hi, nan, a.tm)
        return FV(l, h, nan, tm)

    def rnd_int(self, x, a, mode):
        """value of a rounded to an integer as a float"""
        if not a.num:
            return a
        fn_ = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v > 0 else -1), "rint": round}[mode]
        l = a.lo if math.isinf(a.lo) else float(fn_(a.lo))
        h = a.hi if math.isinf(a.hi) else float(fn_(a.hi))
        if l == 0:
            l = math.copysign(0.0, a.lo)
        if h == 0:
            h = math.copysign(0.0, a.hi)
        if l == 0 and h == 0 and f2b(l) == f2b(h):
            return FV(l, h, a.nan, TM.const(self.S, 0.0))
        if math.isfinite(l) and math.isfinite(h) and a.tm:
            if l == h:
                return FV(l, h, a.nan, TM.const(self.S, l))
            if h - l <= 2:
                k = self.choose(x, [float(l + i) for i in range(int(h - l) + 1)])
                nl, nh = {"floor": (k, k + 1), "ceil": (k - 1, k), "trunc": (k - (k <= 0), k + (k >= 0)),
                          "round": (k - .5, k + .5), "rint": (k - .5, k + .5)}[mode]
                self.narrow_used.append((a.tm, nl, nh))
                return FV(k if k != 0 else -0.0, k, a.nan, TM.const(self.S, k))
            w = {"floor": (-1, 0), "ceil": (0, 1), "trunc": (-1, 1), "round": (-.5, .5), "rint": (-.5, .5)}[mode]
            if mode == "trunc" and a.lo >= 0:
                w = (-1, 0)
            elif mode == "trunc" and a.hi <= 0:
                w = (0, 1)
            return FV(l, h, a.nan, a.tm.addc((w[0] + w[1]) / 2).widen((w[1] - w[0]) / 2))
        return FV(l, h, a.nan, None)

    def t_ffloor(self, x, a):
        return self.rnd_int(x, a, "floor")

    def t_fceil(self, x, a):
        return self.rnd_int(x, a, "ceil")

    def t_ftrunc(self, x, a):
        return self.rnd_int(x, a, "trunc")

    def t_fround(self, x, a):
        return self.rnd_int(x, a, "round")

    def t_frint(self, x, a):
        return self.rnd_int(x, a, "rint")

    # ---- comparisons
    def t_fcmp(self, x, a, b):
        p = x.val
        if p in ("ord", "uno"):
            if not a.num or not b.num:
                t = p == "uno"
            elif not a.nan and not b.nan:
                t = p == "ord"
            else:
                return IV(1, 0, 1)
            return IV(1, int(t), int(t))
        if not a.num or not b.num:
            t = int(p[0] == "u")
            return IV(1, t, t)
        alo, ahi, blo, bhi = a.lo, a.hi, b.lo, b.hi
        r = p[1:]
        if r in ("gt", "ge"):
            alo, ahi, blo, bhi = blo, bhi, alo, ahi
            r = "lt" if r == "gt" else "le"
        t = None
        if r == "lt":
            t = 1 if ahi < blo else 0 if alo >= bhi else None
        elif r == "le":
            t = 1 if ahi <= blo else 0 if alo > bhi else None
        elif r in ("eq", "ne"):
            if ahi < blo or alo > bhi:
                t = 0
            elif alo == ahi == blo == bhi:
                t = 1
            if t is not None and r == "ne":
                t = 1 - t
        if t is None and a.tm and b.tm and r in ("lt", "le"):
            d = a.tm.sub(b.tm) if x.val[1:] in ("lt", "le") else b.tm.sub(a.tm)
            l, h = d.bounds()
            t = 1 if h < 0 else 0 if l > 0 else None
        if t is None:
            return IV(1, 0, 1)
        if (a.nan or b.nan) and t != int(p[0] == "u"):
            return IV(1, 0, 1)
        return IV(1, t, t)

    def t_icmp(self, x, a, b):
        p = x.val
        n = a.n
        if p in ("eq", "ne"):
            a2, b2 = self.norm(a, False), self.norm(b, False)
            if a2 is None or b2 is None:
                a2, b2 = self.norm(a, True), self.norm(b, True)
            if a2 is None or b2 is None:
                return IV(1, 0, 1)
            t = None
            if a2[1] < b2[0] or b2[1] < a2[0]:
                t = 0
            elif a2[0] == a2[1] == b2[0] == b2[1]:
                t = 1
            if t is None:
                return IV(1, 0, 1)
            t = t if p == "eq" else 1 - t
            return IV(1, t, t)
        s = p[0] == "s"
        a2, b2 = self.norm(a, s), self.norm(b, s)
        if a2 is None:
            a2 = self.full(n, s)
        if b2 is None:
            b2 = self.full(n, s)
        r = p[1:]
        if r in ("gt", "ge"):
            a2, b2 = b2, a2
            r = "lt" if r == "gt" else "le"
        if r == "lt":
            t = 1 if a2[1] < b2[0] else 0 if a2[0] >= b2[1] else None
        else:
            t = 1 if a2[1] <= b2[0] else 0 if a2[0] > b2[1] else None
        if t is None:
            return IV(1, 0, 1)
        return IV(1, t, t)

    @staticmethod
    def full(n, s):
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1, None) if s else (0, (1 << n) - 1, None)

    def norm(self, v, signed):
        """(lo, hi, tm) of the canonical (un)signed value, or None when the range wraps"""
        M = 1 << v.n
        off = (1 << (v.n - 1)) if signed else 0
        k = (v.lo + off) >> v.n
        if (v.hi + off) >> v.n != k:
            return None
        if k == 0:
            return v.lo, v.hi, v.tm
        d = -k * M
        return v.lo + d, v.hi + d, v.tm.addc(float(d)) if v.tm else None

    def normc(self, x, v, signed, key):
        """norm, forking over the wrap-around block when there are few"""
        r = self.norm(v, signed)
        if r is not None:
            return r
        M = 1 << v.n
        off = (1 << (v.n - 1)) if signed else 0
        k0, k1 = (v.lo + off) >> v.n, (v.hi + off) >> v.n
        if v.tm is None or k1 - k0 > 1:
            return self.full(v.n, signed)
        k = self.choose(x, list(range(k0, k1 + 1)), key)
        lo, hi = max(v.lo, k * M - off), min(v.hi, (k + 1) * M - off - 1)
        return lo - k * M, hi - k * M, v.tm.addc(float(-k * M))

    # ---- integer arithmetic
    def clampw(self, v):
        # keep representations from growing without bound
        if v.hi - v.lo >= (1 << v.n):
            return IV(v.n, 0, (1 << v.n) - 1)
        return v

    def t_add(self, x, a, b):
        return self.clampw(IV(x.ty, a.lo + b.lo, a.hi + b.hi, self.tmadd(a, b), min(a.tz, b.tz)))

    def t_sub(self, x, a, b):
        if x.args[0] is x.args[1]:
            return IV(x.ty, 0, 0)
        return self.clampw(IV(x.ty, a.lo - b.hi, a.hi - b.lo, self.tmadd(a, b, -1), min(a.tz, b.tz)))

    def itm(self, a):
        if a.tm is not None:
            return a.tm
        if a.lo == a.hi and abs(a.lo) < 1 << 52:
            return TM.const(self.S, float(a.lo))
        return None

    def tmadd(self, a, b, s=1):
        p, q = self.itm(a), self.itm(b)
        if p is None or q is None:
            return None
        return p.add(q) if s == 1 else p.sub(q)

    def t_mul(self, x, a, b):
        # signed representatives keep products small
        ra = self.norm(a, True) or (a.lo, a.hi, a.tm)
        rb = self.norm(b, True) or (b.lo, b.hi, b.tm)
        ps = [p * q for p in ra[:2] for q in rb[:2]]
        lo, hi = min(ps), max(ps)
        tm = None
        ta = ra[2] if ra[0] != ra[1] else (TM.const(self.S, float(ra[0])) if abs(ra[0]) < 1 << 52 else None)
        tb = rb[2] if rb[0] != rb[1] else (TM.const(self.S, float(rb[0])) if abs(rb[0]) < 1 << 52 else None)
        if ta is not None and tb is not None and max(abs(lo), abs(hi)) < 1 << 60:
            tm = ta.mul(tb)
        return self.clampw(IV(x.ty, lo, hi, tm, min(200, a.tz + b.tz)))

    def t_zext(self, x, a):
        lo, hi, tm = self.normc(x, a, False, "z")
        return IV(x.ty, lo, hi, tm, a.tz)

    def t_sext(self, x, a):
        lo, hi, tm = self.normc(x, a, True, "z")
        return IV(x.ty, lo, hi, tm, a.tz)

    def t_trunc(self, x, a):
        if x.ty == 1:
            r = self.low(x, a, 1)
            return r
        return self.clampw(IV(x.ty, a.lo, a.hi, a.tm, a.tz))

    def low(self, x, a, k, key="low"):
        """a mod 2^k as an IV of a's width"""
        n = x.ty
        if a.tz >= k:
            return IV(n, 0, 0)
        b0, b1 = a.lo >> k, a.hi >> k
        if b0 == b1:
            d = -(b0 << k)
            return IV(n, a.lo + d, a.hi + d, a.tm.addc(float(d)) if a.tm else None, a.tz)
        if b1 - b0 == 1 and a.tm is not None and k > 3:
            b = self.choose(x, [b0, b1], key)
            d = -(b << k)
            lo = a.lo + d if b == b0 else 0
            hi = (1 << k) - 1 if b == b0 else a.hi + d
            return IV(n, lo, hi, a.tm.addc(float(d)), a.tz)
        return IV(n, 0, (1 << k) - 1, None, min(a.tz, k))

    def high(self, x, a, k, key="high"):
        """a with its low k bits cleared"""
        l = self.low(x, a, k, key)
        tma, tml = self.itm(a), self.itm(l)
        lo, hi = (a.lo >> k) << k, (a.hi >> k) << k
        tm = tma.sub(tml) if tma is not None and tml is not None else None
        if tm is None and tma is not None:
            m = ((1 << k) - 1) / 2
            tm = tma.addc(-m).widen(m)
        return IV(x.ty, lo, hi, tm, max(a.tz, k))

    def andc(self, x, a, mask):
        n = x.ty
        mask &= (1 << n) - 1
        runs, i = [], 0
        while i < n:
            if mask >> i & 1:
                j = i
                while j < n and mask >> j & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        tot = None
        for i, j in runs:
            v = a
            if j < n:
                v = self.low(x, v, j, ("l", j))
            else:
                r = self.normc(x, v, False, "nu")
                v = IV(n, r[0], r[1], r[2], a.tz)
            if i > 0:
                v = self.high(x, v, i, ("h", i))
            if tot is None:
                tot = v
            else:
                tot = IV(n, tot.lo + v.lo, tot.hi + v.hi, self.tmadd(tot, v), min(tot.tz, v.tz))
        return tot if tot is not None else IV(n, 0, 0)

    def t_and(self, x, a, b):
        if a.single:
            a, b = b, a
        if b.single:
            r = self.andc(x, a, b.lo)
            return self.signed_src(a, r, to=1) if b.lo & 0xFFFFFFFF == 0x7FFFFFFF else r
        ra, rb = self.norm(a, False), self.norm(b, False)
        hi = (1 << x.ty) - 1
        if ra:
            hi = min(hi, ra[1])
        if rb:
            hi = min(hi, rb[1])
        return IV(x.ty, 0, hi, None, max(a.tz, b.tz))

    def t_or(self, x, a, b):
        n = x.ty
        if a.single or b.single:
            if a.single:
                a, b = b, a
            c = b.lo & ((1 << n) - 1)
            if c == 0:
                return a
            y = self.andc(x, a, c)
            # a | c = a + c - (a & c)
            r = self.normc(x, a, False, "nu")
            t = None
            ta = r[2] if r[0] != r[1] else TM.const(self.S, float(r[0]))
            ty = self.itm(y)
            if ta is not None and ty is not None:
                t = ta.addc(float(c)).sub(ty)
            lo = max(r[0], c, r[0] + c - y.hi)
            hi = min(r[1] + c - y.lo, (1 << n) - 1)
            q = IV(n, lo, hi, t, min(a.tz, b.tz))
            return self.signed_src(a, q, to=-1) if c == 0x80000000 and n == 32 else q
        ra, rb = self.norm(a, False), self.norm(b, False)
        if ra and rb:
            for (p, pt), (q, qt) in (((ra, a.tz), (rb, b.tz)), ((rb, b.tz), (ra, a.tz))):
                if q[1] < (1 << min(pt, 64)):
                    tp = p[2] if p[0] != p[1] else TM.const(self.S, float(p[0]))
                    tq = q[2] if q[0] != q[1] else TM.const(self.S, float(q[0]))
                    return IV(n, p[0] + q[0], p[1] + q[1], tp.add(tq) if tp is not None and tq is not None else None, min(a.tz, b.tz))
            hi = (1 << max(ra[1].bit_length(), rb[1].bit_length())) - 1
            return IV(n, max(ra[0], rb[0]), hi, None, min(a.tz, b.tz))
        return IV(n, 0, (1 << n) - 1)

    def t_xor(self, x, a, b):
        n = x.ty
        if a.single:
            a, b = b, a
        if not b.single:
            return IV(n, 0, (1 << n) - 1, None, min(a.tz, b.tz))
        c = b.lo & ((1 << n) - 1)
        if c == (1 << n) - 1:
            return IV(n, -1 - a.hi, -1 - a.lo, a.tm.neg().addc(-1.0) if a.tm else None)
        if c == 1 << (n - 1):
            return self.signed_src(a, self.clampw(IV(n, a.lo + c, a.hi + c, a.tm.addc(float(c)) if a.tm else None, min(a.tz, b.tz))), flip=n == 32)
        y = self.andc(x, a, c)
        r = self.normc(x, a, False, "nu")
        ta = r[2] if r[0] != r[1] else TM.const(self.S, float(r[0]))
        ty = self.itm(y)
        tm = ta.addc(float(c)).sub(ty.scale(2.0)) if ta is not None and ty is not None else None
        return IV(n, max(0, r[0] + c - 2 * y.hi), min((1 << n) - 1, r[1] + c - 2 * y.lo), tm, min(a.tz, b.tz))

    def amount(self, x, b):
        if b.single:
            return b.lo & ((1 << b.n) - 1)
        r = self.norm(b, False)
        if r is None or r[1] - r[0] > 2:
            raise Undecided()
        return self.choose(x, list(range(r[0], r[1] + 1)), "amt")

    def t_shl(self, x, a, b):
        k = self.amount(x, b)
        if k >= x.ty:
            return IV(x.ty, 0, 0)
        if k == 0:
            return a
        # drop the bits that are shifted out first, so that ranges stay small
        v = self.low(x, a, x.ty - k, "shl") if k else a
        return IV(x.ty, v.lo << k, v.hi << k, v.tm.scale(float(1 << k)) if v.tm else None, min(200, v.tz + k))

    def shr(self, x, a, b, signed):
        k = self.amount(x, b)
        lo, hi, tm = self.normc(x, a, signed, "shr")
        if k >= x.ty:
            if signed:
                k = x.ty - 1
            else:
                return IV(x.ty, 0, 0)
        if k == 0:
            return IV(x.ty, lo, hi, tm, a.tz)
        if tm is not None:
            tm = tm.scale(2.0 ** -k)
            if a.tz < k:
                f = (1 - 2.0 ** -k) / 2
                tm = tm.addc(-f).widen(f)
        return IV(x.ty, lo >> k, hi >> k, tm, max(0, a.tz - k))

    def t_lshr(self, x, a, b):
        return self.shr(x, a, b, False)

    def t_ashr(self, x, a, b):
        return self.shr(x, a, b, True)

    def idiv(self, x, a, b, signed, rem):
        ra, rb = self.norm(a, signed), self.norm(b, signed)
        if ra is None or rb is None or rb[0] <= 0 <= rb[1]:
            raise Undecided()

        def tdiv(p, q):
            v = abs(p) // abs(q)
            return v if (p < 0) == (q < 0) else -v
        qs = [tdiv(p, q) for p in ra[:2] for q in rb[:2]]
        lo, hi = min(qs), max(qs)
        if ra[0] < 0 < ra[1]:
            lo, hi = min(lo, 0), max(hi, 0)
        if not rem:
            return IV(x.ty, lo, hi)
        if lo == hi and rb[0] == rb[1]:
            d = -lo * rb[0]
            return IV(x.ty, ra[0] + d, ra[1] + d, ra[2].addc(float(d)) if ra[2] else None)
        m = max(abs(rb[0]), abs(rb[1])) - 1
        return IV(x.ty, -m if ra[0] < 0 else 0, m if ra[1] > 0 else 0)

    def t_udiv(self, x, a, b):
        return self.idiv(x, a, b, False, False)

    def t_sdiv(self, x, a, b):
        return self.idiv(x, a, b, True, False)

    def t_urem(self, x, a, b):
        return self.idiv(x, a, b, False, True)

    def t_srem(self, x, a, b):
        return self.idiv(x, a, b, True, True)

    def t_ctlz(self, x, a):
        r = self.norm(a, False) or self.full(a.n, False)
        hi = x.ty - r[0].bit_length()
        lo = x.ty - r[1].bit_length()
        return IV(x.ty, lo, hi)

    def t_cttz(self, x, a):
        return IV(x.ty, min(a.tz, x.ty), x.ty)

    # ---- conversions
    def fptoint(self, x, a, signed, sat):
        n = x.ty
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if a.nan:
            if not sat:
                raise Undecided()
            if not a.num:
                return IV(n, 0, 0)
            if self.choose(x, ["num", "nan"], "nan") == "nan":
                return IV(n, 0, 0)
        satd = False

        def tr(v):
            if math.isinf(v):
                return mx + 1 if v > 0 else mn - 1
            return math.trunc(v)
        lo, hi = tr(a.lo), tr(a.hi)
        if lo < mn or hi > mx:
            if not sat:
                raise Undecided()
            satd = True
            lo, hi = min(max(lo, mn), mx), min(max(hi, mn), mx)
        if lo == hi:
            return IV(n, lo, hi)
        if hi - lo <= 2 and not satd and a.tm is not None:
            k = self.choose(x, list(range(lo, hi + 1)), "int")
            self.narrow_used.append((a.tm, k - (k <= 0), k + (k >= 0)))
            return IV(n, k, k)
        tm = None
        if a.tm is not None and not satd:
            if a.lo >= 0:
                tm = a.tm.addc(-0.5).widen(0.5)
            elif a.hi <= 0:
                tm = a.tm.addc(0.5).widen(0.5)
            else:
                tm = a.tm.widen(1.0)
        return IV(n, lo, hi, tm)

    def t_fptosisat(self, x, a):
        return self.fptoint(x, a, True, True)

    def t_fptouisat(self, x, a):
        return self.fptoint(x, a, False, True)

    def t_fptosi(self, x, a):
        return self.fptoint(x, a, True, False)

    def t_fptoui(self, x, a):
        return self.fptoint(x, a, False, False)

    def inttofp(self, x, a, signed):
        lo, hi, tm = self.normc(x, a, signed, "cv")
        l, h = b2f(int2f(lo)), b2f(int2f(hi))
        exact = max(abs(lo), abs(hi)) <= 1 << 24
        if lo == hi:
            return FV(l, h, False, TM.const(self.S, l))
        return self.mkf(l, h, False, tm, exact)

    def t_sitofp(self, x, a):
        return self.inttofp(x, a, True)

    def t_uitofp(self, x, a):
        return self.inttofp(x, a, False)

    def t_bits(self, x, a):
        if a.nan:
            if a.num:
                if self.choose(x, ["num", "nan"], "nan") == "num":
                    a = FV(a.lo, a.hi, False, a.tm)
                else:
                    a = FV(None, None, True)
            if not a.num:
                if x.args[0].op == "fvar" and ("bits:" + x.args[0].val) in self.roots:
                    return self.roots["bits:" + x.args[0].val]
                s = self.choose(x, [0, 1], "sg")
                return IV(32, 0x7F800001 + (s << 31), 0x7FFFFFFF + (s << 31))
        s = self.sign_of(a)
        lo, hi = a.lo, a.hi
        if s is None:
            if self.choose(x, ["+", "-"], "sg") == "+":
                lo, s = 0.0, 1
                if a.tm is not None:
                    self.narrow_used.append((a.tm, 0.0, None))
            else:
                hi, s = -0.0, -1
                if a.tm is not None:
                    self.narrow_used.append((a.tm, None, 0.0))
        bl, bh = f2b(lo), f2b(hi)
        if s == -1:
            bl, bh = bh, bl
        tm = None
        if a.tm is not None:
            ml, mh = bl & 0x7FFFFFFF, bh & 0x7FFFFFFF
            e0, e1 = max(ml >> 23, 1), max(mh >> 23, 1)
            if e0 != e1 and e1 - e0 <= 1 and mh < 0x7F800000 and len(self.ch) < self.maxforks - 2:
                e = self.choose(x, [e0, e1], "bin")
                if e == e0:
                    mh = (e1 << 23) - 1
                else:
                    ml = e1 << 23
                t = a.tm if s == 1 else a.tm.neg()
                self.narrow_used.append((t, None, b2f(e1 << 23)) if e == e0 else (t, b2f(e1 << 23), None))
                e0 = e1 = e
                bl, bh = ml + (bl & 0x80000000), mh + (bl & 0x80000000)
            if e0 == e1 and mh < 0x7F800000:
                # |x| = (bits - (e0-1)*2^23) * 2^(e0-150)
                t = a.tm if s == 1 else a.tm.neg()
                sc = 2.0 ** (150 - e0)
                if sc < 1e300:
                    tm = t.scale(sc).addc(float(((e0 - 1) << 23) + (bl & 0x80000000)))
        r = IV(32, bl, bh, tm)
        if bl != bh:
            l, h = b2f(bl), b2f(bh)
            r.src = FV(l, h, False, a.tm) if s == 1 else FV(h, l, False, a.tm)
        return r

    def signed_src(self, v, r, flip=None, to=None):
        """r, the bits of v with the sign bit changed, remembers the float it stands for"""
        f = v.src
        if f is not None and not r.single:
            sg = self.sign_of(f)
            want = to if to is not None else (-sg if flip else sg)
            r.src = f if sg == want else FV(-f.hi, -f.lo, False, f.tm.neg() if f.tm else None)
        return r

    def t_frombits(self, x, a):
        if a.src is not None:
            return a.src
        r = self.norm(a, False)
        if r is None or (r[0] >> 31) != (r[1] >> 31):
            # split on the sign bit
            rs = self.norm(a, True)
            if rs is not None:
                if self.choose(x, ["+", "-"], "sg") == "+":
                    r = (max(rs[0], 0), rs[1], rs[2])
                else:
                    r = (rs[0] + (1 << 32), min(rs[1], -1) + (1 << 32), rs[2].addc(float(1 << 32)) if rs[2] else None)
            else:
                rr = self.normc(x, a, False, "fb") if r is None else r
                if self.choose(x, ["+", "-"], "sg") == "+":
                    r = (rr[0], min(rr[1], 0x7FFFFFFF), rr[2])
                else:
                    r = (max(rr[0], 0x80000000), rr[1], rr[2])
        lo, hi, tm = r
        s = lo >> 31
        ml, mh = lo & 0x7FFFFFFF, hi & 0x7FFFFFFF
        nan = False
        if mh > 0x7F800000:
            if ml > 0x7F800000:
                return FV(None, None, True)
            nan = True
            mh = 0x7F800000
            tm = None
        ft = None
        if tm is not None:
            e0, e1 = max(ml >> 23, 1), max(mh >> 23, 1)
            if e1 - e0 == 1 and mh < 0x7F800000 and len(self.ch) < self.maxforks - 2:
                e = self.choose(x, [e0, e1], "bin")
                if e == e0:
                    mh = (e1 << 23) - 1
                else:
                    ml = e1 << 23
                e0 = e1 = e
            if e0 == e1 and mh < 0x7F800000:
                sc = 2.0 ** (e0 - 150)
                ft = tm.addc(-float(((e0 - 1) << 23) + (s << 31))).scale(sc)
                if s:
                    ft = ft.neg()
        l, h = b2f(ml), b2f(mh)
        if s:
            l, h = -h, -l
        if ft is not None and ft.r != ft.r:
            ft = None
        v = FV(l, h, nan, ft)
        if ft is not None:
            bl, bh = ft.bounds()
            nl, nh = up32(bl), dn32(bh)
            if nl > l and nl <= h:
                v.lo = nl if nl != 0 else (-0.0 if s else 0.0)
            if nh < v.hi and nh >= v.lo:
                v.hi = nh if nh != 0 else (-0.0 if s else 0.0)
        return v


def leaves(S, roots, paths, evalroots, maxforks=8, coarse=False):
    """enumerates (path, Box, list of values) over all choices; raises Undecided when the
    box has to be split"""
    work = [dict()]
    out = []
    while work:
        ch = work.pop()
        bx = Box(S, roots, ch, maxforks, coarse)
        try:
            sel = None
            for p in paths:
                ok = True
                for c, w in p.conds:
                    if bx.truth(c) != w:
                        ok = False
                        break
                if ok:
                    sel = p
                    break
            if sel is None:
                # contradictory choices: this combination selects no path
                continue
            vals = [None if e is None else bx.ev(e) for e in evalroots(sel)] if sel.status == "ret" else None
            out.append((sel, bx, vals))
        except NeedChoice as nc:
            (k, node), opts = nc.node, nc.opts
            for o in opts:
                c2 = dict(ch)
                c2[k] = (o, node)
                work.append(c2)
            if len(work) > 300:
                raise Undecided()
    return out


def mkroot(S, name, i, olo, ohi):
    """root FV for ordinals olo..ohi (same sign, finite), as box variable i"""
    lo, hi = o2f(olo), o2f(ohi)
    if olo == ohi:
        return FV(lo, hi, False, TM.const(S, lo))
    mid = (lo + hi) / 2
    rad = (hi - lo) / 2
    # both exact in binary64 unless the exponents are far apart
    err = 0.0
    if mid - rad != lo or mid + rad != hi:
        err = EPSD * (abs(lo) + abs(hi))
        rad = rad * (1 + 2e-16)
    return FV(lo, hi, False, TM.var(S, i, mid, rad, err))


EPSD = 2.0 ** -51
