"""Hash-consed expression DAG produced by the symbolic executor (llir.py).

Types: an int n is an n-bit integer, 'f' is IEEE binary32.  Constants of type 'f'
hold their bit pattern, so NaN payloads and zero signs survive."""
import struct, math
import numpy as np

np.seterr(all="ignore")
_f32 = np.float32


def b2f(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xFFFFFFFF))[0]


def f2b(x):
    """bits of the binary32 nearest to the double x (ties to even)"""
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0xFF800000 if x < 0 else 0x7F800000


def nf(b):
    return np.uint32(b).view(_f32)


def fn(x):
    return int(_f32(x).view(np.uint32))


QNAN = 0x7FC00000


def isnan_b(b):
    return (b & 0x7FFFFFFF) > 0x7F800000


class Node:
    __slots__ = ("op", "args", "ty", "val", "id", "__weakref__")

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]


def mk(op, args, ty, val=None):
    key = (op, tuple(a.id for a in args), ty, val)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.ty, n.val = op, tuple(args), ty, val
        n.id = _cnt[0]
        _cnt[0] += 1
        _tab[key] = n
    return n


def show(n, depth=3):
    if n.op == "c":
        return f"{n.val}:{n.ty}"
    if n.op == "fc":
        return f"{b2f(n.val)!r}f"
    if n.op in ("var", "fvar"):
        return n.val
    if depth == 0:
        return f"#{n.id}"
    return f"{n.op}{'' if n.val is None else '.' + str(n.val)}(" + ", ".join(show(a, depth - 1) for a in n.args) + ")"


def C(v, w):
    return mk("c", (), w, v & ((1 << w) - 1))


def FC(bits):
    return mk("fc", (), "f", bits & 0xFFFFFFFF)


def FCx(x):
    return FC(f2b(x))


def IVar(name, w):
    return mk("var", (), w, name)


def FVar(name):
    return mk("fvar", (), "f", name)


TRUE = C(1, 1)
FALSE = C(0, 1)


def is_c(n):
    return n.op in ("c", "fc")


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------------ concrete semantics
def _fmod(a, b):
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0:
        return None
    if math.isinf(b):
        return a
    return math.fmod(a, b)


def _cvt_int(x, lo, hi, sat):
    if math.isnan(x):
        return 0 if sat else None
    if math.isinf(x):
        return (hi if x > 0 else lo) if sat else None
    t = math.trunc(x)
    if t < lo:
        return lo if sat else None
    if t > hi:
        return hi if sat else None
    return t


def int2f(v):
    """nearest binary32 (ties to even) of a Python int, exactly"""
    if v == 0:
        return 0
    s, m = (1, -v) if v < 0 else (0, v)
    e = m.bit_length() - 1
    if e > 23:
        sh = e - 23
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        m = q << sh
    return f2b(float(m) * (-1.0 if s else 1.0))


FCMP = {"oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno"}


def fcmp_c(p, a, b):
    x, y = b2f(a), b2f(b)
    un = math.isnan(x) or math.isnan(y)
    if p == "ord":
        return not un
    if p == "uno":
        return un
    r = {"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y, "ne": x != y}[p[1:]]
    return (un or r) if p[0] == "u" else ((not un) and r)


def icmp_c(p, a, b, w):
    if p in ("sgt", "sge", "slt", "sle"):
        a, b = sgn(a, w), sgn(b, w)
    return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[-2:]]


class EvalError(Exception):
    pass


def op_c(op, ty, val, a, tys):
    """concrete value of op applied to concrete argument values a"""
    if op == "fcmp":
        return int(fcmp_c(val, a[0], a[1]))
    if op == "icmp":
        return int(icmp_c(val, a[0], a[1], tys[0]))
    if op == "fsame":  # the same value: equal bits, or both NaN
        return int(a[0] == a[1] or (isnan_b(a[0]) and isnan_b(a[1])))
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt"):
        if op == "frem":
            r = _fmod(b2f(a[0]), b2f(a[1]))
            if r is None:
                return QNAN
            if r == 0:
                return a[0] & 0x80000000
            return f2b(r)
        x = nf(a[0])
        if op == "fsqrt":
            r = np.sqrt(x)
        else:
            y = nf(a[1])
            r = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
        return QNAN if r != r else int(r.view(np.uint32))
    if op == "fma":
        x, y, z = (b2f(v) for v in a)
        if any(math.isnan(v) or math.isinf(v) for v in (x, y, z)):
            r = _f32(x) * _f32(y) + _f32(z)
            return QNAN if r != r else int(r.view(np.uint32))
        from fractions import Fraction
        q = Fraction(x) * Fraction(y) + Fraction(z)
        if q == 0:
            s = (_f32(x) * _f32(y)) + _f32(z)
            return int(s.view(np.uint32))
        return frac2f(q)
    if op == "fneg":
        return a[0] ^ 0x80000000
    if op == "fabs":
        return a[0] & 0x7FFFFFFF
    if op == "copysign":
        return (a[0] & 0x7FFFFFFF) | (a[1] & 0x80000000)
    if op in ("bits", "frombits"):
        return a[0]
    if op in ("ffloor", "fceil", "ftrunc", "fround", "frint"):
        x = b2f(a[0])
        if math.isnan(x):
            return QNAN
        if math.isinf(x) or abs(x) >= 2.0 ** 23:
            return a[0]
        if op == "ffloor":
            r = math.floor(x)
        elif op == "fceil":
            r = math.ceil(x)
        elif op == "ftrunc":
            r = math.trunc(x)
        elif op == "frint":
            r = round(x)
        else:
            r = math.floor(abs(x) + 0.5) * (1 if x > 0 else -1)
        return (f2b(float(r)) & 0x7FFFFFFF) | (a[0] & 0x80000000)
    if op in ("fminnum", "fmaxnum"):
        x, y = b2f(a[0]), b2f(a[1])
        if math.isnan(x):
            return a[1]
        if math.isnan(y):
            return a[0]
        if x == y:
            return a[0]  # sign of zero unspecified by the operation
        return a[0] if ((x < y) == (op == "fminnum")) else a[1]
    if op in ("fminimum", "fmaximum"):
        x, y = b2f(a[0]), b2f(a[1])
        if math.isnan(x) or math.isnan(y):
            return QNAN
        if x == y:
            return (a[0] | a[1]) if op == "fminimum" else (a[0] & a[1])
        return a[0] if ((x < y) == (op == "fminimum")) else a[1]
    if op in ("fptosi", "fptoui", "fptosisat", "fptouisat"):
        x = b2f(a[0])
        lo, hi = (-(1 << (ty - 1)), (1 << (ty - 1)) - 1) if "si" == op[4:6] else (0, (1 << ty) - 1)
        r = _cvt_int(x, lo, hi, op.endswith("sat"))
        if r is None:
            raise EvalError("fp-to-int out of range (poison)")
        return r & ((1 << ty) - 1)
    if op == "sitofp":
        return int2f(sgn(a[0], tys[0]))
    if op == "uitofp":
        return int2f(a[0])
    if op == "isclass":
        b = a[0]
        s, m = b >> 31, b & 0x7FFFFFFF
        if m > 0x7F800000:
            bit = 1 if m & 0x400000 else 0
            bit = 1 if (m & 0x400000) else 0
            return int(bool(val & (2 if bit else 1)))
        if m == 0x7F800000:
            k = 2 if s else 9
        elif m == 0:
            k = 5 if s else 6
        elif m < 0x800000:
            k = 4 if s else 7
        else:
            k = 3 if s else 8
        return int(bool(val >> k & 1))
    w = ty
    M = (1 << w) - 1
    if op == "add":
        return (a[0] + a[1]) & M
    if op == "sub":
        return (a[0] - a[1]) & M
    if op == "mul":
        return (a[0] * a[1]) & M
    if op in ("udiv", "urem"):
        if a[1] == 0:
            raise EvalError("division by zero")
        return a[0] // a[1] if op == "udiv" else a[0] % a[1]
    if op in ("sdiv", "srem"):
        x, y = sgn(a[0], w), sgn(a[1], w)
        if y == 0:
            raise EvalError("division by zero")
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == "sdiv" else x - q * y) & M
    if op == "shl":
        return (a[0] << a[1]) & M if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        return (sgn(a[0], w) >> min(a[1], w - 1)) & M
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "zext":
        return a[0]
    if op == "sext":
        return sgn(a[0], tys[0]) & M
    if op == "trunc":
        return a[0] & M
    if op == "ctlz":
        return w - a[0].bit_length()
    if op == "cttz":
        return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    if op == "ctpop":
        return bin(a[0]).count("1")
    raise EvalError("no concrete semantics for " + op)


def frac2f(q):
    """nearest binary32 of a Fraction"""
    from fractions import Fraction
    s = q < 0
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    while Fraction(2) ** e > q:
        e -= 1
    while Fraction(2) ** (e + 1) <= q:
        e += 1
    e = max(e, -126)
    m = q / (Fraction(2) ** (e - 23))
    k = m.numerator // m.denominator
    r = m - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1):
        k += 1
    v = Fraction(k) * Fraction(2) ** (e - 23)
    b = f2b(float(v))
    return b | (0x80000000 if s else 0)


# ------------------------------------------------------------------ building, with folding
COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}


IDENT = {"fmul": 0x3F800000, "fdiv": 0x3F800000, "fadd": 0x80000000, "fsub": 0}


def build(op, args, ty, val=None):
    if all(is_c(a) for a in args) and args:
        try:
            v = op_c(op, ty, val, [a.val for a in args], [a.ty for a in args])
            return FC(v) if ty == "f" else C(v, ty)
        except EvalError:
            pass
    if op in COMM and is_c(args[0]) and not is_c(args[1]):
        args = (args[1], args[0])
    elif op in COMM and not is_c(args[1]) and args[0].id > args[1].id:
        args = (args[1], args[0])
    if args and len(args) == 2 and args[1].op == "fc" and IDENT.get(op) == args[1].val:
        return args[0]  # exact; only a signalling NaN would become quiet, as in LLVM
    if op == "fdiv" and args[1].op == "fc" and not args[1].val & 0x7FFFFF and 1 <= (args[1].val >> 23 & 255) <= 253:
        # dividing by a power of two is multiplying by its (representable) reciprocal
        return build("fmul", (args[0], FC((args[1].val & 0x80000000) | (254 - (args[1].val >> 23 & 255)) << 23)), ty)
    if op in ("fmul", "fdiv"):
        # exact in every rounding case; only the (unspecified) sign of a NaN could differ
        x, y = args
        if x.op == "fneg" or y.op == "fneg":
            k = (x.op == "fneg") != (y.op == "fneg")
            r = build(op, (x.args[0] if x.op == "fneg" else x, y.args[0] if y.op == "fneg" else y), ty)
            return build("fneg", (r,), ty) if k else r
    if op == "ite":
        c, x, y = args
        if is_c(c):
            return x if c.val else y
        if x is y:
            return x
        if ty == 1 and x is TRUE and y is FALSE:
            return c
        if ty == 1 and x is FALSE and y is TRUE:
            return bnot(c)
    elif op == "bits" and args[0].op == "frombits":
        return args[0].args[0]
    elif op == "bits":
        a = args[0]
        if a.op == "fneg":
            return build("xor", (build("bits", a.args, 32), C(1 << 31, 32)), 32)
        if a.op == "fabs":
            return build("and", (build("bits", a.args, 32), C(0x7FFFFFFF, 32)), 32)
        if a.op == "copysign":
            return build("or", (build("and", (build("bits", (a.args[0],), 32), C(0x7FFFFFFF, 32)), 32),
                                build("and", (build("bits", (a.args[1],), 32), C(0x80000000, 32)), 32)), 32)
        if a.op == "ite":
            return build("ite", (a.args[0], build("bits", (a.args[1],), 32), build("bits", (a.args[2],), 32)), 32)
    elif op == "frombits":
        a = args[0]
        if a.op == "bits":
            return a.args[0]
    elif isinstance(ty, int) and len(args) == 2 and op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "ashr", "mul"):
        x, y = args
        M = (1 << ty) - 1
        if is_c(y):
            if y.val == 0:
                if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                    return x
                return C(0, ty)
            if op == "and" and y.val == M:
                return x
            if op == "or" and y.val == M:
                return y
            if op == "mul" and y.val == 1:
                return x
            if op == "xor" and ty == 1 and y.val == 1 and x.op == "xor" and is_c(x.args[1]):
                return x.args[0]
            if op in ("add", "and", "or", "xor") and x.op == op and is_c(x.args[1]):
                return build(op, (x.args[0], C(op_c(op, ty, None, [x.args[1].val, y.val], [ty, ty]), ty)), ty)
            if op == "sub":
                return build("add", (x, C(-y.val, ty)), ty)
            if op in ("lshr", "shl") and y.val >= ty:
                return C(0, ty)
            if op in ("lshr", "shl") and x.op == op and is_c(x.args[1]):
                k = x.args[1].val + y.val
                return C(0, ty) if k >= ty else build(op, (x.args[0], C(k, ty)), ty)
        if x is y:
            if op in ("sub", "xor"):
                return C(0, ty)
            if op in ("and", "or"):
                return x
        # ((b << e) & K) >> e  ==  b & (K >> e)   (shifts by the width or more give zero)
        if op == "lshr" and x.op == "and" and is_c(x.args[1]) and x.args[0].op == "shl" and x.args[0].args[1] is y:
            return build("and", (x.args[0].args[0], build("lshr", (x.args[1], y), ty)), ty)
        # b & ~(b & m)  ==  b & ~m
        if op == "and":
            for u, v in ((x, y), (y, x)):
                if v.op == "xor" and is_c(v.args[1]) and v.args[1].val == M and v.args[0].op == "and" and u in v.args[0].args:
                    a, b = v.args[0].args
                    return build("and", (u, build("xor", (b if a is u else a, v.args[1]), ty)), ty)
    elif op in ("zext", "sext", "trunc") and args[0].ty == ty:
        return args[0]
    elif op == "icmp" and val in ("slt", "sge") and is_c(args[1]) and args[1].val == 0 and args[0].op == "and" and is_c(args[0].args[1]) and not args[0].args[1].val >> (args[0].ty - 1):
        return C(int(val == "sge"), 1)
    elif op == "icmp" and args[0] is args[1]:
        return C(int(val in ("eq", "uge", "ule", "sge", "sle")), 1)
    elif op == "fsame" and args[0] is args[1]:
        return C(1, 1)
    elif op == "fneg" and args[0].op == "fneg":
        return args[0].args[0]
    elif op == "fabs" and args[0].op in ("fneg", "fabs", "copysign"):
        return build("fabs", (args[0].args[0],), "f")
    return mk(op, args, ty, val)


def bnot(c):
    return build("xor", (c, TRUE), 1)


def band(*cs):
    r = TRUE
    for c in cs:
        if c is FALSE or r is FALSE:
            return FALSE
        r = c if r is TRUE else (r if c is TRUE else build("and", (r, c), 1))
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        if c is TRUE or r is TRUE:
            return TRUE
        r = c if r is FALSE else (r if c is FALSE else build("or", (r, c), 1))
    return r


# ------------------------------------------------------------------ traversal / evaluation
def topo(roots):
    seen, out = set(), []
    st = [(r, False) for r in reversed(list(roots))]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in reversed(n.args):
            if a.id not in seen:
                st.append((a, False))
    return out


def free_vars(roots):
    return {n.val: n for n in topo(roots) if n.op in ("var", "fvar")}


class Conc:
    """memoising lazy concrete evaluator"""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def ev(self, root):
        memo = self.memo
        st = [root]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            if n.op in ("c", "fc"):
                memo[n.id] = n.val
                st.pop()
                continue
            if n.op in ("var", "fvar"):
                memo[n.id] = self.env[n.val]
                st.pop()
                continue
            if n.op == "ite":
                c = memo.get(n.args[0].id)
                if c is None:
                    st.append(n.args[0])
                    continue
                b = n.args[1] if c else n.args[2]
                if b.id not in memo:
                    st.append(b)
                    continue
                memo[n.id] = memo[b.id]
                st.pop()
                continue
            miss = [a for a in n.args if a.id not in memo]
            if miss:
                st.extend(miss)
                continue
            memo[n.id] = op_c(n.op, n.ty, n.val, [memo[a.id] for a in n.args], [a.ty for a in n.args])
            st.pop()
        return memo[root.id]


def run_paths(paths, env):
    """the path taken by concrete inputs, or None"""
    c = Conc(env)
    for p in paths:
        ok = True
        for cond, want in p.conds:
            if c.ev(cond) != want:
                ok = False
                break
        if ok:
            return p, c
    return None, c


def subst(roots, m):
    """rebuild roots with nodes (by id) replaced according to m"""
    memo = dict(m)
    for n in topo(roots):
        if n.id in memo:
            continue
        if not n.args:
            memo[n.id] = n
        else:
            na = [memo[a.id] for a in n.args]
            memo[n.id] = n if all(x is y for x, y in zip(na, n.args)) else build(n.op, tuple(na), n.ty, n.val)
    return [memo[r.id] for r in roots]
