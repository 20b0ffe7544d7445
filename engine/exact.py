"""Exact back end: expression DAG -> z3 terms over bit-vectors and IEEE binary32.

A float input is a free 32-bit vector (every NaN payload included).  The bit pattern of a
computed float is a fresh vector constrained to denote that float, so the payload and sign
of a computed NaN stay arbitrary."""
import z3
from dag import *

F = z3.Float32()
RNE, RTZ, RTN, RTP, RNA = z3.RNE(), z3.RTZ(), z3.RTN(), z3.RTP(), z3.RNA()


class Enc:
    def __init__(self, uf=False):
        self.memo, self.side, self.vars, self.nf, self.uf = {}, [], {}, 0, uf
        self.ufs, self.stubs = {}, 0

    def fresh(self, w, p="k"):
        self.nf += 1
        return z3.BitVec(f"{p}!{self.nf}", w)

    def fp(self, b):
        return z3.fpBVToFP(b, F)

    def __call__(self, root):
        for n in topo([root]):
            if n.id not in self.memo:
                self.memo[n.id] = self.enc_uf(n) if self.uf else self.enc(n)
        return self.memo[root.id]

    def truth(self, n):
        return self(n) == z3.BitVecVal(1, 1)

    def b1(self, c):
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def bitsof(self, n):
        """bit pattern of float node n"""
        k = ("bits", n.id)
        if k in self.memo:
            return self.memo[k]
        if n.op == "fvar":
            r = self.vars[n.val]
        elif n.op == "fc":
            r = z3.BitVecVal(n.val, 32)
        elif n.op == "frombits":
            r = self.memo[n.args[0].id]
        else:
            r = self.fresh(32)
            self.side.append(self.fp(r) == self.memo[n.id])
        self.memo[k] = r
        return r

    def enc(self, n):
        a = [self.memo[x.id] for x in n.args]
        op = n.op
        if op == "c":
            return z3.BitVecVal(n.val, n.ty)
        if op == "fc":
            return self.fp(z3.BitVecVal(n.val, 32))
        if op == "var":
            v = self.vars[n.val] = z3.BitVec(n.val, n.ty)
            return v
        if op == "fvar":
            v = self.vars[n.val] = z3.BitVec(n.val, 32)
            return self.fp(v)
        if op == "fcmp":
            return self.b1(self.cmpf(n.val, a[0], a[1]))
        if op == "fsame":
            return self.b1(a[0] == a[1])
        if op == "fadd":
            return z3.fpAdd(RNE, a[0], a[1])
        if op == "fsub":
            return z3.fpSub(RNE, a[0], a[1])
        if op == "fmul":
            return z3.fpMul(RNE, a[0], a[1])
        if op == "fdiv":
            return z3.fpDiv(RNE, a[0], a[1])
        if op == "fsqrt":
            return z3.fpSqrt(RNE, a[0])
        if op == "fma":
            return z3.fpFMA(RNE, a[0], a[1], a[2])
        if op == "frem":
            return self.frem(n, a[0], a[1])
        if op == "fneg":
            return z3.fpNeg(a[0])
        if op == "fabs":
            return z3.fpAbs(a[0])
        if op == "copysign":
            s = self.bitsof(n.args[1])
            m = z3.fpAbs(a[0])
            return z3.If(z3.Extract(31, 31, s) == 1, z3.fpNeg(m), m)
        if op == "bits":
            return self.bitsof(n.args[0])
        if op == "frombits":
            return self.fp(a[0])
        if op in ("ffloor", "fceil", "ftrunc", "fround", "frint"):
            rm = {"ffloor": RTN, "fceil": RTP, "ftrunc": RTZ, "fround": RNA, "frint": RNE}[op]
            return z3.fpRoundToIntegral(rm, a[0])
        if op in ("fminnum", "fmaxnum"):
            x, y = a if op == "fminnum" else (a[1], a[0])
            pick = self.fresh(1) == 1
            r = z3.If(z3.fpLT(x, y), a[0], z3.If(z3.fpLT(y, x), a[1], z3.If(pick, a[0], a[1])))
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], r))
        if op in ("fminimum", "fmaximum"):
            x, y = a
            lt = z3.fpLT(x, y) if op == "fminimum" else z3.fpLT(y, x)
            gt = z3.fpLT(y, x) if op == "fminimum" else z3.fpLT(x, y)
            neg = z3.If(z3.fpIsNegative(x), x, y) if op == "fminimum" else z3.If(z3.fpIsNegative(x), y, x)
            r = z3.If(lt, x, z3.If(gt, y, neg))
            return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), z3.fpNaN(F), r)
        if op in ("fptosi", "fptoui", "fptosisat", "fptouisat"):
            return self.toint(n, a[0])
        if op == "sitofp":
            return z3.fpSignedToFP(RNE, a[0], F)
        if op == "uitofp":
            return z3.fpUnsignedToFP(RNE, a[0], F)
        return self.enc_int(n, a)

    def toint(self, n, v):
            """float to integer, exactly"""
            op, w, s, a = n.op, n.ty, n.op[4] == "s", [v]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            # bounds that are floats: values <= lo saturate low, >= hi+1 saturate high
            flo, fhi = z3.FPVal(float(lo), F), z3.FPVal(float(hi + 1), F)
            cv = z3.fpToSBV(RTZ, a[0], z3.BitVecSort(w)) if s else z3.fpToUBV(RTZ, a[0], z3.BitVecSort(w))
            oor = z3.If(z3.fpIsNaN(a[0]), z3.BitVecVal(0, w), z3.If(z3.fpLEQ(a[0], flo), z3.BitVecVal(lo, w), z3.BitVecVal(hi, w)))
            if not op.endswith("sat"):
                oor = self.fresh(w)
            return z3.If(z3.And(z3.fpGT(a[0], flo), z3.fpLT(a[0], fhi)), cv, oor)

    def cmpf(self, p, x, y):
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if p == "ord":
            return z3.Not(un)
        if p == "uno":
            return un
        r = {"eq": z3.fpEQ, "lt": z3.fpLT, "gt": z3.fpGT, "le": z3.fpLEQ, "ge": z3.fpGEQ}.get(p[1:])
        if p == "une":
            return z3.Not(z3.fpEQ(x, y))
        if p == "one":
            return z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        if p[0] == "o":
            return r(x, y)
        return z3.Or(un, r(x, y))

    def frem(self, n, x, y):
        """contract of fmod: NaN cases, x for infinite y or |x| < |y|, otherwise some r with
        |r| < |y|, |r| <= |x| and the sign of x"""
        p, q = n.args
        if p.op == q.op == "sitofp" and p.args[0].ty == q.args[0].ty and p.args[0].ty <= 24:
            # integers: exact, a zero takes the dividend's sign
            i, j = self.memo[p.args[0].id], self.memo[q.args[0].id]
            k = z3.SRem(i, j)
            r = z3.fpSignedToFP(RNE, k, F)
            r = z3.If(z3.And(k == 0, i < 0), z3.fpMinusZero(F), r)
            return z3.If(j == 0, z3.fpNaN(F), r)
        self.stubs += 1
        r = self.fp(self.fresh(32, "rem"))
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.fpIsInf(x), z3.fpIsZero(y))
        small = z3.fpLT(z3.fpAbs(x), z3.fpAbs(y))
        self.side.append(z3.If(nan, z3.fpIsNaN(r), z3.If(small, r == x, z3.And(
            z3.fpLT(z3.fpAbs(r), z3.fpAbs(y)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(x)),
            z3.fpIsNegative(r) == z3.fpIsNegative(x)))))
        return r

    def enc_int(self, n, a):
        op, w = n.op, n.ty
        if op == "icmp":
            f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT,
                 "uge": z3.UGE, "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y,
                 "sge": lambda x, y: x >= y}[n.val]
            return self.b1(f(a[0], a[1]))
        if op == "ite":
            return z3.If(a[0] == 1, a[1], a[2])
        two = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
               "udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem,
               "shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y,
               "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}
        if op in two:
            return two[op](a[0], a[1])
        if op == "zext":
            return z3.ZeroExt(w - n.args[0].ty, a[0])
        if op == "sext":
            return z3.SignExt(w - n.args[0].ty, a[0])
        if op == "trunc":
            return z3.Extract(w - 1, 0, a[0])
        if op == "ctlz":
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        if op == "cttz":
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i, w), r)
            return r
        if op == "ctpop":
            return sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a[0])) for i in range(w)][1:], z3.ZeroExt(w - 1, z3.Extract(0, 0, a[0])))
        raise NotImplementedError("exact: " + op)

    def nanb(self, x):
        return z3.UGT(x & 0x7FFFFFFF, z3.BitVecVal(0x7F800000, 32))

    # ---- arithmetic as uninterpreted functions over bit patterns
    def enc_uf(self, n):
        a = [self.memo[x.id] for x in n.args]
        op = n.op
        if op in ("fc", "c"):
            return z3.BitVecVal(n.val, 32 if op == "fc" else n.ty)
        if op in ("var", "fvar"):
            v = self.vars[n.val] = z3.BitVec(n.val, 32 if op == "fvar" else n.ty)
            return v
        if op == "fcmp":
            return self.b1(self.cmpf(n.val, self.fp(a[0]), self.fp(a[1])))
        if op == "fsame":
            nan = [z3.UGT(x & 0x7FFFFFFF, z3.BitVecVal(0x7F800000, 32)) for x in a]
            return self.b1(z3.Or(a[0] == a[1], z3.And(*nan)))
        if op == "fneg":
            return a[0] ^ z3.BitVecVal(0x80000000, 32)
        if op == "fabs":
            return a[0] & z3.BitVecVal(0x7FFFFFFF, 32)
        if op == "copysign":
            return (a[0] & z3.BitVecVal(0x7FFFFFFF, 32)) | (a[1] & z3.BitVecVal(0x80000000, 32))
        if op in ("bits", "frombits"):
            return a[0]
        fl = n.ty == "f" or any(x.ty == "f" for x in n.args)
        if op in ("fptosi", "fptoui", "fptosisat", "fptouisat"):
            return self.toint(n, self.fp(a[0]))
        if op != "ite" and fl:
            if op == "fsub":  # a - b is a + (-b) in IEEE arithmetic
                op, a = "fadd", [a[0], a[1] ^ z3.BitVecVal(0x80000000, 32)]
            sorts = [x.sort() for x in a] + [z3.BitVecSort(32 if n.ty == "f" else n.ty)]
            k = (op, str(sorts))
            if k not in self.ufs:
                self.ufs[k] = z3.Function(f"uf_{op}_{len(self.ufs)}", *sorts)
            if op in ("fadd", "fmul"):
                a = sorted(a, key=z3.is_bv_value)  # otherwise in the order of the nodes
            if op in ("fmul", "fdiv"):  # the sign of a product is exact
                sg = z3.simplify((a[0] ^ a[1]) & z3.BitVecVal(0x80000000, 32))
                a = [z3.simplify(x & z3.BitVecVal(0x7FFFFFFF, 32)) for x in a]
                if op == "fmul":
                    a = sorted(a, key=z3.is_bv_value)  # otherwise in the order of the nodes
                u = self.ufs[k](*a)
                r = sg | (u & z3.BitVecVal(0x7FFFFFFF, 32))
            else:
                u = r = self.ufs[k](*a)
            if op in ("fadd", "fmul") and not a[0].eq(a[1]) and not z3.is_bv_value(a[1]):
                self.side.append(u == self.ufs[k](a[1], a[0]))
            if op == "fadd":
                # x + (+-0) is x unless x is a zero; equal signs stay; a sum of zeros is a zero
                m = z3.BitVecVal(0x7FFFFFFF, 32)
                zero = [(x & m) == 0 for x in a]
                sgn = [z3.Extract(31, 31, x) for x in a + [r]]
                nn = z3.Not(z3.Or(*[self.nanb(x) for x in a]))
                self.side.append(z3.Implies(nn, z3.And(
                    z3.Implies(z3.And(zero[0], z3.Not(zero[1])), r == a[1]), z3.Implies(z3.And(zero[1], z3.Not(zero[0])), r == a[0]),
                    z3.Implies(sgn[0] == sgn[1], z3.And(sgn[2] == sgn[0], z3.Not(self.nanb(r)), ((r & m) == 0) == z3.And(*zero))), z3.Implies(z3.And(*zero), (r & m) == 0))))
            if op == "fdiv":
                m = z3.BitVecVal(0x7FFFFFFF, 32)
                self.side.append(z3.Implies((a[1] & m) == 0, z3.UGE(r & m, z3.BitVecVal(0x7F800000, 32))))
            if op in ("sitofp", "uitofp"):
                w = n.args[0].ty
                neg = z3.Extract(w - 1, w - 1, a[0]) if op == "sitofp" else z3.BitVecVal(0, 1)
                self.side.append(z3.And(z3.Extract(31, 31, r) == neg, z3.ULT(r & 0x7FFFFFFF, z3.BitVecVal(0x7F800000, 32)), (r == 0) == (a[0] == 0)))
            if op in ("fadd", "fmul", "fdiv", "frem"):
                self.side.append(z3.Implies(z3.Or(*[self.nanb(x) for x in a]), self.nanb(r)))
            return r
        return self.enc_int(n, a)


def solve(conds, timeout_ms, uf=False, want=()):
    """conds: list of i1 nodes asserted true.  Returns ('unsat'|'sat'|'unknown', env|why, stubs)"""
    e = Enc(uf)
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    cs = [e.truth(c) for c in conds]
    for n in want:
        e(n)
    for c in cs + e.side:
        s.add(c)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None, e.stubs
    if r == z3.unknown:
        return "unknown", s.reason_unknown(), e.stubs
    m = s.model()
    env = {}
    for k, v in e.vars.items():
        x = m.eval(v, model_completion=True)
        env[k] = x.as_long()
    return "sat", env, e.stubs


class Walker:
    """incremental feasibility of conjunctions of conditions, arithmetic uninterpreted; an
    answer other than unsat means "possible" """

    def __init__(self):
        self.e, self.s, self.done, self.lv, self.checks = Enc(True), z3.Solver(), 0, [], 0
        self.new, self.models = [], []
        self.s.set("timeout", 3000)

    def push(self, c, w):
        self.lv.append(self.done)
        self.s.push()
        t = self.e.truth(c)
        self.new.append([t if w else z3.Not(t)] + self.e.side[self.done:])
        self.models.append(None)
        self.s.add(self.new[-1])
        self.done = len(self.e.side)

    def pop(self):
        self.new.pop()
        self.models.pop()
        self.s.pop()
        self.done = self.lv.pop()

    def possible(self):
        # the model that showed the outer level possible may do for this one
        m = self.models[-2] if len(self.models) > 1 else None
        if m is not None:
            try:
                if all(z3.is_true(m.eval(x, model_completion=True)) for x in self.new[-1]):
                    self.models[-1] = m
                    return True
            except z3.Z3Exception:
                pass
        self.checks += 1
        r = self.s.check()
        if r == z3.sat:
            self.models[-1] = self.s.model()
        return r != z3.unsat
