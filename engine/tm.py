"""Taylor models over the box [-1,1]^n: a polynomial with binary64 coefficients plus a
symmetric remainder that contains every truncation and rounding error (including those
of the coefficient arithmetic itself)."""
import math, itertools
import numpy as np
import mpmath

mpmath.mp.prec = 80
EPS = 2.0 ** -52


class Space:
    """monomials of total degree <= d in n variables"""
    cache = {}

    def __new__(cls, n, d):
        k = (n, d)
        if k in cls.cache:
            return cls.cache[k]
        o = object.__new__(cls)
        cls.cache[k] = o
        o.n, o.d = n, d
        if n == 0:
            o.mon = [()]
        else:
            o.mon = sorted((m for m in itertools.product(range(d + 1), repeat=n) if sum(m) <= d), key=lambda m: (sum(m), m[::-1]))
        o.idx = {m: i for i, m in enumerate(o.mon)}
        o.N = len(o.mon)
        N = o.N
        tgt = np.full(N * N, N)
        for i, a in enumerate(o.mon):
            for j, b in enumerate(o.mon):
                if sum(a) + sum(b) <= d:
                    tgt[i * N + j] = o.idx[tuple(x + y for x, y in zip(a, b))]
        o.tgt = tgt
        o.ovf = tgt == N
        o.even = np.array([all(e % 2 == 0 for e in m) for m in o.mon])
        o.even[0] = False
        o.odd = ~o.even
        o.odd[0] = False
        o.slack = (N + 8) * EPS
        return o


class TM:
    __slots__ = ("S", "c", "r")

    def __init__(self, S, c, r):
        self.S, self.c, self.r = S, c, r

    @staticmethod
    def const(S, v, err=0.0):
        c = np.zeros(S.N)
        c[0] = v
        return TM(S, c, err)

    @staticmethod
    def var(S, i, mid, rad, err=0.0):
        c = np.zeros(S.N)
        c[0] = mid
        m = [0] * S.n
        m[i] = 1
        c[S.idx[tuple(m)]] = rad
        return TM(S, c, err)

    def bounds(self):
        c, S = self.c, self.S
        o = np.abs(c[S.odd]).sum()
        e = c[S.even]
        lo = c[0] - o + np.minimum(e, 0).sum() - self.r
        hi = c[0] + o + np.maximum(e, 0).sum() + self.r
        m = (abs(c).sum() + self.r) * S.slack
        return float(lo - m), float(hi + m)

    def mag(self):
        return float(np.abs(self.c).sum() * (1 + 1e-14) + self.r)

    def add(self, o):
        c = self.c + o.c
        return TM(self.S, c, (self.r + o.r + EPS * np.abs(c).sum()) * (1 + 1e-15))

    def sub(self, o):
        c = self.c - o.c
        return TM(self.S, c, (self.r + o.r + EPS * np.abs(c).sum()) * (1 + 1e-15))

    def neg(self):
        return TM(self.S, -self.c, self.r)

    def addc(self, k):
        c = self.c.copy()
        c[0] += k
        return TM(self.S, c, self.r + EPS * abs(c[0]))

    def scale(self, k):
        """multiplication by the real number exactly equal to the double k"""
        c = self.c * k
        return TM(self.S, c, (self.r * abs(k) + EPS * np.abs(c).sum()) * (1 + 1e-15))

    def widen(self, e):
        return TM(self.S, self.c, (self.r + e) * (1 + 1e-15))

    def mul(self, o):
        S = self.S
        w = np.outer(self.c, o.c).ravel()
        c = np.bincount(S.tgt, w, S.N + 1)[:S.N]
        aw = np.abs(w)
        tot = aw.sum()
        ov = aw[S.ovf].sum()
        ma, mb = np.abs(self.c).sum(), np.abs(o.c).sum()
        r = ov + self.r * (mb + o.r) + o.r * ma + tot * S.slack
        return TM(S, c, float(r) * (1 + 1e-14))

    def sq(self):
        return self.mul(self)

    def compose(self, coefs, rem):
        """sum coefs[k] * t^k + [-rem,rem] where t = self - self.c[0]; coefs already include
        their own evaluation errors in rem"""
        t = TM(self.S, self.c.copy(), self.r)
        t.c[0] = 0.0
        acc = TM.const(self.S, coefs[-1])
        for k in reversed(coefs[:-1]):
            acc = acc.mul(t).addc(k)
        return acc.widen(rem)

    def rad(self):
        return float((np.abs(self.c[1:]).sum()) * (1 + 1e-14) + self.r)

    # ---- elementary functions; each returns None when the enclosure does not apply
    def scaled(self):
        """(self * 2^-e, e) with the constant term in [1/2, 1); exact, the extremes guarded"""
        e = math.frexp(float(self.c[0]))[1]
        if abs(e) < 40:
            return None
        return TM(self.S, np.ldexp(self.c, -e), math.ldexp(self.r, -e) + 1e-290), e

    def inv(self):
        a = float(self.c[0])
        z = self.scaled() if a else None
        if z:
            i = z[0].inv()
            return None if i is None else TM(self.S, np.ldexp(i.c, -z[1]), math.ldexp(i.r, -z[1]) + 1e-300)
        R = self.rad()
        if a == 0 or R >= abs(a) * 0.95:
            return None
        d = self.S.d
        q = R / abs(a)
        coefs = []
        for k in range(d + 1):
            coefs.append((-1) ** k / a ** (k + 1) if abs(a) > 1e-30 and abs(a) < 1e30 else float(mpmath.mpf(-1) ** k / mpmath.mpf(a) ** (k + 1)))
        # relative error of each coefficient <= (k+3) eps
        err = sum(abs(co) * R ** k for k, co in enumerate(coefs)) * (d + 6) * EPS
        rem = (q ** (d + 1)) / (1 - q) / abs(a)
        if not math.isfinite(rem + err):
            return None
        return self.compose(coefs, (rem + err) * (1 + 1e-12))

    def div(self, o):
        i = o.inv()
        return None if i is None else self.mul(i)

    def _apply(self, coefs_mp, rem):
        R = self.rad()
        coefs = [float(k) for k in coefs_mp]
        err = sum((abs(co) * 2 * EPS + 1e-300) * R ** k for k, co in enumerate(coefs))
        if not math.isfinite(rem + err):
            return None
        return self.compose(coefs, (rem + err) * (1 + 1e-12))

    def sincos(self, which):
        a = mpmath.mpf(float(self.c[0]))
        with mpmath.workprec(120):
            s, c = mpmath.sin(a), mpmath.cos(a)
        d, R = self.S.d, self.rad()
        tab = [s, c, -s, -c] if which == "sin" else [c, -s, -c, s]
        coefs = [tab[k % 4] / mpmath.factorial(k) for k in range(d + 1)]
        return self._apply(coefs, R ** (d + 1) / math.factorial(d + 1))

    def sin(self):
        return self.sincos("sin")

    def cos(self):
        return self.sincos("cos")

    def exp(self):
        a = mpmath.mpf(float(self.c[0]))
        d, R = self.S.d, self.rad()
        if R > 20:
            return None
        e = mpmath.exp(a)
        coefs = [e / mpmath.factorial(k) for k in range(d + 1)]
        return self._apply(coefs, float(e * mpmath.exp(mpmath.mpf(R)) * mpmath.mpf(R) ** (d + 1) / mpmath.factorial(d + 1)) * (1 + 1e-12))

    def log(self):
        z = self.scaled() if self.c[0] > 0 else None
        if z:
            i = z[0].log()
            if i is None:
                return None
            k = mpmath.log(2) * z[1]
            return i.addc(float(k)).widen(abs(float(k)) * 2 * EPS)
        a = mpmath.mpf(float(self.c[0]))
        d, R = self.S.d, self.rad()
        if a <= 0 or R >= float(a) * 0.95:
            return None
        q = R / float(a)
        coefs = [mpmath.log(a)] + [(-1) ** (k + 1) / (k * a ** k) for k in range(1, d + 1)]
        rem = q ** (d + 1) / (d + 1) / (1 - q)
        return self._apply(coefs, rem)

    def powr(self, p):
        """self**p for a real exponent p (self > 0)"""
        a = mpmath.mpf(float(self.c[0]))
        d, R = self.S.d, self.rad()
        if a <= 0 or R >= float(a) * 0.95:
            return None
        q = R / float(a)
        p = mpmath.mpf(p)
        base = a ** p
        co, coefs = mpmath.mpf(1), []
        for k in range(d + 1):
            coefs.append(co * base / a ** k)
            co = co * (p - k) / (k + 1)
        # |binom(p,k)| ratio |(p-k)/(k+1)| <= max(1, |p|+...) ; bound the tail by a geometric series
        ratio = max(1.0, (abs(float(p)) + d + 1) / (d + 2)) * q
        if ratio >= 0.99:
            return None
        rem = float(abs(co) * abs(base)) * q ** (d + 1) / (1 - ratio)
        return self._apply(coefs, rem)

    def sqrt(self):
        return self.powr(mpmath.mpf(1) / 2)

    def atan(self):
        a = mpmath.mpf(float(self.c[0]))
        d, R = self.S.d, self.rad()
        # coefficients of atan around a: Im of the series of log; |coef_k| <= 1/(k (1+a^2)^(k/2))
        coefs = [mpmath.atan(a)]
        w = 1 / mpmath.mpc(a, -1)  # 1/(a - i)
        p = mpmath.mpc(1)
        for k in range(1, d + 1):
            p = p * w
            # d^k/dx^k atan = (-1)^(k-1) (k-1)! Im( 1/(x-i)^k )
            coefs.append((-1) ** (k - 1) * p.imag / k)
        # Lagrange: the (d+1)-th coefficient at any point xi is <= 1/((d+1)(1+xi^2)^((d+1)/2))
        lo = max(0.0, abs(float(a)) - R)
        rem = R ** (d + 1) / (d + 1) / (1 + lo * lo) ** ((d + 1) / 2)
        return self._apply(coefs, rem)

    def asin(self):
        """asin(x) = atan(x / sqrt(1 - x^2)), |x| < 1"""
        one = TM.const(self.S, 1.0)
        w = one.sub(self).mul(one.add(self))
        s = w.powr(mpmath.mpf(-1) / 2)
        if s is None:
            return None
        return self.mul(s).atan()

    def acos(self):
        a = self.asin()
        return None if a is None else a.neg().addc(math.pi / 2).widen(1e-16)
