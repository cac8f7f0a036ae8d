"""P21: Fresnel integrals against their power series and asymptotic expansion, on the whole real line."""
import math
from fractions import Fraction
import core
from dag import Norm, Unsupported, run_norm
from flips import want
from props_base import Prop
import vc

EPS = Fraction(1, 10 ** 9)
SPLIT = Fraction(9, 2)      # power series below, asymptotic expansion above


def truth(s):
    import mpmath as mp
    mp.mp.dps = 30
    return float(mp.fresnelc(s)), float(mp.fresnels(s))


class Uni:
    """normal form as sum over units e^{i k x}, x = pi s^2 / 2, of Laurent polynomials in s with real coefficients:
    value = P0(s) + P1(s) cos x + P2(s) sin x"""

    def __init__(self, n, P):
        import mpmath as mp
        R = n.R
        self.part = [{}, {}, {}]
        E = {}
        for m, c in P.d.items():
            k = 0
            co = mp.mpf(Fraction(c).numerator) / Fraction(c).denominator
            e = 0
            im = 0
            for i, x in R.exps(m):
                nm = R.names[i]
                if R.kind[i] == 'I':
                    im = x & 3
                elif nm == 'sqrtpi':
                    co *= mp.sqrt(mp.pi) ** x
                elif nm == 's':
                    e += x
                elif R.kind[i] == 'rad' and not R.defn[i].vars():
                    co *= mp.sqrt(mp.mpf(R.defn[i].constval().numerator) / R.defn[i].constval().denominator) ** x
                elif nm == 'e:1*sqrtpi^2*s^2' and x % 12 == 0:
                    k = x // 12
                else:
                    raise Unsupported('fresnel form ' + nm)
            co = co * mp.mpc(0, 1) ** im
            d = E.setdefault(k, {})
            d[e] = d.get(e, 0) + co
        for k, d in E.items():
            if abs(k) > 1:
                raise Unsupported('harmonics')
            for e, c in d.items():
                if k == 0:
                    self.add(0, e, c)
                else:   # c e^{ikx} = c cos + i k c sin
                    self.add(1, e, c)
                    self.add(2, e, c * mp.mpc(0, k))
        for j in range(3):
            for e, c in self.part[j].items():
                if abs(c.imag) > mp.mpf(10) ** -60 * (1 + abs(c)):
                    raise Unsupported('complex')
            self.part[j] = {e: c.real for e, c in self.part[j].items() if c.real != 0}

    def add(self, j, e, c):
        import mpmath as mp
        self.part[j][e] = self.part[j].get(e, mp.mpf(0)) + mp.mpc(c)


def series(kind, N=78):
    """{exponent of s: coefficient}, remainder exponent/coefficient (first omitted term)"""
    import mpmath as mp
    h = mp.pi / 2
    d = {}
    off = 0 if kind == 'C' else 1
    for j in range(N):
        k = 2 * j + off
        d[2 * k + 1] = (-1) ** j * h ** k / mp.factorial(k) / (2 * k + 1)
    k = 2 * N + off
    return d, (2 * k + 1, h ** k / mp.factorial(k) / (2 * k + 1))


def trig(kind, N=78):
    import mpmath as mp
    h = mp.pi / 2
    off = 0 if kind == 'cos' else 1
    d = {2 * (2 * j + off): (-1) ** j * h ** (2 * j + off) / mp.factorial(2 * j + off) for j in range(N)}
    k = 2 * N + off
    return d, (2 * k, h ** k / mp.factorial(k))


def mul(a, b):
    out = {}
    for e, c in a.items():
        for f, d in b.items():
            out[e + f] = out.get(e + f, 0) + c * d
    return out


def plus(a, b, s=1):
    out = dict(a)
    for e, c in b.items():
        out[e] = out.get(e, 0) + s * c
    return out


def shift(d, c, deg, h):
    """polynomial {exp >= 0: coef} around c: list of Taylor coefficients up to deg, and a bound of the rest on |u| <= h"""
    import mpmath as mp
    n = max(d) if d else 0
    a = [d.get(k, mp.mpf(0)) for k in range(n + 1)]
    out = []
    rest = mp.mpf(0)
    # repeated synthetic division
    for k in range(n + 1):
        for i in range(n - 1, k - 1, -1):
            a[i] = a[i] + c * a[i + 1]
        if k <= deg:
            out.append(a[k])
        else:
            t = abs(a[k]) * h ** k
            rest += t
            if t < mp.mpf(10) ** -80 and k > deg + 30 and k > n // 2:
                rest += (n - k) * t
                break
    return out, rest


def q30(x):
    import mpmath as mp
    return Fraction(int(mp.nint(x * mp.mpf(10) ** 40)), 10 ** 40)


class P21(Prop):
    pid = 'P21'
    flip = False
    sec_quick = 200
    sec_thorough = 900
    budget_quick = 400
    bounds = ('input: every real argument s (no bound); classes: the branches of the routine for small/large and negative/non-negative arguments; '
              'libm sqrt, sin, cos exact; the truth is the power series (|s| <= 4.5) and the enveloping asymptotic expansion (|s| > 4.5), truncation errors included')
    explain = ('The routine is executed symbolically (not abstracted); each output is a Laurent polynomial in s times 1, cos(pi s^2/2), sin(pi s^2/2). '
               'On every piece of a partition of the real line z3 decides whether |output - integral| can exceed 1e-9 under the branch condition of the '
               'class, and that the classes cover the line.')

    def jobs(self, tier, seed):
        import random
        r = random.Random(seed)
        out = []
        xs = [0.0, 1e-9, 1e-3, .5, 1.0, 2.0, 2.2, 2.2567, 2.25676, 2.3, 3.0, 4.0, 4.5, 7.0, 40.0, 300.0]
        xs += [r.uniform(0, 5) for _ in range(300)] + [10 ** r.uniform(-6, 4) for _ in range(80)]
        for i, x in enumerate(xs):
            out.append('f%d util fresnel %r' % (i, x))
            out.append('g%d util fresnel %r' % (i, -x))
        return out

    def oracle(self, sc, sp, v, outs, ints):
        C, S = truth(v[0])
        t = 1e-9 if abs(v[0]) < 1e3 else 1e-6
        return [('C', abs(outs['C'] - C), t, t), ('S', abs(outs['S'] - S), t, t)]

    def vcs(self, tr, line):
        import mpmath as mp
        mp.mp.dps = 140
        core.WIT.clear()
        n = Norm(tr, maxterms=60000)

        def b(n):
            o = [vc.val(n, tr.outs['C']), vc.val(n, tr.outs['S'])]
            pcs = []
            for p in tr.pc:
                if p[0] == 'm' or p[0] >= 100:
                    continue
                pred, x, y, res, site = p
                if x and y:
                    pcs.append((n.get(x) - n.get(y), want(pred, not res)))
            return o, pcs
        o, pcs = run_norm(n, b)
        sg = 1 if float(line.split()[3]) >= 0 else -1
        cond = self.conds(n, pcs)
        out = []
        for kind, P in zip('CS', o):
            U = Uni(n, P)
            out.append((kind, self.cover(U, kind, sg, cond)))
        return out

    def conds(self, n, pcs):
        cond = []
        for P, r in pcs:
            try:
                u = Uni(n, P)
            except Unsupported:
                continue
            if not u.part[1] and not u.part[2] and (not u.part[0] or min(u.part[0]) >= 0):
                cond.append((u.part[0], r))
        return cond

    def global_vcs(self, traces):
        """is there a real number in none of the visited classes?"""
        import z3
        import mpmath as mp
        mp.mp.dps = 60
        s = z3.Solver()
        x = z3.Real('x')
        for tr, line in traces:
            n = Norm(tr, maxterms=60000)

            def b(n):
                return [(n.get(p[1]) - n.get(p[2]), want(p[0], not p[3])) for p in tr.pc if p[0] != 'm' and p[0] < 100 and p[1] and p[2]]
            pcs = run_norm(n, b)
            cond = self.conds(n, pcs)
            if len(cond) != len(pcs):
                return [('classes cover the line', 'unknown')], []
            t = z3.Solver()
            self.pcz(z3, t, cond, x, 1)
            s.add(z3.Not(z3.And(*t.assertions())))
        r = core.z3_check(s, 10000)
        sug = []
        if r == 'sat':
            v = s.model()[x]
            try:
                sug = ['gap util fresnel %r' % float(v.as_fraction())]
            except Exception:
                sug = ['gap util fresnel %r' % float(v.approx(20).as_fraction())]
        return [('classes cover the line', r)], sug

    def pcz(self, z3, s, cond, var, sg):
        for d, r in cond:
            e = z3.Sum([z3.RealVal(str(q30(c * sg ** k))) * (var ** k if k else 1) for k, c in d.items()] + [z3.RealVal(0)])
            s.add({'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0, '==': e == 0, '!=': e != 0}[r])

    def cover(self, U, kind, sg, cond):
        """all |s|: value at sg * a for a in [0, oo)"""
        import z3
        import mpmath as mp
        step = Fraction(1, 16)
        verdict = 'unsat'
        lo = Fraction(0)
        pieces = []
        while lo < SPLIT:
            pieces.append((lo, min(lo + step, SPLIT)))
            lo += step
        for a, b in pieces:
            s = z3.Solver()
            x = z3.Real('x')
            s.add(x >= z3.RealVal(str(a)), x <= z3.RealVal(str(b)))
            self.pcz(z3, s, cond, x, sg)
            if core.z3_check(s, 5000) == 'unsat':
                continue
            r = self.piece(U, kind, sg, cond, a, b, 0)
            if r != 'unsat':
                verdict = r
        r = self.tail(U, kind, sg, cond)
        return r if verdict == 'unsat' else verdict

    def diff(self, U, kind, sg):
        if hasattr(U, 'cache'):
            return U.cache
        import mpmath as mp
        P0 = {e: c * sg ** (e % 2) for e, c in U.part[0].items()}
        P1 = {e: c * sg ** (e % 2) for e, c in U.part[1].items()}
        P2 = {e: c * sg ** (e % 2) for e, c in U.part[2].items()}
        T, rT = series(kind)
        D = plus(P0, T, -sg)
        rem = [({0: mp.mpf(1)}, rT)]
        if P1 or P2:
            cs, rc = trig('cos')
            sn, rs = trig('sin')
            D = plus(D, plus(mul(P1, cs), mul(P2, sn)))
            rem += [(P1, rc), (P2, rs)]
        U.cache = D, rem
        return U.cache

    def piece(self, U, kind, sg, cond, a, b, depth):
        import z3
        import mpmath as mp
        D, rem = self.diff(U, kind, sg)
        M = max(0, -min(D)) if D else 0
        c = mp.mpf(a.numerator + 0) / a.denominator
        c = (c + mp.mpf(b.numerator) / b.denominator) / 2
        h = (mp.mpf(b.numerator) / b.denominator - mp.mpf(a.numerator) / a.denominator) / 2
        if M and a == 0:
            return 'unknown'
        sc = (c - h) ** M          # compare s^M * difference with a^M * eps
        deg = 6
        co, rest = shift({e + M: x for e, x in D.items()}, c, deg, h)
        co = [x / sc for x in co]
        rest = rest / sc
        for P, (e, k) in rem:
            rest += sum(abs(x) * (c + h if f >= 0 else c - h) ** f for f, x in P.items()) * k * (c + h) ** e * ((c + h) / (c - h)) ** M if c > h else \
                sum(abs(x) * (c + h) ** f for f, x in P.items()) * k * (c + h) ** e
        rest += mp.mpf(10) ** -30
        s = z3.Solver()
        u, r = z3.Real('u'), z3.Real('r')
        H, RQ = q30(h), q30(rest) + Fraction(1, 10 ** 39)
        s.add(u >= z3.RealVal(str(-H)), u <= z3.RealVal(str(H)), r >= z3.RealVal(str(-RQ)), r <= z3.RealVal(str(RQ)))
        e = r
        for k, x in enumerate(co):
            e = e + z3.RealVal(str(q30(x))) * (u ** k if k else 1)
        s.add(z3.Or(e > z3.RealVal(str(EPS)), e < z3.RealVal(str(-EPS))))
        C = q30(c)
        self.pcz(z3, s, cond, u + z3.RealVal(str(C)), sg)
        v = core.z3_check(s, 8000)
        if v == 'unsat':
            return v
        if depth < 5 and rest > mp.mpf(10) ** -10:
            m = (a + b) / 2
            r1 = self.piece(U, kind, sg, cond, a, m, depth + 1)
            r2 = self.piece(U, kind, sg, cond, m, b, depth + 1)
            return r1 if r1 != 'unsat' else r2
        if v == 'sat':
            core.WIT.append('w util fresnel %r' % (float(c) * sg))
            core.WIT.append('v util fresnel %r' % (float(c - h) * sg))
            core.WIT.append('u util fresnel %r' % (float(c + h) * sg))
        return v

    def tail(self, U, kind, sg, cond):
        """s = 1/w, 0 < w <= 1/SPLIT: coefficients of 1, cos, sin separately"""
        import z3
        import mpmath as mp
        N = 12

        def df(k):
            o = mp.mpf(1)
            while k > 1:
                o *= k
                k -= 2
            return o
        # f = 1/(pi s) sum (-1)^m (4m-1)!!/(pi s^2)^{2m},  g = 1/(pi^2 s^3) sum (-1)^m (4m+1)!!/(pi s^2)^{2m}
        f = {4 * m + 1: (-1) ** m * df(4 * m - 1) / mp.pi ** (2 * m + 1) for m in range(N)}
        g = {4 * m + 3: (-1) ** m * df(4 * m + 1) / mp.pi ** (2 * m + 2) for m in range(N)}
        rf = (4 * N + 1, df(4 * N - 1) / mp.pi ** (2 * N + 1))
        rg = (4 * N + 3, df(4 * N + 1) / mp.pi ** (2 * N + 2))
        # C = 1/2 + f sin - g cos ; S = 1/2 - f cos - g sin   (s > 0)
        if kind == 'C':
            T = [{0: mp.mpf(1) / 2}, {e: -c for e, c in g.items()}, f]
        else:
            T = [{0: mp.mpf(1) / 2}, {e: -c for e, c in f.items()}, {e: -c for e, c in g.items()}]
        D = []
        for j in range(3):
            P = {-e: c * sg ** (e % 2) for e, c in U.part[j].items()}
            D.append({e: c for e, c in plus(P, T[j], -sg).items() if c != 0})
        wmax = 1 / (mp.mpf(SPLIT.numerator) / SPLIT.denominator)
        if any(d and min(d) < 0 for d in D):
            # polynomial growth: only acceptable when the branch is not taken for large s
            s = z3.Solver()
            x = z3.Real('x')
            s.add(x >= z3.RealVal(str(SPLIT)))
            self.pcz(z3, s, cond, x, sg)
            r = core.z3_check(s, 5000)
            if r == 'unsat':
                return r
            core.WIT.append('t util fresnel %r' % (6.0 * sg))
            return 'sat' if r == 'sat' else 'unknown'
        K = 8
        res = 'unsat'
        for i in range(K):
            lo, hi = wmax * i / K, wmax * (i + 1) / K
            c, h = (lo + hi) / 2, (hi - lo) / 2
            # |D0| + |D1| + |D2| + remainders: each part within a quarter of the bound
            rest = rf[1] * hi ** rf[0] + rg[1] * hi ** rg[0] + mp.mpf(10) ** -30
            v = 'unsat' if q30(rest) * 4 <= EPS else 'unknown'
            for j in range(3):
                if not D[j] or v != 'unsat':
                    continue
                s = z3.Solver()
                u, r = z3.Real('u'), z3.Real('r')
                co, rr = shift(D[j], c, 6, h)
                RQ = q30(rr) + Fraction(1, 10 ** 38)
                s.add(u >= z3.RealVal(str(-q30(h))), u <= z3.RealVal(str(q30(h))), r >= z3.RealVal(str(-RQ)), r <= z3.RealVal(str(RQ)))
                e = z3.Sum([z3.RealVal(str(q30(x))) * (u ** k if k else 1) for k, x in enumerate(co)]) + r
                s.add(z3.Or(e > z3.RealVal(str(EPS / 4)), e < z3.RealVal(str(-EPS / 4))))
                v = core.z3_check(s, 10000)
            if v != 'unsat':
                res = v
                for q in (c, lo + h / 4, hi):
                    core.WIT.append('z%d util fresnel %r' % (i, float(sg / q)))
        # is the branch taken there at all?
        if res != 'unsat':
            s = z3.Solver()
            x = z3.Real('x')
            s.add(x >= z3.RealVal(str(SPLIT)))
            self.pcz(z3, s, cond, x, sg)
            if core.z3_check(s, 5000) == 'unsat':
                return 'unsat'
        return res
