"""Equality of lengths that contain wrapped angles: the algebraic part is an identity of normal forms, the angular part is
linear over angle atoms (atan2, asin, acos and the results of wrapping), decided by z3 in mixed integer arithmetic from the
atoms' ranges and from congruences modulo 2 pi that are themselves identities of unit normal forms."""
import math
from fractions import Fraction
import core
from algebra import Poly, SH
from dag import Unsupported

TWO_PI = 2 * math.pi


class Lin:
    def __init__(self, n):
        self.n = n
        self.w = {}          # int var -> wrap atom var
        self.rng = {}        # angle var -> (lo, hi, lo_open, hi_open) in multiples of pi
        self.cong = {}

    def wrap_atom(self, i):
        n, R = self.n, self.n.R
        if i in self.w:
            return self.w[i]
        kind, Q = n.intdefs[i]
        P = Q * 2 * R.v(1, 2)
        P = self.noint(P)
        val = P.numeval().real - TWO_PI * float(R.num[i])
        if kind == 'floor' and val < 0 and val > -1e-9:
            val = 0.0
        # the same wrapped angle reached by two computations: same unit, same range -> same atom
        U = n.expi(P)
        for (k2, U2, v2) in self.cong.get('w', []):
            if k2 == kind and abs(R.num[v2] - val) < 1e-9 and self.same_unit(U, U2):
                self.w[i] = (P, v2)
                return self.w[i]
        v = R.newvar('wr:%d' % i, 'real', val)
        n.ang[v] = ('alg', U)
        self.rng[v] = (0, 2, False, True) if kind == 'floor' else (-2, 2, True, True) if kind == 'trunc' else (-2, 0, True, False)
        self.cong.setdefault('w', []).append((kind, U, v))
        self.w[i] = (P, v)
        return self.w[i]

    def same_unit(self, U, V):
        if U.d == V.d:
            return True
        try:
            if abs(U.numeval() - V.numeval()) > 1e-7:
                return False
        except ZeroDivisionError:
            return False
        return core.decide_sum_zero(self.n, [U, -V]) == 'unsat'

    def noint(self, X):
        """eliminate wrap counters: n = (P - W) / 2 pi"""
        n, R = self.n, self.n.R
        for _ in range(40):
            ints = [i for i in X.vars() if R.kind[i] == 'int']
            if not ints:
                return X
            i = max(ints)
            if i not in n.intdefs:
                raise Unsupported('int')
            P, v = self.wrap_atom(i)
            X = X.subs(i, (P - R.v(v)) * Fraction(1, 2) * R.v(1, -2))
        raise Unsupported('nesting')

    def range_of(self, v):
        if v in self.rng:
            return self.rng[v]
        d = self.n.angdefs.get(v)
        if d is None:
            return None
        if d[0] == 'arg':
            return (-1, 1, False, False)
        if d[0] == 'asin':
            return (Fraction(-1, 2), Fraction(1, 2), False, False)
        if d[0] == 'acos':
            return (0, 1, False, False)
        return None

    def groups(self, X):
        """{cofactor monomial: ({angle var: coef}, pi coef)}, remainder"""
        n, R = self.n, self.n.R
        g = {}
        rest = {}
        pend = []
        for m, c in X.d.items():
            a = [i for i, e in R.exps(m) if e == 1 and i in n.ang and self.range_of(i) is not None]
            if len(a) == 1:
                cof = m - (1 << (SH * a[0]))
                g.setdefault(cof, ({}, [Fraction(0)]))[0][a[0]] = Fraction(c)
            elif not a:
                pend.append((m, c))
            else:
                raise Unsupported('product of angles')
        for m, c in pend:
            cof = m - (2 << (SH * 1))
            if cof in g:
                g[cof][1][0] += Fraction(c)
            else:
                rest[m] = c
        return g, Poly(R, rest)

    def zero(self, X, facts=()):
        """is X identically zero?"""
        n, R = self.n, self.n.R
        X = self.noint(X)
        if not X.d:
            return self.trivial()
        g, rest = self.groups(X)
        if rest.d:
            r = core.decide_sum_zero(n, [rest])
            if r != 'unsat':
                return r
        for cof, (co, pc) in g.items():
            r = self.lin_zero(co, pc[0], facts)
            if r != 'unsat':
                return r
        if not g and not rest.d:
            return self.trivial()
        return 'unsat'

    def trivial(self):
        return core.z3_sum_nonzero([])

    def congruences(self, vs):
        n, R = self.n, self.n.R
        out = []
        vs = sorted(vs)
        for x in range(len(vs)):
            for y in range(x + 1, len(vs)):
                a, b = vs[x], vs[y]
                key = (a, b)
                if key not in self.cong:
                    fnd = []
                    va, vb = float(R.num[a]), float(R.num[b])
                    for p, q in ((1, -1), (1, 1), (1, -2), (1, 2), (2, -1), (2, 1)):
                        t = (p * va + q * vb) / (math.pi / 2)
                        k = round(t)
                        if abs(t - k) < 1e-8:
                            try:
                                U = n.expi(R.v(a) * p + R.v(b) * q)
                            except Unsupported:
                                continue
                            c = [R.one, R.I, -R.one, -R.I][k % 4]
                            if self.same_unit(U, c):
                                fnd.append((p, q, k % 4))
                                break
                    self.cong[key] = fnd
                for p, q, k in self.cong[key]:
                    out.append(({a: p, b: q}, Fraction(k, 2)))
        return out

    def lin_zero(self, co, pic, facts):
        import z3
        n, R = self.n, self.n.R
        co = {v: c for v, c in co.items() if c}
        if not co and not pic:
            return self.trivial()
        vs = set(co)
        fc = [f for f in facts if set(f[0]) & vs]
        for f in fc:
            vs |= set(f[0])
        s = z3.Solver()
        Z = {v: z3.Real('a%d' % v) for v in vs}
        for v in vs:
            r = self.range_of(v)
            if r is None:
                continue
            lo, hi, lop, hop = r
            s.add(Z[v] > z3.RealVal(str(lo)) if lop else Z[v] >= z3.RealVal(str(lo)))
            s.add(Z[v] < z3.RealVal(str(hi)) if hop else Z[v] <= z3.RealVal(str(hi)))
        cg = self.congruences(vs)
        # the sum itself
        den = 1
        for c in list(co.values()) + [pic]:
            den = den * c.denominator // math.gcd(den, c.denominator)
        mul = den
        P = R.zero
        for v, c in co.items():
            P = P + R.v(v) * (c * mul)
        P = P + R.v(1, 2) * (pic * mul)
        if abs(P.numeval()) < 1e-6:
            try:
                if self.same_unit(n.expi(P), R.one):
                    cg.append(({v: c * mul for v, c in co.items()}, -pic * mul))
            except Unsupported:
                pass
        for k, (cc, rhs) in enumerate(cg):
            i = z3.Int('k%d' % k)
            s.add(z3.Sum([Z[v] * z3.RealVal(str(c)) for v, c in cc.items()]) == z3.RealVal(str(rhs)) + 2 * z3.ToReal(i))
        for cc, rhs, rel in fc:
            e = z3.Sum([Z[v] * z3.RealVal(str(c)) for v, c in cc.items()]) + z3.RealVal(str(rhs))
            s.add({'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[rel])
        s.add(z3.Sum([Z[v] * z3.RealVal(str(c)) for v, c in co.items()]) + z3.RealVal(str(pic)) != 0)
        return core.z3_check(s, 5000)

    def facts(self, near=False):
        """branch outcomes that are linear in angle atoms"""
        n, R, tr = self.n, self.n.R, self.n.tr
        from flips import want
        out = []
        seen = set()
        for p in tr.pc:
            if p[0] == 'm' or p[0] >= 100 or len(out) > 60:
                continue
            pred, a, b, o, site = p
            if (a, b, o) in seen:
                continue
            seen.add((a, b, o))
            def known(x):
                if x in n.memo or not x or tr.op.get(x) == 'const':
                    return True
                if near and tr.op.get(x) in ('neg', 'add', 'sub'):
                    return all(y in n.memo or not y or tr.op.get(y) == 'const' for y in (tr.a.get(x), tr.b.get(x)))
                return False
            if not (known(a) and known(b)):
                continue
            try:
                A = n.get(a) if a else None
                B = n.get(b) if b else None
                if A is None or B is None:
                    continue
                g, rest = self.groups(self.noint(A - B))
            except Unsupported:
                continue
            if set(g) != {0}:
                continue
            co, pc = g[0]
            c0 = Fraction(0)
            ok = True
            for m, c in rest.d.items():
                if m == 0:
                    c0 += Fraction(c) / Fraction(math.pi)
                elif m == (2 << SH):
                    pc[0] += Fraction(c)
                else:
                    ok = False
            if not ok or c0:
                continue
            w = want(pred, not o)
            if w in ('<', '<=', '>', '>='):
                out.append((co, pc[0], w))
        return out
