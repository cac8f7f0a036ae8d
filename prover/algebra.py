"""Laurent-polynomial algebra over Q(i) with unit-circle variables, radicals and named denominators.

A Poly is a dict {monomial: coefficient}; a monomial is a single Python int packing one signed 16-bit
exponent per variable (so multiplying monomials is integer addition).  Variable kinds:
  I     imaginary unit (I^2 = -1)
  real  free real quantity           conj(v) = v
  unit  e^{i a}                      conj(v) = v^-1
  cplx  complex quantity             conj(v) = partner
  rad   real radical, r^2 = P, r>=0  conj(v) = v
  urad  unit complex radical v^2 = U conj(v) = v^-1 = v * conj(U)
  sgn   +-1, w^2 = 1                 conj(v) = v
  den   named denominator q = Q      conj = conj(q) looked up
  int   integer symbol (real)
"""
from fractions import Fraction
import math

SH = 16
B = 1 << SH
HALF = 0x8000
MASK = 0xFFFF


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, maxterms=20000):
        self.names = []
        self.kind = []
        self.defn = []      # rad: Poly P ; urad: Poly U ; den: Poly Q
        self.partner = []
        self.num = []       # numeric value (complex or float)
        self.red = []       # indices of reducible vars
        self.byname = {}
        self.bias = 0
        self.maxterms = maxterms
        self.rad_cache = []
        self.den_cache = []
        self.ops = 0
        self.I = self.var('I', 'I', 1j)
        self.one = self.const(1)
        self.zero = Poly(self, {})
        self.sqrtpi = self.var('sqrtpi', 'real', math.sqrt(math.pi))
        self.pi = self.sqrtpi * self.sqrtpi
        self._r2 = None
        self.rad_alias = []   # (Q, poly s with s^2 = Q, s >= 0)
        self.wrel = {}        # unit var -> ('asin'|'acos', A): deferred defining relation

    def sqrt2(self):
        if self._r2 is None:
            two = self.const(2)
            i = self.newvar('r2', 'rad', math.sqrt(2.0), two)
            self.rad_cache.append((i, two))
            self._r2 = i
        return self.v(self._r2)

    def newvar(self, name, kind, num, defn=None, partner=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.defn.append(defn)
        self.partner.append(partner)
        self.num.append(num)
        self.byname[name] = i
        self.bias += HALF << (SH * i)
        if kind in ('I', 'rad', 'urad', 'sgn'):
            self.red.append(i)
        return i

    def var(self, name, kind='real', num=None, defn=None, partner=None):
        if name in self.byname:
            return self.v(self.byname[name])
        i = self.newvar(name, kind, num, defn, partner)
        return self.v(i)

    def v(self, i, e=1):
        return Poly(self, {e << (SH * i) if e >= 0 else -((-e) << (SH * i)): 1})

    def const(self, c):
        c = Fraction(c)
        if c == 0:
            return Poly(self, {})
        return Poly(self, {0: int(c) if c.denominator == 1 else c})

    def exps(self, m):
        m += self.bias
        out = []
        i = 0
        n = len(self.names)
        for i in range(n):
            e = ((m >> (SH * i)) & MASK) - HALF
            if e:
                out.append((i, e))
        return out

    def exp(self, m, i):
        return (((m + self.bias) >> (SH * i)) & MASK) - HALF

    def reduce(self, d):
        """apply I^2=-1, r^2=P, v^2=U, w^2=1 to a raw dict"""
        red = self.red
        if not red:
            return {m: c for m, c in d.items() if c}
        out = {}
        bias = self.bias
        todo = None
        for m, c in d.items():
            if not c:
                continue
            mb = m + bias
            bad = False
            for i in red:
                e = (mb >> (SH * i)) & MASK
                if e != HALF and e != HALF + 1:
                    k = self.kind[i]
                    e -= HALF
                    if k == 'I':
                        q = e % 4
                        m -= (e - (q & 1)) * (1 << (SH * i))
                        if q >= 2:
                            c = -c
                        mb = m + bias
                    elif k == 'sgn':
                        m -= (e - (e & 1)) * (1 << (SH * i))
                        mb = m + bias
                    else:
                        P = self.defn[i]
                        if k == 'rad' and e < 0 and len(P.d) != 1:
                            continue  # kept as Laurent (1/r with r^2 = sum)
                        bad = True
                        break
            if bad:
                if todo is None:
                    todo = []
                todo.append((m, c, i, e))
            else:
                out[m] = out.get(m, 0) + c
        if todo:
            acc = Poly(self, {m: c for m, c in out.items() if c})
            groups = {}
            for m, c, i, e in todo:
                r = e & 1
                k = (e - r) // 2
                mm = m - ((e - r) * (1 << (SH * i)))
                g = groups.setdefault((i, k), {})
                g[mm] = g.get(mm, 0) + c
            for (i, k), g in groups.items():
                P = self.defn[i]
                if k > 0:
                    f = P ** k
                else:
                    f = (P.conj() if self.kind[i] == 'urad' else P.inv_mono()) ** (-k)
                acc = acc + Poly(self, self.reduce(g)) * f
            return acc.d
        return {m: c for m, c in out.items() if c}

    # ---- denominators and radicals --------------------------------------------------
    def inverse(self, P):
        if not P.d:
            raise ZeroDivisionError
        if len(P.d) == 1:
            return P.inv_mono()
        # pull out monomial content & rational content
        lead, Q = self.den_split(P)
        nv = Q.numeval()
        if abs(nv.imag) <= 1e-12 * (abs(nv.real) + 1e-300):
            nv = complex(nv.real, 0.0)
        for (j, R) in self.den_cache:
            if R.d == Q.d:
                return lead.inv_mono() * self.v(j, -1)
            # const multiple / sign handled by split_lead normalisation
        # radical conjugate rationalisation: if Q = A + B r with r a rad -> keep simple, named denominator
        name = 'q%d' % len(self.names)
        i = self.newvar(name, 'den', nv, Q)
        self.den_cache.append((i, Q))
        return lead.inv_mono() * self.v(i, -1)

    def den_split(self, P):
        """P = lead*Q; Q is real-valued (and positive at the seed) whenever P is real-valued"""
        v = P.numeval()
        if abs(v.imag) <= 1e-9 * (abs(v.real)) and P.conj().d == P.d:
            ms = list(P.d)
            mono = 0
            for i in P.vars():
                if self.kind[i] in ('real', 'int'):
                    mono += min(self.exp(m, i) for m in ms) * (1 << (SH * i))
            den = 1
            num = 0
            for c in P.d.values():
                f = Fraction(c)
                den = den * f.denominator // math.gcd(den, f.denominator)
            for c in P.d.values():
                num = math.gcd(num, int(c * den))
            ct = Fraction(num, den)
            lead = Poly(self, {mono: int(ct) if ct.denominator == 1 else ct})
            Q = P * lead.inv_mono()
            if Q.numeval().real < 0:
                Q = -Q
                lead = -lead
            return lead, Q
        return P.split_lead()

    def sqrt_w(self, P):
        """rewrite P with each deferred unit variable W expressed through an ordinary radical, look for a perfect
        square there; returns (P in canonical form, root or None)"""
        ws = [i for i in P.vars() if i in self.wrel]
        if not ws or len(P.d) > 300:
            return P, None
        back = []
        for i in ws:
            op, A = self.wrel[i]
            es = [self.exp(m, i) for m in P.d]
            if any(e % 24 for e in es) or max(map(abs, es)) > 96:
                return P, None
            D2 = self.one - A * A
            c, Q = D2.square_content()
            nm = 'wr:%d' % i
            j = None
            if nm in self.byname and self.defn[self.byname[nm]].d == Q.d:
                j = self.byname[nm]
            else:
                j = self.newvar(nm, 'rad', math.sqrt(max(Q.numeval().real, 0.0)), Q)
            rad = c * self.v(j)
            if op == 'asin':
                U = rad + A * self.I
                Ui = rad - A * self.I
                comp = (self.v(i, 24) + self.v(i, -24)) * Fraction(1, 2)
            else:
                U = A + rad * self.I
                Ui = A - rad * self.I
                comp = (self.v(i, 24) - self.v(i, -24)) * self.I * Fraction(-1, 2)
            back.append((j, comp * c.inv_mono()))
            groups = {}
            for m, cc in P.d.items():
                e = self.exp(m, i)
                groups.setdefault(e, {})[m - e * (1 << (SH * i))] = cc
            acc = self.zero
            for e, g in groups.items():
                f = U ** (e // 24) if e >= 0 else Ui ** ((-e) // 24)
                acc = acc + Poly(self, g) * f
            P = acc
        if not P.d:
            return P, P
        s = P.perfect_sqrt()
        for j, comp in back:
            es = [self.exp(m, j) for m in P.d] + ([self.exp(m, j) for m in s.d] if s is not None else [])
            if es and min(es) < 0:
                return P, None
            P = P.subs(j, comp)
            if s is not None:
                s = s.subs(j, comp)
        return P, s

    def sqrt(self, P, num=None):
        """returns poly s with s^2 = P and s numerically >= 0 at the seed (or None)"""
        if not P.d:
            return P
        s = P.perfect_sqrt()
        if s is None and self.wrel:
            P, s = self.sqrt_w(P)
        if s is not None:
            v = s.numeval()
            return s if v.real >= 0 else -s
        # factor out even monomial content
        c, Q = P.square_content()
        qn = Q.numeval()
        for (Qa, sa) in self.rad_alias:
            if len(Qa.d) == len(Q.d):
                ra = Q.ratio(Qa)
                if ra is not None:
                    t = Poly(self, ra).perfect_sqrt()
                    if t is not None:
                        s = c * t * sa
                        return s if s.numeval().real >= 0 else -s
        if Q.d == {0: 2}:
            return c * self.sqrt2() if c.numeval().real >= 0 else -c * self.sqrt2()
        for (j, R) in self.rad_cache:
            if R.d == Q.d:
                s = c * self.v(j)
                v = s.numeval()
                return s if v.real >= 0 else -s
        # proportional to an existing radical?
        for (j, R) in self.rad_cache:
            if len(R.d) == len(Q.d):
                ra = Q.ratio(R)
                if ra is not None:
                    t = Poly(self, ra).perfect_sqrt()
                    if t is not None:
                        s = c * t * self.v(j)
                        v = s.numeval()
                        return s if v.real >= 0 else -s
        name = 'r%d' % len(self.names)
        nv = math.sqrt(max(qn.real, 0.0))
        i = self.newvar(name, 'rad', nv, Q)
        self.rad_cache.append((i, Q))
        s = c * self.v(i)
        v = s.numeval()
        return s if v.real >= 0 else -s


class Poly:
    __slots__ = ('R', 'd')

    def __init__(self, R, d):
        self.R = R
        self.d = d

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = self.R.const(o)
        if len(o.d) > len(self.d):
            a, b = o.d, self.d
        else:
            a, b = self.d, o.d
        d = dict(a)
        for m, c in b.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return Poly(self.R, d)

    __radd__ = __add__

    def __neg__(self):
        return Poly(self.R, {m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = self.R.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return self.R.zero
            o = Fraction(o)
            if o.denominator == 1:
                o = int(o)
            return Poly(self.R, {m: c * o for m, c in self.d.items()})
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        if len(a) * len(b) > 4000000 or len(a) > self.R.maxterms:
            raise TooBig()
        self.R.ops += len(a) * len(b)
        d = {}
        g = d.get
        for mb, cb in b.items():
            for ma, ca in a.items():
                m = ma + mb
                d[m] = g(m, 0) + ca * cb
        return Poly(self.R, self.R.reduce(d))

    __rmul__ = __mul__

    def __pow__(self, k):
        if k < 0:
            return self.R.inverse(self) ** (-k)
        r = self.R.one
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def key(self):
        return frozenset(self.d.items())

    def iszero(self):
        return not self.d

    def isconst(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def constval(self):
        return self.d.get(0, 0)

    def inv_mono(self):
        (m, c), = self.d.items()
        return Poly(self.R, self.R.reduce({-m: Fraction(1) / c}))

    def inv(self):
        return self.R.inverse(self)

    def conj(self):
        R = self.R
        nI = [i for i, k in enumerate(R.kind) if k in ('I', 'unit', 'cplx', 'urad', 'den')]
        out = None
        d = {}
        extra = []
        for m, c in self.d.items():
            mm = m
            mult = None
            for i in nI:
                e = R.exp(m, i)
                if not e:
                    continue
                k = R.kind[i]
                if k == 'I':
                    if e & 1:
                        c = -c
                elif k in ('unit', 'urad'):
                    mm -= 2 * e * (1 << (SH * i))
                elif k == 'cplx':
                    p = R.partner[i]
                    mm += e * ((1 << (SH * p)) - (1 << (SH * i)))
                elif k == 'den':
                    if R.partner[i] is None:
                        Qc = R.defn[i].conj()
                        if Qc.d == R.defn[i].d:
                            R.partner[i] = R.one
                        else:
                            R.partner[i] = R.inverse(Qc) * R.v(i)   # conj(q)^-1 * q
                    if not (R.partner[i].d == R.one.d):
                        f = R.partner[i] ** (-e) if e < 0 else R.partner[i].inv() ** e
                        mult = f if mult is None else mult * f
            if mult is None:
                d[mm] = d.get(mm, 0) + c
            else:
                extra.append(Poly(R, R.reduce({mm: c})) * mult)
        p = Poly(R, R.reduce(d))
        for x in extra:
            p = p + x
        return p

    def re(self):
        return (self + self.conj()) * Fraction(1, 2)

    def numeval(self):
        R = self.R
        s = 0j
        for m, c in self.d.items():
            t = complex(float(c))
            for i, e in R.exps(m):
                t *= R.num[i] ** e
            s += t
        return s

    def numscale(self):
        R = self.R
        s = 0.0
        for m, c in self.d.items():
            t = abs(float(c))
            for i, e in R.exps(m):
                t *= abs(R.num[i]) ** e
            s += t
        return s

    def vars(self):
        vs = set()
        for m in self.d:
            for i, e in self.R.exps(m):
                vs.add(i)
        return vs

    def _ord(self, m):
        return m + self.R.bias

    def lead(self):
        m = max(self.d)      # int order = lex with highest var index most significant (balanced digits)
        return m, self.d[m]

    def split_lead(self):
        """P = lead * Q with Q having leading term 1 (lead a monomial)"""
        m, c = self.lead()
        for i, e in self.R.exps(m):
            if self.R.kind[i] == 'urad':
                m -= e * (1 << (SH * i))
        lead = Poly(self.R, {m: c})
        return lead, self * lead.inv_mono()

    def square_content(self):
        """P = c^2 * Q, c monomial; Q has exponents content reduced to {0,1} minimal"""
        R = self.R
        ms = list(self.d)
        vs = self.vars()
        mono = 0
        for i in vs:
            if R.kind[i] in ('I', 'rad', 'sgn', 'urad', 'cplx') or (R.kind[i] == 'den' and complex(R.num[i]).imag != 0):
                continue
            e = min(R.exp(m, i) for m in ms)
            if R.kind[i] == 'unit':
                emax = max(R.exp(m, i) for m in ms)
                # symmetric for real polys; leave alone
                continue
            e2 = e - (e & 1)
            mono += e2 // 2 * (1 << (SH * i))
        # rational content
        den = 1
        for c in self.d.values():
            den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
        num = 0
        for c in self.d.values():
            num = math.gcd(num, int(c * den))
        # content num/den ; extract the square part
        def sq(n):
            s = 1
            f = 2
            while f * f <= n and f < 2000:
                while n % (f * f) == 0:
                    n //= f * f
                    s *= f
                f += 1
            return s
        sc = Fraction(sq(num), 1)
        # make denominator a square: multiply
        dn = sq(den)
        rest = den // (dn * dn)
        sc = sc / (dn * rest)
        c = Poly(R, {mono: int(sc) if sc.denominator == 1 else sc})
        ci = c.inv_mono()
        Q = self * ci * ci
        return c, Q

    def ratio(self, o):
        """if self = t*o for a monomial t (vars without radicals) return {t}, else None"""
        m1, c1 = self.lead()
        m2, c2 = o.lead()
        t = Poly(self.R, {m1 - m2: Fraction(c1) / c2})
        if (t * o).d == self.d:
            return t.d
        return None

    def perfect_sqrt(self):
        s = self.perfect_sqrt0()
        if s is not None:
            return s
        R = self.R
        if len(self.d) > 400:
            return None
        rads = [i for i in sorted(self.vars(), reverse=True) if R.kind[i] == 'rad']
        for r in rads:
            lo = min(R.exp(m, r) for m in self.d)
            if lo < 0:
                # clear r^-2k: P = Q / r^2k
                k = (1 - lo) // 2
                Q = Poly(R, R.reduce({m + 2 * k * (1 << (SH * r)): c for m, c in self.d.items()}))
                if not Q.d:
                    return Q
                s = Q.perfect_sqrt()
                if s is None:
                    return None
                return Poly(R, R.reduce({m - k * (1 << (SH * r)): c for m, c in s.d.items()}))
        for r in rads:
            A, Bd = {}, {}
            ok = True
            for m, c in self.d.items():
                e = R.exp(m, r)
                if e == 0:
                    A[m] = c
                elif e == 1:
                    Bd[m - (1 << (SH * r))] = c
                else:
                    ok = False
            if not ok or not Bd or not A:
                continue
            A = Poly(R, A)
            Bp = Poly(R, Bd)
            Q = R.defn[r]
            N = (A * A - Bp * Bp * Q)
            t = N.perfect_sqrt() if N.d else R.zero
            if t is None:
                continue
            for sg in (1, -1):
                a2 = (A + t * sg) * Fraction(1, 2)
                if not a2.d:
                    continue
                a = a2.perfect_sqrt()
                if a is None:
                    continue
                if len(a.d) == 1:
                    b = Bp * (a * 2).inv_mono()
                else:
                    ra = None
                    if len(Bp.d) == len(a.d):
                        ra = Bp.ratio(a * 2)
                    if ra is None:
                        continue
                    b = Poly(R, ra)
                s = a + b * R.v(r)
                if (s * s).d == self.d:
                    return s
        return None

    def perfect_sqrt0(self):
        R = self.R
        d = self.d
        if not d:
            return self
        m, c = self.lead()
        # leading term must be a square
        mm = 0
        im = False
        for i, e in R.exps(m):
            if e & 1:
                if R.kind[i] == 'I':
                    im = True
                    continue
                return None
            mm += (e // 2) * (1 << (SH * i))
        c = Fraction(c)
        neg = c < 0
        cn = abs(c)
        r2 = None
        if im:
            if len(d) < 2:
                return None
            cn = cn / 2
            a, b = math.isqrt(cn.numerator), math.isqrt(cn.denominator)
            if a * a != cn.numerator or b * b != cn.denominator:
                cn = cn * 2
                r2 = R.sqrt2()
        a, b = math.isqrt(cn.numerator), math.isqrt(cn.denominator)
        if a * a != cn.numerator or b * b != cn.denominator:
            return None
        cc = Fraction(a, b)
        t = Poly(R, {mm: int(cc) if cc.denominator == 1 else cc})
        ti = t.inv_mono()
        if im:
            # sqrt(+-i) = (1 +- i)/sqrt 2
            z = (R.one + R.I) if not neg else (R.one - R.I)
            zi = (R.one - R.I) if not neg else (R.one + R.I)
            if r2 is not None:
                z = z * r2 * Fraction(1, 2)
                zi = zi * r2 * Fraction(1, 2)
            else:
                zi = zi * Fraction(1, 2)
            t = t * z
            ti = ti * zi
        elif neg:
            t = t * R.I
            ti = ti * R.I * (-1)
        s = t
        ti = ti * Fraction(1, 2)
        n = 0
        rem = self - s * s
        last = None
        limit = len(d) + 2
        while rem.d:
            n += 1
            if n > limit or len(rem.d) > 4 * len(d) + 50:
                return None
            m2, c2 = rem.lead()
            if last is not None and m2 >= last:
                return None
            last = m2
            x = Poly(R, R.reduce({m2: c2})) * ti
            rem = rem - x * (s * 2 + x)
            s = s + x
        return s

    def __repr__(self):
        R = self.R
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items(), reverse=True)[:40]:
            out.append('%s%s' % (c, ''.join('*%s%s' % (R.names[i], '' if e == 1 else '^%d' % e) for i, e in R.exps(m))))
        s = ' + '.join(out)
        if len(self.d) > 40:
            s += ' + ...(%d)' % len(self.d)
        return s

    def subs(self, i, Q):
        """substitute variable i (nonnegative exponents only unless Q is a monomial) by Q"""
        R = self.R
        groups = {}
        for m, c in self.d.items():
            e = R.exp(m, i)
            groups.setdefault(e, {})[m - e * (1 << (SH * i))] = c
        acc = R.zero
        for e, g in groups.items():
            p = Poly(R, g)
            if e:
                p = p * (Q ** e)
            acc = acc + p
        return acc

    # ---- zero test -------------------------------------------------------------------
    def clear(self):
        """multiply out all denominators / negative radicals and substitute named denominators, reduce the deferred
        relations; the result is 0 only if the claimed identity holds (denominators are nonzero)"""
        p = self
        for _ in range(5):
            q = p.clear1()
            if q.d == p.d:
                return q
            p = q
            if not p.d:
                return p
        return p

    def clear_w(self, i):
        R = self.R
        op, A = R.wrel[i]
        G = 24
        p = self
        es = [R.exp(m, i) for m in p.d]
        if not es:
            return p
        lo = min(es)
        if op == 'acos' and any((e - lo) % 24 for e in es):
            # half angle: v - 1/v = 2 i sqrt((1 - A)/2), v = e^{i angle / 2}
            op, A, G = 'asin', R.sqrt((R.one - A) * Fraction(1, 2)), 12
        if max(es) - lo < 2 * G:
            return p
        p = p * R.v(i, -lo)
        A2 = A * 2 * R.I if op == 'asin' else A * 2
        last = R.one if op == 'asin' else -R.one
        while True:
            big = {}
            rest = {}
            for m, c in p.d.items():
                e = R.exp(m, i)
                if e >= 2 * G:
                    big[m - 2 * G * (1 << (SH * i))] = c
                else:
                    rest[m] = c
            if not big:
                return p
            b = Poly(R, big)
            p = Poly(R, rest) + b * last + b * (A2 * R.v(i, G))

    def clear1(self):
        R = self.R
        p = self
        for i in range(len(R.names) - 1, 0, -1):
            k = R.kind[i]
            if i in R.wrel:
                p = p.clear_w(i)
                continue
            if k not in ('den', 'rad'):
                continue
            es = [R.exp(m, i) for m in p.d]
            if not es:
                return p
            lo = min(es)
            hi = max(es)
            if k == 'rad':
                if lo < 0:
                    # multiply by r^(-lo) then reduce
                    f = Poly(R, {(-lo + ((-lo) & 1)) * (1 << (SH * i)): 1})
                    # raw multiply and reduce
                    d = {}
                    for m, c in p.d.items():
                        mm = m + (-lo) * (1 << (SH * i))
                        d[mm] = d.get(mm, 0) + c
                    p = Poly(R, R.reduce(d))
                continue
            if lo == 0 and hi == 0:
                continue
            sh = -min(lo, 0)
            Q = R.defn[i]
            groups = {}
            for m, c in p.d.items():
                e = R.exp(m, i)
                mm = m - e * (1 << (SH * i))
                groups.setdefault(e + sh, {})[mm] = c
            acc = R.zero
            pw = {0: R.one}
            for e in sorted(groups):
                if e not in pw:
                    pw[e] = Q ** e
                acc = acc + Poly(R, groups[e]) * pw[e]
            p = acc
        return p
