"""Reader for the concolic harness' output and normalisation of its expression DAG into algebra.Poly."""
import math
from fractions import Fraction
from algebra import Ring, Poly, TooBig, SH

PREDS = {1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
         11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 100: 'toint'}


class Trace:
    __slots__ = ('cls', 'tag', 'op', 'a', 'b', 'val', 'name', 'outs', 'ints', 'pc', 'maxid', 'order')

    def __init__(self):
        self.op = {}
        self.a = {}
        self.b = {}
        self.val = {}
        self.name = {}
        self.outs = {}
        self.ints = {}
        self.pc = []
        self.order = []


def read_traces(fh):
    """yields ('H', cls, tag) or ('N', Trace)"""
    t = None
    for line in fh:
        w = line.split()
        if not w:
            continue
        k = w[0]
        if k == 'H':
            yield ('H', w[1], w[2])
        elif k == 'N':
            t = Trace()
            t.cls = w[1]
            t.tag = w[2]
        elif k == 'n':
            i = int(w[1])
            t.op[i] = w[2]
            t.a[i] = int(w[3])
            t.b[i] = int(w[4])
            t.val[i] = float.fromhex(w[5])
            if w[2] == 'input':
                t.name[i] = w[6]
        elif k == 'o':
            t.outs[w[1]] = (int(w[2]), float.fromhex(w[3]))
            t.order.append(w[1])
        elif k == 'i':
            t.ints[w[1]] = int(w[2])
        elif k == 'p':
            t.pc.append(tuple(int(x) for x in w[1:6]))
        elif k == 'm':
            t.pc.append(('m', w[1]))
        elif k == 'E':
            if t is not None:
                yield ('N', t)
            t = None
        elif k == '?':
            yield ('?', w[1])


class Restart(Exception):
    pass


class Unsupported(Exception):
    pass


GR = 24   # granularity of unit variables: var = e^{i a / GR}
_PIP = {}


def const_rational(v):
    """v as (Fraction, power of sqrt(pi)) or None"""
    if v == 0:
        return Fraction(0), 0
    f = Fraction(v).limit_denominator(20000)
    if f != 0 and abs(float(f) - v) <= 4e-16 * abs(v):
        return f, 0
    sp = math.sqrt(math.pi)
    for h in (2, 1, -1, -2, 4, -4, 3, -3):
        w = v / sp ** h
        f = Fraction(w).limit_denominator(2000)
        if f != 0 and abs(float(f) - w) <= 2e-15 * abs(w):
            return f, h
    return None


class Norm:
    """normal forms of DAG nodes.  `defs` collects what the resulting claims rest on:
    sign assumptions (numerically true at the seed) and polarisations used."""

    def __init__(self, tr, cplx_inputs=(('x1', 'y1'), ('x2', 'y2')), pref=('x2', 'F', 'x1'), maxterms=6000, check=True):
        self.tr = tr
        self.cin = cplx_inputs
        self.pref = pref
        self.maxterms = maxterms
        self.half = set()
        self.named = set()
        self.use_named = True
        self.subst = {}         # complex base var key -> builder id (list of polarisations)
        self.polar = []         # list of (key, node)
        self.check = check
        self.mism = []
        self.cut = set()         # nodes replaced by free variables
        self.unify = False       # identify angle atoms and wrap counters of equal unit
        self.limmemo = {}
        self.reset()

    def reset(self):
        self.R = Ring(self.maxterms)
        self.memo = {}
        self.ang = {}            # real var index -> ('unit', varidx) | ('alg', Poly U)
        self.atomidx = {}
        self.fres = []           # (argpoly, F poly, Fb poly, key)
        self.signs = []          # (Poly, sign) side conditions
        self.intdefs = {}        # int var idx -> (kind, Poly arg)
        self.opaque = []
        self.defsvars = {}
        self.subval = {}
        self.floormemo = []
        self.angdefs = {}        # real angle var index -> (fn, args polys)
        self.angsame = {}        # node -> Poly in an earlier atom
        self.exp_memo = {}
        self.ang_half = {}
        self.parity = []
        self.trig = {}
        self.trigdead = set()
        self.aliased = set()

    def forget(self):
        """after a substitution was installed: drop everything computed without it"""
        R = self.R
        self.memo = {}
        self.angsame = {}
        self.angdefs = {}
        self.exp_memo = {}
        self.floormemo = []
        self.opaque = []
        dead = set(self.trigdead)
        for b in self.subval:
            if b in R.byname:
                dead.add(R.byname[b])
                dead.add(R.byname[b + '~'])
        for nm in list(R.byname):
            if nm.startswith('A:') or nm.startswith('h:') or nm.startswith('w:'):
                i = R.byname.pop(nm)
                self.ang.pop(i, None)
                R.names[i] = nm + '(old)'
                dead.add(i)
        R.rad_cache = [t for t in R.rad_cache if not (dead & self.deepvars(t[0]))]
        R.den_cache = [t for t in R.den_cache if not (dead & self.deepvars(t[0]))]
        R.rad_alias = [t for t in R.rad_alias if not any(dead & self.deepvars(v) for v in t[0].vars() | t[1].vars())]
        R.wrel = {}
        self.intdefs = {}
        self.signs = []

    # ---- top level: evaluate nodes with restart on polarisation ----------------------
    def run(self, fn):
        for _ in range(12):
            self.reset()
            try:
                return fn(self)
            except Restart:
                continue
        raise Unsupported('too many polarisations')

    # ---- base variables ---------------------------------------------------------------
    def cplxvar(self, key, num):
        """complex base variable (with conj partner) or its polarised substitute"""
        if key in self.subval:
            return self.subval[key]
        R = self.R
        n = key
        if n in R.byname:
            i = R.byname[n]
        else:
            i = R.newvar(n, 'cplx', num)
            j = R.newvar(n + '~', 'cplx', num.conjugate())
            R.partner[i] = j
            R.partner[j] = i
        return R.v(i)

    def inputval(self, name):
        for i, n in self.tr.name.items():
            if n == name:
                return self.tr.val[i]
        return 0.0

    def node_input(self, i):
        R = self.R
        nm = self.tr.name[i]
        for (xn, yn) in self.cin:
            if nm in (xn, yn):
                num = complex(self.inputval(xn), self.inputval(yn))
                w = self.cplxvar('Z:' + xn, num)
                wb = w.conj()
                if nm == xn:
                    return (w + wb) * Fraction(1, 2)
                return (w - wb) * R.I * Fraction(-1, 2)
        return R.var(nm, 'real', self.tr.val[i])

    # ---- exponential ------------------------------------------------------------------
    def expi(self, P, coef=1):
        """e^{i P} as a Poly"""
        R = self.R
        k = (P.key(), coef)
        if k in self.exp_memo:
            return self.exp_memo[k]
        P0 = P
        if coef != 1:
            P = P * coef
        out = R.one
        rest = {}
        pim = 2 << (SH * 1)  # sqrtpi^2
        assert R.names[1] == 'sqrtpi'
        for m, c in P.d.items():
            c = Fraction(c)
            if m == pim:
                q = c * 2
                if (c * 4).denominator == 1 and q.denominator != 1:
                    r2 = R.sqrt2()
                    out = out * ((R.one + R.I) * r2 * Fraction(1, 2)) ** int((c * 4) % 8)
                elif q.denominator != 1:
                    out = out * self.unitmono(m, c)
                else:
                    out = out * Poly(R, R.reduce({int(q) % 4: 1}))
                continue
            ex = R.exps(m)
            vs = [i for i, e in ex]
            if len(ex) == 2 and ex[0] == (1, 2) and ex[1][1] == 1 and R.kind[ex[1][0]] == 'int':
                if c.denominator == 1:
                    if c % 2 == 0:
                        continue
                    # parity of the wrap count fixed to the seed's (the other parity is the image of this
                    # one under a -> a + 2 pi, which flips the sign of the half-angle unit variable)
                    self.parity.append(ex[1][0])
                    if int(R.num[ex[1][0]]) % 2:
                        out = -out
                    continue
                out = out * self.unitmono(m, c)
                continue
            if len(ex) == 1 and ex[0][1] == 1 and ex[0][0] in self.ang:
                kind, u = self.ang[ex[0][0]]
                if kind == 'unit':
                    q = c * GR
                    if q.denominator != 1:
                        raise Unsupported('granularity')
                    out = out * R.v(u, int(q))
                else:
                    out = out * self.algpow(ex[0][0], u, c)
                continue
            if any(R.kind[i] in ('I', 'unit', 'cplx', 'urad', 'den', 'rad') for i in vs):
                rest[m] = c
                continue
            out = out * self.unitmono(m, c)
        if rest:
            out = out * self.opaque_angle(Poly(R, rest))
        self.exp_memo[k] = out
        return out

    def algpow(self, vi, u, c):
        R = self.R
        if c.denominator == 1:
            e = int(c)
            return u ** e if e >= 0 else u.conj() ** (-e)
        # fractional power of a pure unit monomial
        if len(u.d) == 1:
            (m, cc), = u.d.items()
            ex = R.exps(m)
            mm = 0
            ok = True
            for i, e in ex:
                if R.kind[i] == 'I':
                    continue
                if R.kind[i] != 'unit' or (Fraction(e) * c).denominator != 1:
                    ok = False
                    break
                mm += int(e * c) * (1 << (SH * i))
            if ok and abs(cc) == 1:
                q = Poly(R, {mm: 1})
                t = c * Fraction(R.num[vi])
                w = complex(math.cos(float(t)), math.sin(float(t))) / q.numeval()
                r2 = R.sqrt2()
                z8 = (R.one + R.I) * r2 * Fraction(1, 2)
                for j in range(8):
                    if abs(w - (z8 ** j).numeval()) < 1e-9:
                        return q * (z8 ** j)
        # fractional power: formal unit radical  v^2 = U
        if c.denominator == 2:
            nm = 'h:' + R.names[vi]
            if nm not in R.byname:
                R.newvar(nm, 'urad', complex(math.cos(R.num[vi] / 2), math.sin(R.num[vi] / 2)), u)
            e = int(c * 2)
            return R.v(R.byname[nm]) ** e if e >= 0 else R.v(R.byname[nm]).conj() ** (-e)
        raise Unsupported('fractional angle %s' % c)

    def unitmono(self, m, c):
        R = self.R
        nm = 'e:' + repr(Poly(R, {m: 1}))
        if nm not in R.byname:
            a = Poly(R, {m: 1}).numeval().real / GR
            R.newvar(nm, 'unit', complex(math.cos(a), math.sin(a)))
        q = c * GR
        if q.denominator != 1:
            raise Unsupported('granularity')
        e = int(q)
        i = R.byname[nm]
        return R.v(i, e)

    def opaque_angle(self, P):
        R = self.R
        lead, Q = P.split_lead()
        # key on P up to sign
        for (K, i) in self.opaque:
            if K.d == P.d:
                return R.v(i, GR)
            if K.d == (-P).d:
                return R.v(i, -GR)
        a = P.numeval().real / GR
        i = R.newvar('o:%d' % len(R.names), 'unit', complex(math.cos(a), math.sin(a)))
        self.opaque.append((P, i))
        return R.v(i, GR)

    # ---- angle atoms -------------------------------------------------------------------
    def angle_atom(self, name, num, U):
        R = self.R
        if name in R.byname:
            return R.v(R.byname[name])
        i = R.newvar(name, 'real', num)
        self.ang[i] = U
        return R.v(i)

    def try_polarise(self, Z, node, num):
        """Z = a*w + b with w an unsubstituted complex base variable -> register and restart"""
        R = self.R
        cands = []
        for i in Z.vars():
            if R.kind[i] != 'cplx':
                continue
            nm = R.names[i]
            cands.append((i, nm))
        if not cands:
            return False

        def rank(nm):
            for k, p in enumerate(self.pref):
                if nm.startswith('Z:' + p) or (p == 'F' and nm.startswith('F:')):
                    return k
            return 99
        cands.sort(key=lambda t: rank(t[1]))
        for i, nm in cands:
            base = nm.rstrip('~')
            j = R.partner[i]
            # linear, partner absent
            ok = True
            for m in Z.d:
                if R.exp(m, i) not in (0, 1) or R.exp(m, j) != 0:
                    ok = False
                    break
            if not ok:
                continue
            # also no denominators/radicals depending on w
            if any(R.kind[v] in ('rad', 'den', 'urad') for v in Z.vars()):
                dep = False
                for v in Z.vars():
                    if R.kind[v] in ('rad', 'den', 'urad') and ({i, j} & self.deepvars(v)):
                        dep = True
                if dep:
                    continue
            am = {}
            for m, c in Z.d.items():
                if R.exp(m, i) == 1:
                    am[m - (1 << (SH * i))] = c
            if len(am) != 1:
                continue
            self.polar.append((base, nm.endswith('~'), node))
            return True
        return False

    def deepvars(self, v):
        R = self.R
        out = {v}
        st = [v]
        while st:
            k = st.pop()
            if R.defn[k] is not None:
                for w in R.defn[k].vars():
                    if w not in out:
                        out.add(w)
                        st.append(w)
        return out

    def polar_angle(self, Z, node, num, modnum):
        """angle atom A = arg Z (numerically num); returns poly of the real angle"""
        R = self.R
        name = 'A:%s' % (node,)
        if name in R.byname:
            return R.v(R.byname[name])
        for k, (base, isconj, nd) in enumerate(self.polar):
            if nd == node and base not in self.subval:
                # install substitution: Z = a*w + b
                i = R.byname[base + '~'] if isconj else R.byname[base]
                am, bm = {}, {}
                for m, c in Z.d.items():
                    if R.exp(m, i) == 1:
                        am[m - (1 << (SH * i))] = c
                    else:
                        bm[m] = c
                if len(am) != 1:
                    continue
                D = R.var('D:%s' % (node,), 'real', modnum)
                ui = R.newvar('U:%s' % (node,), 'unit', complex(math.cos(num / GR), math.sin(num / GR)))
                w = (D * R.v(ui, GR) - Poly(R, bm)) * Poly(R, am).inv_mono()
                if isconj:
                    w = w.conj()
                self.subval[base] = w
                raise SubstNow()
        zz = Z * Z.conj()
        N = zz.perfect_sqrt()
        if N is not None:
            v = N.numeval().real
            if v < 0:
                N = -N
            if len(N.d) == 1 or True:
                # polarised: is Z/N a pure unit monomial?
                q = None
                if len(Z.d) == len(N.d) and len(N.d) > 1:
                    ra = Z.ratio(N)
                    if ra is not None:
                        q = Poly(R, ra)
                if q is None:
                    q = Z * N.inv()
                if len(q.d) == 1:
                    (m, c), = q.d.items()
                    ex = R.exps(m)
                    if abs(c) == 1 and len(ex) == 1 and R.kind[ex[0][0]] == 'unit' and c == 1 and R.names[ex[0][0]] == 'U:%s' % (node,):
                        return self.angle_atom(name, num, ('unit', ex[0][0]))
                if len(N.d) == 1 or not self.try_polarise(Z, node, num):
                    return self.angle_atom(name, num, ('alg', q))
                raise Restart()
        if self.try_polarise(Z, node, num):
            raise Restart()
        N = self.rsqrt(zz)
        return self.angle_atom(name, num, ('alg', Z * self.inv_poly(N)))

    def inv_trig(self, op, k, A, num):
        """asin/acos: when the companion radical is not a polynomial, a formal unit variable W = e^{i angle} whose
        defining relation (W - 1/W = 2iA resp. W + 1/W = 2A) is used only in the final zero test"""
        R = self.R
        P = R.one - A * A
        name = 'A:%d' % k
        if self.unify and name not in R.byname:
            for v, d in self.angdefs.items():
                if d[0] != op or v not in self.ang:
                    continue
                if abs(R.num[v] - num) < 1e-9 and eqpoly(d[1], A):
                    return R.v(v)
                if op == 'asin' and abs(R.num[v] + num) < 1e-9 and eqpoly(d[1], -A):
                    return -R.v(v)
                if op == 'acos' and abs(R.num[v] + num - math.pi) < 1e-9 and eqpoly(d[1], -A):
                    return R.v(1, 2) - R.v(v)
        s = P.perfect_sqrt()
        if s is None:
            self.try_trig(P)
        if s is not None:
            if s.numeval().real < 0:
                s = -s
            U = (s + A * R.I) if op == 'asin' else (A + s * R.I)
            p = self.angle_atom(name, num, ('alg', U))
            self.angdefs[max(p.vars())] = (op, A)
            return p
        wn = 'W:%d' % k
        if wn not in R.byname:
            R.newvar(wn, 'unit', complex(math.cos(num / GR), math.sin(num / GR)))
        wi = R.byname[wn]
        R.wrel[wi] = (op, A)
        if s is None:
            Wp, Wm = R.v(wi, GR), R.v(wi, -GR)
            comp = (Wp + Wm) * Fraction(1, 2) if op == 'asin' else (Wp - Wm) * R.I * Fraction(-1, 2)
            c, Q = P.square_content()
            if not any(t[0].d == Q.d for t in R.rad_alias):
                old = [t for t in R.rad_cache if t[1].d == Q.d or (len(t[1].d) == len(Q.d) and Q.ratio(t[1]) is not None)]
                R.rad_alias.append((Q, comp * c.inv_mono()))
                if old and k not in self.aliased:
                    self.aliased.add(k)
                    for t in old:
                        R.rad_cache.remove(t)
                    raise Recompute()
        p = self.angle_atom(name, num, ('unit', wi))
        self.angdefs[max(p.vars())] = (op, A)
        return p

    def rsqrt(self, P):
        R = self.R
        s = P.perfect_sqrt()
        if s is None:
            self.try_trig(P)
        return R.sqrt(P)

    def try_trig(self, P):
        """radical sqrt(k(a^2 - D^2)) with D a free modulus variable: substitute D = a cos(beta)"""
        R = self.R
        for i in P.vars():
            if R.kind[i] != 'real' or not R.names[i].startswith('D:') or i in self.trig:
                continue
            es = sorted(set(R.exp(m, i) for m in P.d))
            if not es or es[-1] - es[0] != 2 or (es[0] % 2) or any(R.kind[v] != 'real' and i in self.deepvars(v) for v in P.vars()):
                continue
            c0, c1, c2 = {}, {}, {}
            for m, c in P.d.items():
                e = R.exp(m, i)
                mm = m - e * (1 << (SH * i))
                (c0, c1, c2)[e - es[0]][mm] = c
            if len(c2) != 1:
                continue
            k = Poly(R, c2) * (-1)
            ki = k.inv_mono()
            # P = D^e0 * k * (c0/k + c1/k D - D^2) = D^e0 k (a2 - (D - h)^2)
            h = Poly(R, c1) * ki * Fraction(1, 2)
            a2 = Poly(R, c0) * ki + h * h
            if any(i in self.deepvars(v) for v in a2.vars() | h.vars()):
                continue
            if k.numeval().real <= 0 or not a2.d:
                continue
            a = a2.perfect_sqrt()
            if a is None:
                continue
            if a.numeval().real < 0:
                a = -a
            dn = (R.num[i].real if isinstance(R.num[i], complex) else R.num[i]) - h.numeval().real
            an = a.numeval().real
            if not (abs(dn) <= an):
                continue
            be = math.acos(dn / an)
            self.trig[i] = True
            ui = R.newvar('B:' + R.names[i], 'unit', complex(math.cos(be / GR), math.sin(be / GR)))
            Dx = a * (R.v(ui, GR) + R.v(ui, -GR)) * Fraction(1, 2) + h
            for b in self.subval:
                self.subval[b] = self.subval[b].subs(i, Dx)
            self.trigdead.add(i)
            raise Recompute()

    def inv_poly(self, P):
        return P.inv()

    # ---- node evaluation ----------------------------------------------------------------
    def get(self, i):
        """Poly of node i"""
        # iterative post-order
        tr = self.tr
        memo = self.memo
        if i in memo:
            return memo[i]
        st = [i]
        while st:
            k = st[-1]
            if k in memo:
                st.pop()
                continue
            if k in self.cut:
                memo[k] = self.R.var('cut%d' % k, 'real', tr.val[k])
                st.pop()
                continue
            op = tr.op[k]
            need = []
            if op in ('const', 'input'):
                pass
            elif op == 'atan' and tr.op[tr.a[k]] in ('div', 'neg'):
                d = tr.a[k]
                if tr.op[d] == 'neg':
                    d = tr.a[d]
                if tr.op[d] == 'div':
                    need = [x for x in (tr.a[d], tr.b[d]) if x not in memo]
                elif tr.a[k] not in memo:
                    need = [tr.a[k]]
            else:
                a, b = tr.a[k], tr.b[k]
                if a and a not in memo:
                    need.append(a)
                if b and b not in memo:
                    need.append(b)
            if need:
                st.extend(need)
                continue
            st.pop()
            p = self.eval1(k)
            if self.check and p.d:
                v = p.numeval()
                tv = tr.val[k]
                if not math.isfinite(tv) or abs(v - tv) > 1e-5 * (1 + abs(tv)) + 1e-9 * p.numscale():
                    self.mism.append((k, tr.op[k], tv, v))
                    raise Unsupported('normal form disagrees with execution at node %d %s: %r vs %r' % (k, tr.op[k], tv, v))
            if k in self.named and len(p.d) > 1:
                p = self.name_poly(p)
            memo[k] = p
        return memo[i]

    def name_poly(self, p):
        lead, Q = self.R.den_split(p)
        return self.R.inverse(Q).inv_mono() * lead

    def out(self, name):
        i, v = self.tr.outs[name]
        if i == 0:
            return self.constpoly(v)
        return self.get(i)

    def constpoly(self, v):
        R = self.R
        if not math.isfinite(v):
            raise Unsupported('non-finite')
        r = const_rational(v)
        if r is None:
            if abs(v) > 1e300:
                return R.var('huge', 'real', 1.0) * (1 if v > 0 else -1)
            return R.const(Fraction(v))
        f, h = r
        p = R.const(f)
        if h:
            p = p * R.v(1, h)
        return p

    def factors(self, i, e, acc):
        """multiplicative decomposition of node i into {node: exponent}, const sign"""
        tr = self.tr
        op = tr.op[i]
        if op == 'mul':
            self.factors(tr.a[i], e, acc)
            self.factors(tr.b[i], e, acc)
        elif op == 'div':
            self.factors(tr.a[i], e, acc)
            self.factors(tr.b[i], -e, acc)
        elif op == 'neg':
            acc['-'] = acc.get('-', 0) + 1
            self.factors(tr.a[i], e, acc)
        else:
            acc[i] = acc.get(i, 0) + e
        return acc

    def invnode(self, i):
        """1 / node i, structurally"""
        P = self.get(i)
        if len(P.d) <= 1:
            return P.inv()
        tr = self.tr
        op = tr.op[i]
        if op == 'mul':
            return self.invnode(tr.a[i]) * self.invnode(tr.b[i])
        if op == 'div':
            return self.invnode(tr.a[i]) * self.get(tr.b[i])
        if op == 'neg':
            return -self.invnode(tr.a[i])
        if self.use_named and i not in self.named:
            self.named.add(i)
            raise Recompute()
        return P.inv()

    def sqrtnode(self, i):
        P = self.get(i)
        R = self.R
        if self.tr.val[i] < 0:
            # sqrt of a negative number: NaN at run time
            raise Unsupported('sqrt of negative value')
        s = P.perfect_sqrt()
        if s is not None:
            v = s.numeval()
            self.signs.append((s, 1 if v.real >= 0 else -1))
            return s if v.real >= 0 else -s
        acc = self.factors(i, 1, {})
        acc.pop('-', None)
        if len(acc) > 1 or any(abs(e) > 1 for e in acc.values()):
            out = R.one
            mono = R.one
            odd = None
            for k, e in acc.items():
                if e == 0:
                    continue
                v = self.tr.val[k]
                Pk = self.get(k)
                if len(Pk.d) == 1 and all(R.kind[x] in ('real', 'rad', 'int', 'den') and complex(R.num[x]).imag == 0 for x in Pk.vars()):
                    if v < 0:
                        Pk = -Pk
                    self.signs.append((Pk, 1))
                    mono = mono * (Pk ** e if e >= 0 else Pk.inv_mono() ** (-e))
                    continue
                if e % 2 == 0:
                    x = Pk if v >= 0 else -Pk
                    self.signs.append((Pk, 1 if v >= 0 else -1))
                    h = e // 2
                    out = out * (x ** h if h >= 0 else self.invnode(k) ** (-h) * (1 if v >= 0 else (-1) ** (-h)))
                elif e == 1 and sum(1 for f in acc.values() if f % 2) > 1:
                    odd = Pk if odd is None else odd * Pk       # one radical for the product of the odd factors
                else:
                    x = Pk if v >= 0 else -Pk
                    self.signs.append((Pk, 1 if v >= 0 else -1))
                    r = self.rsqrt(x)
                    out = out * (r ** e if e >= 0 else self.inv_poly(r) ** (-e))
            if odd is not None:
                if odd.numeval().real < 0:
                    odd = -odd
                self.signs.append((odd, 1))
                r = odd.perfect_sqrt()
                if r is None:
                    r = self.rsqrt(odd)
                elif r.numeval().real < 0:
                    r = -r
                out = out * r
            out = out * R.sqrt(mono)
            v = out.numeval()
            if abs(v - math.sqrt(self.tr.val[i])) <= 1e-6 * (1 + abs(v)):
                return out
        return self.rsqrt(P)

    def limits_only(self, i):
        """the node depends on a Fresnel integral and on nothing but real parameters (curvature and sharpness limit)"""
        memo = self.limmemo

        def go(j):
            if j in memo:
                return memo[j]
            op = self.tr.op[j]
            if op == 'input':
                r = (not any(self.tr.name[j] in c for c in self.cin), False)
            elif op == 'const':
                r = (True, False)
            else:
                r = (True, op in ('FS', 'FC'))
                for q in (self.tr.a[j], self.tr.b[j]):
                    if q:
                        t = go(q)
                        r = (r[0] and t[0], r[1] or t[1])
            memo[j] = r
            return r
        return go(i) == (True, True)

    def polarise_norm(self, i):
        """sqrt(x^2 + y^2) over the limits alone: name modulus and argument of x + iy as an atan2 of them would"""
        tr = self.tr
        if tr.op[i] != 'add' or not self.limits_only(i):
            return
        p, q = tr.a[i], tr.b[i]
        if tr.op[p] != 'mul' or tr.op[q] != 'mul' or tr.a[p] != tr.b[p] or tr.a[q] != tr.b[q]:
            return
        x, y = tr.a[p], tr.a[q]
        if tr.val[x] == 0 and tr.val[y] == 0:
            return
        self.angle_of(self.get(x) + self.get(y) * self.R.I, ('S', i), math.atan2(tr.val[y], tr.val[x]),
                      math.hypot(tr.val[x], tr.val[y]))

    def fresnel(self, P):
        """complex F = C + i S of argument P (odd function)"""
        R = self.R
        if not P.d:
            return R.zero
        v = P.numeval().real
        sg = 1
        if v < 0:
            P = -P
            sg = -1
        for (Q, key, num) in self.fres:
            if Q.d == P.d:
                return self.cplxvar(key, num) * sg
        # identical up to provable equality after clearing denominators
        for (Q, key, num) in self.fres:
            if abs(Q.numeval() - P.numeval()) < 1e-9 * (1 + abs(P.numeval())):
                if not (P - Q).clear().d:
                    return self.cplxvar(key, num) * sg
        key = 'F:%d' % len(self.fres)
        num = fresnel_num(abs(v))
        self.fres.append((P, key, num))
        return self.cplxvar(key, num) * sg

    def intsym(self, kind, P, num):
        R = self.R
        for (k, Q, i) in self.floormemo:
            if k == kind and Q.d == P.d:
                return R.v(i)
        if P.isconst():
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[kind](Fraction(P.constval()))
            return R.const(f)
        if self.unify and kind == 'floor':
            # floor(P) = floor(Q) + P - Q when e^{2 pi i P} = e^{2 pi i Q}
            pv = P.numeval().real
            U = None
            for (k, Q, i) in self.floormemo:
                if k != kind:
                    continue
                d = pv - Q.numeval().real
                if abs(d - round(d)) > 1e-9 or abs(num - R.num[i] - round(d)) > 1e-6:
                    continue
                D = P - Q
                if D.isconst() and Fraction(D.constval()).denominator == 1:
                    return R.v(i) + D
                try:
                    if U is None:
                        U = self.expi(P * 2 * R.v(1, 2))
                    V = self.expi(Q * 2 * R.v(1, 2))
                except Unsupported:
                    continue
                if eqpoly(U, V):
                    return R.v(i) + D
        i = R.newvar('n:%d' % len(R.names), 'int', float(num))
        self.floormemo.append((kind, P, i))
        self.intdefs[i] = (kind, P)
        return R.v(i)

    def eval1(self, k):
        tr = self.tr
        R = self.R
        op = tr.op[k]
        if op == 'const':
            return self.constpoly(tr.val[k])
        if op == 'input':
            return self.node_input(k)
        a, b = tr.a[k], tr.b[k]
        A = self.memo.get(a) if a else None
        Bp = self.memo.get(b) if b else None
        if op == 'add':
            return A + Bp
        if op == 'sub':
            return A - Bp
        if op == 'mul':
            return A * Bp
        if op == 'neg':
            return -A
        if op == 'div':
            if not A.d:
                return R.zero
            if not Bp.d:
                raise Unsupported('division by zero')
            if len(A.d) == len(Bp.d) and len(A.d) > 1:
                r = A.ratio(Bp)
                if r is not None:
                    return Poly(R, r)
            return A * self.invnode(b)
        if op in ('rem', 'fmod'):
            q = A * Bp.inv()
            n = self.intsym('trunc', q, math.trunc(tr.val[a] / tr.val[b]) if tr.val[b] else 0)
            return A - Bp * n
        if op == 'floor':
            return self.intsym('floor', A, tr.val[k])
        if op == 'ceil':
            return self.intsym('ceil', A, tr.val[k])
        if op == 'trunc':
            return self.intsym('trunc', A, tr.val[k])
        if op == 'sqrt':
            self.polarise_norm(a)
            return self.sqrtnode(a)
        if op in ('sin', 'cos'):
            E = self.expi(A)
            Ec = E.conj()
            if op == 'cos':
                return (E + Ec) * Fraction(1, 2)
            return (E - Ec) * R.I * Fraction(-1, 2)
        if op == 'tan':
            E = self.expi(A)
            Ec = E.conj()
            return (E - Ec) * R.I * Fraction(-1) * (E + Ec).inv()
        if op == 'atan2':
            Z = Bp + A * R.I
            return self.angle_of(Z, k, tr.val[k], math.hypot(tr.val[a], tr.val[b]))
        if op == 'hypot':
            if self.limits_only(k):
                self.angle_of(A + Bp * R.I, ('S', k), math.atan2(tr.val[b], tr.val[a]), tr.val[k])
            s = (A * A + Bp * Bp).perfect_sqrt()
            if s is not None:
                v = s.numeval().real
                self.signs.append((s, 1 if v >= 0 else -1))
                return s if v >= 0 else -s
            return self.rsqrt(A * A + Bp * Bp)
        if op == 'atan':
            if tr.op[a] == 'div':
                y, x = tr.a[a], tr.b[a]
                sg = 1 if tr.val[x] > 0 else -1
                Z = (self.memo.get(x) if x in self.memo else self.get(x)) * sg + (self.get(y) * sg) * R.I
                self.signs.append((self.get(x), sg))
                return self.angle_of(Z, k, tr.val[k], math.hypot(tr.val[x], tr.val[y]))
            if tr.op[a] == 'neg' and tr.op[tr.a[a]] == 'div':
                d = tr.a[a]
                y, x = tr.a[d], tr.b[d]
                sg = 1 if tr.val[x] > 0 else -1
                Z = self.get(x) * sg - (self.get(y) * sg) * R.I
                self.signs.append((self.get(x), sg))
                return self.angle_of(Z, k, tr.val[k], math.hypot(tr.val[x], tr.val[y]))
            Z = R.one + A * R.I
            return self.angle_of(Z, k, tr.val[k], math.hypot(1, tr.val[a]))
        if op in ('asin', 'acos'):
            return self.inv_trig(op, k, A, tr.val[k])
        if op in ('FS', 'FC'):
            F = self.fresnel(A)
            Fb = F.conj()
            if op == 'FC':
                return (F + Fb) * Fraction(1, 2)
            return (F - Fb) * R.I * Fraction(-1, 2)
        raise Unsupported('op ' + op)

    def same_arg(self, v, num):
        """an earlier arg atom with the same (or the conjugate) unit"""
        R = self.R
        U = None
        for w, d in self.angdefs.items():
            if w == v or d[0] != 'arg' or w not in self.ang:
                continue
            for sg in (1, -1):
                if abs(R.num[w] * sg - num) > 1e-9:
                    continue
                if U is None:
                    U = self.expi(R.v(v))
                W = self.expi(R.v(w))
                if eqpoly(U, W if sg > 0 else W.conj()):
                    return R.v(w) * sg
        return None

    def angle_of(self, Z, k, num, mod):
        if not Z.d:
            raise Unsupported('atan2(0,0)')
        for it in range(2):
            try:
                if k in self.angsame:
                    return self.angsame[k]
                p = self.polar_angle(Z, k, num, mod)
                v = max(p.vars())
                self.angdefs[v] = ('arg', Z)
                if self.unify:
                    q = self.same_arg(v, num)
                    if q is not None:
                        self.angsame[k] = q
                        return q
                return p
            except SubstNow:
                # the substitution changes earlier normal forms: forget them and recompute
                raise Recompute()
        raise Unsupported('polarise')


def eqpoly(A, B):
    if A.d == B.d:
        return True
    a, b = A.numeval(), B.numeval()
    if abs(a - b) > 1e-8 * (1 + abs(a)):
        return False
    try:
        return not (A - B).clear().d
    except TooBig:
        return False


class SubstNow(Exception):
    pass


class Recompute(Exception):
    pass


def run_norm(norm, fn):
    """evaluate fn(norm) handling restarts: substitutions found in one pass are installed in the next"""
    norm.reset()
    n = 0
    while True:
        n += 1
        if n > 150:
            raise Unsupported('too many restarts')
        try:
            return fn(norm)
        except Restart:
            norm.reset()
        except Recompute:
            # keep ring and subval, drop memo so that everything sees the substitution
            norm.forget()


_fr = {}


def fresnel_num(s):
    if s in _fr:
        return _fr[s]
    # numeric Fresnel integrals, independent implementation (series / adaptive quadrature)
    import numpy as np
    if s < 1.6:
        C = 0.0
        S = 0.0
        x = math.pi / 2
        t = s
        n = 0
        term = s
        # C = sum (-1)^n (pi/2)^{2n} s^{4n+1} / ((2n)!(4n+1))
        f = 1.0
        for n in range(0, 40):
            C += (-1) ** n * x ** (2 * n) * s ** (4 * n + 1) / (math.factorial(2 * n) * (4 * n + 1))
            S += (-1) ** n * x ** (2 * n + 1) * s ** (4 * n + 3) / (math.factorial(2 * n + 1) * (4 * n + 3))
        r = complex(C, S)
    else:
        from numpy.polynomial.legendre import leggauss
        xs, ws = leggauss(40)
        m = max(2, int(s * s) + 1)
        ed = np.linspace(0, s, m + 1)
        tot = 0j
        for i in range(m):
            h = (ed[i + 1] - ed[i]) / 2
            t = ed[i] + h * (xs + 1)
            tot += h * (ws @ np.exp(1j * math.pi / 2 * t * t))
        r = complex(tot)
    _fr[s] = r
    return r
