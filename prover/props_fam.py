"""P27: no word of a continuous-curvature family is overlooked."""
import math
import random
import core
import seeds
import vc
import zenc
from algebra import Poly
from fractions import Fraction
from dag import Norm, run_norm, Unsupported
from lin import Lin
from props_nest import P25

# kind (T turn, S straight), side and direction relative to the first, parameter: '' free, '=' that of the segment before,
# 'q' quarter turn up to the line of the centres, 'o' with the segment before once around
DUBW = {'T': 'TL+', 'TT': 'TL+ TR+', 'TTT': 'TL+ TR+ TL+', 'S': 'SL+', 'TeST': 'TL+ SL+ TL+', 'TiST': 'TL+ SL+ TR+'}
RSW = {'TcT': 'TL+ TR-', 'TcTcT': 'TL+ TR- TL+', 'TcTT': 'TL+ TR- TL-', 'TTcT': 'TL+ TR+ TL-', 'TTcTT': 'TL+ TR+ TL-= TR-',
       'TcTTcT': 'TL+ TR- TL-= TR+', 'TecST': 'TL+ SL- TL-', 'TicST': 'TL+ SL- TR-', 'TeScT': 'TL+ SL+ TL-', 'TiScT': 'TL+ SL+ TR-',
       'TecScT': 'TL+ SL- TL+', 'TicScT': 'TL+ SL- TR+', 'TeSTcT': 'TL+ SL+ TL+q TR-', 'TiSTcT': 'TL+ SL+ TR+q TL-', 'TcTeST': 'TL+ TR-q SL- TR-',
       'TcTiST': 'TL+ TR-q SL- TL-', 'TcTeSTcT': 'TL+ TR-q SL- TR-q TL+', 'TcTiSTcT': 'TL+ TR-q SL- TL-q TR+'}
DUBS = ['cc00', 'cc0pm', 'ccpm0', 'ccpmpm', 'cc00_b', 'cc0pm_b', 'ccpm0_b', 'ccpmpm_b']
RSS = ['cc00rs', 'hc00', 'hc0pm', 'hcpm0', 'hcpmpm']


def words(sp):
    b = sp.replace('_b', '')
    W = dict(DUBW)
    if sp in RSS:
        W.update(RSW)
    if b == 'ccpmpm':
        W['TTTT'] = 'TL+ TR+ TL+o TR+'
    st, en = b in ('ccpm0', 'ccpmpm', 'hcpm0', 'hcpmpm'), b in ('cc0pm', 'ccpmpm', 'hc0pm', 'hcpmpm')
    out = {}
    for nm, s in W.items():
        w = [(t[0], 1 if t[1] == 'L' else -1, 1 if t[2] == '+' else -1, t[3:]) for t in s.split()]
        if (st and w[0][0] == 'S') or (en and w[-1][0] == 'S'):
            continue
        seg = []
        for i, (k, s_, d, tie) in enumerate(w):
            t = 0
            if k == 'T':
                m = []
                for j, e in ((i - 1, st), (i + 1, en)):
                    if 0 <= j < len(w):
                        e = w[j][2] != d and b != 'cc00rs'   # at a cusp the hybrid spaces keep the maximum curvature
                    m.append(e)
                t = 1 + m[1] + 2 * m[0]
            seg.append((t + {'': 0, '=': 10, 'q': 20, 'o': 30}[tie], s_, d))
        out[nm] = seg
    return out


class P27(P25):
    pid = 'P27'
    n_quick = 2
    n_thorough = 25
    budget_quick = 240
    bounds = ('inputs: limits, start pose, turning angles and straight lengths of the word (free reals within the ranges in which the family contains the word); words: '
              'all of the families, both sides, both directions; classes: the expression classes visited by the concolic exploration')
    explain = ('The goal is the end of an explicit word with symbolic parameters, the query runs in the same symbolic execution; z3 decides that the '
               'outcomes of the library\'s comparisons imply that the distance is not longer than the word, after the length of the candidate '
               'the library found was shown equal to the word\'s length as a function of the inputs.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in DUBS + RSS:
            for nm, w in sorted(words(s).items()):
                for m in range(n * (4 if s in RSS else 3)):
                    r = random.Random('%s %s %d w%d' % (s, nm, seed, m))
                    K = seeds.lu(r, .3, 3)
                    G = K * K * math.exp(r.uniform(-1, 2.5))
                    p = [K, G, r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-3.1, 3.1), len(w)]
                    sd = 1 if m % 2 else -1
                    d = (1 if m % 4 < 2 else -1) if s in RSS else (-1 if s.endswith('_b') else 1)
                    sh = r.random() < .6                   # short words are the ones that are shortest
                    big = r.randrange(len(w))
                    for i, (t, s_, d_) in enumerate(w):
                        if t == 0:
                            x = r.uniform(0, 2.5 if sh else 6) / K
                        elif sh:
                            x = r.uniform(2, 5) if i == big and r.random() < .5 else r.uniform(0, .8)
                        else:
                            x = r.uniform(0, 3 if r.random() < .6 else 5)
                        p += [t, s_ * sd, d_ * d, x]
                    p = self.sanitize('word', s, p)
                    out.append(seeds.line('word-%s-%s-%d' % (s, nm, m), 'word', s, p))
        return out

    def sanitize(self, sc, sp, v):
        """the ranges in which the families contain the words"""
        v = list(v)
        K = v[0] = min(20., max(.05, abs(v[0])))
        n = int(v[5])
        T = [int(v[6 + 4 * i]) for i in range(n)]
        lo = .1                                            # smallest K^2 / G ... largest
        hi = 6.0
        if any(t >= 20 for t in T):
            hi = .7 if sp == 'cc00rs' or any(t >= 30 for t in T) else 2.8
        if any(10 <= t < 20 for t in T):
            hi = .45 if sp == 'cc00rs' else .9
        q = min(hi, max(.02, K * K / max(1e-9, abs(v[1]))))
        v[1] = K * K / q
        dm = q / 2
        for i in (2, 3):
            v[i] = min(50 / K, max(-50 / K, v[i]))
        for i in range(n):
            j = 9 + 4 * i
            if T[i] == 0:
                cus = sp == 'cc00rs' and n > 1
                v[j] = min(40 / K, max((2.2 * q if cus else .02) / K, abs(v[j])))
            else:
                a, b = .02, 6.0
                if i + 1 < n and 10 <= T[i + 1] < 20 and v[8 + 4 * i] != v[8 + 4 * (i + 1)]:   # C C | C C: the smaller angle
                    b = math.pi / 3 - (4 if sp == 'cc00rs' else 2) * dm
                    if abs(v[j]) > 1.6:                    # the outer circles far apart: the larger angle
                        a, b = 2.3, 3.4
                if i + 1 < n and T[i + 1] >= 30:
                    a, b = math.pi / 2, min(1.5 * math.pi - 6 * dm, 2 * math.pi - 8.2 * dm)
                v[j] = min(b, max(a, abs(v[j])))
        return v

    def oracle(self, sc, sp, v, outs, ints):
        K = v[0]
        d, l = outs['dist'], outs['len']
        m_ = max(abs(v[2]), abs(v[3])) * K
        return [('not longer than the word', (d - l) * K, 1e-5 * (1 + l * K) * (1 + 1e-3 * m_), 2e-3 + 4e-4 * K)]

    def confirm(self, bdir, line, name):
        return True

    def vcs(self, tr, line):
        import z3
        nm = 'not longer than the word'
        s, e = self.enc(tr, set())
        D, dv = tr.outs['dist']
        k, v = tr.outs['len']
        if not k or not math.isfinite(dv):
            return [(nm, 'unknown')]
        w = [float(x) for x in line.split()[3:]]
        K = w[0]
        off = [0.0]                                        # a turn by p may be driven the other way round, by 2 pi - p
        pv = 0.0
        for i in range(int(w[5])):
            t = int(w[6 + 4 * i])
            if t % 10:
                pv = w[9 + 4 * i] if t < 10 else pv if t < 20 else 0.0
                if pv > math.pi - 1e-9:
                    off += [x + 2 * (pv - math.pi) for x in off]
        d = e(D) if D else zenc.frac(dv)
        z = e(k)
        # lengths the space compared that are the word's length up to full turns
        c = []
        for p in tr.pc:
            if p[0] != 'm' and p[0] < 100:
                for q in p[1:3]:
                    if q and q not in c and tr.op[q] != 'const' and self.turns(v - tr.val[q], K, off):
                        c.append(q)
        if D and D not in c and tr.op[D] != 'const' and self.turns(v - dv, K, off):
            c.insert(0, D)
        c.sort(key=lambda q: abs(tr.val[q] - v) > 1e-7)
        res = 'unknown'
        for q in ([k] if k in c else []) + c[:6]:
            if q != k:
                try:
                    r = self.leq(tr, q, k)
                except Exception as ex:
                    self.note = type(ex).__name__ + ' ' + str(ex)[:60]
                    continue
                if r != 'unsat':
                    continue
                s.add(e(q) <= z)
            s.push()
            s.add(d > z)
            r = core.z3_check(s, 6000)
            s.pop()
            if r == 'unsat':
                res = r
                break
        return [(nm, res)]

    @staticmethod
    def turns(x, K, off):
        for o in off:
            t = (x * K - o) / (2 * math.pi)
            if t > -1e-7 and abs(t - round(t)) < 1e-7 and t < 3.5:
                return True
        return False

    def leq(self, tr, q, k):
        """is the length q never longer than the length k?  'unsat' when q > k is impossible for the word's parameter ranges"""
        import z3
        n = Norm(tr)
        n.unify = True
        A, B = run_norm(n, lambda n: (vc.val(n, (q, tr.val[q])), vc.val(n, (k, tr.val[k]))))
        R = n.R
        L = Lin(n)
        X = L.noint(A - B)
        if not X.d:
            return core.decide_sum_zero(n, [A, -B])
        ids = {nm: i for nm, i in self.inputs(n).items()}
        iK, iG = ids['K'], ids.get('G')
        pi_ = {i for nm, i in ids.items() if nm[0] == 'p' and nm[1:].isdigit()}
        X = X * R.v(iK)
        s = z3.Solver()
        Z = {}
        Q = z3.Real('q')                                   # K^2 / (pi G), angles in units of pi
        s.add(Q > 0, Q * z3.RealVal('3.1415926535') <= 6)
        tot = z3.RealVal(0)
        PI = z3.Real('pi')
        s.add(PI > z3.RealVal('3.141592653'), PI < z3.RealVal('3.141592654'))
        rest = {}
        w = []
        for m, co in X.d.items():
            ex = R.exps(m)
            x = {i: t for i, t in ex}
            if x.pop(1, 0) == 2 and not x:
                tot += z3.RealVal(str(Fraction(co)))
                continue
            x = {i: t for i, t in ex}
            if iG is not None and x == {iK: 2, iG: -1}:
                tot += Q * z3.RealVal(str(Fraction(co)))
                continue
            if len(x) == 1 and list(x.values()) == [1]:
                i = list(x)[0]
                if i in n.ang or i in pi_:
                    if i not in Z:
                        Z[i] = z3.Real('a%d' % i)
                        w.append(i)
                    tot += Z[i] * z3.RealVal(str(Fraction(co)))
                    continue
            rest[m] = co
        if rest:
            r = core.decide_sum_zero(n, [Poly(R, rest)])
            if r != 'unsat':
                return 'unknown'
        for i in [i for nm, i in ids.items() if nm[0] == 'p' and nm[1:].isdigit()]:
            Z.setdefault(i, z3.Real('a%d' % i))
            s.add(Z[i] >= 0)
        base = set(w)
        for cc, rhs, rel in L.facts(True):
            if not set(cc) & base:
                continue
            t = z3.RealVal(str(rhs))
            for i, c_ in cc.items():
                if i not in Z:
                    Z[i] = z3.Real('a%d' % i)
                if i not in w:
                    w.append(i)
                t += Z[i] * z3.RealVal(str(c_))
            s.add({'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[rel])
        for i in w:
            if i in pi_:
                continue
            r = L.range_of(i)
            if r is None:
                if i in base:
                    return 'unknown'
                continue
            lo, hi, lop, hop = r
            s.add(Z[i] > z3.RealVal(str(lo)) if lop else Z[i] >= z3.RealVal(str(lo)))
            s.add(Z[i] < z3.RealVal(str(hi)) if hop else Z[i] <= z3.RealVal(str(hi)))
            f = self.congruent(n, L, R, i, iK, iG, sorted(pi_))
            if f is None:
                continue
            cq, cp, cpi = f
            t = z3.RealVal(str(cpi)) + Q * z3.RealVal(str(cq))
            for j, cc in cp.items():
                t += Z[j] * cc
            s.add(Z[i] == t + 2 * z3.ToReal(z3.Int('n%d' % i)))
        s.add(tot > 0)
        return core.z3_check(s, 6000)

    @staticmethod
    def inputs(n):
        """{input name: variable}"""
        out = {}
        for i, nm in enumerate(n.R.names):
            if nm and nm.startswith('in:'):
                out[nm[3:]] = i
            elif nm:
                out.setdefault(nm, i)
        return out

    def congruent(self, n, L, R, i, iK, iG, ps):
        """atom = cq K^2/G + sum cp p + cpi pi modulo 2 pi, shown as an identity of units"""
        vi = float(R.num[i].real)
        q = float(R.num[iK].real) ** 2 / float(R.num[iG].real) if iG is not None else 0.0
        c = [({}, 0.0)]
        for j in ps:
            c += [({j: sg}, sg * float(R.num[j].real)) for sg in (1, -1)]
        for h in (0, 1, 2, -1, -2, 3, 4, -3, -4) if iG is not None else (0,):
            for cp, vp in c:
                t = (vi - vp - h * q / 2) / (math.pi / 2)
                if abs(t - round(t)) > 1e-8:
                    continue
                T = R.v(i) - R.v(iK, 2) * R.v(iG, -1) * Fraction(h, 2) if h else R.v(i)
                for j, sg in cp.items():
                    T = T - R.v(j) * sg
                try:
                    U = n.expi(T)
                except Unsupported:
                    continue
                if L.same_unit(U, [R.one, R.I, -R.one, -R.I][round(t) % 4]):
                    return Fraction(h, 2), cp, Fraction(round(t) % 4, 2)
        return None
