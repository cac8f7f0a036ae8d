"""P25: a space that permits more motions never answers with a longer path."""
import math
import random
import core
import seeds
import vc
import zenc
from dag import Norm, run_norm
from lin import Lin
from props_vari import P24

BIG = ['cc00rs', 'hc00']


class P25(P24):
    pid = 'P25'
    n_quick = 250
    n_thorough = 2500
    bounds = ('inputs: limits and both states (free reals), end curvature zero; classes: the expression classes (of the three '
              'queries together) visited by the concolic exploration; tolerance classes are held to the tolerance')
    explain = ('The query of the larger space and the forward and backward queries of the space it includes run in one symbolic execution; z3 decides that the '
               'outcomes of the library\'s comparisons imply that the larger space\'s distance is not the longer one.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in BIG:
            for m in range(n):
                r = random.Random('%s %d n%d' % (s, seed, m))
                p = seeds.pair(r)
                K = p[0]
                e = [1, 1]
                for i, q in ((0, 5), (1, 10)):
                    sg = r.choice([-1, 1])
                    p[q] = 0.0
                    if (s == 'hc0pm' and i == 1) or (s == 'hcpm0' and i == 0):
                        e[i], p[q] = 2, sg * K
                if m % 4:
                    # apart: the turns at both ends are joined by a straight piece
                    R = (4 / K if s == 'rs' else 5 * (1 / K + K / p[1])) * r.uniform(1, 3)
                    a = r.uniform(-math.pi, math.pi)
                    p[7], p[8] = p[2] + R * math.cos(a), p[3] + R * math.sin(a)
                out.append(seeds.line('nest-%s-%d' % (s, m), 'nest', s, p + e))
        return out

    def oracle(self, sc, sp, v, outs, ints):
        K = v[0]
        d = outs['dist']
        m_ = max(abs(x) for x in (v[2], v[3], v[7], v[8])) * K
        tol = 1e-6 * (1 + d * K) * (1 + 1e-3 * m_)
        td = 2e-2 + 4e-4 * K
        S = [outs['v%d' % i] for i in range(ints['wn'])]
        S = [x for x in S if math.isfinite(x)]
        if not S:
            return [('not longer', 0.0, 1, 1)]
        return [('not longer', (d - min(S)) * K, tol, td)]

    def vcs(self, tr, line):
        import z3
        n_ = tr.ints['wn']
        s, e = self.enc(tr, set())
        D = tr.outs['dist'][0]
        d = e(D) if D else zenc.frac(tr.outs['dist'][1])
        dv = tr.outs['dist'][1]
        res = 'unsat'
        nn = None
        for i in range(n_):
            k, v = tr.outs['v%d' % i]
            z = e(k) if k else zenc.frac(v)
            s.push()
            s.add(d > z)
            r = core.z3_check(s, 6000)
            s.pop()
            if r == 'unsat':
                continue
            # lengths the larger space compared that have the value of this one: the same function?
            if not k or not math.isfinite(v):
                res = 'unknown'
                break
            c = []
            for p in tr.pc:
                if p[0] != 'm' and p[0] < 100:
                    for q in p[1:3]:
                        if q and q != k and q not in c and tr.op[q] != 'const' and abs(tr.val[q] - v) < 1e-9 * (1 + abs(v)):
                            c.append(q)
            if D and D not in c and D != k and abs(tr.val[D] - v) < 1e-9 * (1 + abs(v)):
                c.insert(0, D)
            ok = False
            for q in c[:6]:
                try:
                    if self.same(tr, q, k) != 'unsat':
                        continue
                except Exception as ex:
                    self.note = str(ex)
                    continue
                s.add(e(q) == z)
                s.push()
                s.add(d > z)
                r = core.z3_check(s, 6000)
                s.pop()
                if r == 'unsat':
                    ok = True
                    break
            if not ok:
                res = 'unknown'
                break
        return [('not longer', res)]

    def same(self, tr, q, k):
        n = Norm(tr)
        n.unify = True
        A, B = run_norm(n, lambda n: (vc.val(n, (q, tr.val[q])), vc.val(n, (k, tr.val[k]))))
        L = Lin(n)
        X = L.noint(A - B)
        return core.decide_sum_zero(n, [A, -B]) if not X.d else L.zero(X, L.facts())
