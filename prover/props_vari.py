"""P24: the steering variants agree with each other."""
import math
import random
import core
import seeds
import vc
import zenc
from dag import Norm, run_norm
from lin import Lin
from props_sym import Rel

FREE = ['hc', 'cc', 'cc_b']
PM = ['cc0pm', 'ccpm0', 'ccpmpm', 'cc0pm_b', 'ccpm0_b', 'ccpmpm_b', 'hc0pm', 'hcpm0', 'hcpmpm']


class P24(Rel):
    pid = 'P24'
    n_quick = 60
    n_thorough = 600
    sec_quick = 10
    bounds = ('inputs: limits and both states (free reals), end curvature zero, plus/minus the maximum or in between; classes: the expression classes (of all '
              'queries of a comparison together) visited by the concolic exploration; tolerance classes are held to the tolerance')
    explain = ('The free-curvature query and the queries of the fixed variants behind every initial and final clothoid (respectively the open-sign query and the '
               'queries with fixed signs) run in one symbolic execution; z3 decides that the distance is identically one of the alternatives and that '
               'the outcomes of the library\'s comparisons imply that no alternative is shorter.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in FREE + PM:
            for m in range(n):
                r = random.Random('%s %d v%d' % (s, seed, m))
                p = seeds.pair(r)
                K = p[0]
                e = [0, 0]
                for i, q in ((0, 5), (1, 10)):
                    k = r.random()
                    sg = r.choice([-1, 1])
                    if s in PM or k < .25:
                        e[i], p[q] = 1, 0.0
                    elif k < .5:
                        e[i], p[q] = 2, sg * K
                    else:
                        p[q] = sg * K * r.uniform(.02, .98)
                out.append(seeds.line('vari-%s-%d' % (s, m), 'vari', s, p + e))
        return out

    def fixed(self, sc, sp, vals=()):
        f = Rel.fixed(self, sc, sp, vals)
        if vals:
            f |= {q for q, e in ((5, 12), (10, 13)) if len(vals) > e and vals[e] != 0}
        return f

    def sanitize(self, sc, sp, v):
        v = Rel.sanitize(self, sc, sp, v)
        K = v[0]
        for q, e in ((5, 12), (10, 13)):
            if len(v) > e:
                if v[e] == 1:
                    v[q] = 0.0
                elif v[e] == 2:
                    v[q] = math.copysign(K, v[q])
                else:
                    v[q] = math.copysign(min(.98 * K, max(.02 * K, abs(v[q]))), v[q])
        return v

    def oracle(self, sc, sp, v, outs, ints):
        K = v[0]
        d = outs['dist']
        m_ = max(abs(x) for x in (v[2], v[3], v[7], v[8])) * K
        tol = 1e-6 * (1 + d * K) * (1 + 1e-3 * m_)
        td = 2e-2 + 4e-4 * K
        L = []
        S = []
        for i in range(ints['wn']):
            a, b, w = outs['a%d' % i], outs['b%d' % i], outs['v%d' % i]
            if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(w)):
                return [('no shorter alternative', 0.0, 1, 1)]
            S.append(a + w + b)
            L.append(a + w + b)
            if outs['e%d' % i] < 1e-3:
                L += [abs(a - b), a + b]
        return [('no shorter alternative', (d - min(S)) * K, tol, td), ('is an alternative', min(abs(x - d) for x in L) * K, tol, td)]

    def enc(self, tr, cutn):
        """solver with the outcomes of the comparisons, sums encoded, everything else opaque"""
        import z3
        s = z3.Solver()
        memo = {}

        def e(k):
            if k in memo:
                return memo[k]
            op = tr.op[k]
            if op == 'const':
                r = zenc.frac(tr.val[k])
            elif k in cutn or op not in ('add', 'sub', 'neg'):
                r = z3.Real('n%d' % k)
            else:
                a = e(tr.a[k])
                r = -a if op == 'neg' else (a + e(tr.b[k]) if op == 'add' else a - e(tr.b[k]))
            memo[k] = r
            return r

        REL = zenc.Enc.REL
        seen = set()
        for p in tr.pc:
            if p[0] == 'm' or p[0] >= 100 or not p[1] or not p[2] or p in seen:
                continue
            seen.add(p)
            pr = p[0] - 8 if p[0] > 8 else p[0]
            if pr in REL and tr.op[p[1]] != 'const' and tr.op[p[2]] != 'const':
                try:
                    c = REL[pr](e(p[1]), e(p[2]))
                except RecursionError:
                    continue
                s.add(c if p[3] else z3.Not(c))
        return s, e

    def vcs(self, tr, line):
        import z3
        n_ = tr.ints['wn']
        cutn = set()
        for i in range(n_):
            for x in 'vab':
                k = tr.outs['%s%d' % (x, i)][0]
                if k and tr.op[k] not in ('const', 'input'):
                    cutn.add(k)
        D = tr.outs['dist'][0]
        s, e = self.enc(tr, cutn)

        def outz(nm):
            i, v = tr.outs[nm]
            return e(i) if i else zenc.frac(v)
        d = e(D) if D else zenc.frac(tr.outs['dist'][1])
        alt = [outz('a%d' % i) + outz('v%d' % i) + outz('b%d' % i) for i in range(n_)]
        av = [sum(tr.outs[x + str(i)][1] for x in 'avb') for i in range(n_)]
        dv = tr.outs['dist'][1]
        res = []
        ok = False
        for i in range(n_):
            if abs(av[i] - dv) < 1e-8 * (1 + dv):
                s.push()
                s.add(d != alt[i])
                r = core.z3_check(s, 4000)
                s.pop()
                if r == 'unsat':
                    ok = True
                    break
        if not ok:
            # the alternatives are not syntactically the library's: compare as functions
            j = [i for i in range(n_) if abs(av[i] - dv) < 1e-8 * (1 + dv)]
            n = Norm(tr)
            n.unify = True

            def b(n):
                return vc.val(n, tr.outs['dist']), [(vc.val(n, tr.outs['a%d' % i]) + vc.val(n, tr.outs['v%d' % i]) + vc.val(n, tr.outs['b%d' % i])) for i in j]
            A, B = run_norm(n, b)
            Ln = Lin(n)
            f = Ln.facts()
            for x in B:
                X = Ln.noint(A - x)
                r = core.decide_sum_zero(n, [A, -x]) if not X.d else Ln.zero(X, f)
                if r == 'unsat':
                    ok = True
                    break
        res.append(('is an alternative', 'unsat' if ok else 'unknown'))
        for i in range(n_):
            s.push()
            s.add(d > alt[i])
            r = core.z3_check(s, 4000)
            s.pop()
            if r != 'unsat':
                res.append(('no shorter alternative', 'unknown'))
                break
        else:
            res.append(('no shorter alternative', 'unsat'))
        return res
